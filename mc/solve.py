"""The solving configurations the checks run, as JSON-able data."""
from .env import jit

STRATEGIES = {
    "intensive": jit.IntensiveInsertionStrategy,
    "sampling": jit.SamplingInsertionStrategy,
    "tail": jit.TailInsertionStrategy,
}
ITERATORS = {
    "ranking": jit.RankingInsertionIterator,
    "best": jit.BestStatelessInsertionIterator,
    "stateless": jit.StatelessInsertionIterator,
}
CRITERIA = {
    "earliest": jit.EarliestLastDepartureTimeRouteCriterion,
    "average": jit.ShortestAveragePlannerTripDurationCriterion,
    "shortest": jit.ShortestTimeRouteCriterion,
    "longest": jit.LongestTimeRouteCriterion,
    "util": jit.LongestUtilTimeRouteCriterion,
    "hashcode": jit.HashCodeRouteCriterion,
}
SEARCHES = {
    "reallocation": jit.ReallocationLocalSearchStrategy,
    "one_shift": jit.OneShiftLocalSearchStrategy,
    "two_opt": jit.TwoOPTLocalSearchStrategy,
}


def insertion_kwargs(cfg):
    kwargs = {}
    if cfg.get("iterator"):
        kwargs["iterator_cls"] = ITERATORS[cfg["iterator"]]
    if cfg.get("strategy"):
        kwargs["strategy_cls"] = STRATEGIES[cfg["strategy"]]
    if cfg.get("criterion"):
        kwargs["criterion_cls"] = CRITERIA[cfg["criterion"]]
    for key in ("randomized_size", "neighborhood_max_size", "seed"):
        if key in cfg:
            kwargs[key] = cfg[key]
    return kwargs


def algorithm(built, cfg, initial=None):
    """The algorithm of a configuration, over a built instance (and from an initial result)."""
    base = dict(fleet=built.fleet, job=built.job)
    kind = cfg["algorithm"]
    if kind == "insertion":
        kwargs = dict(base, **insertion_kwargs(cfg))
        if initial is not None:
            kwargs["initial"] = initial
        return jit.InsertionAlgorithm(**kwargs)
    if kind == "search":
        kwargs = dict(base)
        if cfg.get("search"):
            kwargs["strategy_cls"] = SEARCHES[cfg["search"]]
        if "threshold" in cfg:
            kwargs["no_improvement_threshold"] = cfg["threshold"]
        return jit.LocalSearchAlgorithm(initial, **kwargs)
    if kind == "sequential":
        kwargs = dict(base)
        if cfg.get("search"):
            kwargs["strategy_cls"] = SEARCHES[cfg["search"]]
        return jit.SequentialAlgorithm(initial=initial, **kwargs)
    if kind == "stages":
        stages = []
        for name, sub in cfg["stages"]:
            if name == "insertion":
                stages.append((jit.InsertionAlgorithm, insertion_kwargs(sub)))
            else:
                stages.append((jit.LocalSearchAlgorithm, {"strategy_cls": SEARCHES[name]}))
        return jit.SequentialAlgorithm(initial=initial, algorithms_cls=stages, **base)
    if kind == "iterative":
        kwargs = dict(base, episodes=cfg.get("episodes", 2))
        if "restart_mode" in cfg:
            kwargs["restart_mode"] = cfg["restart_mode"]
        if cfg.get("inner") == "sequential":
            kwargs["algorithm_cls"] = jit.SequentialAlgorithm
            if initial is not None:
                kwargs["initial"] = initial
        else:
            kwargs.update(insertion_kwargs(cfg))
            if initial is not None:
                kwargs["initial"] = initial
        return jit.IterativeAlgorithm(**kwargs)
    if kind == "grasp":
        first = dict(cfg.get("first", {}))
        first_kwargs = insertion_kwargs(first)
        if "episodes" in first:
            first_kwargs["episodes"] = first["episodes"]
        search = {}
        if cfg.get("search"):
            search["strategy_cls"] = SEARCHES[cfg["search"]]
        return jit.GraspAlgorithm(first_solution_kwargs=first_kwargs, local_search_kwargs=search, **base)
    if kind == "milp":
        return jit.MilpAlgorithm(**base)
    if kind == "naive":
        return jit.NaiveAlgorithm(**base)
    raise KeyError(kind)


def label(cfg):
    if cfg["algorithm"] == "insertion":
        return "/".join(
            str(cfg.get(k, "default")) for k in ("algorithm", "iterator", "strategy", "criterion")
        )
    return "/".join(str(cfg[k]) for k in ("algorithm", "search", "inner") if k in cfg)


def ins(iterator="ranking", strategy="intensive", criterion="earliest", **kw):
    return dict(algorithm="insertion", iterator=iterator, strategy=strategy, criterion=criterion, **kw)


# Configurations that build a solution from nothing.
BUILD = [
    ins(),
    ins(strategy="sampling", criterion="shortest"),
    ins(strategy="tail", criterion="util"),
    ins(iterator="best", criterion="average"),
    ins(iterator="stateless"),
    ins(criterion="hashcode"),
    ins(criterion="longest", strategy="sampling"),
]
RANDOMIZED = [
    ins(randomized_size=2),
    ins(iterator="best", strategy="sampling", randomized_size=2),
]
META = [
    dict(algorithm="iterative", episodes=2),
    dict(algorithm="iterative", episodes=2, restart_mode=False),
    dict(algorithm="grasp", first=dict(episodes=1, randomized_size=2)),
    dict(algorithm="grasp", first=dict(episodes=1), search="two_opt"),
    dict(algorithm="grasp", first=dict(episodes=1), search="one_shift"),
]
# Configurations that start from a result.
IMPROVE = [
    dict(algorithm="search", search="reallocation"),
    dict(algorithm="search", search="one_shift"),
    dict(algorithm="search", search="two_opt"),
    dict(algorithm="sequential"),
    dict(algorithm="sequential", search="two_opt"),
    ins(),
    ins(iterator="best", strategy="tail"),
    dict(algorithm="stages", stages=[["two_opt", {}], ["one_shift", {}], ["reallocation", {}], ["insertion", {}]]),
]
