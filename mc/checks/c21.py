"""C21: the helpers that sample and count answer what they promise, whatever is drawn."""
import itertools
import math

from ..env import Rng, _RealRandom
from ..explore import explore

REQUIRED = ("all pairs", "sampled", "every draw", "no generator", "duplicates", "ncr", "reached")
BOUNDS = {
    "quick": "0-40 indexes x 0-200 pairs x 3 seeds; every draw (3 deviations) up to 7 indexes x 6 pairs; every list of up to 6 of 4 values",
    "thorough": "0-60 indexes; every draw (4 deviations) up to 8 indexes x 8 pairs; every list of up to 7 of 5 values",
}
CHUNK = 2


def cases(tier):
    top = 40 if tier == "quick" else 60
    for n in range(0, top + 1):
        yield dict(mode="seeds", n=n)
    for n in range(2, 8 if tier == "quick" else 9):
        for count in range(0, 7 if tier == "quick" else 9):
            yield dict(mode="draws", n=n, count=count, bound=3 if tier == "quick" else 4)
    for size in range(0, 7 if tier == "quick" else 8):
        yield dict(mode="duplicates", size=size, values=4 if tier == "quick" else 5)
    yield dict(mode="ncr")


def judge(ctx, n, count, pairs, **info):
    maximum = n * (n - 1) // 2
    pairs = list(pairs)
    ctx.expect(all(isinstance(p, tuple) and len(p) == 2 and 0 <= p[0] < p[1] < n for p in pairs), "not a pair of indexes", n=n, count=count, pairs=pairs, **info)
    ctx.expect(len(set(pairs)) == len(pairs), "a repeated pair", n=n, count=count, pairs=pairs, **info)
    if maximum <= count:
        ctx.expect(sorted(pairs) == list(itertools.combinations(range(n), 2)), "some pair is missing", n=n, count=count, pairs=pairs, **info)
        ctx.outcomes["all pairs"] += 1
    else:
        ctx.expect(len(pairs) == count, "wrong number of pairs", n=n, count=count, got=len(pairs), **info)
        ctx.outcomes["sampled"] += 1
    ctx.state(n, count, tuple(sorted(pairs)))
    ctx.step()
    return frozenset(pairs)


def run(case, ctx):
    from random import Random

    from jinete.utils import remove_duplicates, sample_index_pairs
    from jinete.utils import random as module

    ncr = getattr(module, "ncr", math.comb)  # an implementation detail: only judged where it exists

    if case["mode"] == "seeds":
        n = case["n"]
        counts = sorted({0, 1, 2, 3, 5, 10, 64, 127, 128, 129, 200, max(0, n * (n - 1) // 2 - 1), n * (n - 1) // 2, n * (n - 1) // 2 + 1})
        for count in counts:
            if n * (n - 1) // 2 > count and count > 0.999 * n * (n - 1) // 2 and n > 30:
                continue
            for seed in (0, 1, 56):
                first = judge(ctx, n, count, sample_index_pairs(n, count, Random(seed)), seed=seed)
                calls = Rng.global_calls
                second = frozenset(sample_index_pairs(n, count, Random(seed)))
                ctx.expect(first == second, "the same seed gives other pairs", n=n, count=count, seed=seed)
                ctx.expect(Rng.global_calls == calls, "the global generator is used", n=n, count=count)
            judge(ctx, n, count, sample_index_pairs(n, count))
            ctx.trace("no generator")
    elif case["mode"] == "draws":
        n, count = case["n"], case["count"]
        reached = set()

        def once(chooser):
            spare = _RealRandom(7)

            class Bounded(_RealRandom):
                """Answers what the explorer says for the first draws, and as any generator afterwards (so that it ends)."""

                def randint(self, a, b):
                    if len(chooser.trace) < 2 * count + 2:
                        return a + chooser.choose(b - a + 1, "randint")
                    return spare.randint(a, b)

                def randrange(self, a, b=None, step=1):
                    if b is None:
                        a, b = 0, a
                    return self.randint(a, b - 1)

                def sample(self, population, k, **kwargs):
                    pool, out = list(population), []
                    for _ in range(k):
                        out.append(pool.pop(self.randint(0, len(pool) - 1)))
                    return out

                def choice(self, seq):
                    return seq[self.randint(0, len(seq) - 1)]

                def shuffle(self, x):
                    for i in reversed(range(1, len(x))):
                        j = self.randint(0, i)
                        x[i], x[j] = x[j], x[i]

            return list(sample_index_pairs(n, count, Bounded(0)))

        executions = 0
        for _, pairs in explore(once, ctx, bound=case["bound"], cap=60000):
            executions += 1
            reached.add(judge(ctx, n, count, pairs))
            ctx.trace("every draw")
        if count == 1 and n <= 7:
            ctx.expect(len(reached) == n * (n - 1) // 2 or n == 2, "some pair can never be sampled", n=n, reached=len(reached))
            ctx.outcomes["reached"] += 1
    elif case["mode"] == "duplicates":
        for seq in itertools.product(range(case["values"]), repeat=case["size"]):
            given = list(seq)
            got = remove_duplicates(given)
            want = [x for i, x in enumerate(seq) if x not in seq[:i]]
            ctx.expect(list(got) == want and given == list(seq), "duplicates are not removed as they should", given=seq, got=got)
            ctx.state(seq)
            ctx.step()
            ctx.trace("duplicates")
    else:
        for n in range(0, 40):
            for r in range(0, n + 1):
                ctx.expect(ncr(n, r) == math.comb(n, r), "wrong number of combinations", n=n, r=r, got=ncr(n, r))
                ctx.state(n, r)
                ctx.step()
                ctx.trace("ncr")
