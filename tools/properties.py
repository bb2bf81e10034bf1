import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["jinete/"+f for f in files],mechanism=[dict(name=n,where="jinete/"+w) for n,w in mech],observe_at=observe))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where="jinete/"+w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)
R="models/routes.py";S="models/stops.py";PT="models/planned_trips.py";T="models/trips.py";V="models/vehicles.py";SV="models/services.py"
INS="algorithms/heuristics/insertion/";LS="algorithms/heuristics/local_search/";META="algorithms/metaheuristics/"

p("C01","Every plan reported as feasible can be driven as reported",
 "Whenever any algorithm returns a planning that reports itself feasible, each of its routes can be physically driven by its vehicle with the reported times: travel times and service durations elapse, capacities are never exceeded or negative, pickups precede deliveries in the same route, and the time windows of places, the maximum ride times, the shift windows and the maximum shift duration all hold. An algorithm asked for feasible plans only never returns one that is reported as infeasible.",
 ["inputs","configurations","schedules"],
 "For every instance (trips, fleets, metrics), every algorithm configuration, every starting plan and every decision the randomized components may take.",
 "The tests solve a few random or fixed instances and look at a handful of totals; none of them recomputes the schedule independently, so a combination of windows, loads, waiting and edits that breaks the verdict passes unnoticed.",
 [R,S,PT,T,V,INS+"strategies/abc.py",LS+"strategies/routes/two_opt.py",LS+"strategies/routes/one_shift.py",LS+"strategies/plannings/reallocation.py"],
 [("verdicts of routes, stops and planned trips",R+":Route.feasible"),("arrival/departure recurrences",S),("ride time improvement",INS+"strategies/abc.py"),("local search acceptance",LS+"strategies")],
 ["Result.planning","Route.stops","Planning.feasible"])
p("C02","Times, loads and verdict of a route are exactly those of its visits",
 "For every route that can be put together from visits, the reported arrival, departure, waiting, transit and loaded values of every stop equal those of driving the visits in order as soon as possible from the chosen departure, and the route is reported feasible exactly when no limit is exceeded. This holds for every limit separately and for every combination of them, within the documented tolerance.",
 ["inputs"],
 "For every sequence of visits (grouped or not into shared stops), every trip shape, vehicle, departure delay and metric.",
 "Tests check one or two stops with the numbers of one instance; the verdict is a conjunction over a dozen limits, most of which no test ever makes the binding one.",
 [R,S,PT,T,V,SV],
 [("stop recurrences",S),("verdict of a planned trip",PT),("verdict of a route",R)],
 ["Stop.arrival_time","Stop.departure_time","Route.feasible"],
 [("previous links","each stop hangs from the one before it",S),("cached values","computed once, dropped when flushed",S)])
p("C03","Every planning an algorithm returns is well formed",
 "In every planning returned by an algorithm each trip is served at most once in the whole planning, every served trip has its pickup before its delivery in the same route, every route starts and ends at the places of its own vehicle, consecutive stops are linked to each other, and every vehicle belongs to the fleet and drives at most one route.",
 ["inputs","configurations","schedules"],
 "For every instance, algorithm configuration, starting plan and decision of the randomized components.",
 "The tests count trips or look at the objective of one run; structural damage (duplicated trips, dangling links, two routes for one vehicle) needs particular sequences of insertions, reversals and flips that no test performs.",
 [R,S,PT,"models/plannings.py","models/results.py",INS+"iterators/abc.py",LS+"strategies/plannings/reallocation.py"],
 [("route editing",R),("links between stops",S),("crossing of routes and trips",INS+"iterators/abc.py")],
 ["Result.planning","Planning.routes","Route.planned_trips"])
p("C04","Insertion leaves out no request that still fits",
 "When an insertion algorithm that admits every position stops, no request is left unserved that could still be added, at some pickup and delivery position, to one of the final routes or to an unused vehicle without making it infeasible. This also holds when it starts from a given plan that leaves vehicles unused.",
 ["inputs","configurations","schedules"],
 "For every instance with interchangeable vehicles, every insertion configuration with the complete position strategy, every starting plan and every random choice.",
 "Tests only require that runs end with a plan; whether anything more would have fitted needs the enumeration of every position in every route.",
 [INS+"iterators/abc.py",INS+"iterators/ranking.py",INS+"iterators/stateless.py",INS+"strategies/abc.py",INS+"strategies/intensive.py",INS+"algorithm.py"],
 [("attractive routes and pending trips",INS+"iterators/abc.py"),("neighbourhoods",INS+"iterators/abc.py"),("position enumeration",INS+"strategies/abc.py")],
 ["Result.planning","Result.coverage_rate"])
p("C05","Starting from a plan keeps its requests, and keeps it feasible",
 "When an algorithm is given a plan to start from, every request served by that plan is served by the plan it returns, and a plan that could be driven stays so: moving a request away is done only when its vehicle can drive the rest as it is. An improvement never trades a served request for a shorter route.",
 ["inputs","configurations","histories"],
 "For every instance, every feasible starting plan, every insertion, local search, sequential and iterative configuration and every random choice.",
 "The tests start local search from one constructed plan; loss of a request needs a specific relation between position, sampling and acceptance.",
 [INS+"iterators/abc.py",LS+"algorithm.py",LS+"strategies/plannings/reallocation.py",META+"sequential.py",META+"iterative.py"],
 [("conservation of planned trips",INS+"iterators/abc.py"),("removal followed by insertion",LS+"strategies/plannings/reallocation.py")],
 ["Result.planning.planned_trips"])
p("C06","Improving never worsens the objective, and repeating keeps the best",
 "A local search returns a plan whose objective is at least as good as the one it started from, a sequence of algorithms never answers worse than an earlier stage when its stages only improve, and an iterated algorithm answers the best plan of all its episodes. The search goes on exactly until the configured number of successive rounds without improvement.",
 ["inputs","configurations","schedules"],
 "For every instance, objective, starting plan, number of episodes, threshold and random choice.",
 "Tests compare a single run on one instance and never script the outcomes of the episodes or stages, so a wrong comparison direction or a lost best shows only by luck.",
 [LS+"algorithm.py",LS+"strategies/abc.py",META+"iterative.py",META+"grasp.py",META+"sequential.py","models/objectives.py"],
 [("comparison of results",'models/objectives.py:Objective.best'),("rounds without improvement",LS+"algorithm.py"),("best of the episodes",META+"iterative.py")],
 ["Result.optimization_value","Result.planning"])
p("C07","Running an algorithm changes nothing it was given",
 "Optimizing never changes the fleet, the job, the surface distances, the starting result or any of its routes: whatever was observable about them before is observable afterwards. A second run over the same objects behaves as the first one did.",
 ["inputs","configurations","histories"],
 "For every instance, algorithm configuration and starting plan, including algorithms run twice.",
 "Tests build fresh objects for each case and never compare the inputs before and after.",
 [LS+"algorithm.py",INS+"iterators/abc.py",META+"grasp.py",META+"iterative.py",R,"models/results.py"],
 [("copies taken before editing",R+":Route.clone"),("deep copy of the initial planning",LS+"algorithm.py")],
 ["Algorithm.optimize","Result.planning"])
p("C08","Insertion proposes exactly the feasible ways of adding a trip",
 "For any route and any trip, the position strategies propose exactly the ways of placing pickup and delivery that they promise (all of them, the sampled amount of them, or only at the end), each proposal is the old route plus that trip with correct times, and when only feasible ones are asked for none of the feasible ways is missing and none infeasible is offered. Proposing leaves the route itself and all the other proposals untouched.",
 ["inputs","schedules"],
 "For every base route, trip, fleet, position pair, feasibility mode and sampling decision.",
 "Tests count proposals for one route; identity of each proposal with its reference schedule and independence among proposals is never examined.",
 [INS+"strategies/abc.py",INS+"strategies/intensive.py",INS+"strategies/sampling.py",INS+"strategies/tail.py",R],
 [("enumeration of positions",INS+"strategies/intensive.py"),("building of a proposal",INS+"strategies/abc.py")],
 ["InsertionStrategy.compute"])
p("C09","The copy of a route is equal to it and independent of it",
 "Copying a route, wholly or from one stop onwards, gives a route with the same stops, trips, times, loads and verdicts. Whatever is then edited in either of them changes only that one.",
 ["inputs","histories"],
 "For every route, copy point and sequence of edits on the original or on the copy.",
 "Tests compare a copy with its original once, and never edit either afterwards while watching the other.",
 [R,S,PT],
 [("copying of a route",R+":Route.clone"),("relinking of the shared stops",S)],
 ["Route.clone"])
p("C10","Objective values are what the objectives mean, at every level",
 "The value of every objective on a result equals that on its planning, which equals the sum over its routes and, where defined, over their stops and trips, computed from the physical plan: requests served first and distance driven second for dial-a-ride, time spent by requests on board for taxi sharing, and ride lengths plus bonuses for picking up exactly at the earliest moment for the ride-sharing contest. Of several candidates, the one an objective prefers has the best value, and absent candidates are ignored.",
 ["inputs"],
 "For every plan over the bounded instances, every objective, level and pair or list of candidates.",
 "Tests check one value per objective on one tiny route, and not the agreement among levels, direction and selection.",
 ["models/objectives.py","models/results.py","models/plannings.py",R],
 [("values by level","models/objectives.py"),("selection of the best","models/objectives.py:Objective.best")],
 ["Objective.optimization_function","Result.optimization_value"])
p("C11","Insertion criteria score, sort and choose routes by what they stand for",
 "Each criterion scores a route by the quantity it names, computed from the physical schedule, and infeasible routes score worst. Sorting, choosing the best and choosing the several best of any collection agree with those scores, and a criterion never changes what it scores.",
 ["inputs"],
 "For every route of the bounded family, every criterion and every collection of up to a few routes in any order.",
 "Tests score single routes with hand-made numbers; they do not relate scores, order and selection over collections with ties and infeasible entries.",
 ["models/criterions.py",R],
 [("scoring","models/criterions.py"),("selection","models/criterions.py")],
 ["RouteCriterion.scoring","RouteCriterion.sorted","RouteCriterion.nbest"])
p("C12","Every insertion step takes one of the k best candidates, and can take each",
 "Every step of a greedy or randomized insertion serves one pending request with one of the k best feasible candidates among all pairs of a route and a pending request under the configured criterion, where k is the configured degree of randomization. Every one of those k candidates can be taken, and with k equal to one the outcome is that of the plain greedy rule.",
 ["inputs","configurations","schedules"],
 "For every instance, criterion, iterator, degree of randomization and every random choice at every step.",
 "Tests run with one seed and see one choice per step; neither the best set nor the reachability of its members is ever computed.",
 [INS+"iterators/ranking.py",INS+"iterators/stateless.py",INS+"iterators/abc.py","models/criterions.py"],
 [("ranking of candidates",INS+"iterators/ranking.py"),("restricted candidate list",INS+"iterators/ranking.py")],
 ["Algorithm.optimize"])
p("C13","The derived windows of a trip are exactly its serviceable times",
 "The earliest and latest times derived for a trip's pickup and delivery are exactly the bounds of the times at which each can take place given both places' windows, the service durations, the direct ride and the maximum ride time. A visit at a time inside them is possible for a vehicle that can be there, and one outside them is not.",
 ["inputs"],
 "For every combination of windows, durations, maximum ride times and places of the bounded alphabets.",
 "Tests use trips without windows or with one symmetrical pair of durations, so confusing pickup and delivery changes nothing they can see.",
 [T,SV],
 [("derived windows",T)],
 ["Trip.origin_earliest","Trip.origin_latest"])
p("C14","Loading an instance file gives exactly what the file says, or fails",
 "For any well-formed instance file of a supported format the loaded fleet, job, places, windows, loads, durations, bonus and objective are those written in the file, each identified consistently and each exactly once. A broken or truncated file is refused with an error instead of being loaded as something else, and a loader keeps answering one coherent instance.",
 ["inputs","fault_sequences","histories"],
 "For every small file over the alphabets of fields, every truncation or corruption of it at every token, and every history of requests and rewrites of the file.",
 "Tests load three sample files and check counts; field mix-ups between lines or columns that happen to have the same value are invisible, and faults are not tried.",
 ["loaders/file.py","loaders/abc.py","loaders/formatters/abc.py","loaders/formatters/cordeau_laporte.py","loaders/formatters/hashcode.py"],
 [("parsing of the lines","loaders/formatters"),("caching of the parts","loaders/file.py")],
 ["Loader.job","Loader.fleet"])
p("C15","What is written about a solution is the solution",
 "The text produced by each output format contains exactly the plan: every vehicle's visits in driving order with their times and loads, the served requests, the totals and the coverage. Reading the text back gives the same plan for every solution.",
 ["inputs"],
 "For every plan of the bounded instances (including empty ones, idle vehicles and shared stops), objective and output format.",
 "Tests check that text is produced for one solution, not that every number in it is the right one.",
 ["storers/formatters/abc.py","storers/formatters/columnar.py","storers/formatters/hashcode.py","models/results.py"],
 [("columns","storers/formatters/columnar.py"),("rides per vehicle","storers/formatters/hashcode.py")],
 ["StorerFormatter.format"])
p("C16","The pipeline loads, solves and stores in order, once, as configured",
 "Running the solver loads the instance, optimizes it and stores the result exactly once each and in that order, passing to every component the options the user gave for it and no others, and returns the very result that was stored. When a step fails, that failure reaches the user, no later step runs and nothing is left half written.",
 ["configurations","fault_sequences"],
 "For every combination of components and options, empty and non-empty instances, and a failure of every step at every point.",
 "Tests run a handful of combinations to completion with mocked parts and never inject failures at each step.",
 ["dispatchers/abc.py","dispatchers/static.py","solvers.py","storers/file.py","storers/abc.py","loaders/abc.py","algorithms/abc.py",META+"sequential.py"],
 [("construction and order of the parts","dispatchers/static.py"),("configuration","solvers.py")],
 ["Solver.solve"])
p("C17","The exact algorithm finds a shortest plan among all drivable ones",
 "For a homogeneous fleet, the plans the linear model admits are exactly the physically drivable plans that serve every request, and the answer of the exact algorithm is one with the minimum travelled time. When there is none, it fails explicitly instead of returning a plan.",
 ["inputs","fault_sequences"],
 "For every small instance of the bounded family and every admitted solution of its model, and every status the solver may end with.",
 "Tests solve one instance and look at its objective; wrong or missing constraints only show on instances where they bind, and only an enumeration of all admitted solutions shows them.",
 ["algorithms/exacts/milp.py","algorithms/exacts/models/abc.py","algorithms/exacts/models/three_index.py"],
 [("constraints and costs","algorithms/exacts/models/three_index.py"),("reading of the answer","algorithms/exacts/models/three_index.py")],
 ["Milp.optimize"])
p("C18","Solver noise never changes the plan read from the linear model",
 "Whatever numerical noise within the solver's tolerances its answer carries, the plan read from it is that of the exact integer answer and has the same verdict. Reading the plan never fails because of such noise.",
 ["inputs","fault_sequences"],
 "For every small instance, every admitted answer and every pattern of noise of the bounded family over its variables.",
 "Tests use whatever the installed solver returns, which is exactly integral on the tested instances.",
 ["algorithms/exacts/models/three_index.py"],
 [("reading of the answer and validation","algorithms/exacts/models/three_index.py")],
 ["Milp.optimize"])
p("C19","A seed reproduces a randomized run, and nothing else influences it",
 "Two runs of a randomized algorithm with the same instance, options and seed give the same plan, whatever ran before, whatever the process-wide generator was used for and in whichever process. Each seed given to a component is the one it is driven by, and different episodes or stages draw from different streams.",
 ["configurations","histories","schedules"],
 "For every randomized configuration, seed of the bounded set, preceding history and process.",
 "Tests run each configuration once; they never compare two runs nor look at which generator is used.",
 [META+"grasp.py",META+"iterative.py",INS+"iterators/ranking.py",INS+"strategies/sampling.py",LS+"algorithm.py",LS+"strategies/abc.py","utils/random.py"],
 [("seeded generators",META+"grasp.py")],
 ["Algorithm.optimize"])
p("C20","A local search stops only where no neighbour of its kind is better",
 "The plan a local search answers has no feasible neighbour of the kind it searches (reversing a segment of a route, flipping two consecutive visits of a route, moving requests among the vehicles) with a better objective. This holds from whichever feasible plan the search started.",
 ["inputs","configurations","histories"],
 "For every instance, objective, feasible starting plan and local search strategy of the bounded family.",
 "Tests check that the answer is not worse for one start; whether an improving neighbour was skipped needs the enumeration of all neighbours.",
 [LS+"strategies/routes/two_opt.py",LS+"strategies/routes/one_shift.py",LS+"strategies/plannings/reallocation.py",LS+"algorithm.py",LS+"strategies/abc.py"],
 [("segments reversed",LS+"strategies/routes/two_opt.py"),("visits flipped",LS+"strategies/routes/one_shift.py"),("requests moved",LS+"strategies/plannings/reallocation.py")],
 ["LocalSearchAlgorithm.optimize"])
p("C21","Sampling helpers return distinct, valid, reachable samples",
 "Sampling positions answers the requested number of distinct ordered pairs of valid positions (all of them when fewer exist), every possible sample can be drawn, and it always ends. Removing duplicates keeps the first of each in order, and the number of combinations is exact.",
 ["inputs","schedules"],
 "For every size, sample size and sequence of draws within the bounds, and every short list with repetitions.",
 "Tests draw a few samples with one seed.",
 ["utils/random.py","utils/collections.py"],
 [("sampling without replacement","utils/random.py")],
 ["sample_index_pairs","remove_duplicates"])
p("C22","Distances and times are those of the metric, whatever was asked before",
 "On every surface the distance and travel time between two places are those of its metric: non-negative, zero from a place to itself, symmetric and obeying the triangle inequality. The answer never depends on which places were created or asked about before, on this surface or another one.",
 ["inputs","histories"],
 "For every set of places of the bounded grid and every history of creating places and asking for distances and times on two surfaces.",
 "Tests ask for a few distances once on a fresh surface.",
 ["models/surfaces.py","models/positions.py","models/constants.py"],
 [("cache of distances","models/surfaces.py"),("metrics","models/constants.py")],
 ["Position.distance_to","Position.time_to"],
 [("distance cache","values already computed by pair of places","models/surfaces.py")])
p("C23","What a route reports depends on its stops only, not on its history",
 "After any sequence of insertions, removals, reversals, delays and questions, whatever a route reports (times, loads, verdicts, durations, trips) equals what a route freshly built with the same stops reports. Asking questions never changes later answers.",
 ["histories","inputs"],
 "For every sequence of editing operations and questions up to the depth bound from every start of the bounded family.",
 "Tests perform one edit on a fresh route; stale cached values need a question before an edit and another after it, in particular places.",
 [R,S,PT],
 [("invalidation of cached values",S+":Stop.flush"),("editing operations",R)],
 ["Route.feasible","Stop.arrival_time"],
 [("cached values","dropped by flush",S)])
p("C24","Every destination receives the whole solution, once, and failures show",
 "Each destination a solution is sent to (file, terminal, chart or any set of them) receives that very solution, complete and once, and in the given order. A failure of any destination or of the formatting reaches the user, and a failed formatting never destroys what was stored before.",
 ["configurations","fault_sequences","histories"],
 "For every combination and order of destinations, every solution of the bounded family and a failure at every step.",
 "Tests use one destination with a mocked file and no failure.",
 ["storers/abc.py","storers/file.py","storers/sets.py","storers/prompt.py","storers/plots/graph.py"],
 [("storing in several places","storers/sets.py"),("writing","storers/file.py")],
 ["Storer.store"])
p("C25","A deep copy of a solution is that solution with a life of its own",
 "A deep copy of a route, a collection of routes, a planning or a result reports exactly what the original reports, and edits of either one never show in the other. The copy then behaves under any further edit exactly as the original would.",
 ["inputs","histories"],
 "For every plan of the bounded family, copied object and sequence of edits on either side.",
 "Tests do not edit copies; sharing of stops or cached values between the two shows only after particular edits.",
 [R,"models/plannings.py","models/results.py",S,PT],
 [("deep copy",R+":Route.__deepcopy__")],
 ["copy.deepcopy"])
p("C26","Routes of any length are judged, edited and copied like short ones",
 "Nothing about a route (its times, verdict, objective, edits, copies, text) stops working or changes meaning because the route has many stops: the answers are those of the same visits driven in order, and no operation fails for its length. Every algorithm copes with a route serving hundreds of requests.",
 ["inputs","histories"],
 "For every pattern of the bounded family of long routes (hundreds of stops) and every short sequence of operations over them in every cache state.",
 "Tests use routes of a few stops, far from any limit of the language's stack.",
 [R,S,PT],
 [("iterative evaluation",S),("iterative copying",R+":Route.__deepcopy__")],
 ["Route.feasible","copy.deepcopy"])
p("C27","Equivalent problems get the same answers",
 "Moving, turning or mirroring the map, starting the clock later, changing the unit of times and distances or that of loads, renaming requests and vehicles, and adding a request that nobody can serve do not change what an algorithm answers: under the same decisions the same vehicles make the same visits, at the transformed times, with the transformed value. The exact algorithm keeps answering plans of the same value.",
 ["inputs","configurations","schedules"],
 "For every instance of the bounded family, every algorithm configuration and starting plan, every decision of the randomized ones, and every one of the transformations.",
 "Tests use places around the origin and times from zero, so constants, absolute values, defaults and signs that only matter elsewhere never show; a test has no expected answer for other instances, while the relation between two answers holds for all.",
 [R,S,PT,T,V,"models/surfaces.py",INS+"strategies/abc.py",INS+"iterators/abc.py","models/objectives.py"],
 [("schedule arithmetic",S),("insertion scores",INS+"strategies/abc.py"),("objectives","models/objectives.py"),("distances","models/constants.py")],
 ["Algorithm.optimize","Result.planning","Result.optimization_value"])
p("C28","Objects compare by what they hold and describe themselves as they are",
 "Services, places, trips, vehicles, stops and plans compare equal exactly when what they hold is equal (and then hash alike), can be compared with anything, and list every one of their attributes with the current value. Comparing, hashing, listing and printing never fail and never change what an object reports later.",
 ["inputs","histories"],
 "For every pair of services and places of the bounded grids, and every plan of the bounded family in every cache state.",
 "Tests compare a few random values; objects that collide, that are compared with something else, or whose listing lags behind an edit need particular values or orders.",
 [SV,"models/positions.py",T,V,S,R,PT,"models/plannings.py","models/results.py","models/jobs.py"],
 [("comparison of services",SV+":Service.__eq__"),("comparison of places","models/positions.py"),("listing","models/abc.py")],
 ["Service.__eq__","Position.__eq__","Model.__iter__"])
p("C29","Every job gets an answer",
 "Whatever the job and the fleet hold (no requests, no vehicles, vehicles that cannot work, requests that nobody can serve, extreme amounts), every algorithm ends, and answers a plan of that job for that fleet, which can be driven, valued and written; it leaves the requests nobody can serve unserved. The exact algorithm may say instead that it has no solution.",
 ["inputs","configurations","schedules"],
 "For every job of up to two requests out of a family of extreme ones, every fleet of a family of extreme ones, every configuration, and starts from nothing, from empty and from partial plans.",
 "Tests solve well-behaved instances; empty collections, zeros and infinities reach reductions, divisions, loops and indexing that only fail on them.",
 ["algorithms/abc.py",INS+"algorithm.py",INS+"iterators/abc.py",LS+"algorithm.py",META+"iterative.py",META+"grasp.py","algorithms/exacts/models/three_index.py","models/objectives.py"],
 [("insertion loop",INS+"algorithm.py"),("local search loop",LS+"algorithm.py"),("value of a plan","models/objectives.py"),("decoding the linear model","algorithms/exacts/models/three_index.py")],
 ["Algorithm.optimize","Result.optimization_value"])
p("C30","Plans follow the distances and times of their surface, whatever it is",
 "On any surface (whose way back may differ from the way there, whose travel times may differ from its distances, or may depend on the time of departure) times, distances, windows, verdicts, objectives, scores, insertions, local searches, the exact algorithm and the stored text are those that result from asking that surface for each leg, from where the vehicle is to where it goes, when it leaves.",
 ["inputs","configurations","histories"],
 "For every instance, route, configuration and history of a fraction of the families of the other properties, on surfaces with detours, slower and faster than far, with ways whose shortest is not the fastest, and time dependent ones.",
 "Tests use straight distances equal to times in both directions, on which swapped ends, a distance taken for a time, or a forgotten departure time make no difference.",
 ["models/surfaces.py","models/positions.py",S,R,T,SV,"models/objectives.py","models/criterions.py","algorithms/exacts/models/three_index.py"],
 [("legs of a route",S+":Stop.transit_time"),("distance of a leg",S+":Stop.distance"),("derived windows",T),("cost and times of the linear model","algorithms/exacts/models/three_index.py")],
 ["Surface.time","Surface.distance","Route.distance","Stop.arrival_time"])
p("C31","Objectives and criteria of the user's own are followed, in their direction",
 "A job with any additive objective (minimized or maximized, of several dimensions, defined at the level of trips, stops or routes, with arguments of its own) is solved for that objective: values add up at every level, repeating and improving keep the best in its direction, local searches stop only where no move of their kind is better, and results and texts tell its values and direction. Insertion takes the best candidates of any criterion, in its direction.",
 ["inputs","configurations","histories"],
 "For every instance, start, script of outcomes and configuration of a fraction of the families of the other properties, for 3 objectives and 2 criteria that the library does not have.",
 "Every objective of the library is maximized, and the tests use hardly more than one: what compares values on its own, or only one dimension of them, passes them all.",
 ["models/objectives.py","models/criterions.py","models/constants.py","models/jobs.py","models/results.py","algorithms/heuristics/local_search/strategies/plannings/reallocation.py","algorithms/heuristics/local_search/strategies/routes/two_opt.py","algorithms/heuristics/local_search/strategies/routes/one_shift.py","algorithms/metaheuristics/iterative.py"],
 [("best of some","models/objectives.py:Objective.best"),("arguments of the objective","models/jobs.py:Job.objective"),("best of a criterion","models/criterions.py:RouteCriterion.best")],
 ["Result.optimization_value","Result.direction","Result.planning"])
p("C32","Runs at the same time do not disturb one another",
 "Building, improving, copying, reading and solving in several threads, over the same instance, the same starting result or the same solver, gives each run the answer it gives alone, and leaves what they share as it was: no run keeps what it is doing where another one finds it.",
 ["schedules","instances","configurations"],
 "For every bounded instance, every pair of algorithms, observers and pipelines, and every line of the library before which the other run happens.",
 "Tests run one thing at a time; what two runs share by accident (a cache being filled, a default value, the state of a class) shows only when one happens in the middle of the other.",
 ["models/routes.py","models/plannings.py","models/results.py","models/objectives.py","models/surfaces.py","algorithms/heuristics/insertion/iterators/ranking.py","algorithms/heuristics/insertion/algorithms.py","algorithms/metaheuristics/iterative.py","solvers.py"],
 [("copy of a route","models/routes.py:Route.__deepcopy__"),("ranking of a run","algorithms/heuristics/insertion/iterators/ranking.py"),("kept objective","models/jobs.py:Job.objective")],
 ["Algorithm.optimize","Solver.solve","Route.__deepcopy__","Result.optimization_value"])
p("C33","Assertions decide nothing",
 "With the assertions of the interpreter turned off (python -O) every operation does and answers the same: what is invalid is refused with an error, what is done is done, and plans keep every guarantee.",
 ["inputs","configurations"],
 "For every instance, start, file and configuration of a fraction of the families of the other properties, without assertions; and every answer of the algorithms compared with and without them.",
 "Tests run with assertions: a check that is only an assertion, or an effect inside one, is gone where users turn them off.",
 ["models/routes.py","models/planned_trips.py","models/stops.py","loaders/formatters/cordeau_laporte.py","algorithms/heuristics/insertion/iterators/abc.py","models/positions.py"],
 [("validation of a file","loaders/formatters/cordeau_laporte.py"),("insertion into a route","models/routes.py:Route.append_planned_trip"),("requests left","algorithms/heuristics/insertion/iterators/abc.py")],
 ["Algorithm.optimize","FileLoader.job","Route.insert_stop"])
p("C34","Stops may perform several visits, also where a route starts and ends",
 "Routes whose stops pick up or deliver several requests, or whose first stop picks up and whose last stop delivers, are routes like any other: their times, loads, verdict and value are those of driving them, copies are the same route, requests can be removed from and added to them leaving exactly the other visits, and improving them loses no request and makes no plan worse or impossible.",
 ["inputs","histories","configurations"],
 "For every bounded plan, every way of gathering its visits in stops (ends included), both ways of building them, held or not, every sequence of removals, every insertion and 8 improvements.",
 "The library itself makes one stop for each visit, and so do the tests; users who gather visits, or load at the depot, get routes that no test has.",
 ["models/routes.py","models/stops.py","models/planned_trips.py","algorithms/heuristics/local_search/strategies/routes/one_shift.py","algorithms/heuristics/local_search/strategies/routes/two_opt.py","algorithms/heuristics/local_search/strategies/plannings/reallocation.py","algorithms/heuristics/insertion/strategies/abc.py"],
 [("removal of a request","models/routes.py:Route.remove_trip"),("copies","models/routes.py:RouteCloner"),("visits of a stop","models/stops.py:Stop")],
 ["Route.remove_trip","Route.clone","Route.append_planned_trip","Route.feasible","Algorithm.optimize"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
