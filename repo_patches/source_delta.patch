From b7948eb9c284931b188596b3b804f03ea61f7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 01/34] fix: drop a stop's cached feasibility when it is
 flushed

Stop.flush() kept the cached "feasible" verdict, so a stop delayed after the
verdict was computed could keep reporting a time window it no longer meets.
---
 jinete/models/stops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index bb3833f..26da533 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -227,6 +227,7 @@ class Stop(Model):
             "arrival_time",
             "departure_time",
             "capacity",
+            "feasible",
         ):
             self.__dict__.pop(key, None)
         for planned_trip in self.planned_trips:
-- 
2.43.0


From bee3f82b439077801eba012ceb7bc95d6a10c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 02/34] fix: invalidate a route's feasibility when stops are
 inserted or removed

Route.feasible is cached, but insert_stop_at/remove_stop_at only flushed the
stops, so a route edited after being queried kept its old verdict.
insert_stop_at also returned the last stop of the route (shadowed loop
variable) instead of the inserted one.
---
 jinete/models/routes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 3f3dba2..f76c8b5 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,8 +251,9 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
-        for stop in self.stops[idx:]:
-            stop.flush()
+        self.__dict__.pop("feasible", None)
+        for following in self.stops[idx:]:
+            following.flush()
 
         return stop
 
@@ -265,6 +266,7 @@ class Route(Model):
 
         removed_stop = self.stops.pop(idx)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
         return removed_stop
-- 
2.43.0


From cd58cdafa0bf1bc8d79ba8bb096ee0a6a005cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 03/34] fix: keep the other trips of a stop when removing one
 of its trips

Route.remove_trip dropped whole stops, so the pickup or the delivery of any
other trip served at the same stop disappeared with it.
---
 jinete/models/routes.py | 14 +++++++++-----
 jinete/models/stops.py  |  7 +++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index f76c8b5..e783fa9 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -286,15 +286,19 @@ class Route(Model):
 
     def remove_trip(self, trip: Trip) -> None:
 
-        old_len = len(self.stops)
-
         for i in reversed(range(len(self.stops))):
             stop = self.stops[i]
             if trip not in stop.trips:
                 continue
-            self.remove_stop_at(i)
-
-        assert old_len - 2 == len(self.stops)
+            stop.remove_trip(trip)
+            if any(stop.planned_trips):
+                self.__dict__.pop("feasible", None)
+                for following in self.stops[i:]:
+                    following.flush()
+            else:
+                self.remove_stop_at(i)
+
+        assert trip not in self.trips
         assert all(s1 == s2.previous for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
         assert all(s1.departure_time <= s2.arrival_time for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
 
diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index 26da533..d0f68a0 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -32,6 +32,7 @@ if TYPE_CHECKING:
     )
     from .positions import Position
     from .planned_trips import PlannedTrip
+    from .trips import Trip
     from .vehicles import Vehicle
 
 logger = logging.getLogger(__name__)
@@ -127,6 +128,12 @@ class Stop(Model):
         assert planned_trip.destination == self.position
         self.delivery_planned_trips.add(planned_trip)
 
+    def remove_trip(self, trip: Trip) -> None:
+        for planned_trips in (self.pickup_planned_trips, self.delivery_planned_trips):
+            for planned_trip in tuple(planned_trips):
+                if planned_trip.trip == trip:
+                    planned_trips.remove(planned_trip)
+
     @cached_property
     def feasible(self) -> bool:
         if not self.earliest <= self.starting_time + ERROR_BOUND:
-- 
2.43.0


From fc2094e6a1ea602819072c35be538c538802c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 04/34] fix: delay the departure from the depot by the waiting
 time of the first stop

The departure was set to the waiting time itself (not delayed by it), the stops
after the first one kept their old schedule cached, and the depot stop could
still be shared with the route the candidate was cloned from.
---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 1d5b068..b56927e 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -68,9 +68,10 @@ class InsertionStrategy(object):
         return route
 
     def _improve_ride_times(self, route: Route, idx: int) -> None:
-        if route.stops[1].waiting_time != 0:
-            route.stops[0].starting_time = route.stops[1].waiting_time
-            route.stops[0].flush(), route.stops[1].flush()
+        # The first leg only changes (and its stops are only owned by this route) when it was cloned from the start.
+        if idx == 0 and route.stops[1].waiting_time > 0:
+            route.stops[0].starting_time += route.stops[1].waiting_time
+            route.flush()
 
         if route.feasible:
             return
-- 
2.43.0


From 2a0394ddbc6b8a8a046e92ae1499f508cfcb942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 05/34] fix: keep only the best improvement of each route in
 TwoOPT

Every improved version of a route was added to the resulting planning, which
then contained several routes for the same vehicle serving the same trips.
---
 .../heuristics/local_search/strategies/routes/two_opt.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index 8a73514..79a05ab 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -18,6 +18,7 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
         overwritten_routes = set()
         for route in self._routes:
             logger.info(f'Improving route performed with vehicle identified by "{route.vehicle_identifier}"...')
+            best_route = None
             cost = self._objective.optimization_function(route)
 
             for i, k in combinations(range(1, len(route.stops) - 1), 2):
@@ -53,7 +54,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                     continue
 
                 logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{cost}"')
-                overwritten_routes.add(new_route)
+                best_route = new_route
                 cost = new_cost
 
+            if best_route is not None:
+                overwritten_routes.add(best_route)
+
         self._update_routes(overwritten_routes)
-- 
2.43.0


From 4ddbf49ec66accddea5fd682614fc442abb061e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 06/34] fix: reevaluate the whole route after flipping two of
 its stops

OneShift only flushed the stops from the second flipped one on and never the
route itself, so a flip was judged with the feasibility of the previous order.
The last flip also exchanged a service with the final depot.
---
 .../heuristics/local_search/strategies/routes/one_shift.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
index 67ed11e..4feab57 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
@@ -17,12 +17,12 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         for route in self._routes:
             cost = self._objective.optimization_function(route)
 
-            for i in range(1, len(route.stops) - 1):
+            for i in range(1, len(route.stops) - 2):
                 j = i + 1
                 k = i + 2
                 first = route.stops[i]
                 second = route.stops[j]
-                third = route.stops[k] if k < len(route.stops) else None
+                third = route.stops[k]
 
                 if not set(first.pickup_planned_trips).isdisjoint(second.delivery_planned_trips):
                     continue
@@ -48,5 +48,4 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         other.previous = previous.previous
         previous.previous = other
 
-        for stop in route.stops[self_index:]:
-            stop.flush()
+        route.flush()
-- 
2.43.0


From 5d95b50977a063dbc725ceea955159ab70cf38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 07/34] fix: insert on the current routes and keep opening
 empty vehicles

The cached set of attractive routes kept the routes as they were before each
insertion, so stateless iterators inserted on outdated routes, dropping the
trips already planned on them, and no empty vehicle was ever opened when
starting from routes with trips.
---
 .../heuristics/insertion/iterators/abc.py          | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index bbad14f..8d2abde 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -77,7 +77,6 @@ class InsertionIterator(ABC):
         self.fleet = fleet
         self.job = job
         self.routes_container = {route.vehicle: route for route in routes}
-        self.__attractive_routes = None
         self.pending_trips = pending_trips
 
         self.strategy_cls = strategy_cls
@@ -92,14 +91,11 @@ class InsertionIterator(ABC):
 
     @property
     def _attractive_routes(self) -> Set[Route]:
-        if self.__attractive_routes is None:
-            self.__attractive_routes = set(route for route in self._routes if any(route.planned_trips))
-
-        if not any(any(route.planned_trips) for route in self.__attractive_routes):
-            empty_route = next((route for route in self._routes if not any(route.planned_trips)), None)
-            if empty_route is not None:
-                self.__attractive_routes.add(empty_route)
-        return self.__attractive_routes
+        routes = set(route for route in self.routes_container.values() if any(route.planned_trips))
+        empty_route = next((route for route in self.routes_container.values() if not any(route.planned_trips)), None)
+        if empty_route is not None:
+            routes.add(empty_route)
+        return routes
 
     def _set_route(self, route: Route) -> None:
         vehicle = route.vehicle
-- 
2.43.0


From fbac9851a4075da1c483dd14a66a1e2584a5d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 08/34] fix: pass the candidates of the best stateless iterator
 as one iterable

RouteCriterion.nbest takes an iterable of routes, so iterating over a
BestStatelessInsertionIterator always raised a TypeError.
---
 jinete/algorithms/heuristics/insertion/iterators/stateless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/stateless.py b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
index e0a5c4e..385ff35 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/stateless.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
@@ -55,7 +55,7 @@ class BestStatelessInsertionIterator(StatelessInsertionIterator):
         self.random = Random(seed)
 
     def __next__(self) -> Route:
-        candidates = self._criterion.nbest(self.randomized_size, *self.iterator)
+        candidates = self._criterion.nbest(self.randomized_size, self.iterator)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From cea12cd536d20abebab89a89615eca491d8f610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 09/34] fix: choose among the best candidates of all the
 rankings

Once a candidate of a ranking replaced the worst selected one, the following
candidates of that ranking were compared with the replacement instead of with
the worst selected one, so better candidates were left out.
---
 .../heuristics/insertion/iterators/ranking.py | 22 ++++---------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/ranking.py b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
index d8845ae..14002c5 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/ranking.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
@@ -78,24 +78,10 @@ class RankingInsertionIterator(InsertionIterator):
         if not any(self.ranking):
             raise StopIteration
 
-        candidates = list()
-        for sub_ranking in self.ranking.values():
-            if not any(sub_ranking):
-                continue
-
-            for current in sub_ranking:
-                if (
-                    len(candidates) == self.randomized_size
-                    and self._criterion.best(candidates[-1], current) == candidates[-1]
-                ):
-                    break
-
-                if self.randomized_size <= len(candidates):
-                    candidates.pop()
-
-                candidates.append(current)
-
-            self._criterion.sorted(candidates, inplace=True)
+        candidates = self._criterion.nbest(
+            self.randomized_size,
+            it.chain.from_iterable(sub_ranking[: self.randomized_size] for sub_ranking in self.ranking.values()),
+        )
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From 42764b4a1a614bad20c77ca96bb66ad0f4b626d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 10/34] fix: report plannings without routes as feasible

Planning.feasible reduced an empty sequence without an initial value, so the
results of NaiveAlgorithm (or of an empty fleet) raised a TypeError.
---
 jinete/models/plannings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/plannings.py b/jinete/models/plannings.py
index d489f89..df171ff 100644
--- a/jinete/models/plannings.py
+++ b/jinete/models/plannings.py
@@ -74,7 +74,7 @@ class Planning(Model):
 
     @property
     def feasible(self) -> bool:
-        return reduce(and_, (route.feasible for route in self.routes))
+        return reduce(and_, (route.feasible for route in self.routes), True)
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
         yield from (("uuid", self.uuid), ("route_identifiers", tuple(route.identifier for route in self.routes)))
-- 
2.43.0


From 0861832567333d4e180453d7a5bdaf052df839b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 11/34] fix: use the vehicles without a route when starting
 from a given result

The insertion only considered the routes of the initial result, so vehicles
that had no route on it stayed idle even with trips pending to be served.
---
 jinete/algorithms/heuristics/insertion/iterators/abc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index 8d2abde..058e665 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -73,6 +73,8 @@ class InsertionIterator(ABC):
             routes = deepcopy(routes)
             for route in routes:
                 pending_trips -= set(route.trips)
+            unused_vehicles = set(fleet.vehicles) - set(route.vehicle for route in routes)
+            routes = set(routes) | set(Route(vehicle) for vehicle in unused_vehicles)
 
         self.fleet = fleet
         self.job = job
-- 
2.43.0


From 4277220ace879169e229be2c356c3d8868bf7edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 12/34] fix: derive the pickup window from the pickup's own
 duration

The ride starts once the pickup has been performed, so the window the delivery
imposes on the pickup depends on the duration of the pickup, not on the one of
the delivery. Feasible pickup times were rejected when they differ.
---
 jinete/models/trips.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/models/trips.py b/jinete/models/trips.py
index 05ae73c..df307a5 100644
--- a/jinete/models/trips.py
+++ b/jinete/models/trips.py
@@ -117,12 +117,12 @@ class Trip(Model):
 
     @property
     def origin_earliest(self) -> float:
-        return max(self.destination.earliest - self.destination.duration - self.timeout, self.origin.earliest,)
+        return max(self.destination.earliest - self.origin.duration - self.timeout, self.origin.earliest,)
 
     @property
     def origin_latest(self) -> float:
         return min(
-            self.destination.latest - self.destination.duration - self.origin.time_to(self.destination),
+            self.destination.latest - self.origin.duration - self.origin.time_to(self.destination),
             self.origin.latest,
         )
 
-- 
2.43.0


From 047777d7092ebc6b873060f2d44aaf68d6faff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 13/34] fix: load the time window of the depot of
 Cordeau-Laporte instances

---
 jinete/loaders/formatters/cordeau_laporte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/loaders/formatters/cordeau_laporte.py b/jinete/loaders/formatters/cordeau_laporte.py
index 8876498..6b9062d 100644
--- a/jinete/loaders/formatters/cordeau_laporte.py
+++ b/jinete/loaders/formatters/cordeau_laporte.py
@@ -46,7 +46,7 @@ class CordeauLaporteLoaderFormatter(LoaderFormatter):
         depot_row = self.data[1]
         depot_position = surface.get_or_create_position(depot_row[1:3])
 
-        origin = Service(depot_position)
+        origin = Service(depot_position, earliest=depot_row[5], latest=depot_row[6])
 
         capacity = row[3]
         timeout = row[2]
-- 
2.43.0


From 177d64d79a98cf88d11115beb798d03503c5b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 14/34] fix: apply the latest finish of HashCode rides to their
 destination

The sixth column of a ride is its latest finish, but it was loaded as the
latest start, so late rides were accepted as if they were completed in time.
---
 jinete/loaders/formatters/hashcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/loaders/formatters/hashcode.py b/jinete/loaders/formatters/hashcode.py
index ee20fb9..56eec81 100644
--- a/jinete/loaders/formatters/hashcode.py
+++ b/jinete/loaders/formatters/hashcode.py
@@ -70,8 +70,8 @@ class HashCodeLoaderFormatter(LoaderFormatter):
         earliest: float,
         latest: float,
     ) -> Trip:
-        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest, latest=latest,)
-        destination = Service(position=surface.get_or_create_position([x2, y2]),)
+        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest,)
+        destination = Service(position=surface.get_or_create_position([x2, y2]), latest=latest,)
         trip = Trip(identifier, on_time_bonus=bonus, origin=origin, destination=destination)
         logger.debug("Created trip!")
         return trip
-- 
2.43.0


From 36a4946c7f33e3cc4c5417f956dc6728d49c98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 15/34] fix: format the solution before opening the file to
 store it

A failure while formatting left the previously stored solution truncated.
---
 jinete/storers/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/storers/file.py b/jinete/storers/file.py
index fbf1151..fd8d405 100644
--- a/jinete/storers/file.py
+++ b/jinete/storers/file.py
@@ -24,6 +24,6 @@ class FileStorer(Storer):
 
     def store(self) -> None:
         """Perform a storage process."""
+        text = self._formatted
         with self.file_path.open("w") as file:
-            text = self._formatted
             file.write(text)
-- 
2.43.0


From 4d81fdc6847e2cf98ac3f39d8e962a7ab6d362c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 16/34] fix: report full coverage for jobs without trips

The coverage rate (and so storing the result) raised a ZeroDivisionError.
---
 jinete/models/results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/results.py b/jinete/models/results.py
index 79fdd8d..131890b 100644
--- a/jinete/models/results.py
+++ b/jinete/models/results.py
@@ -78,6 +78,8 @@ class Result(Model):
 
     @property
     def coverage_rate(self):
+        if not any(self.job.trips):
+            return 1.0
         return len(self.completed_trips) / len(self.job.trips)
 
     @property
-- 
2.43.0


From 6b41b7aec729cfb59e92556855a1e519715fc49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 17/34] fix: apply the given local search strategy on the
 sequential algorithm

A LocalSearchStrategy given as "strategy_cls" (as the TwoOPT example does) was
replaced by Reallocation on the local search and then used to insert trips,
which raised a TypeError.
---
 jinete/algorithms/metaheuristics/sequential.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jinete/algorithms/metaheuristics/sequential.py b/jinete/algorithms/metaheuristics/sequential.py
index 61b250d..c3ac9ba 100644
--- a/jinete/algorithms/metaheuristics/sequential.py
+++ b/jinete/algorithms/metaheuristics/sequential.py
@@ -62,12 +62,20 @@ class SequentialAlgorithm(Algorithm):
             from ..heuristics import (
                 InsertionAlgorithm,
                 LocalSearchAlgorithm,
+                LocalSearchStrategy,
                 ReallocationLocalSearchStrategy,
             )
 
+            local_search_kwargs = {**kwargs, "strategy_cls": ReallocationLocalSearchStrategy}
+            insertion_kwargs = kwargs.copy()
+
+            strategy_cls = kwargs.get("strategy_cls", None)
+            if isinstance(strategy_cls, type) and issubclass(strategy_cls, LocalSearchStrategy):
+                local_search_kwargs["strategy_cls"] = insertion_kwargs.pop("strategy_cls")
+
             algorithms_cls = [
-                (LocalSearchAlgorithm, {**kwargs, "strategy_cls": ReallocationLocalSearchStrategy}),
-                (InsertionAlgorithm, kwargs),
+                (LocalSearchAlgorithm, local_search_kwargs),
+                (InsertionAlgorithm, insertion_kwargs),
             ]
 
         self.random = Random(seed)
-- 
2.43.0


From 0ad2a0e35ea3ea045801b7a17fb6b6db73604c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 18/34] fix: apply the seed of the GRASP algorithm

The seed was stored but never handed over to the algorithms it is built on,
which always used the default one.
---
 jinete/algorithms/metaheuristics/grasp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/metaheuristics/grasp.py b/jinete/algorithms/metaheuristics/grasp.py
index 2471a85..e141898 100644
--- a/jinete/algorithms/metaheuristics/grasp.py
+++ b/jinete/algorithms/metaheuristics/grasp.py
@@ -13,6 +13,7 @@ from typing import (
 )
 
 from ...models import (
+    MAX_INT,
     Planning,
 )
 from ..abc import (
@@ -99,6 +100,7 @@ class GraspAlgorithm(Algorithm):
         algorithm = IterativeAlgorithm(
             algorithm_cls=SequentialAlgorithm,
             algorithms_cls=[self._build_first_solution_algorithm(), self._build_local_search_algorithm()],
+            seed=self.random.randint(0, MAX_INT),
             *self.args,
             **self.kwargs
         )
-- 
2.43.0


From c7265144e0736f3ba05e184285ee8da96a683e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 19/34] fix: seed the sampling of the reallocation local search

Routes with many stops were explored with pairs drawn from the global random
generator, so the seed of the algorithms did not determine their results.
---
 jinete/algorithms/heuristics/local_search/algorithm.py   | 9 ++++++++-
 .../algorithms/heuristics/local_search/strategies/abc.py | 6 +++++-
 .../local_search/strategies/plannings/reallocation.py    | 2 +-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/algorithm.py b/jinete/algorithms/heuristics/local_search/algorithm.py
index 911d36c..c81af18 100644
--- a/jinete/algorithms/heuristics/local_search/algorithm.py
+++ b/jinete/algorithms/heuristics/local_search/algorithm.py
@@ -3,11 +3,15 @@ from __future__ import (
 )
 
 import logging
+from random import (
+    Random,
+)
 from typing import (
     TYPE_CHECKING,
 )
 
 from ....models import (
+    MAX_INT,
     Planning,
 )
 from ...abc import (
@@ -34,6 +38,7 @@ class LocalSearchAlgorithm(Algorithm):
         initial: Result,
         no_improvement_threshold: int = 1,
         strategy_cls: LocalSearchStrategy = None,
+        seed: int = 56,
         *args,
         **kwargs
     ):
@@ -41,6 +46,8 @@ class LocalSearchAlgorithm(Algorithm):
         if strategy_cls is None:
             strategy_cls = ReallocationLocalSearchStrategy
 
+        self.random = Random(seed)
+
         self.initial = initial
         self.args = args
         self.kwargs = kwargs
@@ -62,7 +69,7 @@ class LocalSearchAlgorithm(Algorithm):
         while no_improvement_count < self.no_improvement_threshold:
             no_improvement_count += 1
 
-            current = self.strategy_cls(best).improve()
+            current = self.strategy_cls(best, seed=self.random.randint(0, MAX_INT)).improve()
             best = self._objective.best(best, current)
 
             if best == current:
diff --git a/jinete/algorithms/heuristics/local_search/strategies/abc.py b/jinete/algorithms/heuristics/local_search/strategies/abc.py
index fd4792e..dc54533 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/abc.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/abc.py
@@ -9,6 +9,9 @@ from abc import (
 from copy import (
     deepcopy,
 )
+from random import (
+    Random,
+)
 from typing import (
     TYPE_CHECKING,
 )
@@ -19,11 +22,12 @@ if TYPE_CHECKING:
 
 
 class LocalSearchStrategy(ABC):
-    def __init__(self, result: Result, with_copy: bool = True):
+    def __init__(self, result: Result, with_copy: bool = True, seed: int = 56):
         if with_copy:
             result = deepcopy(result)
 
         self.result = result
+        self.random = Random(seed)
 
     @property
     def _objective(self) -> Objective:
diff --git a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
index feb0598..03e0705 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
@@ -37,7 +37,7 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
 
                 partial_cost_origin = partial_cost + self._objective.optimization_function(new_origin)[-1]
 
-                for i, j in sample_index_pairs(len(destination.stops), 128):
+                for i, j in sample_index_pairs(len(destination.stops), 128, self.random):
                     destinations = strategy.compute(destination, trip, i, j)
                     if not any(destinations):
                         continue
-- 
2.43.0


From 748af62f8926977003b5d5f50a6886bc7f3c4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 20/34] fix: identify the visits of the linear model by their
 index

The solution of the model was read (and its windows, costs and load times were
set) by comparing positions, so trips sharing a position with other trips or
with the depot got the windows and times of other visits, lost stops and could
not be cast back to routes. Vehicles were also charged for staying at the depot,
deliveries took the load time of their pickup, and visits connected in no time
could be solved as cycles apart from the routes.
---
 .../algorithms/exacts/models/three_index.py   | 140 ++++++++----------
 1 file changed, 58 insertions(+), 82 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index a558f83..c486370 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -5,9 +5,6 @@ from __future__ import (
 )
 
 import logging
-from collections import (
-    defaultdict,
-)
 from itertools import (
     product,
 )
@@ -36,7 +33,6 @@ if TYPE_CHECKING:
         Tuple,
         Iterable,
         Optional,
-        Dict,
     )
     from jinete.models import (
         Trip,
@@ -86,6 +82,7 @@ class ThreeIndexLinearModel(LinearModel):
                 self._uniqueness_constraints,
                 self._connectivity_constraints,
                 self._time_constraints,
+                self._order_constraints,
                 self._feasibility_constraints,
             ],
             [],
@@ -151,10 +148,10 @@ class ThreeIndexLinearModel(LinearModel):
     @cached_property
     def _costs(self):
         costs = list()
-        for origin in self._positions:
+        for i, origin in enumerate(self._positions):
             origin_costs = list()
-            for destination in self._positions:
-                if origin == destination:
+            for j, destination in enumerate(self._positions):
+                if i == j:
                     cost = BIG
                 else:
                     cost = origin.distance_to(destination)
@@ -187,20 +184,14 @@ class ThreeIndexLinearModel(LinearModel):
             return None
         return self._trips[(idx % self._n) - 1]
 
-    def _idx_by_position(self, position: Position):
-        return self._positions.index(position)
-
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
-        position = self._positions[idx]
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             earliest, latest = 0, 1440
-        elif position == trip.origin_position:
+        elif idx in self._pickups_indexer:
             earliest, latest = trip.origin_earliest, trip.origin_latest
-        elif position == trip.destination_position:
-            earliest, latest = trip.destination_earliest, trip.destination_latest
         else:
-            raise Exception("There was a problem related with earliest, latest indices.")
+            earliest, latest = trip.destination_earliest, trip.destination_latest
         return earliest, latest
 
     def _capacity_by_position_idx(self, idx: int) -> float:
@@ -218,7 +209,9 @@ class ThreeIndexLinearModel(LinearModel):
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             return 0
-        return trip.origin_duration
+        if idx in self._pickups_indexer:
+            return trip.origin_duration
+        return trip.destination_duration
 
     def _timeout_by_position_idx(self, idx: int) -> float:
         trip = self._trip_by_position_idx(idx)
@@ -288,6 +281,27 @@ class ThreeIndexLinearModel(LinearModel):
 
         return constraints
 
+    @cached_property
+    def _order_constraints(self) -> List[lp.LpConstraint]:
+        """Sequence the steps that do not take any time, as the times of the visits do not impose any order on them."""
+        constraints = list()
+        size = len(self._positions)
+        for k in self._routes_indexer:
+            order = [lp.LpVariable(f"o_{k}_{i}", lowBound=0.0, upBound=size) for i in self._positions_indexer]
+            for i, j in product(self._positions_indexer, self._positions_indexer):
+                load_time = self._load_time_by_position_idx(i)
+                travel_time = self._positions[i].time_to(self._positions[j])
+                if load_time + travel_time > 0:
+                    continue
+                constraints.append(order[j] >= order[i] + 1 - (size + 1) * (1 - self._x[k][i][j]))
+            for i in self._pickups_indexer:
+                load_time = self._load_time_by_position_idx(i)
+                travel_time = self._positions[i].time_to(self._positions[i + self._n])
+                if load_time + travel_time > 0:
+                    continue
+                constraints.append(order[i + self._n] >= order[i] + 1)
+        return constraints
+
     @cached_property
     def _feasibility_constraints(self) -> List[lp.LpConstraint]:
         constraints = list()
@@ -379,73 +393,35 @@ class ThreeIndexLinearModel(LinearModel):
         logger.info("Casting solution to a set of routes...")
         routes = set()
         for k in self._routes_indexer:
-            vehicle = self._vehicles[k]
-            route = Route(vehicle)
-
-            positions = self._solution_to_positions(k)
-            stops = self._positions_to_stops(route, positions)
-            trips = self._positions_to_trips(positions)
-
-            self._build_planned_trips(vehicle, trips, stops)
-            self._adjust_waiting_times(stops, k)
-
-            for stop in stops:
+            route = Route(self._vehicles[k])
+            for idx in self._solution_to_indexes(k):
+                stop = Stop(route.vehicle, self._positions[idx], route.current_stop)
+                self._append_planned_trip(route, stop, idx)
+                stop.starting_time = float(self._u[k][idx].varValue)
                 route.insert_stop(stop)
-
+            route.first_stop.starting_time = float(self._u[k][0].varValue)
+            route.last_stop.starting_time = float(self._u[k][-1].varValue)
+            route.flush()
             routes.add(route)
         return routes
 
-    def _positions_to_trips(self, positions) -> List[Trip]:
-        trips: List[Trip] = list()
-        for position in positions:
-            trip = next((trip for trip in self._trips if trip.origin_position == position), None)
-            if trip is None:
-                continue
-            if trip in trips:
-                continue
-            trips.append(trip)
-        return trips
-
-    def _build_planned_trips(self, vehicle: Vehicle, trips: List[Trip], stops: List[Stop]) -> List[PlannedTrip]:
-        stop_mapper = self._stop_to_stop_mapper(stops)
-
-        planned_trips = list()
-        for trip in trips:
-            pickup = stop_mapper[trip.origin_position].pop(0)
-            delivery = stop_mapper[trip.destination_position].pop(0)
-            planned_trip = PlannedTrip(vehicle, trip, pickup, delivery)
-            planned_trips.append(planned_trip)
-        return planned_trips
-
-    def _solution_to_positions(self, k: int) -> List[Position]:
-        ordered_trip_indexes = [idx for idx in sorted(range(len(self._u[k])), key=lambda x: self._u[k][x].varValue)]
-
-        positions = list()
-        for i, j in product(ordered_trip_indexes, self._positions_indexer):
-            if not int(self._x[k][i][j].varValue) == 1:
-                continue
-            positions.append(self._positions[i])
-        return positions
-
-    @staticmethod
-    def _positions_to_stops(route, positions) -> List[Stop]:
-        stops = [route.first_stop]
-        for position in positions:
-            if position == stops[-1].position:
-                continue
-            pickup = Stop(route.vehicle, position, stops[-1])
-            stops.append(pickup)
-        return stops
-
-    @staticmethod
-    def _stop_to_stop_mapper(stops: List[Stop]) -> Dict[Position, List[Stop]]:
-        mapper: Dict[Position, List[Stop]] = defaultdict(list)
-        for stop in stops:
-            mapper[stop.position].append(stop)
-        return mapper
-
-    def _adjust_waiting_times(self, stops: List[Stop], k: int):
-        starting_times = tuple(float(u_k.varValue) for u_k in self._u[k])
-        for stop in stops:
-            stop.flush()
-            stop.starting_time = starting_times[self._idx_by_position(stop.position)]
+    def _solution_to_indexes(self, k: int) -> List[int]:
+        """The indexes of the positions visited by the ``k``-th vehicle between both depots, following its order."""
+        last = len(self._positions) - 1
+        indexes: List[int] = list()
+        idx = 0
+        while True:
+            idx = next(j for j in self._positions_indexer if round(self._x[k][idx][j].varValue) == 1)
+            if idx == last:
+                return indexes
+            assert idx not in indexes
+            indexes.append(idx)
+
+    def _append_planned_trip(self, route: Route, stop: Stop, idx: int) -> None:
+        trip = self._trip_by_position_idx(idx)
+        if idx in self._pickups_indexer:
+            PlannedTrip(route.vehicle, trip, pickup=stop)
+            return
+        planned_trip = next(planned_trip for planned_trip in route.planned_trips if planned_trip.trip == trip)
+        planned_trip.delivery = stop
+        stop.append_delivery(planned_trip)
-- 
2.43.0


From e6bc48f8526fcba4b78beb016b64e5c7cc458ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 21/34] fix: bound the linear model by the data of the instance

The depot window was fixed to 0-1440 whatever the shift of the vehicles was, and
unbounded windows or ride times (the default ones) made PuLP reject the model.
---
 .../algorithms/exacts/models/three_index.py   | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index c486370..9a35322 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -17,6 +17,7 @@ from cached_property import (
     cached_property,
 )
 from jinete.models import (
+    MAX_FLOAT,
     PlannedTrip,
     Route,
     Stop,
@@ -187,12 +188,24 @@ class ThreeIndexLinearModel(LinearModel):
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
         trip = self._trip_by_position_idx(idx)
         if trip is None:
-            earliest, latest = 0, 1440
+            vehicle = self._vehicles[0]
+            earliest, latest = vehicle.origin_earliest, vehicle.destination_latest
         elif idx in self._pickups_indexer:
             earliest, latest = trip.origin_earliest, trip.origin_latest
         else:
             earliest, latest = trip.destination_earliest, trip.destination_latest
-        return earliest, latest
+        return earliest, min(latest, self._horizon)
+
+    @cached_property
+    def _horizon(self) -> float:
+        """A finite time in which any set of routes that can be performed, starts all its visits."""
+        services = [vehicle.origin for vehicle in self._vehicles]
+        for trip in self._trips:
+            services += [trip.origin, trip.destination]
+        return max(service.earliest for service in services) + sum(
+            self._load_time_by_position_idx(i) + max(origin.time_to(destination) for destination in self._positions)
+            for i, origin in enumerate(self._positions)
+        )
 
     def _capacity_by_position_idx(self, idx: int) -> float:
         trip = self._trip_by_position_idx(idx)
@@ -306,8 +319,9 @@ class ThreeIndexLinearModel(LinearModel):
     def _feasibility_constraints(self) -> List[lp.LpConstraint]:
         constraints = list()
         for k in self._routes_indexer:
-            constraint = self._u[k][-1] - self._u[k][0] <= self._vehicles[k].timeout
-            constraints.append(constraint)
+            if self._vehicles[k].timeout < MAX_FLOAT:
+                constraint = self._u[k][-1] - self._u[k][0] <= self._vehicles[k].timeout
+                constraints.append(constraint)
 
             for i in self._positions_indexer:
                 earliest, latest = self._time_window_by_position_idx(i)
@@ -319,13 +333,10 @@ class ThreeIndexLinearModel(LinearModel):
                 timeout = self._timeout_by_position_idx(i)
                 travel_time = self._positions[i].time_to(self._positions[i + self._n])
 
-                constraints.extend(
-                    [
-                        travel_time <= self._u[k][i + self._n] - (self._u[k][i] + load_time),
-                        self._u[k][i + self._n] - (self._u[k][i] + load_time) <= timeout,
-                    ]
-                )
-
+                ride_time = self._u[k][i + self._n] - (self._u[k][i] + load_time)
+                constraints.append(travel_time <= ride_time)
+                if timeout < MAX_FLOAT:
+                    constraints.append(ride_time <= timeout)
             for i in self._positions_indexer:
                 capacity = self._capacity_by_position_idx(i)
 
-- 
2.43.0


From 8cdf5179cec3912c7ee28c6987d43e2a5bc05200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 22/34] fix: tolerate the numerical noise of the solver on the
 linear model

Non negative variables come back as tiny negative numbers, which were rejected.
---
 jinete/algorithms/exacts/models/three_index.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 9a35322..a79f3f5 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -16,6 +16,9 @@ import pulp as lp
 from cached_property import (
     cached_property,
 )
+from jinete.exceptions import (
+    JineteException,
+)
 from jinete.models import (
     MAX_FLOAT,
     PlannedTrip,
@@ -23,6 +26,9 @@ from jinete.models import (
     Stop,
 )
 
+from ....models.constants import (
+    ERROR_BOUND,
+)
 from .abc import (
     LinearModel,
 )
@@ -391,10 +397,10 @@ class ThreeIndexLinearModel(LinearModel):
         for k in self._routes_indexer:
             for i in self._positions_indexer:
                 logger.info(f'Obtained "u[{k}][{i}]={self._u[k][i].varValue}".')
-                assert self._u[k][i].varValue >= 0.0
+                assert self._u[k][i].varValue >= -ERROR_BOUND
 
                 logger.info(f'Obtained "w[{k}][{i}]={self._w[k][i].varValue}".')
-                assert self._w[k][i].varValue >= 0.0
+                assert self._w[k][i].varValue >= -ERROR_BOUND
 
                 for j in self._positions_indexer:
                     logger.info(f'Obtained "x[{k}][{i}][{j}]={self._x[k][i][j].varValue}".')
-- 
2.43.0


From 510dccc6cf55d3b192d48359f0d3e6ae733c8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 23/34] fix: fail explicitly when the linear model has no
 solution

The values left by the solver for an infeasible problem were cast to routes.
---
 jinete/algorithms/exacts/models/three_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index a79f3f5..55ebd1a 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -362,6 +362,8 @@ class ThreeIndexLinearModel(LinearModel):
         """
         logger.info("Starting to solve...")
         self._problem.solve(self.solver)
+        if not self._problem.status == lp.LpStatusOptimal:
+            raise JineteException(f'The linear model has no solution: "{lp.LpStatus[self._problem.status]}".')
 
         self._validate()
         logger.info(f'Obtained "{lp.value(self._objective)}" reaching "{lp.LpStatus[self._problem.status]}".')
-- 
2.43.0


From 0391cdc1871aa40d5bc518c93616e42721e749b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 24/34] fix: evaluate long routes without exceeding the
 recursion limit

---
 jinete/models/stops.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index d0f68a0..a584474 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -108,13 +108,17 @@ class Stop(Model):
     def previous_capacity(self) -> float:
         if self.previous is None:
             return 0
+        self.previous._compute_in_order("capacity")
         return self.previous.capacity
 
     @property
     def all_previous(self) -> List[Stop]:
-        if self.previous is None:
-            return []
-        return [self.previous] + self.previous.all_previous
+        stops = list()
+        current = self.previous
+        while current is not None:
+            stops.append(current)
+            current = current.previous
+        return stops
 
     @property
     def all_previous_pickups(self) -> Iterator[PlannedTrip]:
@@ -165,6 +169,7 @@ class Stop(Model):
     def previous_departure_time(self) -> float:
         if self.previous is None:
             return self.vehicle.origin_earliest
+        self.previous._compute_in_order("departure_time")
         return self.previous.departure_time
 
     @property
@@ -229,6 +234,16 @@ class Stop(Model):
             ("identifier", self.identifier),
         )
 
+    def _compute_in_order(self, key: str) -> None:
+        """Compute a cached property from the first pending stop on, so long routes do not exceed the recursion limit."""
+        pending = list()
+        current = self
+        while current is not None and key not in current.__dict__:
+            pending.append(current)
+            current = current.previous
+        for stop in reversed(pending):
+            getattr(stop, key)
+
     def flush(self) -> None:
         for key in (
             "arrival_time",
@@ -242,5 +257,5 @@ class Stop(Model):
 
     def flush_all_previous(self):
         self.flush()
-        if self.previous is not None:
-            self.previous.flush_all_previous()
+        for stop in self.all_previous:
+            stop.flush()
-- 
2.43.0


From 58874b5299b12844519365319811e25e961e3264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 25/34] fix: copy long routes without exceeding the recursion
 limit

---
 jinete/models/routes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index e783fa9..5cb2829 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -5,6 +5,7 @@ from __future__ import (
 import itertools as it
 import logging
 from copy import (
+    copy,
     deepcopy,
 )
 from functools import (
@@ -83,6 +84,15 @@ class Route(Model):
         route = Route(vehicle)
         memo[id(self)] = route
 
+        # Stops and planned trips are linked one to each other, so they are created before following their links to not
+        # to copy the whole route recursively.
+        linked = [entity for entity in it.chain(self.stops, self.planned_trips) if id(entity) not in memo]
+        for entity in linked:
+            memo[id(entity)] = copy(entity)
+        for entity in linked:
+            for name in it.chain(entity.__slots__, entity.__dict__):
+                setattr(memo[id(entity)], name, deepcopy(getattr(entity, name), memo))
+
         route.stops = deepcopy(self.stops, memo)
 
         return route
-- 
2.43.0


From 1b8044d1702fd8180d4278bd11f62a15a17357e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:00 +0000
Subject: [PATCH 26/34] fix: reverse every segment in the 2-opt local search

The reversed segment was one stop longer than the chosen one, so that pairs of
consecutive stops (but for the last ones of the route) were never reversed and
the result was not a local optimum.
---
 .../heuristics/local_search/strategies/routes/two_opt.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index 79a05ab..f9d22fd 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -25,10 +25,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                 j = k + 1
                 condition = any(
                     any(
-                        delivery in chain.from_iterable(b.pickup_planned_trips for b in route.stops[i : j + 1])
+                        delivery in chain.from_iterable(b.pickup_planned_trips for b in route.stops[i:j])
                         for delivery in a.delivery_planned_trips
                     )
-                    for a in route.stops[i : j + 1]
+                    for a in route.stops[i:j]
                 )
                 if condition:
                     continue
@@ -37,7 +37,7 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
 
                 old_stops = [new_route.remove_stop_at(i) for _ in range(i, len(new_route.stops) - 1)]
 
-                threshold = (j + 1) - i
+                threshold = j - i
                 for stop in reversed(old_stops[:threshold]):
                     stop.previous = new_route.current_stop
                     new_route.insert_stop(stop)
-- 
2.43.0


From 35d2d31d7bf60cb9ee8698f9178ea48317b17182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:12 +0000
Subject: [PATCH 27/34] fix: compare services by their times instead of their
 hashes

Hashes collide (-1 and -2, infinity and 314159), so services with different
times compared equal, and comparing with another kind of object compared
hashes too.
---
 jinete/models/services.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jinete/models/services.py b/jinete/models/services.py
index 6918ecc..f8d7e56 100644
--- a/jinete/models/services.py
+++ b/jinete/models/services.py
@@ -80,8 +80,10 @@ class Service(Model):
     def __deepcopy__(self, memo: Dict[int, Any]) -> Service:
         return self
 
-    def __eq__(self, other: Service) -> bool:
-        return hash(self) == hash(other)
+    def __eq__(self, other: Any) -> bool:
+        if not isinstance(other, Service):
+            return NotImplemented
+        return tuple(self) == tuple(other)
 
     def __hash__(self):
         return hash(tuple(self))
-- 
2.43.0


From fe1b0e94f4758d9d8b75544c8687a4f36df2692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 28/34] fix: comparing a position with another kind of object
 is not an error

---
 jinete/models/positions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinete/models/positions.py b/jinete/models/positions.py
index 61d10b4..a25d856 100644
--- a/jinete/models/positions.py
+++ b/jinete/models/positions.py
@@ -104,10 +104,12 @@ class GeometricPosition(Position):
         return hash(self.coordinates)
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, GeometricPosition):
+            return NotImplemented
         return self.coordinates == other.coordinates
 
     def __ne__(self, other) -> bool:
-        return self.coordinates != other.coordinates
+        return not self == other
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
         yield from (("coordinates", self.coordinates),)
-- 
2.43.0


From 8f0a6be6a16e37cd38e4f5660b36a12b4e22209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:38 +0000
Subject: [PATCH 29/34] fix: the linear model answers when there are no
 vehicles

It failed with IndexError while reading the solution.
---
 jinete/algorithms/exacts/models/three_index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 55ebd1a..8a83f22 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -361,6 +361,11 @@ class ThreeIndexLinearModel(LinearModel):
         :return A set of optimized routes.
         """
         logger.info("Starting to solve...")
+        if not any(self._vehicles):
+            if any(self._trips):
+                raise JineteException("There are no vehicles to perform the trips.")
+            return set()
+
         self._problem.solve(self.solver)
         if not self._problem.status == lp.LpStatusOptimal:
             raise JineteException(f'The linear model has no solution: "{lp.LpStatus[self._problem.status]}".')
-- 
2.43.0


From 5c3f87eb1eaef898b7ef1800abcf86e4f639f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:23 +0000
Subject: [PATCH 30/34] fix: measure the distance of a stop from the previous
 one to it

It was measured backwards, which is another distance on surfaces where going
and coming back differ.
---
 jinete/models/stops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index a584474..f5ddb07 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -159,7 +159,7 @@ class Stop(Model):
 
     @property
     def distance(self) -> float:
-        return self.position.distance_to(self.previous_position)
+        return self.previous_position.distance_to(self.position)
 
     @cached_property
     def arrival_time(self):
-- 
2.43.0


From 556c5aed6d4dbd7ca99e19bcbf7533ebc546d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:43 +0000
Subject: [PATCH 31/34] fix: make two-opt and reallocation follow the direction
 and all the dimensions of the objective

---
 .../strategies/plannings/reallocation.py      | 22 +++++++++++++------
 .../local_search/strategies/routes/two_opt.py |  4 ++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
index 03e0705..ddf9b11 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
@@ -1,5 +1,9 @@
 import itertools as it
 import logging
+from operator import (
+    add,
+    sub,
+)
 
 from jinete.utils import (
     sample_index_pairs,
@@ -19,13 +23,13 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
         strategy = InsertionStrategy()
         logger.info(f'Starting to improve "Result" with "{self.__class__.__name__}"...')
         overwritten_routes = set()
-        base_cost = self._objective.optimization_function(self._planning)[-1]
+        base_cost = self._objective.optimization_function(self._planning)
         best_cost = base_cost
         for origin, destination in it.permutations(self._routes, 2):
 
             partial_cost = base_cost
-            partial_cost -= self._objective.optimization_function(origin)[-1]
-            partial_cost -= self._objective.optimization_function(destination)[-1]
+            partial_cost = tuple(map(sub, partial_cost, self._objective.optimization_function(origin)))
+            partial_cost = tuple(map(sub, partial_cost, self._objective.optimization_function(destination)))
 
             for trip in origin.trips:
                 new_origin = origin.clone()
@@ -35,7 +39,9 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
                 if not new_origin.feasible:
                     continue
 
-                partial_cost_origin = partial_cost + self._objective.optimization_function(new_origin)[-1]
+                partial_cost_origin = tuple(
+                    map(add, partial_cost, self._objective.optimization_function(new_origin))
+                )
 
                 for i, j in sample_index_pairs(len(destination.stops), 128, self.random):
                     destinations = strategy.compute(destination, trip, i, j)
@@ -43,11 +49,13 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
                         continue
                     new_destination = destinations[0]
 
-                    new_cost = partial_cost_origin + self._objective.optimization_function(new_destination)[-1]
-                    if not new_cost > best_cost:
+                    new_cost = tuple(
+                        map(add, partial_cost_origin, self._objective.optimization_function(new_destination))
+                    )
+                    if best_cost == self._objective.best(best_cost, new_cost):
                         continue
 
-                    logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{best_cost}"')
+                    logger.info(f'Improved planning with "{self.__class__.__name__}": from "{best_cost}" to "{new_cost}"')
                     overwritten_routes = {new_origin, new_destination}
                     best_cost = new_cost
 
diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index f9d22fd..8659634 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -50,10 +50,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                     continue
 
                 new_cost = self._objective.optimization_function(new_route)
-                if not new_cost > cost:
+                if cost == self._objective.best(cost, new_cost):
                     continue
 
-                logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{cost}"')
+                logger.info(f'Improved planning with "{self.__class__.__name__}": from "{cost}" to "{new_cost}"')
                 best_route = new_route
                 cost = new_cost
 
-- 
2.43.0


From 70f5e9101b8eed19681dc75b8ffdc53f7774c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:55 +0000
Subject: [PATCH 32/34] fix: refuse Cordeau-Laporte files with mismatched loads
 also without assertions

---
 jinete/loaders/formatters/cordeau_laporte.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/loaders/formatters/cordeau_laporte.py b/jinete/loaders/formatters/cordeau_laporte.py
index 6b9062d..56f1ee5 100644
--- a/jinete/loaders/formatters/cordeau_laporte.py
+++ b/jinete/loaders/formatters/cordeau_laporte.py
@@ -9,6 +9,9 @@ from typing import (
     TYPE_CHECKING,
 )
 
+from ...exceptions import (
+    JineteException,
+)
 from ...models import (
     DialARideObjective,
     DistanceMetric,
@@ -99,7 +102,8 @@ class CordeauLaporteLoaderFormatter(LoaderFormatter):
 
         identifier = f"{idx + 1:.0f}"
 
-        assert origin_row[4] == -destination_row[4]
+        if not origin_row[4] == -destination_row[4]:
+            raise JineteException(f'The loads of the trip "{identifier}" do not match.')
         capacity = origin_row[4]
 
         timeout = self.data[0][4]
-- 
2.43.0


From fbff06962418ab6002e3379140b10f19f8c632ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:02 +0000
Subject: [PATCH 33/34] fix: copy a route whose figures are asked meanwhile

---
 jinete/models/routes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 5cb2829..eff1d65 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -90,7 +90,7 @@ class Route(Model):
         for entity in linked:
             memo[id(entity)] = copy(entity)
         for entity in linked:
-            for name in it.chain(entity.__slots__, entity.__dict__):
+            for name in it.chain(entity.__slots__, tuple(entity.__dict__)):
                 setattr(memo[id(entity)], name, deepcopy(getattr(entity, name), memo))
 
         route.stops = deepcopy(self.stops, memo)
-- 
2.43.0


From 8cabdb97153482f9595745b118b568576f1249e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:36 +0000
Subject: [PATCH 34/34] fix: keep the ends of a route when their requests are
 removed

---
 jinete/models/routes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index eff1d65..4635651 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -301,7 +301,7 @@ class Route(Model):
             if trip not in stop.trips:
                 continue
             stop.remove_trip(trip)
-            if any(stop.planned_trips):
+            if any(stop.planned_trips) or i in (0, len(self.stops) - 1):
                 self.__dict__.pop("feasible", None)
                 for following in self.stops[i:]:
                     following.flush()
-- 
2.43.0

