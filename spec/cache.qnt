// Design machine: the ellipsoid registry, its lookup cache and the cache of
// geodesic solvers.
//
// The registry maps names to axes; users look names up, keep what they got,
// change or remove entries, make ellipsoids of their own (also with a
// registered name), solve geodesics on any of them and clear the caches.  The
// implementation keeps two caches; the invariants say that no user can tell.
// Behaviours are replayed in the library (harness/rec_cache.py) and judged by
// c_cache.qnt, which knows nothing of caches.
module cache {
  pure val NAMES: Set[int] = 0.to(5)     // 0 is the default ellipsoid, 4 and 5 start unregistered
  pure val AXES: Set[int] = 0.to(7)      // pairs of axes
  pure val SOLVES: Set[int] = 0.to(7)    // computations
  pure val NOBODY: int = -1
  pure def firstAxes(n: int): int = if (n < 4) n else NOBODY

  var registry: int -> int               // name -> axes or NOBODY
  var lookups: Set[(int, int)]           // cached lookups: (name, axes)
  var solvers: int -> int                // axes -> axes the cached solver was built for, or NOBODY
  var kept: List[int]                    // axes of the objects the user holds
  // what happened last, for the replay
  var act: { op: str, name: int, axes: int, obj: int, fn: int }
  var answer: int                        // axes the last lookup or computation used
  var wanted: int                        // axes it had to use

  pure val IDLE = { op: "start", name: 0, axes: 0, obj: 0, fn: 0 }
  action init = all {
    registry' = NAMES.mapBy(n => firstAxes(n)),
    lookups' = Set(),
    solvers' = AXES.mapBy(x => NOBODY),
    kept' = [],
    act' = IDLE, answer' = NOBODY, wanted' = NOBODY,
  }
  // a lookup by name goes through the cache, whose key is everything it depends on
  pure def looked(reg: int -> int, n: int): int = reg.get(n)

  action lookup(n: int, keep: bool): bool = all {
    answer' = looked(registry, n),
    wanted' = registry.get(n),
    lookups' = if (registry.get(n) == NOBODY) lookups else lookups.union(Set((n, registry.get(n)))),
    kept' = if (keep and registry.get(n) != NOBODY and kept.length() < 6) kept.append(registry.get(n)) else kept,
    registry' = registry, solvers' = solvers,
    act' = { ...IDLE, op: if (keep) "keep" else "lookup", name: n },
  }
  action custom(n: int, x: int): bool = all {
    kept.length() < 6,
    kept' = kept.append(x),
    answer' = x, wanted' = x,
    registry' = registry, lookups' = lookups, solvers' = solvers,
    act' = { ...IDLE, op: "custom", name: n, axes: x },
  }
  // a computation on axes x: the solver of x, built now unless there is one
  action compute(x: int, a: { op: str, name: int, axes: int, obj: int, fn: int }): bool = all {
    x != NOBODY,
    answer' = if (solvers.get(x) == NOBODY) x else solvers.get(x),
    wanted' = x,
    solvers' = if (solvers.get(x) == NOBODY) solvers.set(x, x) else solvers,
    registry' = registry, lookups' = lookups, kept' = kept,
    act' = a,
  }
  action enter(n: int, x: int): bool = all {
    n != 0,
    registry' = registry.set(n, x),
    lookups' = lookups, solvers' = solvers, kept' = kept,
    answer' = NOBODY, wanted' = NOBODY,
    act' = { ...IDLE, op: if (x == NOBODY) "remove" else "put", name: n, axes: x },
  }
  action clear: bool = all {
    lookups' = Set(), solvers' = AXES.mapBy(x => NOBODY),
    registry' = registry, kept' = kept, answer' = NOBODY, wanted' = NOBODY,
    act' = { ...IDLE, op: "clear" },
  }
  action step = {
    nondet n = NAMES.oneOf()
    nondet x = AXES.oneOf()
    nondet f = SOLVES.oneOf()
    nondet i = 0.to(5).oneOf()
    any {
      lookup(n, false),
      lookup(n, true),
      custom(n, x),
      compute(registry.get(0), { op: "default", name: 0, axes: 0, obj: 0, fn: f }),
      all { registry.get(n) != NOBODY, compute(registry.get(n), { op: "named", name: n, axes: 0, obj: 0, fn: f }) },
      all { i < kept.length(), compute(kept.nth(i), { op: "solve", name: 0, axes: 0, obj: i, fn: f }) },
      all { i < kept.length(), compute(kept.nth(i), { op: "solve", name: 0, axes: 0, obj: i, fn: f }) },
      all { registry.get(n) != x, enter(n, x) },
      all { registry.get(n) != NOBODY, i == 0, enter(n, NOBODY) },
      all { f < 4, clear },
    }
  }
  val inv = and {
    // transparent: nobody gets an answer of other axes
    answer == wanted,
    // solvers are only ever those of their own key
    AXES.forall(x => solvers.get(x) == NOBODY or solvers.get(x) == x),
    registry.get(0) == 0,
    kept.length() <= 6,
  }
}
