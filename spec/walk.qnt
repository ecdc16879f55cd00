// Design machine: walks over the graph of conversions.
//
// A vehicle of one fixed point is carried from representation to representation
// along the library's conversion functions.  Its simulated behaviours are the
// call sequences replayed in the real code (harness/rec_walk.py) and judged by
// c_walk.qnt.
module walk {
  // 0 ecef 1 geodetic 2 enu 3 ned 4 nwu 5 sez 6 aer 7 spherical 8 body 9 dca
  pure val KINDS: Set[int] = 0.to(9)
  pure val EDGES: Set[(int, int)] = Set(
    (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 8), (0, 9),
    (1, 0), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8), (1, 9),
    (2, 0), (2, 1), (2, 6), (2, 8), (2, 9), (3, 0), (3, 1), (3, 6), (3, 8), (3, 9),
    (4, 0), (4, 1), (4, 6), (4, 8), (5, 0), (5, 1), (5, 6), (5, 8),
    (6, 0), (6, 1), (6, 2), (6, 3), (6, 4), (6, 5), (6, 9), (7, 1),
    (8, 0), (8, 1), (8, 2), (8, 3), (8, 4), (8, 5), (9, 0), (9, 1), (9, 2), (9, 3), (9, 6))

  var at: int
  var unit: int       // 0 degrees, 1 radians
  var hops: int
  var home: int       // where the walk started
  var visited: Set[int]

  action init = {
    nondet k = KINDS.oneOf()
    nondet u = Set(0, 0, 1).oneOf()
    all { at' = k, home' = k, unit' = u, hops' = 0, visited' = Set(k) }
  }
  action step = {
    nondet e = EDGES.filter(x => x._1 == at).oneOf()
    all { at' = e._2, hops' = hops + 1, unit' = unit, home' = home, visited' = visited.union(Set(e._2)) }
  }
  // one more round of the successor relation
  pure def reach(s: Set[int]): Set[int] = s.union(EDGES.filter(e => s.contains(e._1)).map(e => e._2))
  pure def closure(k: int): Set[int] = range(0, 10).foldl(Set(k), (s, i) => reach(s))
  val inv = and {
    KINDS.contains(at),
    // nowhere to get stuck, and home is reachable again
    closure(at).contains(home),
    visited.subseteq(closure(home)),
  }
  run graphTest = all {
    assert(KINDS.forall(k => closure(k) == KINDS)),
    assert(EDGES.forall(e => e._1 != e._2 and (e._2 != 7 or e._1 == 1))),
    // every conversion has its counterpart
    assert(EDGES.forall(e => EDGES.contains((e._2, e._1)))),
  }
}
