// Trace specification of the ellipsoid registry: what lookups and computations
// have to answer, as if nothing were ever cached.
module c_cache {
  import fx.* from "./fx"
  import wire.* from "./wire"

  pure val OP_start: int = 1
  pure val OP_truth: int = 2
  pure val OP_put: int = 3
  pure val OP_remove: int = 4
  pure val OP_lookup: int = 5
  pure val OP_solve: int = 6
  pure val OP_clear: int = 7
  pure val OP_made: int = 8

  type St = { reg: int -> (int, int), truth: (int, int, int) -> List[int] }
  pure val ST0: St = { reg: Map(), truth: Map() }
  type Verdict = { next: St, clause: str, case: str }

  // payload of lookup: name a b f sameName equalToEarlierLookup(1 yes, 0 no, 2 none)
  pure def lookup(st: St, w: List[int]): Verdict = {
    val n = asInt(w[0])
    val known = st.reg.keys().contains(n)
    def no(why) = { next: st, clause: why, case: "lookup" }
    if (not(known)) {
      if (isNum(w[1])) no("unregistered-name-answered") else { next: st, clause: "", case: "unknown-name" }
    } else if (not(allNum(w))) no("registered-name-refused")
    else {
      val e = st.reg.get(n)
      if (w[1] != e._1 or w[2] != e._2) no("axes-of-another-entry")
      else if (iabs(w[3] - div(e._1 - e._2, e._1)) > 4 * em(16)) no("flattening-of-another-entry")
      else if (asInt(w[4]) != 1) no("another-name")
      else if (asInt(w[5]) == 0) no("not-equal-to-the-earlier-lookup")
      else { next: st, clause: "", case: if (asInt(w[5]) == 1) "lookup-again" else "lookup" }
    }
  }
  // payload: computation, a, b, result words, as in a process that did nothing else
  pure def key(w: List[int]): (int, int, int) = (asInt(w[0]), w[1], w[2])
  pure def solve(st: St, w: List[int]): Verdict = {
    val k = key(w)
    if (not(st.truth.keys().contains(k))) { next: st, clause: "unknown-axes", case: "solve" }
    else if (w.slice(3, w.length()) != st.truth.get(k)) { next: st, clause: "answer-of-another-history", case: "solve" }
    else { next: st, clause: "", case: "solve" }
  }
  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_start) { next: { ...st, reg: Map() }, clause: "", case: "start" }
    else if (op == OP_truth) { next: { ...st, truth: st.truth.put(key(w), w.slice(3, w.length())) }, clause: "", case: "truth" }
    else if (op == OP_put) { next: { ...st, reg: st.reg.put(asInt(w[0]), (w[1], w[2])) }, clause: "", case: "put" }
    else if (op == OP_remove) {
      { next: { ...st, reg: st.reg.keys().exclude(Set(asInt(w[0]))).mapBy(n => st.reg.get(n)) }, clause: "", case: "remove" }
    }
    else if (op == OP_lookup) lookup(st, w)
    else if (op == OP_solve) solve(st, w)
    else if (op == OP_made) {
      // payload: a b asked for, a b of the object
      { next: st, clause: if (w[0] == w[2] and w[1] == w[3]) "" else "object-of-other-axes", case: "custom" }
    }
    else { next: st, clause: "", case: "clear" }
}
