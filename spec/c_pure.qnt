// Trace specification of calls on shared memory: fingerprints of every buffer
// and of the global state only change when the client writes, and a call is a
// function of what its arguments hold.
module c_pure {
  import fx.* from "./fx"
  import wire.* from "./wire"

  pure val OP_start: int = 1
  pure val OP_call: int = 2
  pure val OP_write: int = 3

  // contents of the buffers (grows with the results the client keeps), answers so far
  type St = { heap: List[int], memo: List[int] -> int }
  pure val ST0: St = { heap: [], memo: Map() }
  type Verdict = { next: St, clause: str, case: str }

  // payload: n, call key (function, options, buffers, their contents) of n words,
  //          answer, answer with buffers of its own, global state, then every buffer afterwards
  pure def callOn(st: St, w: List[int]): Verdict = {
    val n = asInt(w[0])
    val key = w.slice(1, 1 + n)
    val ans = w[1 + n]
    val after = w.slice(n + 3, w.length())
    val c = if (st.memo.keys().contains(key)) "repeated" else "call"
    def no(why) = { next: { ...st, heap: after }, clause: why, case: c }
    if (after.length() < st.heap.length()) no("buffer-lost")
    else if (after[0] != st.heap[0]) no("global-state-changed")
    else if (after.slice(0, st.heap.length()) != st.heap) no("buffer-changed")
    else if (w[2 + n] != ans) no("answer-depends-on-sharing")
    else if (c == "repeated" and st.memo.get(key) != ans) no("answer-depends-on-history")
    else { next: { heap: after, memo: st.memo.put(key, ans) }, clause: "", case: c }
  }
  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_start) { next: { heap: w, memo: Map() }, clause: "", case: "start" }
    else if (op == OP_call) callOn(st, w)
    else { next: { ...st, heap: w }, clause: "", case: "write" }
}
