// Design machine: a client with shared argument buffers.
//
// Buffers live in one memory in which some of them overlap; the client calls
// functions on them, writes into them, puts old contents back and repeats
// earlier calls.  A pure library leaves the memory alone and answers by what
// the arguments hold.  Behaviours are replayed in the library
// (harness/rec_pure.py) and judged by c_pure.qnt.
module pure_calls {
  pure val FUNS: int = 200
  pure val BUFS: int = 8          // buffers of one kind
  pure val CELLS: Set[int] = 0.to(3)
  // buffers 0, 3 and 5 share memory
  pure def cell(buf: int): int = if (buf == 0 or buf == 3 or buf == 5) 0 else if (buf == 1) 1 else if (buf == 2) 2 else 3

  var memory: int -> int          // cell -> version of its contents
  var answers: (int, int, int, int, int) -> int  // function, buffers, versions -> answer
  var calls: List[(int, int, int)]
  var act: { op: str, fn: int, x: int, y: int }
  var count: int

  pure def answer(f: int, v: int, w: int): int = 10000 * f + 100 * v + w
  action init = all {
    memory' = CELLS.mapBy(c => 0), answers' = Map(), calls' = [], count' = 0,
    act' = { op: "start", fn: 0, x: 0, y: 0 },
  }
  action invoke(f: int, x: int, y: int, what: str): bool = all {
    val v = memory.get(cell(x))
    val w = memory.get(cell(y))
    all {
      answers' = answers.put((f, x, y, v, w), answer(f, v, w)),
      calls' = if (what == "call") calls.append((f, x, y)) else calls,
      memory' = memory, count' = count + 1,
      act' = { op: what, fn: f, x: x, y: y },
    }
  }
  action scribble(x: int, v: int, what: str): bool = all {
    memory' = memory.set(cell(x), v),
    answers' = answers, calls' = calls, count' = count,
    act' = { op: what, fn: 0, x: x, y: v },
  }
  action step = {
    nondet f = 0.to(FUNS - 1).oneOf()
    nondet x = 0.to(BUFS - 1).oneOf()
    nondet y = 0.to(BUFS - 1).oneOf()
    nondet k = 0.to(15).oneOf()
    any {
      invoke(f, x, y, "call"),
      invoke(f, x, y, "call"),
      all { k < calls.length(), invoke(calls.nth(k)._1, calls.nth(k)._2, calls.nth(k)._3, "again") },
      all { k < 8, scribble(x, memory.get(cell(x)) + 1, "write") },
      all { memory.get(cell(x)) > 0, scribble(x, 0, "restore") },
    }
  }
  // the same call on the same contents has one answer, whenever it is made
  val inv = answers.keys().forall(q => answers.get(q) == answer(q._1, q._4, q._5))
}
