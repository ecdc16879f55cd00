// Trace specification of the command line: what a line typed by cli.qnt prints.
module c_cli {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import cli_table.* from "./cli_table"
  import cli.* from "./cli"

  pure val OP_line: int = 1
  pure val OP_commands: int = 2
  type St = { n: int }
  pure val ST0: St = { n: 0 }
  type Verdict = { next: St, clause: str, case: str }

  // kinds of leaves of the library's result
  pure val FLOAT: int = 0
  pure val INT: int = 1
  pure val TEXT: int = 2

  pure def pow10(p: int): int = 10^p
  // one leaf: kind, library value, printed value, decimals printed
  pure def leaf(prec: int, kind: int, lib: int, printed: int, decimals: int): str =
    if (kind == TEXT or kind == INT or prec < 0 or not(isNum(lib)))
      if (printed == lib) "" else "value-printed"
    else if (not(isNum(printed))) "value-printed"
    // half a unit of the last decimal, compared without division (and one unit of the wire scale)
    else if (2 * (iabs(printed - lib) - 4) * pow10(prec) > S) "value-rounded"
    else if (decimals != prec) "decimals"
    else ""

  // payload: n tokens, exit status, lines printed, library raised, library structure,
  //   printed structure, leaves printed, leaves expected, then 4 words per leaf
  pure def line(st: St, w: List[int]): Verdict = {
    val n = asInt(w[0])
    val c = meaning(w.slice(1, n + 1).foldl([], (acc, x) => acc.append(asInt(x))))
    val b = n + 1
    val status = asInt(w[b])
    val printed = asInt(w[b + 1])
    val raised = asInt(w[b + 2]) == 1
    val case = if (c.usage) "usage-error" else if (raised) "call-rejected" else if (c.out == 1) "json" else if (c.prec >= 0) "precision" else "text"
    def say(why: str): Verdict = { next: { n: st.n + 1 }, clause: why, case: case }
    if (c.usage) {
      if (status != 2) say("usage-status")
      else if (printed != 0) say("usage-prints")
      else say("")
    } else if (raised) {
      if (status == 0) say("rejected-status")
      else if (printed != 0) say("rejected-prints")
      else say("")
    } else if (status != 0) say("status")
    else if (printed != 1) say("one-line")
    else if (c.out == 1 and w[b + 3] != w[b + 4]) say("structure")
    else if (w[b + 5] != w[b + 6]) say("number-of-values")
    else {
      // JSON carries the values as they are
      val prec = if (c.out == 1) -1 else c.prec
      val why = range(0, asInt(w[b + 6])).foldl("", (acc, i) => {
        val k = b + 7 + 4 * i
        if (acc != "") acc else leaf(prec, asInt(w[k]), w[k + 1], w[k + 2], asInt(w[k + 3]))
      })
      say(why)
    }
  }

  // payload: number of commands offered, for each command of the table whether it is offered
  pure def offered(st: St, w: List[int]): Verdict =
    { next: st, case: "commands", clause:
      if (asInt(w[0]) < COMMANDS.length()) "commands-missing"
      else if (w.slice(1, w.length()).foldl(true, (acc, x) => acc and asInt(x) == 1)) "" else "command-missing" }

  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_line) line(st, w) else offered(st, w)
}
