// The command line: what a line of tokens asks for, and a machine that types
// such lines.
//
// A token is an integer: a command (its index in COMMANDS), a positional
// argument, an option, or the value of an option.
module cli {
  import cli_table.* from "./cli_table"

  pure val POS: int = 1000        // a positional argument
  pure val UNKNOWN_CMD: int = 990
  // options of the program, before the command; each takes a value
  pure val T_ELL: int = 2000
  pure val T_OUT: int = 2001
  pure val T_PREC: int = 2002
  // options of commands
  pure val T_DEG: int = 2010
  pure val T_NODEG: int = 2011
  pure val T_FNA: int = 2012
  pure val T_NOFNA: int = 2013
  pure val T_DUT: int = 2014
  pure val T_XP: int = 2015
  pure val T_YP: int = 2016
  pure val T_SEQ: int = 2017
  pure val T_FRAME: int = 2018
  pure val T_ALT: int = 2019
  pure val T_RADIUS: int = 2020
  pure val T_UNKNOWN: int = 2030  // an option nobody has
  // values
  pure val VAL: int = 3000        // VAL + k is the k-th choice
  pure val BADVAL: int = 3999     // not among the choices

  pure val WGS84: int = 21
  pure val N_MODELS: int = 38

  pure def isGlobal(t: int): bool = t >= T_ELL and t <= T_PREC
  pure def isFlag(t: int): bool = t >= T_DEG and t <= T_NOFNA
  pure def isValued(t: int): bool = t >= T_DUT and t <= T_RADIUS
  pure def isVal(t: int): bool = t >= VAL and t <= BADVAL
  // does command k have option t?
  pure def bit(mask: int, b: int): bool = (mask / b) % 2 == 1
  pure def has(k: int, t: int): bool = {
    val o = COMMANDS[k].options
    if (t == T_DEG or t == T_NODEG) bit(o, DEG)
    else if (t == T_FNA or t == T_NOFNA) bit(o, FORCE)
    else if (t == T_DUT) bit(o, UT1)
    else if (t == T_XP or t == T_YP) bit(o, POLAR)
    else if (t == T_SEQ) bit(o, SEQUENCE)
    else if (t == T_FRAME) bit(o, FRAME)
    else if (t == T_ALT) bit(o, ALT)
    else if (t == T_RADIUS) bit(o, RADIUS)
    else false
  }

  // What a line means: a usage error, or a call of a command with the options
  // given (option -> value; flags share the key of their positive form).
  type Call = { usage: bool, cmd: int, ell: int, out: int, prec: int, npos: int, opts: int -> int }
  pure val BLANK: Call = { usage: false, cmd: -1, ell: WGS84, out: 0, prec: -1, npos: 0, opts: Map() }
  pure val USAGE: Call = { ...BLANK, usage: true }

  type Reader = { call: Call, pending: int }
  // one token
  pure def read(r: Reader, t: int): Reader = {
    val c = r.call
    pure val wrong = { call: USAGE, pending: 0 }
    if (c.usage) wrong
    else if (r.pending != 0) {
      val p = r.pending
      if (not(isVal(t))) wrong
      else if (isGlobal(p)) {
        if (t == BADVAL) wrong
        else if (p == T_ELL) { call: { ...c, ell: t - VAL }, pending: 0 }
        else if (p == T_OUT) { call: { ...c, out: t - VAL }, pending: 0 }
        else { call: { ...c, prec: t - VAL }, pending: 0 }
      }
      else { call: { ...c, opts: c.opts.put(p, t - VAL) }, pending: 0 }
    }
    else if (c.cmd < 0) {
      if (isGlobal(t)) { ...r, pending: t }
      else if (t >= 0 and t < COMMANDS.length()) { call: { ...c, cmd: t }, pending: 0 }
      else wrong
    }
    else if (t == POS) { call: { ...c, npos: c.npos + 1 }, pending: 0 }
    else if (isFlag(t) and has(c.cmd, t)) {
      val key = if (t == T_DEG or t == T_NODEG) T_DEG else T_FNA
      { call: { ...c, opts: c.opts.put(key, if (t == key) 1 else 0) }, pending: 0 }
    }
    else if (isValued(t) and has(c.cmd, t)) { ...r, pending: t }
    else wrong
  }
  pure def meaning(toks: List[int]): Call = {
    val r = toks.foldl({ call: BLANK, pending: 0 }, (acc, t) => read(acc, t))
    if (r.call.usage or r.pending != 0 or r.call.cmd < 0) USAGE
    else if (r.call.npos != COMMANDS[r.call.cmd].arity) USAGE
    else r.call
  }

  // ---- the typist: chooses what to ask for and types it
  var toks: List[int]
  var want: Call          // what was asked for so far
  var slip: bool          // a mistake was made
  var done: bool          // the line is complete
  var lines: int

  // lists for choices by number
  pure val VALUED: List[int] = [T_DUT, T_XP, T_YP, T_SEQ, T_FRAME, T_ALT, T_RADIUS]

  action fresh = all {
    toks' = [], want' = BLANK, slip' = false, done' = false
  }
  action init = all { fresh, lines' = 0 }
  action typeOne(ts: List[int], w: Call, mistake: bool): bool = all {
    toks' = toks.concat(ts), want' = w, slip' = (slip or mistake), done' = false, lines' = lines
  }
  action enter(mistake: bool): bool = all {
    toks' = toks, want' = want, slip' = (slip or mistake), done' = true, lines' = lines + 1
  }
  action step = if (done) all { fresh, lines' = lines } else {
    nondet roll = 0.to(19).oneOf()
    nondet sub = 0.to(9).oneOf()
    nondet v = 0.to(N_MODELS - 1).oneOf()
    nondet cmd = 0.to(COMMANDS.length() - 1).oneOf()
    if (want.cmd < 0) {
      if (roll <= 2) typeOne([T_ELL, VAL + v], { ...want, ell: v }, false)
      else if (roll == 3 and sub == 0) typeOne([T_ELL, BADVAL], want, true)
      else if (roll == 3 and sub == 1) typeOne([T_OUT, BADVAL], want, true)
      else if (roll == 3 and sub == 2) typeOne([T_PREC, BADVAL], want, true)
      else if (roll == 3 and sub == 3) typeOne([T_OUT, T_PREC], want, true)
      else if (roll == 3 and sub == 4) enter(true)
      else if (roll == 3 and sub == 5) typeOne([T_UNKNOWN], want, true)
      else if (roll <= 6) typeOne([T_OUT, VAL + v % 2], { ...want, out: v % 2 }, false)
      else if (roll <= 9) typeOne([T_PREC, VAL + v % 19], { ...want, prec: v % 19 }, false)
      else if (roll == 10 and sub == 0) typeOne([UNKNOWN_CMD], { ...want, cmd: cmd }, true)
      else typeOne([cmd], { ...want, cmd: cmd }, false)
    } else {
      val full = want.npos >= COMMANDS[want.cmd].arity
      val o = VALUED[v % 7]
      if (roll == 19 and sub == 0) typeOne([T_UNKNOWN], want, true)
      else if (roll == 19 and sub == 1) enter(not(full))
      else if (roll == 19 and sub == 2) typeOne([POS], { ...want, npos: want.npos + 1 }, full)
      else if (roll == 19 and sub == 3 and has(want.cmd, o)) typeOne([o, T_UNKNOWN], want, true)
      else if (roll >= 16 and has(want.cmd, T_DEG) and sub < 6)
        if (sub < 4) typeOne([T_NODEG], { ...want, opts: want.opts.put(T_DEG, 0) }, false)
        else typeOne([T_DEG], { ...want, opts: want.opts.put(T_DEG, 1) }, false)
      else if (roll >= 12 and has(want.cmd, T_FNA) and sub < 3)
        if (sub < 2) typeOne([T_FNA], { ...want, opts: want.opts.put(T_FNA, 1) }, false)
        else typeOne([T_NOFNA], { ...want, opts: want.opts.put(T_FNA, 0) }, false)
      else if (roll >= 12 and has(want.cmd, o))
        typeOne([o, VAL + cmd], { ...want, opts: want.opts.put(o, cmd) }, false)
      else if (full) enter(false)
      else typeOne([POS], { ...want, npos: want.npos + 1 }, false)
    }
  }

  // options of the command first, then its arguments
  pure def sorted(ts: List[int]): List[int] =
    ts.select(t => t != POS).concat(ts.select(t => t == POS))
  val asked: Call = if (slip or want.cmd < 0 or want.npos != COMMANDS[want.cmd].arity) USAGE else want
  val inv = and {
    done implies meaning(toks) == asked,
    // a prefix of a correct line is not yet a mistake
    not(slip) implies toks.foldl({ call: BLANK, pending: 0 }, (acc, t) => read(acc, t)) == { call: want, pending: 0 },
    // where the options of a command stand does not matter
    (done and not(slip)) implies meaning(sorted(toks)) == meaning(toks),
    // repeating the line's own options changes nothing; a surplus argument is a mistake
    (done and not(meaning(toks).usage)) implies meaning(toks.append(POS)).usage,
  }
}
