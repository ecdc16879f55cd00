// Trace specification of time parsing, Julian dates and sidereal time.
module c_time {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import time.* from "./time"

  pure val OP_jd: int = 1
  pure val OP_gmst: int = 2
  pure val OP_lst: int = 3
  pure val OP_leap: int = 4
  pure val OP_parse: int = 5
  pure val OP_era: int = 6

  type St = int
  pure val ST0: St = 0
  type Verdict = { next: St, clause: str, case: str }
  pure def ok(c: str): Verdict = { next: 0, clause: "", case: c }
  pure def no(why: str, c: str): Verdict = { next: 0, clause: why, case: c }
  pure def unless(cond: bool, why: str, c: str): Verdict = if (cond) ok(c) else no(why, c)

  // eight words: year month day hour minute second microsecond, offset from UTC in microseconds
  pure def when(w: List[int], k: int): int =
    instant(asInt(w[k]), asInt(w[k + 1]), asInt(w[k + 2]), asInt(w[k + 3]), asInt(w[k + 4]), asInt(w[k + 5]),
            asInt(w[k + 6]), if (isNum(w[k + 7])) asInt(w[k + 7]) else 0)
  pure def zone(w: List[int], k: int): str = if (isNum(w[k + 7])) "aware" else "naive"

  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_jd) {
      if (not(isNum(w[8]))) no("not-a-number", "jd")
      else unless(iabs(w[8] - julianDate(when(w, 0))) <= em(9), "julian-date-of-another-instant", zone(w, 0))
    } else if (op == OP_gmst) {
      if (not(isNum(w[1]))) no("not-a-number", "gmst")
      else if (w[1] < 0 or w[1] > TAU) no("sidereal-time-outside-a-turn", "gmst")
      else unless(angDiff(w[1], gmst(w[0] - 2451545 * S)) <= em(9), "wrong-sidereal-time", "gmst")
    } else if (op == OP_era) {
      if (not(isNum(w[1]))) no("not-a-number", "era")
      else if (w[1] < 0 or w[1] > TAU) no("rotation-outside-a-turn", "era")
      else unless(angDiff(w[1], era(w[0] - 2451545 * S)) <= 2 * em(9), "wrong-rotation-of-the-Earth", "era")
    } else if (op == OP_lst) {
      // time lon dut1 result tol
      val t = when(w, 0)
      val g = gast(j2000days(t) + w[9] / 86400, centuries(j2000days(terrestrial(t))))
      if (not(isNum(w[10]))) no("not-a-number", "lst")
      else if (w[10] < 0 or w[10] > TAU) no("sidereal-time-outside-a-turn", "lst")
      else unless(angDiff(w[10], g + w[8]) <= w[11], "wrong-local-sidereal-time", zone(w, 0))
    } else if (op == OP_leap) {
      if (not(isNum(w[8]))) no("not-a-number", "leap")
      else unless(w[8] == leapSeconds(when(w, 0)) * S, "wrong-leap-seconds", "leap")
    } else if (op == OP_parse) {
      // expected fields, returned fields: the same wall clock and the same offset
      unless(range(0, 8).foldl(true, (acc, k) => acc and w[k] == w[k + 8]), "parsed-another-time", zone(w, 0))
    } else no("unknown-operation", "none")
}
