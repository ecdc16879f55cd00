// Trace specification of the documented domains: which arguments are rejected,
// and that everything else is answered with numbers in their ranges.
module c_valid {
  import fx.* from "./fx"
  import wire.* from "./wire"

  pure val OP_limit: int = 1
  pure val OP_answer: int = 2
  type St = { n: int }
  pure val ST0: St = { n: 0 }
  type Verdict = { next: St, clause: str, case: str }

  // ---- limits.  Rules of an argument (second word of a check: unit or parameter)
  pure val LAT: int = 1      // within a quarter turn; unit 0 degrees, 1 radians
  pure val NONNEG: int = 2   // not negative
  pure val ATLEAST: int = 3  // a count, at least the parameter
  pure val CHOICE: int = 4   // 0: among the documented choices, -1: not; parameter 3: a key of a table
  pure val ORDER: int = 5    // first >= second
  // verdict on one value: 0 inside, 1 at the limit (rounding may decide), 2 outside
  pure val HALFTURN: int = 90 * S
  pure val EPS: int = S / 10^13
  pure def beyond(rule: int, u: int, x: int): int =
    if (rule == LAT) {
      // infinities are beyond every limit
      if (x >= PINF or x <= NINF) 2
      else {
        val over = iabs(x) - (if (u == 0) HALFTURN else PI / 2)
        if (over > EPS * (if (u == 0) 20 else 1)) 2
        // a quarter turn itself, as the nearest float of either unit, is inside
        else if (over > 0 and not(u == 1 and over < 2^73)) 1 else 0
      }
    }
    else if (rule == NONNEG) (if (x < 0) 2 else 0)
    else if (rule == ATLEAST) (if (x < u * S) 2 else 0)
    else (if (x < 0) 2 else 0)
  // the exceptions that say so (1 ValueError, 2 KeyError, 3 AssertionError)
  pure def rejection(rule: int, u: int): Set[int] =
    if (rule == CHOICE and u == 3) Set(1, 2) else if (rule == ORDER) Set(1, 3) else Set(1)

  type Scan = { at: int, worst: int, errors: Set[int] }
  pure def scan(w: List[int]): Scan =
    range(0, asInt(w[0])).foldl({ at: 1, worst: 0, errors: Set() }, (s, k) => {
      val rule = asInt(w[s.at])
      val u = asInt(w[s.at + 1])
      val m = asInt(w[s.at + 2])
      val xs = w.slice(s.at + 3, s.at + 3 + m)
      val v = if (rule == ORDER) (if (xs[0] < xs[1]) 2 else 0)
              else xs.foldl(0, (acc, x) => { val b = beyond(rule, u, x) if (b > acc) b else acc })
      { at: s.at + 3 + m, worst: if (v > s.worst) v else s.worst,
        errors: if (v > 0) s.errors.union(rejection(rule, u)) else s.errors }
    })
  pure def limit(st: St, w: List[int]): Verdict = {
    val s = scan(w)
    val o = asInt(w[s.at])     // 0 answered with numbers, 1..3 and 9 exceptions, 8 no number
    val case = if (s.worst == 2) "outside" else if (s.worst == 1) "at-limit" else "inside"
    def say(why: str): Verdict = { next: { n: st.n + 1 }, clause: why, case: case }
    if (s.worst == 2) say(if (s.errors.contains(o)) "" else if (o == 0 or o == 8) "invalid-accepted" else "wrong-exception")
    else if (s.worst == 1) say(if (o == 0 or s.errors.contains(o)) "" else "limit-outcome")
    else say(if (o == 0) "" else if (o == 8) "not-finite" else "valid-rejected")
  }

  // ---- degenerate but valid
  pure val WIDTH: List[int] = [0, 1, 1, 1, 1, 1, 3, 3, 3, 3, 3, 2, 2, 9]
  // is a result of this group in its range? (q: a quarter turn in the unit of the results)
  // (rule 5, 11: lengths with signs; 10: the longitude is that of the arguments)
  pure def inRange(grp: int, r: List[int], q: int, rule: int): bool = {
    val qq = q + q / 10^14
    if (grp == 3) rule == 5 or rule == 11 or r[0] >= 0
    else if (grp == 8) iabs(r[0]) <= qq and (rule == 10 or iabs(r[1]) <= 2 * qq)
    else if (grp == 9) iabs(r[0]) <= qq and r[2] >= 0
    else if (grp == 10) r[0] >= 0 and r[0] <= 4 * qq and iabs(r[1]) <= qq and r[2] >= 0
    else if (grp == 11) iabs(r[0]) <= qq
    else if (grp == 12) r[0] >= 0 and r[0] <= 4 * qq and iabs(r[1]) <= qq
    else if (grp == 13) r.foldl(true, (acc, x) => acc and iabs(x) <= S + S / 10^14)
    else true
  }
  pure def ranged(grps: List[int], r: List[int], q: int, rule: int): bool =
    grps.foldl((0, true), (acc, g) =>
      (acc._1 + WIDTH[g], acc._2 and inRange(g, r.slice(acc._1, acc._1 + WIDTH[g]), q, rule)))._2

  pure def nearPole(lat: int, margin: int): bool = iabs(lat) > PI / 2 - margin
  pure def crossV(w: List[int], i: int, j: int): List[int] = {
    val x = mul(w[i + 1], w[j + 2]) - mul(w[i + 2], w[j + 1])
    val y = mul(w[i + 2], w[j]) - mul(w[i], w[j + 2])
    val z = mul(w[i], w[j + 1]) - mul(w[i + 1], w[j])
    [x, y, z]
  }
  // square of the length of the cross product
  pure def cross2(w: List[int], i: int, j: int): int =
    crossV(w, i, j).foldl(0, (acc, x) => acc + mul(x, x))
  pure val TINY: int = S / 10^14

  // payload: rule, exception, results in degrees, a, b, n, n arguments (angles
  // in radians), number of groups, groups, results
  pure def answer(st: St, w: List[int]): Verdict = {
    val rule = asInt(w[0])
    val err = asInt(w[1])
    val n = asInt(w[5])
    val g = w.slice(6, 6 + n)
    val m = asInt(w[6 + n])
    val grps = w.slice(7 + n, 7 + n + m).foldl([], (acc, x) => acc.append(asInt(x)))
    val r = w.slice(7 + n + m, w.length())
    val q = if (asInt(w[2]) == 1) 90 * S else PI / 2
    // is the answer undefined for these arguments?
    val undefined =
      if (rule == 2) nearPole(g[0], S / 10^9) or nearPole(g[2], S / 10^9)
      else if (rule == 3) true
      else if (rule == 5) cross2(g, 0, 3) < TINY or (n == 12 and (cross2(g, 6, 9) < TINY or cross2(crossV(g, 0, 3).concat(crossV(g, 6, 9)), 0, 3) < TINY))
      else if (rule == 6) cross2(g, 0, 3) < TINY and mul(g[0], g[3]) + mul(g[1], g[4]) + mul(g[2], g[5]) < 0
      else if (rule == 7) false
      else if (rule == 8) true
      else false
    val numbers = allNum(r)
    val case = if (undefined) "undefined" else if (rule == 4 and r[0] == NAN) "no-intersection" else "answered"
    def say(why: str): Verdict = { next: { n: st.n + 1 }, clause: why, case: case }
    // a great circle between antipodes is rejected
    if (rule == 7 and err == 1 and antipodal(g)) say("")
    else if (err != 0) say(if (undefined) "" else "exception")
    else if (rule == 1) {
      // infinite at the poles, and only there
      val cosl = PI / 2 - iabs(g[0])
      if (cosl < S / (2 * 10^9)) say(if (r[0] == (if (g[0] > 0) PINF else NINF)) "" else "infinite-at-the-pole")
      else if (cosl < 2 * (S / 10^9)) say("")
      else say(if (numbers) "" else "not-finite")
    }
    else if (rule == 4) say(if (numbers) (if (ranged(grps, r, q, rule)) "" else "range")
                            else if (r.foldl(true, (acc, x) => acc and x == NAN)) "" else "partly-a-number")
    else if (undefined) say("")
    else if (not(numbers)) say("not-finite")
    else if (not(ranged(grps, r, q, rule))) say("range")
    else say("")
  }
  // latitudes and longitudes of opposite points (as seen by the haversine formula)
  pure def antipodal(g: List[int]): bool = {
    val d = hav(g[2] - g[0]) + mul(mul(cos(g[0]), cos(g[2])), hav(g[3] - g[1]))
    d > S - S / 10^10
  }
  pure def hav(x: int): int = (S - cos(x)) / 2

  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_limit) limit(st, w) else answer(st, w)
}
