// Trace specification of the inertial transforms and what is built on them.
module c_eci {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import geo.* from "./geo"
  import time.* from "./time"
  import orient.* from "./orient"

  pure val OP_rotate: int = 1
  pure val OP_state: int = 2
  pure val OP_inverse: int = 3
  pure val OP_compose: int = 4
  pure val OP_same: int = 5
  pure val OP_direction: int = 6
  pure val OP_back: int = 7

  type St = int
  pure val ST0: St = 0
  type Verdict = { next: St, clause: str, case: str }
  pure def ok(c: str): Verdict = { next: 0, clause: "", case: c }
  pure def no(why: str, c: str): Verdict = { next: 0, clause: why, case: c }
  pure def unless(cond: bool, why: str, c: str): Verdict = if (cond) ok(c) else no(why, c)

  pure def when(w: List[int], k: int): int =
    instant(asInt(w[k]), asInt(w[k + 1]), asInt(w[k + 2]), asInt(w[k + 3]), asInt(w[k + 4]), asInt(w[k + 5]),
            asInt(w[k + 6]), if (isNum(w[k + 7])) asInt(w[k + 7]) else 0)
  pure def eop(w: List[int], k: int): Eop = { dut1: w[k], xp: w[k + 1], yp: w[k + 2] }
  pure def v3(w: List[int], k: int): V3 = (w[k], w[k + 1], w[k + 2])
  pure def orientation(w: List[int], toFixed: bool, k: int): M3 = {
    val r = inertialToFixed(when(w, k), eop(w, k + 8))
    if (toFixed) r else mt(r)
  }

  // dir(1: to fixed) time(8) dut1 xp yp p(3) q(3) tol
  pure def rotate(w: List[int]): Verdict = {
    val c = if (w[0] == S) "eci2ecef" else "ecef2eci"
    val p = v3(w, 12)
    val q = v3(w, 15)
    if (not(allNum(w.slice(15, 18)))) no("not-a-number", c)
    else if (iabs(norm(p) - norm(q)) > mul(em(14), norm(p)) + em(9)) no("length-not-preserved", c)
    else unless(dist(q, mv(orientation(w, w[0] == S, 1), p)) <= mul(w[18], norm(p)) + em(9), "wrong-orientation-of-the-Earth", c)
  }
  // dir time(8) dut1 xp yp p(3) v(3) q(3) u(3) tolpos tolrate
  pure def state(w: List[int]): Verdict = {
    val fixed = w[0] == S
    val c = if (fixed) "eci2ecef-state" else "ecef2eci-state"
    val p = v3(w, 12)
    val v = v3(w, 15)
    val q = v3(w, 18)
    val u = v3(w, 21)
    if (not(allNum(w.slice(18, 24)))) no("not-a-number", c)
    else {
      val r = orientation(w, true, 1)
      val rr = rateOf(when(w, 1), eop(w, 9))
      val q0 = if (fixed) mv(r, p) else mv(mt(r), p)
      // d/dt (R x) = R' x + R x'
      val u0 = if (fixed) vadd(mv(r, v), mv(rr, p)) else mv(mt(r), vsub(v, mv(rr, q0)))
      if (dist(q, q0) > mul(w[24], norm(p)) + em(9)) no("wrong-orientation-of-the-Earth", c)
      else unless(dist(u, u0) <= mul(w[25], norm(p)) + mul(w[24], norm(v)) + em(9), "velocity-not-the-derivative-of-position", c)
    }
  }
  // p(n) back(n) tol scale: a round trip returns to the start
  pure def inverse(w: List[int]): Verdict =
    if (not(allNum(w.slice(3, 6)))) no("not-a-number", "inverse")
    else unless(dist(v3(w, 0), v3(w, 3)) <= mul(w[6], w[7]) + em(9), "round-trip-does-not-return", "inverse")

  // src dst unit a b lat0 lon0 h0 time(8) dut1 xp yp p(3) q(3) tol; kinds of geo.qnt, 20 = ECI
  pure val K_ECI: int = 20
  pure def worldAt(w: List[int], k: int): World =
    { a: w[k + 1], b: w[k + 2], lat: if (w[k] == 0) rad(w[k + 3]) else w[k + 3], lon: if (w[k] == 0) rad(w[k + 4]) else w[k + 4],
      h: w[k + 5], e1: 0, e2: 0, e3: 0 }
  pure def pointOf(wd: World, deg: bool, k: int, p: V3): V3 =
    denote(wd, k, (if (deg and isAngle(k, 0)) rad(p._1) else p._1, if (deg and isAngle(k, 1)) rad(p._2) else p._2, p._3))
  pure def compose(w: List[int]): Verdict = {
    val c = if (asInt(w[0]) == K_ECI) (if (asInt(w[1]) == K_AER) "eci2aer" else "eci2geodetic")
            else (if (asInt(w[0]) == K_AER) "aer2eci" else "geodetic2eci")
    if (not(allNum(w.slice(22, 25)))) no("not-a-number", c)
    else {
      val wd = worldAt(w, 2)
      def at(k, p) = if (k == K_ECI) mv(orientation(w, true, 8), p) else pointOf(wd, w[2] == 0, k, p)
      val p = at(asInt(w[0]), v3(w, 19))
      val q = at(asInt(w[1]), v3(w, 22))
      unless(dist(p, q) <= mul(w[25], imax(norm(p), w[3])) + 2 * em(3), "denotes-another-point", c)
    }
  }
  // kind unit a b lat0 lon0 h0 p(3) q(3) tol: two representations of one point
  pure def same(w: List[int]): Verdict =
    if (not(allNum(w.slice(7, 13)))) unless(w.slice(7, 10) == w.slice(10, 13), "composition-differs", "same")
    else {
      val k = asInt(w[0])
      val wd = worldAt(w, 1)
      def at(p) = if (k == K_ECI or k == K_ECEF) p else pointOf(wd, w[1] == 0, k, p)
      val p = at(v3(w, 7))
      unless(dist(p, at(v3(w, 10))) <= mul(w[13], imax(norm(p), w[2])) + (if (k == K_AER) 2 * em(3) else 0), "composition-differs", "same")
    }
  // horizontal <-> equatorial: dir(1: to equatorial) time(8) dut1 lat lon (az el | ra dec)(2) result(2) tol frame (0 of date, 1 J2000)
  pure def unit2(a: int, b: int): V3 = {
    val x = sincos(a)
    val y = sincos(b)
    (mul(y._2, x._2), mul(y._2, x._1), y._1)
  }
  // direction in the equator-of-date system (x to the equinox) from azimuth, elevation
  pure def horizonToEquator(lat: int, lst: int, az: int, el: int): V3 = {
    val z = sincos(az)
    val e = sincos(el)
    val l = sincos(lat)
    // components: south-to-north n, east, up
    val n = mul(e._2, z._2)
    val east = mul(e._2, z._1)
    // meridian plane: towards the celestial equator point on the meridian, and the pole
    val m = mul(e._1, l._2) - mul(n, l._1)
    val pole = mul(e._1, l._1) + mul(n, l._2)
    val t = sincos(lst)
    (mul(m, t._2) - mul(east, t._1), mul(m, t._1) + mul(east, t._2), pole)
  }
  pure def direction(w: List[int]): Verdict = {
    val toEq = w[0] == S
    val c = if (toEq) "azel2radec" else "radec2azel"
    if (not(allNum(w.slice(14, 16)))) no("not-a-number", c)
    else if (w[14] < 0 or w[14] > 360 * S or iabs(w[15]) > 90 * S + em(9)) no("outside-documented-range", c)
    else {
      val t = when(w, 1)
      val lst = gast(ut1days(t, w[9]), centuries(j2000days(terrestrial(t)))) + rad(w[11])
      val a = (rad(w[12]), rad(w[13]))
      val b = (rad(w[14]), rad(w[15]))
      val h = if (toEq) a else b
      val q = if (toEq) b else a
      val d = horizonToEquator(rad(w[10]), lst, h._1, h._2)
      val tt = centuries(j2000days(terrestrial(t)))
      val sky = if (w[17] == 0) d else mv(mt(mm(nutationMatrix(tt), precession(tt))), d)
      unless(dist(sky, unit2(q._1, q._2)) <= w[16], "another-direction", c)
    }
  }

  // az el az el tol: the same direction again
  pure def back(w: List[int]): Verdict =
    if (not(allNum(w.slice(2, 4)))) no("not-a-number", "there-and-back")
    else if (w[2] < 0 or w[2] > 360 * S or iabs(w[3]) > 90 * S + em(9)) no("outside-documented-range", "there-and-back")
    else unless(dist(unit2(rad(w[0]), rad(w[1])), unit2(rad(w[2]), rad(w[3]))) <= w[4], "round-trip-does-not-return", "there-and-back")

  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_rotate) rotate(w)
    else if (op == OP_state) state(w)
    else if (op == OP_inverse) inverse(w)
    else if (op == OP_compose) compose(w)
    else if (op == OP_same) same(w)
    else if (op == OP_direction) direction(w)
    else if (op == OP_back) back(w)
    else no("unknown-operation", "none")
}
