// Trace specification of auxiliary latitudes, radii of curvature, equivalent
// spheres, meridian distances and rhumb lines.
module c_lat {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import geod.* from "./geod"

  pure val OP_aux: int = 1
  pure val OP_radius: int = 2
  pure val OP_sphere: int = 3
  pure val OP_euler: int = 4
  pure val OP_arc: int = 5
  pure val OP_departure: int = 6
  pure val OP_rhumb: int = 7
  pure val OP_rhumbto: int = 8
  pure val OP_mean: int = 9

  type St = int
  pure val ST0: St = 0
  type Verdict = { next: St, clause: str, case: str }
  pure def ok(c: str): Verdict = { next: 0, clause: "", case: c }
  pure def no(why: str, c: str): Verdict = { next: 0, clause: why, case: c }
  pure def ang(u: int, x: int): int = if (u == 0) rad(x) else x

  // ---- series: what truncating them may cost, in radians ---------------------
  pure def pow(x: int, k: int): int = range(0, k).foldl(S, (acc, i) => mul(acc, x))
  pure def rectSlack(el: Ell): int = pow(el.f, 5) * 6 / 100
  pure def rectBackSlack(el: Ell): int = pow(el.f, 5) * 4 / 10
  pure def authSlack(el: Ell): int = pow(el.f, 4) * 22 / 10
  pure def confBackSlack(el: Ell): int = pow(el.f, 5) * 6
  // rounding of the latitude given and returned
  pure val EPS: int = 2 * em(15)

  // ---- auxiliary latitudes -----------------------------------------------------
  pure def curvN(el: Ell, sp: int): int = div(el.a, sqrt(S - mul(el.e2, sqr(sp))))
  // the meridian plane point of a geodetic latitude and height
  pure def inPlane(el: Ell, lat: int, h: int): (int, int) = {
    val p = sincos(lat)
    val n = curvN(el, p._1)
    (mul(n + h, p._2), mul(mul(n, S - el.e2) + h, p._1))
  }
  pure def geocentric(el: Ell, lat: int, h: int): int = { val p = inPlane(el, lat, h) atan2(p._2, p._1) }
  pure def conformal(el: Ell, lat: int): int =
    if (HALFPI - iabs(lat) < em(30)) lat else atan(sinh(isometric(el, lat)))
  pure def authalic(el: Ell, lat: int): int = {
    val b = reduced(el, lat)
    val s = div(zone(el, b._1, b._2), authalic2(el))
    // the complement keeps the digits next to the pole
    if (iabs(s) < S * 7 / 10) asin(s) else {
      // authalic2 - zone, by integrating the rest of the zone
      val p = iabs(lat)
      val rest = integral(t => {
        val u = sincos(t)
        val w = S - mul(el.e2, sqr(u._1))
        div(u._2, sqr(w))
      }, p, HALFPI)
      // 2 sin^2(x/2) = 1 - sin(authalic)
      val v = div(mul(sqr(el.b), rest), authalic2(el))
      val x = 2 * asin(sqrt(imax(0, v) / 2))
      sgn(lat) * (HALFPI - x)
    }
  }
  pure def rectifying(el: Ell, lat: int): int = mul(HALFPI, div(meridian(el, 0, lat), meridian(el, 0, HALFPI)))

  pure val GEOCENTRIC: int = 0
  pure val PARAMETRIC: int = 1
  pure val ISOMETRIC: int = 2
  pure val CONFORMAL: int = 3
  pure val AUTHALIC: int = 4
  pure val RECTIFYING: int = 5
  pure val DISTANCE: int = 6   // geodetic latitude from the centre's
  pure def auxOf(el: Ell, kind: int, lat: int, h: int): int =
    if (kind == GEOCENTRIC) geocentric(el, lat, h)
    else if (kind == PARAMETRIC) betaOf(el, lat)
    else if (kind == ISOMETRIC) isometric(el, lat)
    else if (kind == CONFORMAL) conformal(el, lat)
    else if (kind == AUTHALIC) authalic(el, lat)
    else rectifying(el, lat)
  pure def slackOf(el: Ell, kind: int, back: bool): int =
    if (kind == CONFORMAL or kind == ISOMETRIC) (if (back) confBackSlack(el) else 0)
    else if (kind == AUTHALIC) authSlack(el)
    else if (kind == RECTIFYING) (if (back) rectBackSlack(el) else rectSlack(el))
    else 0
  pure def kindName(kind: int): str =
    if (kind == GEOCENTRIC) "geocentric" else if (kind == PARAMETRIC) "parametric"
    else if (kind == ISOMETRIC) "isometric" else if (kind == CONFORMAL) "conformal"
    else if (kind == AUTHALIC) "authalic" else if (kind == RECTIFYING) "rectifying" else "distance"

  // payload: kind direction(0 from geodetic, 1 to it) unit a b x h | y
  pure def aux(w: List[int]): Verdict = {
    val kind = asInt(w[0])
    val back = w[1] != 0
    val u = asInt(w[2])
    val el = ellOf(w[3], w[4])
    val x = ang(u, w[5])
    val h = w[6]
    val c = kindName(kind)
    val y = w[7]
    val atPole = HALFPI - iabs(x) < em(9)
    val slack = slackOf(el, kind, back)
    if (kind == ISOMETRIC and not(back) and atPole)
      // infinite at the poles, and not far before them
      (if (y == (if (x > 0) PINF else NINF)) ok("isometric-pole")
       else if (isNum(y) and HALFPI - iabs(x) > em(12) and iabs(ang(u, y) - isometric(el, x)) < S / 100) ok("isometric-pole")
       else no("pole-not-at-infinity", c))
    else if (not(isNum(y))) no("not-a-number", c)
    else if (kind == DISTANCE) {
      // x geocentric latitude, h distance from the centre: the normal at y passes through the point
      val t = sincos(x)
      val q = sincos(ang(u, y))
      val n = curvN(el, q._1)
      val miss = mul(h, mul(t._1, q._2) - mul(t._2, q._1)) + mul(mul(el.e2, n), mul(q._1, q._2))
      val r = div(h, el.a)
      val tol = mul(pow(el.f, 3), div(S / 2, r) + div(S, pow(r, 4))) + EPS
      if (iabs(miss) > mul(h, tol)) no("normal-misses-the-point", c) else ok(c)
    }
    else if (iabs(ang(u, y)) > HALFPI + EPS and not(kind == ISOMETRIC and not(back)))
      (if (back and slack > em(12) and iabs(ang(u, y)) < HALFPI + slack) ok(c) else no("beyond-the-pole", c))
    else if (back and kind == ISOMETRIC) {
      val phi = ang(u, y)
      // compare conformal latitudes: the isometric one runs to infinity
      val want = atan(sinh(imax(-(60 * S), imin(60 * S, x))))
      if (iabs(conformal(el, phi) - want) > EPS + mul(EPS, iabs(x)) + slack) no("another-latitude", c) else ok(c)
    }
    else if (back) {
      if (iabs(auxOf(el, kind, ang(u, y), h) - x) > EPS + slack) no("another-latitude", c) else ok(c)
    }
    else {
      val want = auxOf(el, kind, x, h)
      val grow = if (kind == ISOMETRIC) div(S, imax(TINY, cos(x))) else S
      if (iabs(ang(u, y) - want) > mul(EPS, grow + iabs(want)) + slack) no("another-latitude", c)
      else if (x == 0 and iabs(ang(u, y)) > em(15)) no("equator-moved", c)
      else ok(c)
    }
  }

  // ---- radii --------------------------------------------------------------------
  // payload: kind unit a b lat | radius
  pure def radius(w: List[int]): Verdict = {
    val kind = asInt(w[0])
    val el = ellOf(w[2], w[3])
    val p = sincos(ang(asInt(w[1]), w[4]))
    val q = S - mul(el.e2, sqr(p._1))
    val n = div(el.a, sqrt(q))
    val m = div(mul(n, S - el.e2), q)
    val c = if (kind == 0) "meridian" else if (kind == 1) "transverse" else if (kind == 2) "parallel"
            else if (kind == 3) "geocentric" else if (kind == 4) "mean-curvature" else "gaussian-curvature"
    val want = if (kind == 0) m else if (kind == 1) n else if (kind == 2) mul(n, p._2)
               else if (kind == 3) hyp2(mul(n, p._2), mul(mul(n, S - el.e2), p._1))
               else if (kind == 4) (m + n) / 2
               else sqrt(mul(m, n))
    if (not(isNum(w[5]))) no("not-a-number", c)
    else if (iabs(w[5] - want) > mul(el.a, 3 * EPS)) no("another-radius", c)
    else ok(c)
  }
  pure def cbrt(x: int): int = exp(log(x) / 3)
  // payload: kind a b | radius
  pure def sphere(w: List[int]): Verdict = {
    val kind = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val c = if (kind == 0) "volume" else if (kind == 1) "area" else if (kind == 2) "meridian-length"
            else if (kind == 3) "triaxial-mean" else if (kind == 4) "triaxial-norm"
            else if (kind == 5) "biaxial-mean" else "biaxial-norm"
    val volume = mul(el.a, cbrt(S - el.f))
    val want = if (kind == 0) volume
      else if (kind == 1) sqrt(authalic2(el))
      else if (kind == 2) div(meridian(el, 0, HALFPI), HALFPI)
      else if (kind == 3) (2 * el.a + el.b) / 3
      else if (kind == 4) volume
      else if (kind == 5) (el.a + el.b) / 2
      else sqrt(mul(el.a, el.b))
    // the first is documented to second order, the third to third
    val slack = if (kind == 0) pow(el.f, 3) * 8 / 100 else if (kind == 2) pow(el.f, 4) * 15 / 10000 else 0
    if (not(isNum(w[3]))) no("not-a-number", c)
    else if (iabs(w[3] - want) > mul(el.a, 3 * EPS + slack)) no("another-radius", c)
    else ok(c)
  }
  // payload: unit a b lat1 lon1 lat2 lon2 s az(radians) slack | radius
  pure def euler(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val lat1 = ang(u, w[3])
    val lat2 = ang(u, w[5])
    val lon1 = ang(u, w[4])
    val c = "euler"
    if (not(allNum(w))) no("not-a-number", c)
    else {
      val st = leave(el, lat1, w[8])
      val en = after(st, lon1, arcOf(st, w[7]))
      if (dist(en.v, onSurface(el, lat2, ang(u, w[6]))) > mul(el.a, w[9])) no("azimuth-misses-the-second-point", c)
      else {
        val p = sincos((lat1 + lat2) / 2)
        val q = S - mul(el.e2, sqr(p._1))
        val n = div(el.a, sqrt(q))
        val m = div(mul(n, S - el.e2), q)
        val z = sincos(w[8])
        val want = div(mul(m, n), mul(m, sqr(z._1)) + mul(n, sqr(z._2)))
        // the azimuth is as good as the distance between the points lets it be
        val tol = 3 * EPS + mul(el.e2, em(8) + div(mul(el.a, w[9]), imax(em(9), w[7])))
        if (iabs(w[10] - want) > mul(el.a, tol)) no("another-radius", c) else ok(c)
      }
    }
  }

  // ---- lengths along meridians and parallels -----------------------------------------
  // payload: unit a b lat1 lat2 | length
  pure def arc(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val want = iabs(meridian(el, ang(u, w[3]), ang(u, w[4])))
    if (not(isNum(w[5]))) no("not-a-number", "meridian-arc")
    else if (w[5] < 0) no("negative-length", "meridian-arc")
    else if (iabs(w[5] - want) > mul(el.a, 2 * EPS + 2 * rectSlack(el)) + mul(want, 2 * EPS) + mul(want, pow(el.f, 4)) / 500) no("another-length", "meridian-arc")
    else ok("meridian-arc")
  }
  pure def parallelOf(el: Ell, lat: int): int = { val p = sincos(lat) mul(curvN(el, p._1), p._2) }
  // payload: unit a b lon1 lon2 lat | length
  pure def departure(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val r = parallelOf(el, ang(u, w[5]))
    val d = angDiff(ang(u, w[3]), ang(u, w[4]))
    val turns = iabs(ang(u, w[3])) + iabs(ang(u, w[4]))
    val c = if (d > 3 * S) "half-around" else "departure"
    if (not(isNum(w[6]))) no("not-a-number", c)
    else if (iabs(w[6] - mul(r, d)) > mul(el.a, EPS) + mul(r, mul(turns, EPS))) no("another-length", c)
    else ok(c)
  }

  // ---- rhumb lines -------------------------------------------------------------------
  // where the constant azimuth leads: latitude and longitude gained
  pure def rhumb(el: Ell, lat1: int, az: int, s: int): (int, int) = {
    val z = sincos(az)
    val st = { el: el, k2: el.ep2, sa0: 0, ca0: S, sg1: betaOf(el, lat1), om1: 0 }
    val dm = mul(s, z._2)
    val beta2 = st.sg1 + (if (dm < 0) -(arcBack(st, -dm)) else arcOf(st, dm))
    val lat2 = latOf(el, beta2)
    // (the sphere's isometric latitude runs off at the poles)
    val dlon = if (iabs(z._2) < em(20)) div(mul(s, z._1), parallelOf(el, lat1))
               else div(mul(z._1, isometric(el, lat2) - isometric(el, lat1)), z._2)
    (lat2, dlon)
  }
  // southwards: the meridian is symmetric about the equator
  pure def arcBack(st: Start, s: int): int = arcOf(st.with("sg1", -st.sg1), s)
  // payload: unit a b lat1 lon1 s az | lat2 lon2
  pure def rhumbEnd(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val lat1 = ang(u, w[3])
    val az = ang(u, w[6])
    val z = sincos(az)
    val c = if (w[5] == 0) "stays" else if (iabs(z._2) < em(9)) "east-west"
            else if (iabs(z._2) < em(3)) "nearly-east-west" else if (iabs(z._1) < em(12)) "north-south" else "rhumb"
    if (not(allNum(w))) no("not-a-number", c)
    else {
      val r = rhumb(el, lat1, az, w[5])
      val k = div(w[5], el.a)
      // latitude: rounding and the series there and back; radius of the rectifying sphere
      val tlat = 2 * mul(EPS, S + k) + rectSlack(el) + rectBackSlack(el) + mul(k, pow(el.f, 4)) / 400
      // longitude: the isometric latitudes' error times tan(azimuth); due east or west is a parallel
      val lat2 = ang(u, w[7])
      val cm = imax(em(6), imin(cos(lat1), cos(r._1)))
      val due = iabs(z._2) < em(9)
      val ew = if (due) div(mul(mul(k, k), em(9)), sqr(cm)) else 0
      val tlon = EPS + iabs(mul(EPS, ang(u, w[4]))) + mul(EPS, iabs(r._2)) + ew
        + (if (due) 0 else div(mul(iabs(z._1), mul(2 * EPS, S + k)), mul(cm, iabs(z._2))) + div(mul(EPS, iabs(r._2)), iabs(z._2))
                            + mul(iabs(r._2), div(10 * tlat, cm))
                            // rounding of the azimuth itself
                            + div(mul(mul(EPS, imin(iabs(az), 2 * TAU)), iabs(isometric(el, r._1) - isometric(el, lat1))), sqr(z._2)))
      if (iabs(lat2 - r._1) > tlat) no("another-latitude", c)
      else if (angDiff(ang(u, w[8]), ang(u, w[4]) + r._2) > imin(tlon, 3 * S)) no("another-longitude", c)
      else ok(c)
    }
  }
  // payload: unit a b lat1 lon1 lat2 lon2 | s az
  pure def rhumbTo(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val lat1 = ang(u, w[3])
    val lat2 = ang(u, w[5])
    val turns = iabs(ang(u, w[4])) + iabs(ang(u, w[6]))
    // the shorter way around; halfway is as good east as west
    val dlon = wrapPi(ang(u, w[6]) - ang(u, w[4]))
    val half = PI - iabs(dlon) < em(14)
    val toPole = HALFPI - iabs(lat2) < em(9) or HALFPI - iabs(lat1) < em(9)
    val c0 = if (lat1 == lat2 and dlon == 0) "coincident" else if (toPole) "pole" else if (lat1 == lat2) "parallel"
             else if (dlon == 0) "meridian" else if (half) "half-around" else if (iabs(ang(u, w[6]) - ang(u, w[4])) > PI) "antimeridian" else "rhumb-to"
    if (not(allNum(w))) no("not-a-number", c0)
    else {
      val s = w[7]
      val az = ang(u, w[8])
      val dm = iabs(meridian(el, lat1, lat2))
      val dpsi = if (toPole) 0 else isometric(el, lat2) - isometric(el, lat1)
      val hyp = hyp2(dpsi, dlon)
      val cm = imax(em(9), imin(cos(lat1), cos(lat2)))
      val tpsi = 2 * div(EPS, cm) + mul(EPS, turns) + mul(EPS, iabs(dpsi))
      val tm = mul(el.a, 2 * EPS + 2 * rectSlack(el)) + mul(dm, 2 * EPS) + mul(dm, pow(el.f, 4)) / 500
      val meets = mul(el.a, 4 * EPS)
      val along = if (iabs(dpsi) < em(24)) parallelOf(el, lat1) else div(dm, iabs(dpsi))
      val want = if (toPole) dm else mul(along, hyp)
      // exactly or nearly due east or west
      val flat = not(toPole) and iabs(dpsi) < mul(11 * em(10), iabs(dlon))
      val steep = iabs(dpsi) > mul(9 * em(10), iabs(dlon))
      // error of dm / |cos az|, cos az = dpsi / hyp
      val ts = if (toPole or hyp < em(20)) tm
               else (if (flat) mul(el.a, 2 * EPS) + mul(want, em(9) + div(em(9), cm)) + mul(along, mul(turns, EPS)) else 0)
                 + (if (steep) div(mul(tm, hyp), iabs(dpsi)) + mul(want, div(2 * tpsi, iabs(dpsi))) else 0)
      if (s < 0) no("negative-length", c0)
      else if (az < 0 or az > TAU) no("azimuth-outside-a-turn", c0)
      else if (iabs(s - want) > ts + meets) no("another-length", c0)
      else if (toPole) (if (lat1 == lat2 or angDiff(az, if (lat2 > lat1) 0 else PI) < em(9)) ok(c0) else no("another-azimuth", c0))
      else if (mul(along, hyp) < mul(el.a, 2 * EPS)) ok(c0)
      else if (angDiff(az, atan2(dlon, dpsi)) > 2 * EPS + div(tpsi, imax(TINY, hyp))
               and not(half and angDiff(az, atan2(-dlon, dpsi)) <= 2 * EPS + div(tpsi, hyp))) no("another-azimuth", c0)
      else ok(c0)
    }
  }
  // payload: unit a b n (lat lon)*n | lat lon
  pure def mean(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val n = asInt(w[3])
    val k = 4 + 2 * n
    if (not(allNum(w))) no("not-a-number", "mean")
    else {
      val sum = range(0, n).foldl((0, 0, 0), (acc, i) => {
        val t = sincos(authalic(el, ang(u, w[4 + 2 * i])))
        val l = sincos(ang(u, w[5 + 2 * i]))
        vadd(acc, (mul(t._2, l._2), mul(t._2, l._1), t._1))
      })
      val len = norm(sum)
      val tol = 4 * EPS + authSlack(el) * 2 + div(n * (2 * EPS + authSlack(el)), imax(TINY, len))
      val t = sincos(authalic(el, imax(-HALFPI, imin(HALFPI, ang(u, w[k])))))
      val l = sincos(ang(u, w[k + 1]))
      val v = (mul(t._2, l._2), mul(t._2, l._1), t._1)
      if (tol > S / 10) ok("no-mean")
      else if (dist(v, (div(sum._1, len), div(sum._2, len), div(sum._3, len))) > tol) no("another-mean", "mean")
      else if (iabs(ang(u, w[k])) > HALFPI + EPS + (if (authSlack(el) > em(12)) authSlack(el) else 0)) no("beyond-the-pole", "mean")
      else ok("mean")
    }
  }

  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_aux) aux(w)
    else if (op == OP_radius) radius(w)
    else if (op == OP_sphere) sphere(w)
    else if (op == OP_euler) euler(w)
    else if (op == OP_arc) arc(w)
    else if (op == OP_departure) departure(w)
    else if (op == OP_rhumb) rhumbEnd(w)
    else if (op == OP_rhumbto) rhumbTo(w)
    else mean(w)
}
