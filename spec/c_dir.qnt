// Trace specification of directions: n-vectors, lines of sight and angular
// separations.
module c_dir {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import geod.* from "./geod"

  pure val OP_nvec: int = 1
  pure val OP_nvgeo: int = 2
  pure val OP_nvof: int = 3
  pure val OP_nvto: int = 4
  pure val OP_ndist: int = 5
  pure val OP_slerp: int = 6
  pure val OP_nmean: int = 7
  pure val OP_xtrack: int = 8
  pure val OP_cross: int = 9
  pure val OP_sight: int = 10
  pure val OP_sep: int = 11
  pure val OP_hav: int = 12
  pure val OP_below: int = 13

  type St = int
  pure val ST0: St = 0
  type Verdict = { next: St, clause: str, case: str }
  pure def ok(c: str): Verdict = { next: 0, clause: "", case: c }
  pure def no(why: str, c: str): Verdict = { next: 0, clause: why, case: c }
  pure def ang(u: int, x: int): int = if (u == 0) rad(x) else x
  pure val EPS: int = 2 * em(15)
  // points within ten nanometres of the axis count as on it
  pure val AXIS: int = 11 * em(9)

  pure def unit(v: V3): V3 = { val n = norm(v) (div(v._1, n), div(v._2, n), div(v._3, n)) }
  pure def at(w: List[int], i: int): V3 = (w[i], w[i + 1], w[i + 2])
  pure def normal(lat: int, lon: int): V3 = {
    val p = sincos(lat)
    val l = sincos(lon)
    (mul(p._2, l._2), mul(p._2, l._1), p._1)
  }
  // foot of the ellipsoid's normal n
  pure def foot(el: Ell, n: V3): V3 = {
    val k = div(el.a, sqrt(S - mul(el.e2, sqr(n._3))))
    (mul(k, n._1), mul(k, n._2), mul(mul(k, S - el.e2), n._3))
  }
  // angle between two vectors
  pure def between(u: V3, v: V3): int = atan2(norm(vcross(u, v)), dot(u, v))
  pure def isUnit(v: V3): bool = iabs(norm(v) - S) < 2 * EPS

  // payload: unit lat lon | n1 n2 n3
  pure def nvec(w: List[int]): Verdict =
    if (not(allNum(w))) no("not-a-number", "n-vector")
    else if (dist(at(w, 3), normal(ang(asInt(w[0]), w[1]), ang(asInt(w[0]), w[2]))) > EPS + mul(EPS, ang(asInt(w[0]), iabs(w[2])))) no("another-normal", "n-vector")
    else ok("n-vector")
  // payload: unit n1 n2 n3 | lat lon
  pure def nvgeo(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val c = if (w[1] == 0 and w[2] == 0) "pole" else "position"
    if (not(allNum(w))) no("not-a-number", c)
    else if (iabs(ang(u, w[4])) > HALFPI + em(14)) no("latitude-beyond-pole", c)
    else if (iabs(ang(u, w[5])) > PI + em(14)) no("longitude-beyond-half-turn", c)
    else {
      val n = unit(at(w, 1))
      // the longitude in its own right, except at the poles
      val h = hyp2(n._1, n._2)
      if (dist(n, normal(ang(u, w[4]), ang(u, w[5]))) > EPS) no("another-position", c)
      else if (h > em(25) and angDiff(atan2(n._2, n._1), ang(u, w[5])) > EPS) no("another-longitude", c)
      else ok(c)
    }
  }
  // payload: a b x y z | n1 n2 n3
  pure def nvof(w: List[int]): Verdict = {
    val el = ellOf(w[0], w[1])
    val p = at(w, 2)
    val n = at(w, 5)
    val r = norm(p)
    val c = if (p._1 == 0 and p._2 == 0) "pole" else if (r < el.b) "deep" else "point"
    if (not(allNum(w))) no("not-a-number", c)
    else if (not(isUnit(n))) no("not-a-unit-vector", c)
    else {
      val d = vsub(p, foot(el, n))
      // the normal through the foot passes through the point
      if (norm(vcross(d, n)) > mul(el.a, 3 * EPS) + mul(r, 2 * EPS) + AXIS) no("normal-misses-the-point", c)
      else if (dot(p, n) < 0) no("far-side", c)
      else ok(c)
    }
  }
  // payload: a b n1 n2 n3 h | x y z
  pure def nvto(w: List[int]): Verdict = {
    val el = ellOf(w[0], w[1])
    val n = unit(at(w, 2))
    val p = vadd(foot(el, n), vscale(w[5], n))
    if (not(allNum(w))) no("not-a-number", "to-ecef")
    else if (dist(p, at(w, 6)) > mul(el.a + iabs(w[5]), 2 * EPS)) no("another-point", "to-ecef")
    else ok("to-ecef")
  }
  // the default: the sphere of WGS84's volume, to the third order in the flattening
  pure val WGS84: Ell = ellOf(6378137 * S, 635675231424517949757 * S / 10^14)
  pure val EQAVOL: int = mul(WGS84.a, exp(log(S - WGS84.f) / 3))
  pure def radiusOf(x: int): int = if (x == NONE) EQAVOL else x
  pure def radiusSlack(x: int): int = if (x == NONE) mul(EQAVOL, em(8) / 2) else 0

  // payload: radius|NONE n1(3) n2(3) | distance
  pure def ndist(w: List[int]): Verdict = {
    val r = radiusOf(w[0])
    val t = between(at(w, 1), at(w, 4))
    val c = if (t == 0) "same" else if (t < em(7)) "close" else if (PI - t < em(7)) "opposite" else "apart"
    if (not(isNum(w[7]))) no("not-a-number", c)
    else if (iabs(w[7] - mul(r, t)) > mul(r, EPS) + mul(radiusSlack(w[0]), t)) no("another-distance", c)
    else ok(c)
  }
  // payload: n1(3) n2(3) fraction | n(3)
  pure def slerp(w: List[int]): Verdict = {
    val u = unit(at(w, 0))
    val v = unit(at(w, 3))
    val t = between(u, v)
    val c = if (t < em(7)) "close" else if (PI - t < em(3)) "nearly-opposite" else "arc"
    if (not(allNum(w))) no("not-a-number", c)
    else if (not(isUnit(at(w, 7)))) no("not-a-unit-vector", c)
    else {
      val st = sin(t)
      val y = if (t < em(20)) u else {
        val p = sincos(mul(t, w[6]))
        val q = sincos(t - mul(t, w[6]))
        vadd(vscale(div(q._1, st), u), vscale(div(p._1, st), v))
      }
      val tol = 3 * EPS + (if (dot(u, v) < 0) div(3 * EPS, imax(TINY, st)) else 0)
      if (dist(at(w, 7), y) > tol) no("another-point", c) else ok(c)
    }
  }
  // payload: count n(3)*count | n(3)
  pure def nmean(w: List[int]): Verdict = {
    val k = asInt(w[0])
    val sum = range(0, k).foldl((0, 0, 0), (acc, i) => vadd(acc, at(w, 1 + 3 * i)))
    val len = norm(sum)
    val got = at(w, 1 + 3 * k)
    if (len < em(9)) ok("no-mean")
    else if (not(allNum(w))) no("not-a-number", "n-mean")
    else if (dist(got, unit(sum)) > 2 * EPS + div(2 * k * EPS, len)) no("another-mean", "n-mean")
    else ok("n-mean")
  }
  // payload: radius|NONE n1(3) n2(3) p(3) | distance, positive to the left of the way from n1 to n2
  pure def xtrack(w: List[int]): Verdict = {
    val r = radiusOf(w[0])
    val k = vcross(at(w, 1), at(w, 4))
    val len = norm(k)
    val p = at(w, 7)
    val want = atan2(dot(k, p), norm(vcross(k, p)))
    val c = if (want > 0) "left" else if (want < 0) "right" else "on-track"
    if (len < em(9)) ok("no-path")
    else if (not(isNum(w[10]))) no("not-a-number", c)
    else if (iabs(w[10] - mul(r, want)) > mul(r, 2 * EPS + div(EPS, len)) + mul(radiusSlack(w[0]), iabs(want))) no("another-distance", c)
    else ok(c)
  }
  // payload: n1..n4(3 each) | n(3)
  pure def crossing(w: List[int]): Verdict = {
    val c1 = vcross(at(w, 0), at(w, 3))
    val c2 = vcross(at(w, 6), at(w, 9))
    val i = vcross(c1, c2)
    val len = norm(i)
    val got = at(w, 12)
    val mid = vadd(vadd(at(w, 0), at(w, 3)), vadd(at(w, 6), at(w, 9)))
    if (len < em(9)) ok("same-circle")
    else if (not(allNum(w))) no("not-a-number", "crossing")
    else {
      val side = dot(unit(i), mid)
      val tol = 2 * EPS + div(6 * EPS, len)
      val want = if (side < 0) vscale(-S, unit(i)) else unit(i)
      if (dist(got, want) <= tol) ok("crossing")
      else if (iabs(side) < 4 * tol and dist(got, vscale(-S, want)) <= tol) ok("either-crossing")
      else no("another-crossing", "crossing")
    }
  }
  // payload: unit a b lat lon h az tilt | lat lon range
  pure def sight(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val lat = ang(u, w[3])
    val lon = ang(u, w[4])
    val up = normal(lat, lon)
    val p = vadd(foot(el, up), vscale(w[5], up))
    val l = sincos(lon)
    val t = sincos(lat)
    val ea = (-(l._1), l._2, 0)
    val no_ = (-(mul(t._1, l._2)), -(mul(t._1, l._1)), t._2)
    val z = sincos(ang(u, w[6]))
    val q = sincos(ang(u, w[7]))
    // straight down when the tilt is zero
    val d = vadd(vscale(mul(z._1, q._1), ea), vadd(vscale(mul(z._2, q._1), no_), vscale(-(q._2), up)))
    // scaled to the unit sphere: A t^2 + 2 B t + C = 0
    pure def flat(v: V3): V3 = (div(v._1, el.a), div(v._2, el.a), div(v._3, el.b))
    // (lengths in units of the major axis)
    val pf = flat(p)
    val df = (d._1, d._2, mul(div(el.a, el.b), d._3))
    val A = dot(df, df)
    val B = dot(pf, df)
    val C = dot(pf, pf) - S
    val disc = sqr(B) - mul(A, C)
    val r2 = dot(pf, pf)
    // rounding of the discriminant, whose terms are squares of the distance
    val slack = mul(40 * EPS, r2 + S)
    val root = sqrt(imax(0, disc))
    val tm = div(-B - root, A)
    val ttol = mul(10 * EPS, sqrt(r2) + S) + (if (disc <= 0) sqrt(slack) else div(slack, imax(root, sqrt(slack))))
    val grazing = iabs(disc) <= slack
    val miss = disc < 0 or tm < 0
    val c = if (grazing) "grazing" else if (disc < 0) "misses" else if (tm < 0) "looks-away" else if (w[5] == 0) "at-the-surface" else "meets"
    val none = w[8] == NAN and w[9] == NAN and w[10] == NAN
    val some = isNum(w[8]) and isNum(w[9]) and isNum(w[10])
    if (not(none or some)) no("neither-point-nor-nan", c)
    else if (none) (if (miss or grazing or iabs(tm) <= ttol) ok(c) else no("overlooked", c))
    else if (miss and not(grazing) and iabs(tm) > ttol) no("phantom", c)
    else {
      val s = vadd(p, vscale(w[10], d))
      // along a grazing ray the surface stays close for long
      val g = ttol
      if (w[10] < 0) no("negative-range", c)
      else if (iabs(div(w[10], el.a) - tm) > ttol) no("another-range", c)
      else if (dist(s, onSurface(el, ang(u, w[8]), ang(u, w[9]))) > mul(el.a, g + 10 * EPS) + mul(iabs(w[10]), 10 * EPS) + AXIS) no("point-off-the-ray", c)
      else ok(c)
    }
  }
  // payload: unit lon0 lat0 lon1 lat1 haversine(1)/any(0) | separation
  pure def sep(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val lon0 = ang(u, w[1])
    val lon1 = ang(u, w[3])
    val lat0 = ang(u, w[2])
    val lat1 = ang(u, w[4])
    // the chord keeps the digits of close directions, its complement those of opposite ones
    val a = normal(lat0, lon0)
    val b = normal(lat1, lon1)
    val t = 2 * atan2(dist(a, b), norm(vadd(a, b)))
    val c = if (t == 0) "equal" else if (t < em(8)) "tiny" else if (PI - t < em(6)) "opposite" else "apart"
    if (not(isNum(w[6]))) no("not-a-number", c)
    else {
      val got = ang(u, w[6])
      // rounding of the arguments, and of the haversine near one
      val half = imax(TINY, norm(vadd(a, b)) / 2)
      val tol = mul(5 * em(16), iabs(lat0) + iabs(lat1) + iabs(lon0) + iabs(lon1)) + mul(EPS, t) + 2^30
        + (if (w[5] != 0 and t > HALFPI) imin(em(7), div(EPS, half)) else 0)
      if (got < 0 or got > PI + EPS) no("outside-half-turn", c)
      else if (lat0 == lat1 and lon0 == lon1 and got != 0 ) no("equal-directions-apart", c)
      else if (iabs(got - t) > tol) no("another-separation", c)
      else ok(c)
    }
  }
  // payload: outcome (1: ValueError, 0: answered, 2: another failure), the heights asked for
  pure def below(w: List[int]): Verdict = {
    val neg = w.slice(1, w.length()).foldl(false, (acc, h) => acc or h < 0)
    if (neg and asInt(w[0]) != 1) no("negative-height-accepted", "below-the-surface")
    else if (not(neg) and asInt(w[0]) != 0) no("height-rejected", "on-the-surface")
    else ok(if (neg) "below-the-surface" else "on-the-surface")
  }
  // payload: angle | haversine
  pure def hav(w: List[int]): Verdict = {
    val want = sqr(sin(w[0] / 2))
    if (not(isNum(w[1]))) no("not-a-number", "haversine")
    else if (iabs(w[1] - want) > mul(want, EPS) + 2^40) no("another-haversine", "haversine")
    else ok("haversine")
  }

  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_nvec) nvec(w)
    else if (op == OP_nvgeo) nvgeo(w)
    else if (op == OP_nvof) nvof(w)
    else if (op == OP_nvto) nvto(w)
    else if (op == OP_ndist) ndist(w)
    else if (op == OP_slerp) slerp(w)
    else if (op == OP_nmean) nmean(w)
    else if (op == OP_xtrack) xtrack(w)
    else if (op == OP_cross) crossing(w)
    else if (op == OP_sight) sight(w)
    else if (op == OP_sep) sep(w)
    else if (op == OP_below) below(w)
    else hav(w)
}
