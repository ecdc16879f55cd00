// Trace specification of geodesics: Karney's and Vincenty's solutions, lines,
// tracks and polygons.
module c_geod {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import geod.* from "./geod"

  pure val OP_inverse: int = 1
  pure val OP_direct: int = 2
  pure val OP_line: int = 3
  pure val OP_polygon: int = 4
  pure val OP_same: int = 5

  type St = int
  pure val ST0: St = 0
  type Verdict = { next: St, clause: str, case: str }
  pure def ok(c: str): Verdict = { next: 0, clause: "", case: c }
  pure def no(why: str, c: str): Verdict = { next: 0, clause: why, case: c }
  pure def ang(u: int, x: int): int = if (u == 0) rad(x) else x

  // kind of problem, for the coverage
  pure def kindOf(el: Ell, p: V3, q: V3, lat1: int): str = {
    val d = dist(p, q)
    val o = norm(vadd(p, q))
    if (d < mul(el.a, em(12))) "coincident"
    else if (o < mul(el.a, em(1))) "near-antipodal"
    else if (iabs(lat1) < em(9)) "from-the-equator"
    else if (HALFPI - iabs(lat1) < em(9)) "from-a-pole"
    else if (d < mul(el.a, em(4))) "short"
    else "ordinary"
  }
  // azimuths turn quickly next to a pole
  pure def azTol(el: Ell, en: End, tol: int): int = imin(4 * S, tol + div(4 * tol, en.cb))

  // the series of the distance, which gives latitude and azimuth, is more accurate than that of the longitude
  pure def fineness(el: Ell, s: int): int = {
    val f2 = sqr(el.f)
    mul(S + div(iabs(s), el.a), 8 * em(15) + mul(mul(sqr(f2), mul(f2, el.f)), 4 * em(4)))
  }
  // payload: unit a b lat1 lon1 lat2 lon2 relTolerance azTolerance(-1: no azimuth there) | s az1 az2
  pure def inverse(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val lat1 = ang(u, w[3])
    val lon1 = ang(u, w[4])
    val p = onSurface(el, lat1, lon1)
    val q = onSurface(el, ang(u, w[5]), ang(u, w[6]))
    val c = kindOf(el, p, q, lat1)
    if (not(allNum(w.slice(9, 11)))) no("not-a-number", c)
    else {
      val s = w[9]
      val tol = mul(el.a, w[7])
      val st = leave(el, lat1, ang(u, w[10]))
      val en = after(st, lon1, arcOf(st, s))
      if (s < 0) no("negative-distance", c)
      else if (dist(en.v, q) > tol + mul(s, w[7])) no("misses-the-second-point", c)
      else if (en.arc > PI + 4 * w[7]) no("not-the-shortest", c)
      else if (iabs(ang(u, w[10])) > TAU + em(12)) no("azimuth-outside-a-turn", c)
      else if (w[8] < 0) ok(c)
      else if (iabs(reduced(el, ang(u, w[5]))._1 - en.sb) > fineness(el, s)) no("misses-the-second-latitude", c)
      else if (not(isNum(w[11]))) no("not-a-number", c)
      else if (c != "coincident" and angDiff(ang(u, w[11]), en.azi) > azTol(el, en, w[8])) no("another-azimuth-there", c)
      else ok(c)
    }
  }
  // payload: unit a b lat1 lon1 az1 s relTolerance azTolerance | lat2 lon2 az2
  pure def direct(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val en = travel(el, ang(u, w[3]), ang(u, w[4]), ang(u, w[5]), w[6])
    val turns = iabs(en.arc) / TAU
    val c = if (w[6] == 0) "stays" else if (turns > 0) "beyond-a-turn" else if (w[6] < 0) "backwards" else "direct"
    if (not(allNum(w.slice(9, 11)))) no("not-a-number", c)
    else if (iabs(ang(u, w[9])) > HALFPI + em(13)) no("latitude-beyond-pole", c)
    else {
      val tol = mul(el.a + iabs(w[6]), w[7])
      val fine = fineness(el, w[6])
      if (dist(onSurface(el, ang(u, w[9]), ang(u, w[10])), en.v) > tol) no("ends-elsewhere", c)
      else if (w[8] < 0) ok(c)
      else if (iabs(reduced(el, ang(u, w[9]))._1 - en.sb) > fine) no("ends-at-another-latitude", c)
      else if (not(isNum(w[11]))) no("not-a-number", c)
      else if (angDiff(ang(u, w[11]), en.azi) > azTol(el, en, 5 * fine)) no("another-azimuth-there", c)
      else ok(c)
    }
  }
  // payload: unit a b lat1 lon1 lat2 lon2 relTolerance s az1 n (lat lon)*n
  pure def line(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val lat1 = ang(u, w[3])
    val lon1 = ang(u, w[4])
    val n = asInt(w[10])
    val c = if (n < 0) "no-line" else if (n < 4) "short-line" else "line"
    if (n < 0 or w.length() != 11 + 2 * n or not(allNum(w))) no("not-a-line", c)
    else {
      val q = onSurface(el, ang(u, w[5]), ang(u, w[6]))
      val tol = mul(el.a, w[7])
      val st = leave(el, lat1, ang(u, w[9]))
      def at(i) = after(st, lon1, arcOf(st, if (n == 1) 0 else w[8] * i / (n - 1)))
      def point(i) = onSurface(el, ang(u, w[11 + 2 * i]), ang(u, w[12 + 2 * i]))
      if (n > 1 and dist(point(n - 1), q) > tol) no("last-point-missed", c)
      else if (n > 0 and dist(point(0), onSurface(el, lat1, lon1)) > tol) no("first-point-missed", c)
      else if (range(0, n).foldl(false, (bad, i) => bad or dist(point(i), at(i).v) > 2 * tol)) no("point-off-the-line", c)
      else ok(c)
    }
  }
  // payload: unit a b relTolerance n (lat lon s az)*n | area perimeter; s, az lead to the next corner
  pure def polygon(w: List[int]): Verdict = {
    val u = asInt(w[0])
    val el = ellOf(w[1], w[2])
    val n = asInt(w[4])
    val tol = mul(el.a, w[3])
    if (not(allNum(w))) no("not-a-number", "polygon")
    else {
      def corner(i) = 5 + 4 * (i % n)
      val r = range(0, n).foldl({ bad: false, area: 0, len: 0, lam: 0 }, (acc, i) => {
        val k = corner(i)
        val j = corner(i + 1)
        val lat = ang(u, w[k])
        val lon = ang(u, w[k + 1])
        val z = wrapPi(ang(u, w[k + 3]))
        val st = leave(el, lat, z)
        val en = after(st, lon, arcOf(st, w[k + 2]))
        { bad: acc.bad or dist(en.v, onSurface(el, ang(u, w[j]), ang(u, w[j + 1]))) > tol or en.arc > PI + 4 * w[3],
          area: acc.area + areaUnder(st, z, en), len: acc.len + w[k + 2],
          lam: acc.lam + wrapPi(ang(u, w[j + 1]) - lon) }
      })
      val around = iabs(r.lam) > PI
      val c = if (around) "around-a-pole" else if (n == 3) "triangle" else "polygon"
      val whole = 2 * mul(TAU, authalic2(el))
      val want = if (around) r.area + whole / 2 else r.area
      val k = w.length() - 2
      // a millionth of the tolerance times the radius per corner
      val areaTol = n * mul(el.a, tol)
      val off = fmod(w[k] - want + whole / 2, whole) - whole / 2
      if (r.bad) no("edge-is-no-geodesic", c)
      else if (iabs(w[k + 1] - r.len) > n * tol) no("another-perimeter", c)
      else if (iabs(w[k]) > whole / 2 + areaTol) no("area-of-the-outside", c)
      else if (iabs(off) > areaTol) no("another-area", c)
      else ok(c)
    }
  }
  // two results of the same quantity: payload scale tolerance x y
  pure def same(w: List[int]): Verdict =
    if (not(allNum(w))) no("not-a-number", "relation")
    else if (iabs(w[2] - w[3]) > mul(w[0], w[1])) no("relation-broken", "relation")
    else ok("relation")

  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_inverse) inverse(w)
    else if (op == OP_direct) direct(w)
    else if (op == OP_line) line(w)
    else if (op == OP_polygon) polygon(w)
    else same(w)
}
