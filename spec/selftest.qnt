// Known values and identities of the specification's own building blocks
// (`quint test`): published constants, textbook examples, inverses.
module selftest {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import geo.* from "./geo"
  import geod.* from "./geod"
  import time.* from "./time"
  import orient.* from "./orient"
  import cli.* from "./cli"
  import c_rel as R from "./c_rel"
  import c_lat as L from "./c_lat"
  import c_dir as D from "./c_dir"
  import c_valid as V from "./c_valid"

  pure val GRID: Set[int] = Set(-1570, -1000, -785, -1, 0, 1, 3, 333, 785, 786, 1570, 3141, 12345)
  pure def near(x: int, y: int, k: int): bool = iabs(x - y) <= em(k)

  run arithmeticTest = all {
    // pi and ln 2 to 36 digits
    assert(near(PI, ratio(3141592653589793238462643383279502884, 10^36), 35)),
    assert(near(LN2, ratio(693147180559945309417232121458176568, 10^36), 35)),
    assert(near(TAU, 2 * PI, 37)), assert(near(HALFPI, PI / 2, 37)),
    assert(near(sqrt(2 * S), ratio(1414213562373095048801688724209698079, 10^36), 35)),
    assert(isqrt(10^60) == 10^30), assert(isqrt(10^60 - 1) == 10^30 - 1), assert(isqrt(0) == 0), assert(isqrt(3) == 1),
    assert(near(exp(S), ratio(2718281828459045235360287471352662498, 10^36), 34)),
    assert(GRID.forall(k => { val q = sincos(k * S / 1000) near(sqr(q._1) + sqr(q._2), S, 36) })),
    assert(GRID.forall(k => GRID.forall(m => {
      val p = sincos(k * S / 1000)
      val q = sincos(m * S / 1000)
      near(sin((k + m) * S / 1000), mul(p._1, q._2) + mul(p._2, q._1), 34) }))),
    assert(GRID.forall(k => { val q = sincos(k * S / 1000) angDiff(atan2(q._1, q._2), k * S / 1000) < em(33) or angDiff(atan2(q._1, q._2), k * S / 1000) > TAU - em(33) })),
    assert(GRID.forall(k => near(log(exp(k * S / 1000)), k * S / 1000, 32))),
    assert(GRID.forall(k => k <= 0 or near(mul(exp(log(k * S / 1000)), S), k * S / 1000, 32))),
    assert(GRID.forall(k => near(asinh(sinh(k * S / 3000)), k * S / 3000, 32))),
    assert(GRID.forall(k => near(rad(degr(k * S)), k * S, 34))),
    assert(near(atan2(S, -S), PI * 3 / 4, 36)), assert(near(atan2(-S, -S), -PI * 3 / 4, 36)),
    assert(atan2(0, S) == 0), assert(near(atan2(0, -S), PI, 37)), assert(near(atan2(-S, 0), -HALFPI, 37)),
    assert(fdiv(-7, 2) == -4), assert(fmod(-7, 2) == 1), assert(fdiv(7, -2) == -4), assert(fmod(-8, 4) == 0),
    assert(near(iabs(wrapPi(PI)), PI, 36)), assert(near(angDiff(rad(179 * S), rad(-179 * S)), rad(2 * S), 35)),
  }
  run wireTest = {
    val ev = 5 + 2^320 * (2 + 2^320 * ((S + OFFS) + 2^320 * (-3 * S + OFFS)))
    all {
      assert(word(ev, 0) == 5), assert(payload(ev) == [S, -3 * S]),
      assert(asInt(-3 * S) == -3), assert(not(isNum(NAN)) and not(isNum(PINF)) and not(isNum(NINF)) and not(isNum(EXC)) and not(isNum(NONE))),
      assert(isNum(0) and isNum(10^30 * S) and isNum(-(10^30) * S)),
    }
  }
  pure val W0: World = { a: 6378137 * S, b: 635675231424517949757 * S / 10^14, lat: 0, lon: 0, h: 0, e1: 0, e2: 0, e3: 0 }
  run framesTest = all {
    // at the origin of latitudes and longitudes up is x, east is y, north is z
    assert(dist(denote(W0, K_ENU, (S, 2 * S, 3 * S)), (6378140 * S, S, 2 * S)) < em(30)),
    assert(dist(denote(W0, K_NED, (2 * S, S, -3 * S)), (6378140 * S, S, 2 * S)) < em(30)),
    assert(dist(denote(W0, K_NWU, (2 * S, -S, 3 * S)), (6378140 * S, S, 2 * S)) < em(30)),
    assert(dist(denote(W0, K_SEZ, (-2 * S, S, 3 * S)), (6378140 * S, S, 2 * S)) < em(30)),
    // body axes with no rotation are north, east, down
    assert(dist(denote(W0, K_BODY, (2 * S, S, -3 * S)), (6378140 * S, S, 2 * S)) < em(30)),
    // heading north: downrange north, crossrange west
    assert(dist(denote(W0, K_DCA, (2 * S, -S, 3 * S)), (6378140 * S, S, 2 * S)) < em(30)),
    assert(dist(denote(W0, K_AER, (HALFPI, 0, 5 * S)), (6378137 * S, 5 * S, 0)) < em(29)),
    assert(dist(denote(W0, K_AER, (0, HALFPI, 5 * S)), (6378142 * S, 0, 0)) < em(29)),
    assert(dist(denote(W0, K_GEOD, (HALFPI, S, 7 * S)), (0, 0, W0.b + 7 * S)) < em(29)),
    assert(dist(denote(W0, K_SPH, (HALFPI, S, 7 * S)), (0, 0, 7 * S)) < em(30)),
    // yaw, pitch and roll of a quarter turn
    assert(mdist(bodyInNed(HALFPI, 0, 0), ((0, S, 0), (-S, 0, 0), (0, 0, S))) < em(35)),
    assert(mdist(bodyInNed(0, HALFPI, 0), ((0, 0, -S), (0, S, 0), (S, 0, 0))) < em(35)),
    assert(mdist(bodyInNed(0, 0, HALFPI), ((S, 0, 0), (0, 0, S), (0, -S, 0))) < em(35)),
  }
  run shapesTest = all {
    assert(R::broadcast([3, 1], [4]) == [3, 4]), assert(R::broadcast([], []) == []), assert(R::broadcast([0], [1]) == [0]),
    assert(R::broadcast([2, 1, 5], [3, 1]) == [2, 3, 5]),
  }
  // isometric latitude is that of the conformal latitude on the sphere
  pure def isometricCheck(c: Ell): int = {
    val x = L::conformal(c, rad(40 * S))
    asinh(div(sin(x), cos(x))) - isometric(c, rad(40 * S))
  }
  // Snyder (1987) on Clarke 1866 at 40 degrees: conformal 39 48 39.8, authalic 39 52 12.5 (39.81106, 39.87014)
  pure val CLARKE: Ell = ellOf(63782064 * S / 10, 63565838 * S / 10)
  run latitudesTest = all {
    assert(iabs(degr(L::conformal(CLARKE, rad(40 * S))) - ratio(398085922, 10^7)) < em(5)),
    assert(iabs(degr(L::authalic(CLARKE, rad(40 * S))) - ratio(398722878, 10^7)) < em(5)),
    assert(iabs(degr(L::rectifying(CLARKE, rad(40 * S))) - ratio(398563451, 10^7)) < em(5)),
    assert(iabs(degr(isometricCheck(CLARKE))) < em(5)),
  }
  run skyTest = all {
    // Julian dates (Meeus, table 7.a)
    assert(near(julianDate(instant(1957, 10, 4, 19, 26, 24, 0, 0)), ratio(243611631, 100), 30)),
    assert(julianDate(instant(1600, 12, 31, 0, 0, 0, 0, 0)) == ratio(23058125, 10)),
    assert(julianDate(instant(1987, 6, 19, 12, 0, 0, 0, 0)) == 2446966 * S),
    // offsets from UTC
    assert(instant(2020, 1, 1, 0, 0, 0, 0, 3600 * 10^6) == instant(2019, 12, 31, 23, 0, 0, 0, 0)),
    assert(mdist(precession(0), IDENT) < em(35)),
  }
  // lines of tokens and what they mean; 0 is aer2dca with four arguments
  run linesTest = all {
    assert(meaning([]).usage), assert(meaning([0]).usage), assert(meaning([0, POS, POS, POS]).usage),
    assert(meaning([0, POS, POS, POS, POS]) == { ...BLANK, cmd: 0, npos: 4 }),
    assert(meaning([0, POS, POS, POS, POS, POS]).usage),
    assert(meaning([T_ELL, VAL + 3, 1, POS, POS, POS, POS, POS, POS, T_NODEG]) == { ...BLANK, cmd: 1, npos: 6, ell: 3, opts: Map(T_DEG -> 0) }),
    assert(meaning([T_ELL, 1, POS, POS, POS, POS, POS, POS]).usage),
    assert(meaning([1, T_ELL, VAL, POS, POS, POS, POS, POS, POS]).usage),
    assert(meaning([T_OUT, BADVAL, 0, POS, POS, POS, POS]).usage),
    assert(meaning([0, POS, POS, T_NODEG, T_DEG, POS, POS]) == { ...BLANK, cmd: 0, npos: 4, opts: Map(T_DEG -> 1) }),
    // an option of another command
    assert(meaning([0, T_FNA, POS, POS, POS, POS]).usage), assert(meaning([UNKNOWN_CMD]).usage),
  }
  run limitsTest = all {
    assert(V::beyond(V::LAT, 0, 90 * S) == 0), assert(V::beyond(V::LAT, 0, 91 * S) == 2), assert(V::beyond(V::LAT, 0, -91 * S) == 2),
    assert(V::beyond(V::LAT, 1, HALFPI) == 0), assert(V::beyond(V::LAT, 1, 2 * S) == 2), assert(V::beyond(V::LAT, 1, NINF) == 2),
    assert(V::beyond(V::NONNEG, 0, 0) == 0), assert(V::beyond(V::NONNEG, 0, -1) == 2), assert(V::beyond(V::ATLEAST, 2, S) == 2),
  }
  // Vincenty (1975), line (a) on Bessel's ellipsoid: one hundred thousandth of a second, one millimetre
  pure val BESSEL: Ell = {
    val a = ratio(6377397155, 1000)
    ellOf(a, a - div(a, ratio(2991528128, 10^7)))
  }
  pure def dms(d: int, m: int, s: int): int = rad(d * S + ratio(m * 60 * 10^5 + s, 3600 * 10^5))
  run geodesicTest = {
    val e = travel(BESSEL, dms(55, 45, 0), 0, dms(96, 36, 879960), ratio(14110526170, 1000))
    all {
      assert(iabs(latOf(BESSEL, atan2(e.sb, e.cb)) + dms(33, 26, 0)) < 3 * em(10)),
      assert(angDiff(e.lam, dms(108, 13, 0)) < 3 * em(10)),
      assert(iabs(e.azi - dms(137, 52, 2201454)) < 3 * em(10)),
    }
  }
  run directionsTest = all {
    assert(near(D::between((S, 0, 0), (0, S, 0)), HALFPI, 35)), assert(near(D::between((S, 0, 0), (S, S, 0)), PI / 4, 35)),
    assert(iabs(exp(log(8 * S) / 3) - 2 * S) < em(33)),
    assert(iabs(D::EQAVOL - ratio(63710007900091, 10^7)) < em(4)),
  }
}
