// What the specification itself promises: laws that must hold between the
// definitions of the modules, whatever the world.
//
// The machine wanders through random worlds (ellipsoid, observer, attitude,
// point, geodesic, instant); every law is an invariant of it.  A denotation that
// breaks a law is a mistake in the specification, found before any call of the
// library is judged by it.  law_Cnn states property Cnn on the specification.
module laws {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import geo.* from "./geo"
  import geod.* from "./geod"
  import time.* from "./time"
  import orient.* from "./orient"
  import c_lat as L from "./c_lat"
  import c_dir as D from "./c_dir"
  import c_rel as R from "./c_rel"
  import c_eci as E from "./c_eci"
  import c_valid as V from "./c_valid"

  var el: Ell
  var obs: (int, int, int)       // latitude, longitude, height
  var turn: (int, int, int)      // yaw, pitch, roll
  var pt: V3                     // a local displacement
  var far: (int, int)            // another place
  var way: (int, int)            // azimuth, length
  var when: int                  // instant in microseconds
  var eop: Eop
  var dims: (List[int], List[int])

  // equatorial radii, flattenings (in millionths) and special angles
  pure val RADII: List[int] = [6378137, 71492000, 1737400, 1, 6400000]
  pure val FLAT: List[int] = [3353, 0, 64874, 1, 97962, 100000, 5886]
  pure val SHAPES: List[List[int]] = [[], [1], [3], [3, 1], [1, 3], [2, 3], [2, 1], [1, 1], [0]]
  pure def angleOf(roll: int, x: int, full: int): int =
    if (roll == 0) 0 else if (roll == 1) full else if (roll == 2) -full else if (roll == 3) full / 2
    else if (roll == 4) (x - 2^59) / 2^20 else fmod(x * full / 2^59, 2 * full) - full

  action world = {
    nondet r1 = 0.to(4).oneOf()
    nondet r2 = 0.to(6).oneOf()
    nondet k1 = 0.to(9).oneOf()
    nondet k2 = 0.to(9).oneOf()
    nondet k3 = 0.to(9).oneOf()
    nondet k4 = 0.to(9).oneOf()
    nondet k5 = 0.to(9).oneOf()
    nondet x1 = 0.to(2^60).oneOf()
    nondet x2 = 0.to(2^60).oneOf()
    nondet x3 = 0.to(2^60).oneOf()
    nondet x4 = 0.to(2^60).oneOf()
    nondet x5 = 0.to(2^60).oneOf()
    nondet x6 = 0.to(2^60).oneOf()
    nondet x7 = 0.to(2^60).oneOf()
    nondet x8 = 0.to(2^60).oneOf()
    nondet x9 = 0.to(2^60).oneOf()
    nondet d1 = 0.to(8).oneOf()
    nondet d2 = 0.to(8).oneOf()
    val a = RADII[r1] * S
    all {
      el' = ellOf(a, a - a * FLAT[r2] / 10^6),
      obs' = (angleOf(k1, x1, HALFPI), angleOf(k2, x2, PI), fmod(x3 * a / 2^59, a) - a / 4),
      turn' = (angleOf(k3, x4, PI), angleOf(k4, x5, HALFPI), angleOf(k3 + k4, x6, PI)),
      pt' = (fmod(x7 * a / 2^57, 2 * a) - a, fmod(x8 * a / 2^57, 2 * a) - a, fmod(x9 * a / 2^57, 2 * a) - a),
      far' = (angleOf(k4, x8, HALFPI), angleOf(k5, x9, PI)),
      way' = (angleOf(k5, x6, PI), if (k1 == k2) 0 else fmod(x5 * a / 2^57, 3 * a)),
      when' = x6 % (150 * 366 * 86400) * 10^6 - 50 * 366 * 86400 * 10^6 + x7 % 10^6,
      eop' = { dut1: (x7 % 2001 - 1000) * S / 1000, xp: (x8 % 2001 - 1000) * S / 1000, yp: (x9 % 2001 - 1000) * S / 1000 },
      dims' = (SHAPES[d1], SHAPES[d2]),
    }
  }
  action init = world
  action step = world

  pure def near(x: int, y: int, scale: int): bool = iabs(x - y) <= mul(scale, em(30)) + 2^16
  pure def nearV(x: V3, y: V3, scale: int): bool = dist(x, y) <= mul(scale, em(30)) + 2^16
  pure def rotation(m: M3): bool = mdist(mm(m, mt(m)), IDENT) < em(34) and iabs(det3(m) - S) < em(34)
  val w: World = { a: el.a, b: el.b, lat: obs._1, lon: obs._2, h: obs._3, e1: turn._1, e2: turn._2, e3: turn._3 }
  val here: V3 = geodetic2xyz(el.a, el.b, obs._1, obs._2, obs._3)
  val ground: V3 = geodetic2xyz(el.a, el.b, obs._1, obs._2, 0)
  pure val LOCALS: List[int] = [2, 3, 4, 5, 8, 9]

  // Geodetic coordinates are what geodesy says: the foot is on the ellipsoid, the
  // rest is height along the gradient there; and they are unique.
  val law_C01 = {
    val up = enuAxes(obs._1, obs._2)._3
    val g = (div(ground._1, sqr(div(el.a, S))) , div(ground._2, sqr(div(el.a, S))), div(ground._3, sqr(div(el.b, S))))
    and {
      iabs(sqr(div(ground._1, el.a)) + sqr(div(ground._2, el.a)) + sqr(div(ground._3, el.b)) - S) < em(30),
      nearV(vsub(here, ground), vscale(obs._3, up), el.a),
      // the gradient points along the normal
      norm(vcross(g, up)) <= mul(norm(g), em(25)) + 2^70,
      // the same foot by reduced latitude
      dist(ground, onSurface(el, obs._1, obs._2)) <= mul(el.a, em(17)),
    }
  }
  // The local frames are rotations of each other at one place
  val law_C02 = and {
    rotation(enuAxes(obs._1, obs._2)),
    rotation(mm(NED_IN_ENU, IDENT)), rotation(NWU_IN_ENU), rotation(SEZ_IN_ENU),
    near(dot(enuAxes(obs._1, obs._2)._1, here), 0, el.a),
    // north points towards the pole
    enuAxes(obs._1, obs._2)._2._3 >= -em(30),
    // moving up by d in any frame is moving up by d in height
    nearV(denote(w, K_ENU, (0, 0, pt._3)), geodetic2xyz(el.a, el.b, obs._1, obs._2, obs._3 + pt._3), el.a),
    nearV(denote(w, K_NED, (pt._2, pt._1, -(pt._3))), denote(w, K_ENU, pt), el.a),
    nearV(denote(w, K_NWU, (pt._2, -(pt._1), pt._3)), denote(w, K_ENU, pt), el.a),
    nearV(denote(w, K_SEZ, (-(pt._2), pt._1, pt._3)), denote(w, K_ENU, pt), el.a),
  }
  // Azimuth, elevation, range: polar coordinates of ENU
  val law_C03 = {
    val r = norm(pt)
    val az = fmod(atan2(pt._1, pt._2), TAU)
    val e = atan2(pt._3, hyp2(pt._1, pt._2))
    and {
      nearV(denote(w, K_AER, (az, e, r)), denote(w, K_ENU, pt), el.a * 100),
      near(dist(denote(w, K_AER, (az, e, r)), here), r, el.a * 100),
      r > em(3) implies canonical(w, K_AER, (az, e, r)) or az >= TAU - ULP / 1000,
    }
  }
  val law_C04 = {
    val m = bodyInNed(turn._1, turn._2, turn._3)
    and {
      rotation(m),
      // nose: heading and climb
      near(m._1._3, -sin(turn._2), S), near(atan2(m._1._2, m._1._1), atan2(sin(turn._1), cos(turn._1)), S * 10^6) or cos(turn._2) < em(6) or iabs(iabs(wrapPi(turn._1)) - PI) < em(6),
      mdist(bodyInNed(0, 0, 0), IDENT) < em(35),
      // turning back: three elementary rotations
      mdist(m, mm(r1(turn._3), mm(r2(turn._2), r3(turn._1)))) < em(34),
      near(norm(toEnu(w, K_BODY, pt)), norm(pt), el.a),
    }
  }
  val law_C05 = {
    val g = sincos(turn._1)
    val ahead = toEnu(w, K_DCA, (S, 0, 0))
    val side = toEnu(w, K_DCA, (0, S, 0))
    and {
      rotation(axesInEnu(w, K_DCA)),
      nearV(ahead, (g._1, g._2, 0), S),
      // crossrange is a quarter turn to the left of downrange
      nearV(vcross((0, 0, S), ahead), side, S),
    }
  }
  // All representations are isometric pictures of one space
  val law_C06 = LOCALS.foldl(true, (ok, k) => ok and and {
    rotation(axesInEnu(w, k)),
    near(dist(denote(w, k, pt), here), norm(pt), el.a),
    nearV(mv(axesInEnu(w, k), toEnu(w, k, pt)), pt, el.a),
  })
  // Orientation: a rotation that turns once per sidereal day about the pole
  val law_C07 = {
    val m = inertialToFixed(when, eop)
    val dt = 1000000
    val later = inertialToFixed(when + dt, eop)
    val d = rateOf(when, eop)
    and {
      rotation(m),
      // the rate is the derivative (to the second order, one second)
      mdist(vdiff(later, m), d) < ratio(3, 10^9),
      // pole of the fixed frame stays near that of the inertial one
      m._3._3 > S * 9995 / 10000,
      // UT1 moves the Earth like time
      mdist(inertialToFixed(when, { ...eop, dut1: eop.dut1 + S }), later) < ratio(1, 10^9),
      // polar motion tilts by its size
      iabs(dist(mt(mm(inertialToFixed(when, { ...eop, xp: 0, yp: 0 }), mt(m)))._3, (0, 0, S)) - hyp2(arcsec(eop.xp), arcsec(eop.yp))) < em(10),
    }
  }
  pure def vdiff(x: M3, y: M3): M3 = (vsub(x._1, y._1), vsub(x._2, y._2), vsub(x._3, y._3))
  // An inertial point keeps its distance from the axis's pole and the centre, and seen
  // from the observer it is where its Earth-fixed image is
  val law_C08 = {
    val m = inertialToFixed(when, eop)
    val q = mv(mt(m), here)
    and {
      near(norm(q), norm(here), el.a),
      nearV(mv(m, q), here, el.a),
      near(dist(q, mv(mt(m), denote(w, K_ENU, pt))), norm(pt), el.a * 100),
    }
  }
  val law_C09 = and {
    near(rad(degr(obs._1)), obs._1, 100 * S), near(degr(rad(turn._1)), turn._1, 100 * S), rad(180 * S) == PI,
    near(wrapPi(turn._1 + TAU), wrapPi(turn._1), 100 * S), angDiff(turn._1, turn._1 + TAU) < em(35) or angDiff(turn._1, turn._1 + TAU) > TAU - em(35),
  }
  // The broadcasting rule is a partial least upper bound
  val law_C10 = {
    val x = dims._1
    val y = dims._2
    val rank = if (x.length() > y.length()) x.length() else y.length()
    // compatible: equal from the last axis, or one
    val fits = range(0, rank).foldl(true, (acc, i) => {
      val p = R::dimFromEnd(x, i)
      val q = R::dimFromEnd(y, i)
      acc and (p == q or p == 1 or q == 1)
    })
    val z = R::broadcast(x, y)
    and {
      R::broadcast(x, x) == x, R::broadcast([], x) == x,
      fits implies and { z == R::broadcast(y, x), R::broadcast(z, x) == z, R::broadcast(y, z) == z, z.length() == rank },
    }
  }
  // A larger copy of the world
  val law_C13 = {
    val k = 7
    val big: World = { ...w, a: k * w.a, b: k * w.b, h: k * w.h }
    and {
      nearV(denote(big, K_GEOD, (obs._1, obs._2, k * obs._3)), (k * here._1, k * here._2, k * here._3), 100 * el.a),
      nearV(denote(big, K_BODY, (k * pt._1, k * pt._2, k * pt._3)), vscaleInt(k, denote(w, K_BODY, pt)), 100 * el.a),
      near(meridian(ellOf(k * el.a, k * el.b), 0, obs._1), k * meridian(el, 0, obs._1), 10^6 * el.a),
    }
  }
  pure def vscaleInt(k: int, v: V3): V3 = (k * v._1, k * v._2, k * v._3)
  // Geodesics: they turn back, they add up, they keep Clairaut's constant and have
  // the azimuth of their velocity
  val law_C15 = {
    val e = travel(el, obs._1, obs._2, way._1, way._2)
    val l = latOf(el, atan2(e.sb, e.cb))
    val half = travel(el, obs._1, obs._2, way._1, way._2 / 2)
    val rest = travel(el, latOf(el, atan2(half.sb, half.cb)), half.lam, half.azi, way._2 - way._2 / 2)
    val back = travel(el, l, e.lam, e.azi, -(way._2))
    val polar = e.cb < em(6) or half.cb < em(6) or reduced(el, obs._1)._2 < em(6)
    and {
      // on the ellipsoid, no further than its length
      iabs(sqr(div(e.v._1, el.a)) + sqr(div(e.v._2, el.a)) + sqr(div(e.v._3, el.b)) - S) < em(28),
      dist(e.v, ground) <= way._2 + mul(el.a, em(12)),
      polar or dist(back.v, ground) < mul(el.a, em(16)),
      polar or dist(rest.v, e.v) < mul(el.a, em(16)),
      polar or near(mul(sin(way._1), reduced(el, obs._1)._2), mul(sin(e.azi), e.cb), S * 10^9),
      // turning round the axis
      dist(travel(el, obs._1, 0, way._1, way._2).v, mv(r3(obs._2), e.v)) < mul(el.a, em(20)),
      // mirrored in the equator
      dist(travel(el, -(obs._1), obs._2, PI - way._1, way._2).v, (e.v._1, e.v._2, -(e.v._3))) < mul(el.a, em(16)),
    }
  }
  // Areas under geodesics add up and change sign with the direction
  val law_C16 = {
    val st = leave(el, obs._1, way._1)
    val g = arcOf(st, way._2)
    val e = after(st, obs._2, g)
    val m = after(st, obs._2, g / 3)
    val lm = latOf(el, atan2(m.sb, m.cb))
    val sm = leave(el, lm, m.azi)
    val e2 = after(sm, m.lam, g - g / 3)
    val polar = e.cb < em(4) or m.cb < em(4) or reduced(el, obs._1)._2 < em(4)
    polar or turnless(areaUnder(st, way._1, m) + areaUnder(sm, m.azi, e2) - areaUnder(st, way._1, e), authalic2(el))
  }
  pure def turnless(x: int, c2: int): bool = {
    val y = fmod(x + mul(PI, c2), mul(TAU, c2)) - mul(PI, c2)
    iabs(y) < mul(c2, em(12))
  }
  // Meridians and isometric latitude: additive, odd, and derivatives of each other
  val law_C18 = {
    val x = obs._1
    val y = far._1
    val dx = em(9)
    val p = S - mul(el.e2, sqr(sin(x)))
    and {
      near(meridian(el, x, y) + meridian(el, y, 0), meridian(el, x, 0), el.a * 10^6),
      near(meridian(el, -x, 0), -meridian(el, x, 0), el.a * 10^6),
      // radius of curvature is the derivative
      iabs(div(meridian(el, x, x + dx), dx) - div(mul(el.a, S - el.e2), mul(p, sqrt(p)))) < mul(el.a, em(8)),
      iabs(x) > S * 155 / 100 or iabs(div(isometric(el, x + dx) - isometric(el, x), dx)
        - div(div(S - el.e2, p), cos(x))) < em(3),
      iabs(x) > S * 155 / 100 or near(isometric(el, -x), -isometric(el, x), S * 10^6),
    }
  }
  // Auxiliary latitudes: odd, fixed at equator and pole, between zero and the geodetic
  // one, equal on the sphere, increasing
  val law_C19 = range(0, 6).foldl(true, (ok, k) => ok and (k == 2 or {
    val x = obs._1
    val y = L::auxOf(el, k, x, 0)
    and {
      iabs(L::auxOf(el, k, -x, 0) + y) < em(15),
      L::auxOf(el, k, 0, 0) == 0,
      iabs(L::auxOf(el, k, HALFPI, 0) - HALFPI) < em(15),
      sgn(x) * y <= iabs(x) + em(15) and sgn(x) * y >= -em(15),
      el.f != 0 or iabs(x - y) < em(15),
      iabs(x) > S * 157 / 100 or L::auxOf(el, k, x + em(4), 0) > y,
      // order: geocentric <= conformal <= parametric, geocentric nearest to the equator
      L::auxOf(el, 0, iabs(x), 0) <= sgn(x) * y + em(15),
    }
  }))
  // Radii: the Gaussian one between the principal ones, mean radii between the axes
  val law_C20 = {
    val p = S - mul(el.e2, sqr(sin(obs._1)))
    val n = div(el.a, sqrt(p))
    val m = div(mul(n, S - el.e2), p)
    and {
      m <= n + 2^20,
      iabs(n - primeVertical(el.a, el.b, sincos(obs._1))) < mul(el.a, em(30)) + 2^16,
      authalic2(el) <= sqr(el.a) + mul(sqr(el.a), em(30)) and authalic2(el) >= sqr(el.b) - mul(sqr(el.a), em(30)),
      meridian(el, 0, HALFPI) <= mul(el.a, HALFPI) + mul(el.a, em(25)), meridian(el, 0, HALFPI) >= mul(el.b, HALFPI) - mul(el.a, em(25)),
      // geocentric radius
      near(norm(ground), hyp2(mul(n, cos(obs._1)), mul(mul(n, S - el.e2), sin(obs._1))), el.a),
    }
  }
  // Normals and feet
  val law_C21 = {
    val n = D::normal(obs._1, obs._2)
    and {
      near(norm(n), S, S),
      nearV(D::foot(el, n), ground, el.a),
      nearV(n, enuAxes(obs._1, obs._2)._3, S),
      // angle is a distance
      D::between(n, n) < em(15),
      near(D::between(n, D::normal(far._1, far._2)), D::between(D::normal(far._1, far._2), n), S),
      iabs(D::between(n, vscale(-S, n)) - PI) < em(15),
    }
  }
  // A place the observer can see is what the line of sight to it meets first; nothing
  // else is, and it may not be overlooked
  val law_C22 = {
    val high = iabs(obs._3) + div(el.a, 1000 * S)
    val p = geodetic2xyz(el.a, el.b, obs._1, obs._2, high)
    val q = onSurface(el, far._1, far._2)
    val d = vsub(q, p)
    val r = norm(d)
    val e = mv(enuAxes(obs._1, obs._2), d)
    val az = atan2(e._1, e._2)
    val tilt = atan2(hyp2(e._1, e._2), -(e._3))
    val rise = dot(D::normal(far._1, far._2), vscale(-S, div3(d, r)))
    def told(x, y, z) = D::sight([S, el.a, el.b, obs._1, obs._2, high, az, tilt, x, y, z]).clause
    r < div(el.a, 10^5 * S) or iabs(rise) < em(3) or
      if (rise > 0) and {
        told(far._1, far._2, r) == "", told(NAN, NAN, NAN) == "overlooked",
        told(far._1, far._2, r + div(el.a, 10^6 * S)) != "",
        told(far._1 + (if (far._1 > 0) -em(7) else em(7)), far._2, r) != "",
      } else told(far._1, far._2, r) != ""
  }
  pure def div3(v: V3, k: int): V3 = (div(v._1, k), div(v._2, k), div(v._3, k))
  // The zenith has the observer's latitude for declination and the sidereal time for
  // right ascension; the pole stands north at the height of the latitude; the celestial
  // sphere is turned, not stretched
  val law_C24 = {
    val lst = gast(ut1days(when, eop.dut1), centuries(j2000days(terrestrial(when)))) + obs._2
    val x = E::horizonToEquator(obs._1, lst, turn._1, turn._2)
    val y = E::horizonToEquator(obs._1, lst, far._2, far._1)
    and {
      nearV(E::horizonToEquator(obs._1, lst, 0, HALFPI), E::unit2(lst, obs._1), 100 * S),
      nearV(E::horizonToEquator(obs._1, lst, 0, obs._1), (0, 0, S), 100 * S),
      near(norm(x), S, 100 * S),
      near(dot(x, y), dot(E::unit2(turn._1, turn._2), E::unit2(far._2, far._1)), 100 * S),
      // due south on the equator of the sky
      near(E::horizonToEquator(obs._1, lst, PI, HALFPI - obs._1)._3, 0, 100 * S),
    }
  }
  // Calendar: days follow each other and the time of day runs within them
  val law_C23 = {
    val y = 1900 + iabs(when) % 250
    val m = 1 + iabs(when) / 7 % 12
    val d = 1 + iabs(when) / 11 % daysInMonth(y, m)
    val morrow = if (d < daysInMonth(y, m)) dayNumber(y, m, d + 1) else if (m < 12) dayNumber(y, m + 1, 1) else dayNumber(y + 1, 1, 1)
    and {
      morrow == dayNumber(y, m, d) + 1,
      julianDate(when + DAY_US) - julianDate(when) == S,
      instant(y, m, d, 5, 0, 0, 0, 5 * 3600 * 10^6) == instant(y, m, d, 0, 0, 0, 0, 0),
      // a sidereal day is 86164.09 s
      iabs(wrapPi(gmst(j2000days(when + 86164090531)) - gmst(j2000days(when)))) < em(9),
      // sidereal time is the rotation of the Earth and the precession of the equinox (IAU 2006, to 2")
      {
        val u = j2000days(when)
        val t = centuries(u)
        angDiff(gmst(u), era(u) + arcsec(ratio(14506, 10^6) + mul(ratio(4612156534, 10^6), t) + mul(ratio(13915817, 10^7), sqr(t)))) < em(5)
      },
      leapSeconds(when) <= leapSeconds(when + DAY_US),
      angDiff(gast(j2000days(when), centuries(j2000days(when))), gmst(j2000days(when))) < em(4),
    }
  }
  val law_C25 = {
    val u = D::normal(obs._1, obs._2)
    val v = D::normal(far._1, far._2)
    val x = D::normal(turn._2, turn._1)
    and {
      D::between(u, v) <= D::between(u, x) + D::between(x, v) + em(15),
      D::between(u, v) >= 0, D::between(u, v) <= PI,
      // the haversine of it
      iabs(sqr(sin(D::between(u, v) / 2)) - sqr(dist(u, v) / 2)) < em(30),
    }
  }
  val law_C26 = {
    val r = norm(here)
    val phi = atan2(here._3, hyp2(here._1, here._2))
    val lam = atan2(here._2, here._1)
    r < el.b / 100 or nearV(denote(w, K_SPH, (phi, lam, r)), here, el.a * 100)
  }
  // Limits are symmetric, the same in both units, and nothing beyond one that is beyond is inside
  val law_C28 = {
    val x = 3 * obs._1 / 2
    and {
      V::beyond(V::LAT, 1, x) == V::beyond(V::LAT, 1, -x),
      V::beyond(V::LAT, 0, degr(x)) == V::beyond(V::LAT, 1, x) or iabs(iabs(x) - HALFPI) < em(10),
      V::beyond(V::LAT, 1, x + sgn(x) * em(3)) >= V::beyond(V::LAT, 1, x),
      V::beyond(V::LAT, 0, PINF) == 2, V::beyond(V::LAT, 0, 90 * S) == 0,
      V::beyond(V::NONNEG, 0, obs._3) == (if (obs._3 < 0) 2 else 0),
    }
  }
}
