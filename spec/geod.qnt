// Geodesics, rhumb lines and areas on an ellipsoid of revolution, from their
// differential equations: a geodesic is a great circle of the auxiliary sphere
// (reduced latitude beta, arc length sigma, longitude omega) whose length and
// longitude are elliptic integrals, here by Gauss-Legendre quadrature.
module geod {
  import fx.* from "./fx"

  // positive nodes and their weights of the 16 point rule on [-1, 1]
  pure val GL: List[(int, int)] = [
    (336675691992748206127996141245989602069, 9239503156356395856264772975651858132),
    (321422224585759642631037324119913447543, 21183776475012408505521813308576395711),
    (294559034429149304870554852119657915989, 32380763587992419127386663143805531895),
    (257050800057551575434919303961532719372, 42409041325754669866250350465787308976),
    (210252390909551870507233541718443196875, 50904877156382970494263860859739901286),
    (155855033190702539480687648786630035153, 57560980799839097327510633335177329595),
    (95824722792506908081130893329765833775, 62136722279333103583430391344947525567),
    (32331081734650218816116530086597033196, 64466702140267398702746121998082360294)
  ]
  pure def gauss(f: int => int, lo: int, hi: int): int = {
    val m = (lo + hi) / 2
    val h = (hi - lo) / 2
    GL.foldl(0, (acc, n) => {
      val t = mul(h, n._1)
      acc + mul(mul(h, n._2), f(m + t) + f(m - t))
    })
  }
  // in pieces no longer than an eighth of a turn (nothing sensible has more than 300)
  pure def integral(f: int => int, lo: int, hi: int): int = {
    val n = 1 + imin(300, iabs(hi - lo) / (HALFPI / 2))
    range(0, n).foldl(0, (acc, i) => acc + gauss(f, lo + (hi - lo) * i / n, lo + (hi - lo) * (i + 1) / n))
  }

  // an ellipsoid: axes, flattening, squared eccentricities
  type Ell = { a: int, b: int, f: int, e2: int, ep2: int, e: int }
  pure def ellOf(a: int, b: int): Ell = {
    val e2 = div(sqr(a) - sqr(b), sqr(a))
    { a: a, b: b, f: div(a - b, a), e2: e2, ep2: div(sqr(a) - sqr(b), sqr(b)), e: sqrt(e2) }
  }
  // reduced latitude as (sine, cosine); the poles are a few picometres wide
  pure val TINY: int = 2^70
  pure def reduced(el: Ell, lat: int): (int, int) = {
    val p = sincos(lat)
    val y = mul(div(el.b, el.a), p._1)
    val h = hyp2(y, p._2)
    (div(y, h), imax(div(p._2, h), TINY))
  }
  // b * speed(sigma) is the length per arc of the auxiliary sphere
  pure def speed(k2: int, sg: int): int = sqrt(S + mul(k2, sqr(sin(sg))))
  // longitude lost per arc and sine of the equatorial azimuth, over the flattening
  pure def drift(el: Ell, k2: int, sg: int): int =
    div(2 * S - el.f, S + mul(S - el.f, speed(k2, sg)))

  // a geodesic leaving (lat1, azi1): where it is on the auxiliary sphere
  type Start = { el: Ell, k2: int, sa0: int, ca0: int, sg1: int, om1: int }
  pure def leave(el: Ell, lat1: int, azi1: int): Start = {
    val u = reduced(el, lat1)
    val z = sincos(azi1)
    val sa0 = mul(z._1, u._2)
    val ca0 = hyp2(z._2, mul(z._1, u._1))
    val y = u._1
    val x = mul(z._2, u._2)
    { el: el, k2: mul(el.ep2, sqr(ca0)), sa0: sa0, ca0: ca0,
      sg1: atan2(y, x), om1: atan2(mul(sa0, y), x) }
  }
  // the arc of the auxiliary sphere that a length covers
  pure def arcOf(st: Start, s: int): int = {
    val target = div(s, st.el.b)
    // whole half turns are all of one length
    val half = integral(t => speed(st.k2, t), 0, PI)
    val turns = target / half
    val rest = target - turns * half
    val mean = div(half, PI)
    val g0 = div(rest, mean)
    val i0 = integral(t => speed(st.k2, t), st.sg1, st.sg1 + g0)
    // Newton; the error of each step is integrated over that step only
    val r = range(0, 5).foldl({ g: g0, i: i0, done: false }, (acc, k) =>
      if (acc.done) acc else {
        val d = div(rest - acc.i, speed(st.k2, st.sg1 + acc.g))
        { g: acc.g + d, i: acc.i + gauss(t => speed(st.k2, t), st.sg1 + acc.g, st.sg1 + acc.g + d), done: iabs(d) < em(28) }
      })
    r.g + turns * PI
  }
  type End = { sb: int, cb: int, lam: int, azi: int, arc: int, v: (int, int, int) }
  // the point the arc sg further, seen from longitude lon1
  pure def after(st: Start, lon1: int, arc: int): End = {
    val g = sincos(st.sg1 + arc)
    val sb = mul(st.ca0, g._1)
    val cb = imax(hyp2(mul(st.ca0, g._2), st.sa0), TINY)
    val om2 = atan2(mul(st.sa0, g._1), g._2)
    val i3 = if (st.el.f == 0) 0 else integral(t => drift(st.el, st.k2, t), st.sg1, st.sg1 + arc)
    val lam = lon1 + om2 - st.om1 - mul(mul(st.el.f, st.sa0), i3)
    val l = sincos(lam)
    { sb: sb, cb: cb, lam: lam, azi: atan2(st.sa0, mul(st.ca0, g._2)), arc: arc,
      v: (mul(mul(st.el.a, cb), l._2), mul(mul(st.el.a, cb), l._1), mul(st.el.b, sb)) }
  }
  pure def travel(el: Ell, lat1: int, lon1: int, azi1: int, s: int): End = {
    val st = leave(el, lat1, azi1)
    after(st, lon1, arcOf(st, s))
  }
  // a point on the surface
  pure def onSurface(el: Ell, lat: int, lon: int): V3 = {
    val u = reduced(el, lat)
    val l = sincos(lon)
    (mul(mul(el.a, u._2), l._2), mul(mul(el.a, u._2), l._1), mul(el.b, u._1))
  }
  pure def east(lon: int): V3 = { val l = sincos(lon) (-(l._1), l._2, 0) }

  // ---- area between a geodesic and the equator ------------------------------
  // area per radian of longitude from the equator to reduced latitude (sb, cb)
  pure def zone(el: Ell, sb: int, cb: int): int =
    if (el.e2 == 0) mul(sqr(el.b), sb)
    else {
      // sine of the geodetic latitude
      val sp = div(mul(el.a, sb), hyp2(mul(el.a, sb), mul(el.b, cb)))
      mul(sqr(el.b), div(sp, S - mul(el.e2, sqr(sp))) + div(atanh(mul(el.e, sp)), el.e)) / 2
    }
  pure def authalic2(el: Ell): int = zone(el, S, 0)
  // signed area under the arc from sg1 to sg1 + arc: spherical excess and correction
  pure def areaUnder(st: Start, azi1: int, en: End): int = {
    val el = st.el
    val c2 = authalic2(el)
    val excess = mul(c2, wrapPi(en.azi - azi1))
    def rest(t) = {
      val g = sincos(t)
      val sb = mul(st.ca0, g._1)
      val cb2 = imax(sqr(mul(st.ca0, g._2)) + sqr(st.sa0), 2^40)
      val cb = sqrt(cb2)
      // d lambda / d omega
      val q = sqrt(S - mul(el.e2, cb2))
      div(mul(zone(el, sb, cb), q) - mul(c2, sb), cb2)
    }
    excess + (if (el.e2 == 0) 0 else mul(st.sa0, integral(t => rest(t), st.sg1, st.sg1 + en.arc)))
  }

  // ---- meridian and rhumb lines ----------------------------------------------
  pure def betaOf(el: Ell, lat: int): int = { val p = sincos(lat) atan2(mul(el.b, p._1), mul(el.a, p._2)) }
  // signed length of the meridian between two latitudes
  pure def meridian(el: Ell, lat1: int, lat2: int): int =
    mul(el.b, integral(t => speed(el.ep2, t), betaOf(el, lat1), betaOf(el, lat2)))
  pure def isometric(el: Ell, lat: int): int = {
    val p = sincos(lat)
    val q = if (p._2 == 0) 0 else div(p._1, p._2)
    asinh(q) - (if (el.e2 == 0) 0 else mul(el.e, atanh(mul(el.e, p._1))))
  }
  // latitude from the equator's reduced latitude
  pure def latOf(el: Ell, beta: int): int = { val u = sincos(beta) atan2(mul(el.a, u._1), mul(el.b, u._2)) }

  run gaussTest = all {
    // polynomials to degree 31 are integrated exactly
    assert(iabs(gauss(t => S, -S, S) - 2 * S) < 2^12),
    assert(iabs(gauss(t => sqr(sqr(t)), 0, S) - S / 5) < 2^12),
    assert(iabs(gauss(t => sqr(sqr(sqr(sqr(sqr(t))))) , -S, S) - 2 * S / 33) < 2^100),
    assert(iabs(gauss(t => sqr(sqr(sqr(sqr(t)))), -S, S) - 2 * S / 17) < 2^12),
    assert(iabs(integral(t => sin(t), 0, PI) - 2 * S) < 2^20),
  }
  pure val WGS: Ell = ellOf(6378137 * S, 635675231424518 * S / 10^8)
  run knownTest = all {
    // quarter of a meridian
    assert(iabs(meridian(WGS, 0, HALFPI) - 10001965729 * S / 1000) < em(3)),
    // the whole ellipsoid has the area of its authalic sphere
    assert(iabs(sqrt(authalic2(WGS)) - 63710071809 * S / 10000) < em(3)),
    // around the equator and along a meridian
    assert({ val e = travel(WGS, 0, 0, HALFPI, mul(TAU, 6378137 * S)) dist(e.v, (6378137 * S, 0, 0)) < em(20) }),
    assert({ val e = travel(WGS, 0, 0, 0, 4 * meridian(WGS, 0, HALFPI)) dist(e.v, (6378137 * S, 0, 0)) < em(20) }),
    // there and back again
    assert({
      val e = travel(WGS, rad(30 * S), rad(10 * S), rad(50 * S), 5000000 * S)
      val l = latOf(WGS, atan2(e.sb, e.cb))
      val h = travel(WGS, l, e.lam, e.azi, -5000000 * S)
      dist(h.v, onSurface(WGS, rad(30 * S), rad(10 * S))) < em(20)
    }),
  }
}
