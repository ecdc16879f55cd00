// Semantics of the coordinate representations pymap3d converts between.
//
// A World fixes the ellipsoid (a, b), the observer (latitude, longitude, height)
// and the attitude parameters.  `denote` maps a representation of a point (a
// frame and three coordinates) to the one ECEF position it stands for.  All
// frames are right-handed images of ENU at the observer.  Angles are radians.
module geo {
  import fx.* from "./fx"

  pure val K_ECEF: int = 0
  pure val K_GEOD: int = 1
  pure val K_ENU: int = 2
  pure val K_NED: int = 3
  pure val K_NWU: int = 4
  pure val K_SEZ: int = 5
  pure val K_AER: int = 6
  pure val K_SPH: int = 7    // geocentric latitude, longitude, radius
  pure val K_BODY: int = 8   // forward, right, down axes of a vehicle
  pure val K_DCA: int = 9    // downrange, crossrange, above

  type World = { a: int, b: int, lat: int, lon: int, h: int, e1: int, e2: int, e3: int }

  // prime vertical radius of curvature
  pure def primeVertical(a: int, b: int, sc: (int, int)): int =
    div(sqr(a), hyp2(mul(a, sc._2), mul(b, sc._1)))
  pure def geodetic2xyz(a: int, b: int, lat: int, lon: int, h: int): V3 = {
    val p = sincos(lat)
    val l = sincos(lon)
    val n = primeVertical(a, b, p)
    val r = mul(n + h, p._2)
    (mul(r, l._2), mul(r, l._1), mul(mul(n, sqr(div(b, a))) + h, p._1))
  }
  // rows: unit east, north, up at the observer, in ECEF components
  pure def enuAxes(lat: int, lon: int): M3 = {
    val p = sincos(lat)
    val l = sincos(lon)
    ((-(l._1), l._2, 0),
     (-mul(p._1, l._2), -mul(p._1, l._1), p._2),
     (mul(p._2, l._2), mul(p._2, l._1), p._1))
  }
  // axis matrices: rows are the frame's axes in ENU components
  pure val NED_IN_ENU: M3 = ((0, S, 0), (S, 0, 0), (0, 0, -S))
  pure val NWU_IN_ENU: M3 = ((0, S, 0), (-S, 0, 0), (0, 0, S))
  pure val SEZ_IN_ENU: M3 = ((0, -S, 0), (S, 0, 0), (0, 0, S))
  // aircraft 3-2-1: rows are the body axes in NED components
  pure def bodyInNed(yaw: int, pitch: int, roll: int): M3 = {
    val y = sincos(yaw)
    val p = sincos(pitch)
    val r = sincos(roll)
    ((mul(p._2, y._2), mul(p._2, y._1), -(p._1)),
     (mul(mul(r._1, p._1), y._2) - mul(r._2, y._1), mul(mul(r._1, p._1), y._1) + mul(r._2, y._2), mul(r._1, p._2)),
     (mul(mul(r._2, p._1), y._2) + mul(r._1, y._1), mul(mul(r._2, p._1), y._1) - mul(r._1, y._2), mul(r._2, p._2)))
  }
  // rows of the frame's axes in ENU components, for every Cartesian local frame
  pure def axesInEnu(w: World, k: int): M3 =
    if (k == K_ENU) IDENT
    else if (k == K_NED) NED_IN_ENU
    else if (k == K_NWU) NWU_IN_ENU
    else if (k == K_SEZ) SEZ_IN_ENU
    else if (k == K_BODY) mm(bodyInNed(w.e1, w.e2, w.e3), NED_IN_ENU)
    else {
      // downrange along the heading, crossrange to its left
      val g = sincos(w.e1)
      ((g._1, g._2, 0), (-(g._2), g._1, 0), (0, 0, S))
    }
  pure def aer2enuV(az: int, el: int, r: int): V3 = {
    val z = sincos(az)
    val e = sincos(el)
    (mul(mul(r, e._2), z._1), mul(mul(r, e._2), z._2), mul(r, e._1))
  }
  // local coordinates -> ENU components
  pure def toEnu(w: World, k: int, p: V3): V3 =
    if (k == K_AER) aer2enuV(p._1, p._2, p._3)
    else if (k == K_ENU) p
    else mv(mt(axesInEnu(w, k)), p)
  pure def isLocal(k: int): bool = k >= K_ENU and k != K_SPH

  pure def denote(w: World, k: int, p: V3): V3 =
    if (k == K_ECEF) p
    else if (k == K_GEOD) geodetic2xyz(w.a, w.b, p._1, p._2, p._3)
    else if (k == K_SPH) {
      val e = sincos(p._1)
      val l = sincos(p._2)
      (mul(mul(p._3, e._2), l._2), mul(mul(p._3, e._2), l._1), mul(p._3, e._1))
    } else
      vadd(geodetic2xyz(w.a, w.b, w.lat, w.lon, w.h), mv(mt(enuAxes(w.lat, w.lon)), toEnu(w, k, p)))

  // which coordinates of a representation are angles
  pure def isAngle(k: int, j: int): bool =
    ((k == K_GEOD or k == K_AER or k == K_SPH) and j < 2)

  // documented ranges of a representation the library returns (slack: one ulp)
  pure val ULP: int = S / 10^13
  pure def canonical(w: World, k: int, p: V3): bool =
    if (k == K_GEOD or k == K_SPH) and {
      iabs(p._1) <= HALFPI + ULP,
      iabs(p._2) <= PI + ULP,
      (k == K_SPH implies p._3 >= 0),
      // nearest foot point: never beyond the centre of curvature
      (k == K_GEOD implies p._3 >= -mul(w.b, div(w.b, w.a))),
    } else if (k == K_AER) and {
      p._1 >= 0, p._1 < TAU - ULP / 1000 , iabs(p._2) <= HALFPI + ULP, p._3 >= 0,
    } else true
}
