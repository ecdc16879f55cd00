// Trace specification of the conversion calls: every call must map a
// representation of a point to a representation of the same point.
module c_geo {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import geo.* from "./geo"

  pure val OP_convert: int = 1
  pure val OP_matrix: int = 2
  pure val OP_vector: int = 3
  pure val OP_choice: int = 4

  type St = int
  pure val ST0: St = 0
  type Verdict = { next: St, clause: str, case: str }
  pure def ok(c: str): Verdict = { next: 0, clause: "", case: c }
  pure def no(why: str, c: str): Verdict = { next: 0, clause: why, case: c }

  pure def ang(unit: int, x: int): int = if (unit == 0) rad(x) else x
  pure def point(unit: int, k: int, x: int, y: int, z: int): V3 =
    (if (isAngle(k, 0)) ang(unit, x) else x, if (isAngle(k, 1)) ang(unit, y) else y, z)

  // coordinates below one millimetre may be reported as zero in AER
  pure def trimSlack(v: int): int = if (iabs(v) <= em(3) + em(9)) em(3) + em(9) else 0

  pure def kindName(k: int): str =
    if (k == 0) "ecef" else if (k == 1) "geodetic" else if (k == 2) "enu" else if (k == 3) "ned"
    else if (k == 4) "nwu" else if (k == 5) "sez" else if (k == 6) "aer" else if (k == 7) "spherical"
    else if (k == 8) "body" else "dca"

  // payload: src dst unit a b lat0 lon0 h0 e1 e2 e3 p1 p2 p3 q1 q2 q3 reltol abstol
  pure def convert(w: List[int]): Verdict = {
    val src = asInt(w[0])
    val dst = asInt(w[1])
    val u = asInt(w[2])
    val c = kindName(dst)
    if (not(isNum(w[14]) and isNum(w[15]) and isNum(w[16]))) no("result-not-a-number", c)
    else {
      val wd: World = { a: w[3], b: w[4], lat: ang(u, w[5]), lon: ang(u, w[6]), h: w[7],
                        e1: ang(u, w[8]), e2: ang(u, w[9]), e3: ang(u, w[10]) }
      val p = point(u, src, w[11], w[12], w[13])
      val q = point(u, dst, w[14], w[15], w[16])
      val local = isLocal(src) and isLocal(dst)
      // purely local conversions are compared in ENU components
      val pp = if (local) toEnu(wd, src, p) else denote(wd, src, p)
      val qq = if (local) toEnu(wd, dst, q) else denote(wd, dst, q)
      val obs = if (isLocal(src) or isLocal(dst)) wd.a + iabs(wd.h) else 0
      val scale = imax(norm(pp), if (local) 0 else obs)
      val err = norm(vsub(pp, qq))
      val base = mul(w[17], scale) + w[18]
      val slack = if (dst == K_AER) {
        val enu = if (local) pp else mv(enuAxes(wd.lat, wd.lon), vsub(pp, geodetic2xyz(wd.a, wd.b, wd.lat, wd.lon, wd.h)))
        hyp3(trimSlack(iabs(enu._1) - base), trimSlack(iabs(enu._2) - base), trimSlack(iabs(enu._3) - base))
      } else 0
      if (err > base + slack) no("denotes-another-point", c)
      // between geodetic and spherical the longitude may stay as it was given
      else if (not(canonical(wd, dst, if (Set(K_GEOD, K_SPH).contains(src) and Set(K_GEOD, K_SPH).contains(dst)) (q._1, 0, q._3) else q))) no("outside-documented-range", c)
      else ok(c)
    }
  }

  // rows: axes of the frame in ECEF components
  pure def axesInEcef(wd: World, k: int): M3 =
    if (k == K_ECEF) IDENT else mm(axesInEnu(wd, k), enuAxes(wd.lat, wd.lon))
  // components in frame src -> components in frame dst
  pure def rotation(wd: World, src: int, dst: int): M3 = {
    if (src == K_ECEF or dst == K_ECEF) mm(axesInEcef(wd, dst), mt(axesInEcef(wd, src)))
    else mm(axesInEnu(wd, dst), mt(axesInEnu(wd, src)))
  }
  pure def attitude(u: int, lat: int, lon: int, e1: int, e2: int, e3: int): World =
    { a: S, b: S, lat: ang(u, lat), lon: ang(u, lon), h: 0, e1: ang(u, e1), e2: ang(u, e2), e3: ang(u, e3) }

  // payload: src dst unit lat0 lon0 e1 e2 e3 m11..m33 tol
  pure def matrix(w: List[int]): Verdict = {
    val c = "matrix"
    if (not(allNum(w.slice(8, 17)))) no("result-not-a-number", c)
    else {
      val m: M3 = ((w[8], w[9], w[10]), (w[11], w[12], w[13]), (w[14], w[15], w[16]))
      val wd = attitude(asInt(w[2]), w[3], w[4], w[5], w[6], w[7])
      if (mdist(mm(m, mt(m)), IDENT) > 4 * w[17]) no("matrix-not-orthonormal", c)
      else if (iabs(det3(m) - S) > 4 * w[17]) no("matrix-not-right-handed", c)
      else if (mdist(m, rotation(wd, asInt(w[0]), asInt(w[1]))) > w[17]) no("matrix-is-another-rotation", c)
      else ok(c)
    }
  }
  // payload: src dst unit lat0 lon0 e1 e2 e3 p1 p2 p3 q1 q2 q3 tol
  pure def vector(w: List[int]): Verdict = {
    val c = "vector"
    if (not(allNum(w.slice(11, 14)))) no("result-not-a-number", c)
    else {
      val p = (w[8], w[9], w[10])
      val q = (w[11], w[12], w[13])
      val wd = attitude(asInt(w[2]), w[3], w[4], w[5], w[6], w[7])
      if (dist(mv(rotation(wd, asInt(w[0]), asInt(w[1])), p), q) > mul(w[14], norm(p)) + 4) no("vector-is-not-the-rotated-one", c)
      else ok(c)
    }
  }

  // a call with a choice of frame and rotation sequence; payload: frame (0 known or
  // left out, 1 unknown), sequence (0 supported or left out, 1 not),
  // outcome (0 answered, 1 ValueError, 2 another exception)
  pure def choice(w: List[int]): Verdict = {
    val c = "choice"
    val valid = w[0] == 0 and w[1] == 0
    if (valid) (if (w[2] == 0) ok(c) else no("supported-choice-rejected", c))
    else if (w[2] == 0) no("unsupported-choice-accepted", c)
    else if (w[2] != S) no("unsupported-choice-raises-another-exception", c)
    else ok(c)
  }

  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_convert) convert(w)
    else if (op == OP_matrix) matrix(w)
    else if (op == OP_vector) vector(w)
    else if (op == OP_choice) choice(w)
    else no("unknown-operation", "none")
}
