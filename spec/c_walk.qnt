// Trace specification of conversion chains: the state is the point itself.
module c_walk {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import geo.* from "./geo"

  pure val OP_start: int = 1
  pure val OP_hop: int = 2

  // the point, where the walk is, and how far rounding may have carried it
  type St = { w: World, unit: int, kind: int, p: V3, scale: int, hops: int, trims: int }
  pure val ZERO: World = { a: S, b: S, lat: 0, lon: 0, h: 0, e1: 0, e2: 0, e3: 0 }
  pure val ST0: St = { w: ZERO, unit: 0, kind: -1, p: (0, 0, 0), scale: S, hops: 0, trims: 0 }
  type Verdict = { next: St, clause: str, case: str }

  pure def ang(u: int, x: int): int = if (u == 0) rad(x) else x
  pure def point(u: int, k: int, x: int, y: int, z: int): V3 =
    (if (isAngle(k, 0)) ang(u, x) else x, if (isAngle(k, 1)) ang(u, y) else y, z)
  pure def kindName(k: int): str =
    if (k == 0) "at-ecef" else if (k == 1) "at-geodetic" else if (k == 2) "at-enu" else if (k == 3) "at-ned"
    else if (k == 4) "at-nwu" else if (k == 5) "at-sez" else if (k == 6) "at-aer" else if (k == 7) "at-spherical"
    else if (k == 8) "at-body" else "at-dca"

  // payload of start: unit a b lat0 lon0 h0 e1 e2 e3 kind p1 p2 p3
  pure def start(w: List[int]): St = {
    val u = asInt(w[0])
    val wd: World = { a: w[1], b: w[2], lat: ang(u, w[3]), lon: ang(u, w[4]), h: w[5],
                      e1: ang(u, w[6]), e2: ang(u, w[7]), e3: ang(u, w[8]) }
    val k = asInt(w[9])
    val p = denote(wd, k, point(u, k, w[10], w[11], w[12]))
    { w: wd, unit: u, kind: k, p: p, scale: imax(norm(p), wd.a + iabs(wd.h)), hops: 0, trims: 0 }
  }
  // payload of hop: src dst q1 q2 q3
  pure def hop(st: St, w: List[int]): Verdict = {
    val k = asInt(w[1])
    val c = kindName(k)
    val nx = { ...st, kind: k, hops: st.hops + 1, trims: st.trims + (if (k == K_AER) 1 else 0) }
    if (asInt(w[0]) != st.kind) { next: nx, clause: "walk-not-continued", case: c }
    else if (not(allNum(w.slice(2, 5)))) { next: nx, clause: "not-a-number", case: c }
    else {
      val q = point(st.unit, k, w[2], w[3], w[4])
      val d = dist(st.p, denote(st.w, k, q))
      val tol = mul(st.scale, ratio(nx.hops, 10^13)) + nx.hops * 2 * em(8) + nx.trims * 18 * em(4)
      if (d > tol) { next: nx, clause: "walk-left-the-point", case: c }
      // between geodetic and spherical the longitude may stay as it was given
      else if (not(canonical(st.w, k, if (Set(K_GEOD, K_SPH).contains(st.kind) and Set(K_GEOD, K_SPH).contains(k)) (q._1, 0, q._3) else q))) { next: nx, clause: "outside-documented-range", case: c }
      else { next: nx, clause: "", case: c }
    }
  }
  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_start) { next: start(w), clause: "", case: "start" }
    else hop(st, w)
}
