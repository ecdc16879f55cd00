// Trace specification of relations between calls: the same question asked in
// another way (unit, shape, installation, scale) has the same answer.
module c_rel {
  import fx.* from "./fx"
  import wire.* from "./wire"
  import geo.* from "./geo"

  pure val OP_agree: int = 1
  pure val OP_shape: int = 2
  pure val OP_raises: int = 3
  pure val OP_scaled: int = 4
  pure val OP_model: int = 5
  pure val OP_unknown: int = 6
  pure val OP_missing: int = 7
  pure val OP_neutral: int = 8

  type St = int
  pure val ST0: St = 0
  type Verdict = { next: St, clause: str, case: str }
  pure def ok(c: str): Verdict = { next: 0, clause: "", case: c }
  pure def no(why: str, c: str): Verdict = { next: 0, clause: why, case: c }

  // result groups
  pure val G_ANG: int = 1      // angle, whole turns do not matter
  pure val G_VAL: int = 2      // angle as a number
  pure val G_MAT: int = 13
  pure def width(g: int): int =
    if (g <= 5) 1 else if (g <= 10) 3 else if (g <= 12) 2 else 9
  pure def isAng(g: int, k: int): bool =
    g == 1 or g == 2 or ((g == 8 or g == 9 or g == 10) and k < 2) or g == 11 or g == 12
  pure def groupName(g: int): str =
    if (g == 1) "angle" else if (g == 2) "angle-value" else if (g == 3) "length" else if (g == 4) "number" else if (g == 5) "area"
    else if (g == 6) "vector" else if (g == 7) "direction-vector" else if (g == 8) "geodetic" else if (g == 9) "spherical"
    else if (g == 10) "aer" else if (g == 11) "position" else if (g == 12) "sky" else "matrix"

  pure def unitVector(lat: int, lon: int): V3 = {
    val p = sincos(lat)
    val l = sincos(lon)
    (mul(p._2, l._2), mul(p._2, l._1), p._1)
  }
  // distance between two results of a group (angles in radians)
  pure def apart(mm: int, g: int, a: int, b: int, x: List[int], y: List[int]): int =
    if (g == 1) angDiff(x[0], y[0])
    else if (g <= 5) iabs(x[0] - y[0])
    else if (g <= 7) hyp3(iabs(x[0] - y[0]), iabs(x[1] - y[1]), iabs(x[2] - y[2]))
    else if (g == 8) dist(geodetic2xyz(a, b, x[0], x[1], x[2]), geodetic2xyz(a, b, y[0], y[1], y[2]))
    else if (g == 9) dist(vscale(x[2], unitVector(x[0], x[1])), vscale(y[2], unitVector(y[0], y[1])))
    else if (g == 10) {
      // components below a millimetre (mm) may be reported as zero
      val p = aer2enuV(x[0], x[1], x[2])
      val q = aer2enuV(y[0], y[1], y[2])
      def gap(u, v) = if (iabs(u) <= mm * 11 / 10 and iabs(v) <= mm * 11 / 10) 0 else iabs(u - v)
      hyp3(gap(p._1, q._1), gap(p._2, q._2), gap(p._3, q._3))
    }
    else if (g == 11) dist(unitVector(x[0], x[1]), unitVector(y[0], y[1]))
    else if (g == 12) dist(unitVector(x[1], x[0]), unitVector(y[1], y[0]))
    else range(0, 9).foldl(0, (m, k) => imax(m, iabs(x[k] - y[k])))

  pure def group(w: List[int], at: int, g: int, degrees: bool): List[int] =
    range(0, width(g)).foldl([], (acc, k) => {
      val x = w[at + k]
      acc.append(if (isNum(x) and degrees and isAng(g, k)) rad(x) else x)
    })
  // the same failures and infinities in the same places
  pure def sameKind(x: List[int], y: List[int]): bool =
    range(0, x.length()).foldl(true, (acc, k) => acc and ((isNum(x[k]) and isNum(y[k])) or x[k] == y[k]))
  // angles that denote the same direction are in the same turn, unless the end of the range lies between them
  pure def sameTurn(x: int, y: int): bool =
    iabs(x - y) <= PI or angDiff(x, y) + em(13) >= imin(angDiff(x, 0), angDiff(x, PI))
  pure def eachSame(mm: int, g: int, a: int, b: int, x: List[int], y: List[int], tol: int): bool =
    sameKind(x, y) and (if (allNum(x)) apart(mm, g, a, b, x, y) <= tol and
      range(0, x.length()).foldl(true, (acc, k) => acc and (not(isAng(g, k)) or sameTurn(x[k], y[k]))) else true)

  // payload: resultUnit referenceUnit neighbours groups a b (code tol)*groups,
  //          result words, reference words, words of the reference at neighbouring arguments
  pure def agree(w: List[int]): Verdict = agreeTo(em(3), w)
  pure def agreeTo(mm: int, w: List[int]): Verdict = {
    val ru = w[0] == 0
    val fu = w[1] == 0
    val k = asInt(w[2])
    val ng = asInt(w[3])
    val codes = range(0, ng).foldl([], (acc, i) => acc.append(asInt(w[6 + 2 * i])))
    val n = codes.foldl(0, (acc, g) => acc + width(g))
    val base = 6 + 2 * ng
    val r = range(0, ng).foldl({ bad: "", at: base }, (acc, i) => {
      val g = codes[i]
      val tol = w[7 + 2 * i]
      val x = group(w, acc.at, g, ru)
      val f0 = group(w, acc.at + n, g, fu)
      val near = range(1, k + 1).foldl([f0], (l, j) => l.append(group(w, acc.at + n * (j + 1), g, fu)))
      // how far a rounding error of the arguments carries the reference
      val spread = near.foldl(0, (m, y) => if (allNum(y) and allNum(f0)) imax(m, apart(mm, g, w[4], w[5], f0, y)) else m)
      val good = near.foldl(false, (hit, y) => hit or eachSame(mm, g, w[4], w[5], x, y, tol + 4 * spread))
      { bad: if (acc.bad != "" or good) acc.bad else groupName(g), at: acc.at + width(g) }
    })
    if (r.bad != "") no("another-answer", r.bad) else ok(groupName(codes[0]))
  }

  // payload: nin, (rank dims..)*, nout, (rank dims..)*: every result has the broadcast shape
  type Cur = { at: int, shapes: List[List[int]] }
  pure def shapesFrom(w: List[int], at: int, n: int): Cur =
    range(0, n).foldl({ at: at, shapes: [] }, (acc, i) => {
      val rank = asInt(w[acc.at])
      { at: acc.at + 1 + rank, shapes: acc.shapes.append(range(0, rank).foldl([], (l, j) => l.append(asInt(w[acc.at + 1 + j])))) }
    })
  // dims from the last, missing ones are 1
  pure def dimFromEnd(s: List[int], i: int): int = if (i < s.length()) s[s.length() - 1 - i] else 1
  pure def broadcast(s: List[int], t: List[int]): List[int] = {
    val rank = if (s.length() > t.length()) s.length() else t.length()
    range(0, rank).foldl([], (acc, i) => {
      val x = dimFromEnd(s, rank - 1 - i)
      val y = dimFromEnd(t, rank - 1 - i)
      acc.append(if (x == 1) y else x)
    })
  }
  pure def shape(w: List[int]): Verdict = {
    if (not(isNum(w[0]))) no("array-call-failed", "shape")
    else {
      val ins = shapesFrom(w, 1, asInt(w[0]))
      val outs = shapesFrom(w, ins.at + 1, asInt(w[ins.at]))
      val want = ins.shapes.foldl([], (acc, s) => broadcast(acc, s))
      val alike = ins.shapes.foldl(true, (acc, s) => acc and s == ins.shapes[0])
      // a result that does not depend on an argument need not repeat along its axes
      if (outs.shapes.foldl(true, (acc, s) => acc and (if (alike) s == want else broadcast(s, want) == want)))
        ok(if (alike) "shape" else "broadcast")
      else no("another-shape", "shape")
    }
  }
  // payload: kind of exception of both (0 none, else a code)
  pure def raises(w: List[int]): Verdict =
    if (w[0] == w[1]) ok(if (w[0] == 0) "both-answer" else "both-reject") else no("another-exception", "raises")

  // payload: k, n, power of a length in every of the n result words, then as in `agree`:
  // the first results are those of the problem enlarged 2^k times
  pure def scaled(w: List[int]): Verdict = {
    val k = asInt(w[0])
    val n = asInt(w[1])
    val hd = w.slice(2 + n, w.length())
    val base = 6 + 2 * asInt(hd[3])
    val small = range(0, n).foldl([], (acc, i) => {
      val x = hd[base + i]
      val p = k * asInt(w[2 + i])
      acc.append(if (not(isNum(x)) or p == 0) x else if (p > 0) x / 2^p else x * 2^(-p))
    })
    // (a millimetre of the smaller one)
    agreeTo(if (k < 0) em(3) * 2^(-k) else em(3), hd.slice(0, base).concat(small).concat(hd.slice(base + n, hd.length())))
  }
  // Calls whose answer does not depend on which ellipsoid it is, as long as it is the same one in all
  // parts of the computation (nothing moved, there and back).
  // payload: a tol n (kind got want)*n, kind 0: a length, 1: an angle in radians, whole turns aside
  pure def neutral(w: List[int]): Verdict = {
    val n = asInt(w[2])
    val bad = range(0, n).foldl(false, (acc, i) => {
      val got = w[4 + 3 * i]
      val want = w[5 + 3 * i]
      acc or not(isNum(got)) or (if (asInt(w[3 + 3 * i]) == 0) iabs(got - want) > mul(w[0], w[1]) else angDiff(got, want) > w[1])
    })
    if (bad) no("two-ellipsoids-in-one-answer", "neutral") else ok("neutral")
  }
  // published defining parameters, in units of 10 micrometres
  pure val MODELS: List[(int, int)] = [
    (639730000000, 636380628300), (637652300000, 635586293330), (637729936500, 635609835900), (637730406300, 635610303900),
    (637729855600, 635609755000), (637756339600, 635625690900), (637739715500, 635607896300), (637820640000, 635658380000),
    (637819000000, 635645600000), (637824914500, 635651487000), (637820000000, 635681817000), (637838800000, 635691194600),
    (637838800000, 635691194600), (637824500000, 635686301900), (637814500000, 635675976900), (637816000000, 635677471900),
    (637815750000, 635677220000), (637816000000, 635677451600), (637816000000, 635677471900), (637813500000, 635675052002),
    (637813700000, 635675231414), (637813700000, 635675231425), (637100877140, 637100877140), (637813600000, 635675130200),
    (637813600000, 635675136180), (637813660000, 635675190000), (637813650000, 635675175800)
  ]
  // payload: index in MODELS or -1, named and equal to another lookup, a b asked for, a b f n e
  pure def model(w: List[int]): Verdict = {
    val i = asInt(w[0])
    val c = if (i < 0) "model" else "earth-model"
    if (not(allNum(w))) no("no-ellipsoid", c)
    else {
      val a = w[4]
      val b = w[5]
      val f = div(a - b, a)
      val e = sqrt(div(sqr(a) - sqr(b), sqr(a)))
      if (asInt(w[1]) != 1) no("another-name", c)
      else if (a != w[2] or b != w[3]) no("another-axis", c)
      else if (i >= 0 and (iabs(a - MODELS[i]._1 * em(5)) > 2 * em(5) or iabs(b - MODELS[i]._2 * em(5)) > 2 * em(5))) no("not-the-published-axes", c)
      else if (iabs(w[6] - f) > 4 * em(16)) no("another-flattening", c)
      else if (iabs(w[7] - div(a - b, a + b)) > 4 * em(16)) no("another-third-flattening", c)
      // the eccentricity squared has the rounding error of the flattening
      else if (iabs(sqr(w[8]) - sqr(e)) > em(15)) no("another-eccentricity", c)
      else ok(c)
    }
  }

  pure def judge(st: St, op: int, w: List[int]): Verdict =
    if (op == OP_agree) agree(w)
    else if (op == OP_shape) shape(w)
    else if (op == OP_raises) raises(w)
    else if (op == OP_scaled) scaled(w)
    else if (op == OP_model) model(w)
    else if (op == OP_neutral) neutral(w)
    else if (op == OP_unknown) (if (asInt(w[0]) == 0) ok("unknown-name") else no("unknown-name-accepted", "unknown-name"))
    else no("not-available", "missing")
}
