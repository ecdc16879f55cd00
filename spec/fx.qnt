// Exact / fixed-point real arithmetic used by every other module.
//
// A real number r is represented by the integer trunc(r * S), S = 2^128, so one
// unit in the last place is 2.9e-39.  Quint integers are unbounded, hence there
// is no overflow and every IEEE-754 double of magnitude >= 2^-75 is represented
// exactly (smaller ones lose bits below 2^-128).
module fx {
  pure val S: int = 2^128

  pure def iabs(x: int): int = if (x < 0) -x else x
  pure def imax(x: int, y: int): int = if (x > y) x else y
  pure def imin(x: int, y: int): int = if (x < y) x else y
  pure def sgn(x: int): int = if (x > 0) 1 else if (x < 0) -1 else 0
  // floor division / modulus (the built-in operators truncate)
  pure def fdiv(a: int, b: int): int = {
    val q = a / b
    if (q * b != a and ((a < 0) != (b < 0))) q - 1 else q
  }
  pure def fmod(a: int, b: int): int = a - b * fdiv(a, b)
  pure def fromInt(n: int): int = n * S
  pure def ratio(n: int, d: int): int = n * S / d
  pure def mul(a: int, b: int): int = a * b / S
  pure def sqr(a: int): int = a * a / S
  pure def div(a: int, b: int): int = a * S / b
  // 10^-k
  pure def em(k: int): int = S / 10^k

  // integer square root by Newton from above: 40 halvings cover 2^700
  pure def bitsUp(n: int): int =
    // power of two >= sqrt(n)
    range(0, 10).foldl((1, 512), (acc, i) => {
      // acc._1 current power, acc._2 exponent step
      val c = acc._1 * 2^acc._2
      if (c * c <= n) (c, acc._2 / 2) else (acc._1, acc._2 / 2)
    })._1 * 2
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else {
      val r = range(0, 12).foldl((bitsUp(n), false), (acc, i) =>
        if (acc._2) acc else {
          val y = (acc._1 + n / acc._1) / 2
          if (y >= acc._1) (acc._1, true) else (y, false)
        })
      r._1
    }
  pure def sqrt(x: int): int = isqrt(x * S)
  pure def hyp2(x: int, y: int): int = isqrt(x * x + y * y)
  pure def hyp3(x: int, y: int, z: int): int = isqrt(x * x + y * y + z * z)

  // pi to 2^-300 (Machin), rounded to the working scale
  pure def atanInv(n: int, one: int): int = {
    val r = range(0, 160).foldl((0, one / n, 1), (acc, i) =>
      (acc._1 + acc._3 * (acc._2 / (2 * i + 1)), acc._2 / (n * n), -acc._3))
    r._1
  }
  pure val PI: int = (4 * (4 * atanInv(5, 2^300) - atanInv(239, 2^300))) / 2^172
  pure val TAU: int = (8 * (4 * atanInv(5, 2^300) - atanInv(239, 2^300))) / 2^172
  pure val HALFPI: int = (2 * (4 * atanInv(5, 2^300) - atanInv(239, 2^300))) / 2^172
  pure val LN2: int = {
    // ln 2 = 2 atanh(1/3)
    val r = range(0, 100).foldl((0, 2 * S / 3), (acc, i) => (acc._1 + acc._2 / (2 * i + 1), acc._2 / 9))
    r._1
  }

  pure def sinTaylor(x: int): int = {
    val x2 = sqr(x)
    range(0, 16).foldl((x, x), (acc, i) => {
      val t = -(acc._2 * x2 / (S * ((2 * i + 2) * (2 * i + 3))))
      (acc._1 + t, t)
    })._1
  }
  pure def cosTaylor(x: int): int = {
    val x2 = sqr(x)
    range(0, 16).foldl((S, S), (acc, i) => {
      val t = -(acc._2 * x2 / (S * ((2 * i + 1) * (2 * i + 2))))
      (acc._1 + t, t)
    })._1
  }
  // (sin x, cos x) for any x in radians
  pure def sincos(x: int): (int, int) = {
    val q = fdiv(x + HALFPI / 2, HALFPI)
    val r = x - q * HALFPI
    val s = sinTaylor(r)
    val c = cosTaylor(r)
    val m = fmod(q, 4)
    if (m == 0) (s, c) else if (m == 1) (c, -s) else if (m == 2) (-s, -c) else (-c, s)
  }
  pure def sin(x: int): int = sincos(x)._1
  pure def cos(x: int): int = sincos(x)._2

  // atan on [0,1]: two argument halvings then the series
  pure def atanSmall(x: int): int = {
    def h(t) = div(t, S + sqrt(S + sqr(t)))
    val y = h(h(h(x)))
    val y2 = sqr(y)
    val r = range(0, 32).foldl((0, y), (acc, i) =>
      (acc._1 + acc._2 / (if (i % 2 == 0) (2 * i + 1) else -(2 * i + 1)), acc._2 * y2 / S))
    8 * r._1
  }
  pure def atan2(y: int, x: int): int =
    if (x == 0 and y == 0) 0 else {
      val ax = iabs(x)
      val ay = iabs(y)
      val base = if (ay <= ax) atanSmall(div(ay, ax)) else HALFPI - atanSmall(div(ax, ay))
      val up = if (x >= 0) base else PI - base
      if (y < 0) -up else up
    }
  pure def atan(x: int): int = atan2(x, S)
  pure def asin(x: int): int = atan2(x, sqrt(imax(0, S - sqr(x))))
  pure def acos(x: int): int = atan2(sqrt(imax(0, S - sqr(x))), x)

  // exp by reduction modulo ln 2 and the Taylor series
  pure def exp(x: int): int = {
    val k = fdiv(x, LN2)
    val r = x - k * LN2
    val e = range(1, 36).foldl((S, S), (acc, i) => {
      val t = acc._2 * r / (S * i)
      (acc._1 + t, t)
    })._1
    if (k >= 0) e * 2^k else e / 2^(-k)
  }
  // natural log of x > 0: normalise to [1,2) then atanh series
  pure def log(x: int): int = {
    val up = range(0, 9).foldl((x, 0, 256), (acc, i) =>
      if (acc._1 >= S * 2^acc._3) (acc._1 / 2^acc._3, acc._2 + acc._3, acc._3 / 2)
      else (acc._1, acc._2, acc._3 / 2))
    val dn = range(0, 9).foldl((up._1, up._2, 256), (acc, i) =>
      if (acc._1 * 2^acc._3 < 2 * S) (acc._1 * 2^acc._3, acc._2 - acc._3, acc._3 / 2)
      else (acc._1, acc._2, acc._3 / 2))
    val m = sqrt(sqrt(dn._1))
    val z = div(m - S, m + S)
    val z2 = sqr(z)
    val r = range(0, 26).foldl((0, z), (acc, i) => (acc._1 + acc._2 / (2 * i + 1), acc._2 * z2 / S))
    8 * r._1 + dn._2 * LN2
  }
  pure def sinh(x: int): int = (exp(x) - exp(-x)) / 2
  pure def atanh(x: int): int = log(div(S + x, S - x)) / 2
  pure def asinh(x: int): int = if (x < 0) -log(-x + sqrt(S + sqr(x))) else log(x + sqrt(S + sqr(x)))

  pure def rad(degrees: int): int = degrees * PI / (180 * S)
  pure def degr(radians: int): int = radians * 180 * S / PI
  // angle wrapped to [-pi, pi)
  pure def wrapPi(x: int): int = fmod(x + PI, TAU) - PI
  // angular separation of two directions given in radians
  pure def angDiff(x: int, y: int): int = iabs(wrapPi(x - y))

  // ---- 3-vectors -----------------------------------------------------------
  type V3 = (int, int, int)
  pure def vadd(u: V3, v: V3): V3 = (u._1 + v._1, u._2 + v._2, u._3 + v._3)
  pure def vsub(u: V3, v: V3): V3 = (u._1 - v._1, u._2 - v._2, u._3 - v._3)
  pure def vscale(k: int, v: V3): V3 = (mul(k, v._1), mul(k, v._2), mul(k, v._3))
  pure def dot(u: V3, v: V3): int = (u._1 * v._1 + u._2 * v._2 + u._3 * v._3) / S
  pure def vcross(u: V3, v: V3): V3 =
    ((u._2 * v._3 - u._3 * v._2) / S, (u._3 * v._1 - u._1 * v._3) / S, (u._1 * v._2 - u._2 * v._1) / S)
  pure def norm(v: V3): int = hyp3(v._1, v._2, v._3)
  pure def dist(u: V3, v: V3): int = norm(vsub(u, v))
  // rows of a 3x3 matrix
  type M3 = (V3, V3, V3)
  pure def mv(m: M3, v: V3): V3 = (dot(m._1, v), dot(m._2, v), dot(m._3, v))
  pure def mt(m: M3): M3 =
    ((m._1._1, m._2._1, m._3._1), (m._1._2, m._2._2, m._3._2), (m._1._3, m._2._3, m._3._3))
  pure def mm(a: M3, b: M3): M3 = {
    val t = mt(b)
    ((dot(a._1, t._1), dot(a._1, t._2), dot(a._1, t._3)),
     (dot(a._2, t._1), dot(a._2, t._2), dot(a._2, t._3)),
     (dot(a._3, t._1), dot(a._3, t._2), dot(a._3, t._3)))
  }
  pure def det3(m: M3): int = dot(m._1, vcross(m._2, m._3))
  pure val IDENT: M3 = ((S, 0, 0), (0, S, 0), (0, 0, S))
  pure def mdist(a: M3, b: M3): int =
    imax(imax(dist(a._1, b._1), dist(a._2, b._2)), dist(a._3, b._3))
}
