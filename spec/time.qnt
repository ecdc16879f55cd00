// Calendar, time scales and sidereal time.
//
// An instant is an integer number of microseconds since 2000-01-01T00:00 UTC
// (every day has 86400 s, as in Python's datetime).
module time {
  import fx.* from "./fx"

  pure def isLeapYear(y: int): bool = (fmod(y, 4) == 0 and fmod(y, 100) != 0) or fmod(y, 400) == 0
  pure def daysInMonth(y: int, m: int): int =
    if (m == 2) (if (isLeapYear(y)) 29 else 28)
    else if (m == 4 or m == 6 or m == 9 or m == 11) 30 else 31
  pure val CUMULATIVE: List[int] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
  // days before 1 January of year y, counted from 1 January 2000
  pure def daysBeforeYear(y: int): int = {
    val p = y - 1
    365 * (y - 2000) + (fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400)) - (1999 / 4 - 1999 / 100 + 1999 / 400)
  }
  pure def dayNumber(y: int, m: int, d: int): int =
    daysBeforeYear(y) + CUMULATIVE[m - 1] + (if (m > 2 and isLeapYear(y)) 1 else 0) + d - 1

  pure val DAY_US: int = 86400 * 10^6
  // civil fields and offset from UTC (microseconds) -> instant
  pure def instant(y: int, mo: int, d: int, h: int, mi: int, s: int, us: int, off: int): int =
    dayNumber(y, mo, d) * DAY_US + ((h * 60 + mi) * 60 + s) * 10^6 + us - off

  // TAI-UTC: (year, month, seconds) of every step; 10 s is used before 1972
  pure val STEPS: List[(int, int, int)] = [
    (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17),
    (1979, 1, 18), (1980, 1, 19), (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24),
    (1990, 1, 25), (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29), (1996, 1, 30), (1997, 7, 31),
    (1999, 1, 32), (2006, 1, 33), (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)]
  pure def leapSeconds(t: int): int =
    STEPS.foldl(10, (acc, e) => if (t >= dayNumber(e._1, e._2, 1) * DAY_US) e._3 else acc)

  // days since J2000.0 (JD 2451545.0 = 2000-01-01T12:00), fixed point
  pure def j2000days(t: int): int = (2 * t - DAY_US) * S / (2 * DAY_US)
  pure def julianDate(t: int): int = j2000days(t) + 2451545 * S
  pure def secondsToUs(s: int): int = fdiv(s * 10^6 + S / 2, S)
  // instant in terrestrial time, as the same kind of count
  pure def terrestrial(t: int): int = t + leapSeconds(t) * 10^6 + 32184000
  pure def centuries(days: int): int = days / 36525

  // Greenwich mean sidereal time (IAU 1982) in radians, from UT1 days since J2000
  pure def gmst(days: int): int = {
    val t = centuries(days)
    val sec = ratio(6731054841, 100000) + (876600 * 3600 + 8640184) * t + t * 812866 / 1000000
      + mul(sqr(t), ratio(93104, 1000000)) - mul(mul(sqr(t), t), ratio(62, 10000000))
    fmod(sec * TAU / (86400 * S), TAU)
  }
  // Earth rotation angle (IAU 2000) in radians, from UT1 days since J2000
  pure def era(days: int): int =
    fmod(mul(ratio(7790572732640, 10^13) + days + mul(ratio(273781191135448, 10^17), days), TAU), TAU)
  pure def poly3(t: int, c0: int, c1: int, c2: int, c3: int, den: int): int = {
    val t2 = sqr(t)
    (c0 * S + c1 * t + c2 * t2 + c3 * mul(t2, t)) / den
  }
  pure def arcsec(x: int): int = x * PI / (648000 * S)
  pure def meanObliquity(t: int): int = arcsec(poly3(t, 84381448000, -46815000, -590, 1813, 1000000))
  // the four dominant terms of the nutation: (in longitude, in obliquity), radians
  pure def nutation(t: int): (int, int) = {
    val l = rad(poly3(t, 2804665, 360007698, 0, 0, 10000))
    val lp = rad(poly3(t, 2183165, 4812678813, 0, 0, 10000))
    val om = rad(poly3(t, 1250445200000, -19341362610000, 20708000, 0, 10000000000)
      + mul(sqr(t), t) / 450000)
    val a = sincos(om)
    val b = sincos(2 * l)
    val c = sincos(2 * lp)
    val d = sincos(2 * om)
    (arcsec((-1720 * a._1 - 132 * b._1 - 23 * c._1 + 21 * d._1) / 100),
     arcsec((920 * a._2 + 57 * b._2 + 10 * c._2 - 9 * d._2) / 100))
  }
  // Greenwich apparent sidereal time
  pure def gast(ut1days: int, tt: int): int = {
    val n = nutation(tt)
    fmod(gmst(ut1days) + mul(n._1, cos(meanObliquity(tt) + n._2)), TAU)
  }

  run calendarTest = all {
    assert(dayNumber(2000, 1, 1) == 0),
    assert(dayNumber(1970, 1, 1) == -10957),
    assert(dayNumber(1858, 11, 17) == 2400001 - 2451545),
    assert(dayNumber(1900, 3, 1) - dayNumber(1900, 2, 28) == 1),
    assert(dayNumber(2000, 3, 1) - dayNumber(2000, 2, 28) == 2),
    // every day of four centuries is one after its predecessor
    assert(range(1801, 2201).foldl(true, (ok, y) => ok and range(1, 13).foldl(true, (o, m) =>
      o and (if (m < 12) dayNumber(y, m + 1, 1) else dayNumber(y + 1, 1, 1)) == dayNumber(y, m, 1) + daysInMonth(y, m)))),
    assert(leapSeconds(instant(2016, 12, 31, 23, 59, 59, 999999, 0)) == 36),
    assert(leapSeconds(instant(2017, 1, 1, 0, 0, 0, 0, 0)) == 37),
    assert(julianDate(instant(2000, 1, 1, 12, 0, 0, 0, 0)) == 2451545 * S),
    // Meeus, example 12.b: 1987 April 10, 19:21:00 UT, mean sidereal time 8h34m57.0896s
    assert(iabs(gmst(j2000days(instant(1987, 4, 10, 19, 21, 0, 0, 0))) - (308970896 * TAU / (86400 * 10000))) < em(8)),
  }
}
