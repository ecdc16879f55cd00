// Orientation of the Earth: inertial (mean equator and equinox J2000) to
// Earth-fixed, IAU 1976 precession, truncated nutation, apparent sidereal time,
// polar motion.
module orient {
  import fx.* from "./fx"
  import time.* from "./time"

  // rotations of the axes
  pure def r1(x: int): M3 = { val q = sincos(x) ((S, 0, 0), (0, q._2, q._1), (0, -(q._1), q._2)) }
  pure def r2(x: int): M3 = { val q = sincos(x) ((q._2, 0, -(q._1)), (0, S, 0), (q._1, 0, q._2)) }
  pure def r3(x: int): M3 = { val q = sincos(x) ((q._2, q._1, 0), (-(q._1), q._2, 0), (0, 0, S)) }

  pure def precession(t: int): M3 = {
    val zeta = arcsec(poly3(t, 0, 2306218100, 301880, 17998, 1000000))
    val theta = arcsec(poly3(t, 0, 2004310900, -426650, -41833, 1000000))
    val zed = arcsec(poly3(t, 0, 2306218100, 1094680, 18203, 1000000))
    mm(r3(-zed), mm(r2(theta), r3(-zeta)))
  }
  pure def nutationMatrix(t: int): M3 = {
    val n = nutation(t)
    val e = meanObliquity(t)
    mm(r1(-(e + n._2)), mm(r3(-(n._1)), r1(e)))
  }
  type Eop = { dut1: int, xp: int, yp: int }   // seconds, arcseconds, arcseconds
  pure def ut1days(t: int, dut1: int): int = j2000days(t) + dut1 / 86400
  pure def inertialToFixed(t: int, e: Eop): M3 = {
    val tt = centuries(j2000days(terrestrial(t)))
    mm(mm(r1(-arcsec(e.yp)), r2(-arcsec(e.xp))),
       mm(r3(gast(ut1days(t, e.dut1), tt)), mm(nutationMatrix(tt), precession(tt))))
  }
  // Earth's rotation rate, radians per UT1 second: derivative of the sidereal time
  pure val OMEGA: int = (TAU / 86400 * 36525 + TAU * 8640184812866 / (86400 * 86400 * 1000000)) / 36525
  // derivative of inertialToFixed (precession and nutation rates are 1e-11 rad/s)
  pure def rateOf(t: int, e: Eop): M3 = {
    val tt = centuries(j2000days(terrestrial(t)))
    val q = sincos(gast(ut1days(t, e.dut1), tt))
    val d: M3 = ((-mul(OMEGA, q._1), mul(OMEGA, q._2), 0), (-mul(OMEGA, q._2), -mul(OMEGA, q._1), 0), (0, 0, 0))
    mm(mm(r1(-arcsec(e.yp)), r2(-arcsec(e.xp))), mm(d, mm(nutationMatrix(tt), precession(tt))))
  }

  run orientTest = all {
    assert(iabs(OMEGA - ratio(72921158, 1000000000000)) < em(12)),
    assert(mdist(mm(inertialToFixed(0, { dut1: 0, xp: 0, yp: 0 }), mt(inertialToFixed(0, { dut1: 0, xp: 0, yp: 0 }))), IDENT) < em(35)),
  }
}
