#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json
from pathlib import Path

P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=["src/pymap3d/" + f for f in files],
                mechanism=[dict(name=n, where="src/pymap3d/" + w) for n, w in mech],
                observe_at=observe, hook_needed=None,
            ),
        )
    )


p("C01", "Geodetic and ECEF coordinates denote the same point, in both directions",
  "geodetic2ecef returns the Earth-centred Cartesian position of the geodetic point on the given ellipsoid, and ecef2geodetic returns geodetic coordinates (latitude in [-90,90], longitude in [-180,180], signed height) that denote exactly the given position to within rounding (about 1e-9 of the distance). This holds for every registered ellipsoid, at the poles, equator, polar axis and antimeridian, for points below the surface (down to half the semi-minor axis) and far above it (up to 1000 semi-major axes).",
  ["inputs", "configurations"],
  "all finite points with b/2 < R < 1000a, every ellipsoid model of the registry and custom ones, degrees and radians, scalars and arrays, with and without NumPy",
  "Tests sample about ten points, nearly all near the surface of WGS84; the iteration's convergence away from the surface and other ellipsoids is not sampled.",
  ["ecef.py"], [("closed form and You-2000 iteration", "ecef.py geodetic2ecef/ecef2geodetic")],
  ["return values of geodetic2ecef, ecef2geodetic"])

p("C02", "ENU, NED, NWU and SEZ are one tangent frame at the observer",
  "For every observer and target, the conversions between ECEF or geodetic coordinates and the local ENU, NED, NWU and SEZ frames (and the vector-only forms, including enu2uvw/uvw2enu, and the rotation matrices) express the same displacement in axes tangent to the ellipsoid at the observer's geodetic position: east, north, up and their permutations with signs. Each conversion is the inverse of its counterpart, rotations are orthonormal, right-handed and preserve length, and vectors are rotated without translation.",
  ["inputs", "configurations"],
  "all observers (poles, antimeridian, any height), all displacements up to 1e8 m, all registered ellipsoids, both angle units",
  "Tests use a few observers in the northern, western quadrant and WGS84; sign and axis errors of combinations they do not sample go unseen.",
  ["enu.py", "ned.py", "nwu.py", "sez.py", "frames.py", "ecef.py"],
  [("frame rotations", "frames.py"), ("uvw2enu/enu2uvw", "ecef.py")], ["return values of *2enu, *2ned, *2nwu, *2sez and inverses, *_matrix, *v"])

p("C03", "Azimuth, elevation, range describe the same displacement as local Cartesian axes",
  "Azimuth is measured clockwise from north in [0,360), elevation up from the local horizon in [-90,90] and slant range is the non-negative distance; every conversion from and to azimuth-elevation-range (ENU, NED, NWU, SEZ, DCA, ECEF, geodetic) denotes the same target point as its other representation. Components below one millimetre may be reported as zero, nothing else is lost, including straight up, straight down and zero range.",
  ["inputs", "configurations"],
  "all targets and observers up to 1e8 m, all quadrants, zenith, nadir, coincident points, all ellipsoids, both units",
  "Tests check one azimuth/elevation per conversion.",
  ["aer.py", "enu.py", "ned.py", "nwu.py", "sez.py"],
  [("enu2aer/aer2enu", "enu.py"), ("aer conversions", "aer.py")], ["return values of *2aer and aer2*"])

p("C04", "Vehicle body frame is the aerospace yaw-pitch-roll rotation of the local frame",
  "With the default sequence, body axes are forward, right, down after turning the NED axes by yaw about down, pitch about the new right axis and roll about the new forward axis; every conversion and matrix between body and NED, ENU, NWU, SEZ, ECEF or geodetic denotes the same point or vector, whichever local frame it goes through. Each inverse matrix is the transpose, and an unknown frame or an unsupported sequence raises ValueError.",
  ["inputs", "configurations"],
  "all attitudes including gimbal lock, all points, frames ned/enu/nwu/sez, both units",
  "Tests use two attitudes; compositions of frames are not enumerated.",
  ["body.py", "frames.py"], [("body rotations", "frames.py"), ("body conversions", "body.py")], ["return values of body*, *2body*"])

p("C05", "Downrange-crossrange-above is the local frame turned to the heading",
  "Downrange lies along the heading (clockwise from north), crossrange perpendicular to it in the horizontal plane (positive on the documented side, the same in every conversion), above along the local vertical; every conversion from and to these coordinates (ENU, NED, AER, ECEF, geodetic) denotes the same target point and each is the inverse of its counterpart.",
  ["inputs", "configurations"], "all headings, displacements up to 1e8 m, observers, ellipsoids, both units",
  "Tests use one heading and a handful of offsets.",
  ["dca.py"], [("dca rotation", "dca.py enu2dca/dca2enu")], ["return values of dca2*, *2dca"])

p("C06", "Any chain of coordinate conversions ends at the same point",
  "Starting from a point in any supported representation, every walk through the conversion functions (ECEF, geodetic, spherical, ENU, NED, NWU, SEZ, AER, body, DCA, for fixed observer, attitude, ellipsoid and units) yields representations of that same point, and returning to the starting representation gives the starting coordinates, to within accumulated rounding and the one-millimetre rule of azimuth-elevation-range.",
  ["histories", "inputs", "configurations"], "all walks up to length 12 through the conversion graph, all start points and observers in the domain of C01-C05",
  "Tests check single conversions and a few round trips; compositions of conversions are not enumerated.",
  ["ecef.py", "enu.py", "ned.py", "nwu.py", "sez.py", "aer.py", "body.py", "dca.py", "spherical.py"],
  [("conversion functions", "__init__.py __all__")], ["return values along walks"])

p("C07", "ECI and ECEF are related by the Earth's rotation at that time",
  "At a given UTC instant eci2ecef and ecef2eci are inverse rotations (length and handedness preserved) that agree with precession, nutation and Greenwich sidereal time, with or without the high-accuracy backend, element by element on arrays. The state transforms rotate velocity consistently with the motion of the Earth (a body fixed to the Earth has ECI velocity equal to the cross product of Earth's rotation and position) and are inverse to each other; in the built-in backend UT1 offset and polar motion act as documented.",
  ["inputs", "configurations"], "all times 1960-2100 (built-in backend) and 1973-2025 (Astropy), positions to 1e9 m, velocities, EOP arguments",
  "Tests use one or two dates.", ["eci.py", "earth_orientation.py"],
  [("rotation matrix and rate", "earth_orientation.py"), ("transforms", "eci.py")], ["return values of eci2ecef, ecef2eci, *_state"])

p("C08", "ECI conversions to geodetic and AER go through the same rotation",
  "geodetic2eci, eci2geodetic, aer2eci and eci2aer equal the composition of ecef2eci or eci2ecef (same time, same UT1 offset and polar motion) with the corresponding ECEF conversion (same ellipsoid, same angle unit), and equivalent times give equal results: a timezone-aware datetime equals the same instant in UTC, naive datetimes are UTC.",
  ["inputs", "configurations"], "all points, observers, times, time zones, ellipsoids, both units, EOP arguments",
  "Tests do not combine EOP arguments, units, time zones and ellipsoids.", ["eci.py", "aer.py"],
  [("composition", "eci.py, aer.py")], ["return values of geodetic2eci, eci2geodetic, aer2eci, eci2aer"])

p("C09", "Degrees and radians give the same answer",
  "For every function with a degree/radian switch, calling it in radians with the angles converted gives the same result as calling it in degrees, with exactly the angular results converted and the non-angular results unchanged; the default is degrees.",
  ["inputs", "configurations"], "all functions with the switch x their angular arguments and results x inputs in their domain",
  "Tests exercise the radian switch of a minority of functions, at one point.",
  ["ecef.py", "enu.py", "aer.py", "latitude.py", "lox.py", "vincenty.py", "karney.py", "rcurve.py", "rsphere.py", "los.py", "haversine.py", "nvector.py", "dca.py", "body.py"],
  [("deg argument", "every module")], ["pairs of calls"])

p("C10", "Array calls equal scalar calls element by element",
  "With NumPy, calling a function with arrays (any shape including zero-dimensional, empty and unit-length, or mixed with scalars) returns, for each result, the scalar call's value at each position of the broadcast shape, whatever the other elements are (special values such as poles, coincident or antipodal points included).",
  ["inputs", "configurations"], "all array-capable functions x broadcastable shapes x mixtures of ordinary and special elements",
  "Tests call most functions with scalars or one small array, and never mix special and ordinary elements.",
  ["ecef.py", "enu.py", "aer.py", "latitude.py", "lox.py", "vincenty.py", "karney.py", "rcurve.py", "haversine.py", "los.py", "nvector.py", "eci.py"],
  [("broadcasting and masked special cases", "every module")], ["array calls against scalar calls"])

p("C11", "Calls have no effect on their arguments or on later calls",
  "No function modifies the arrays, lists or objects passed to it or global state that changes results: in any sequence of calls every argument is unchanged afterwards, and the same call gives the same result wherever it occurs in the sequence, also when arguments are read-only arrays or share memory.",
  ["histories", "inputs"], "all sequences of calls over a pool of argument buffers (writable, read-only, overlapping views)",
  "Tests look at results only, never at arguments after the call, nor repeat calls in other orders.",
  ["enu.py", "vincenty.py", "ecef.py", "karney.py", "ellipsoid.py"], [("copies before in-place work", "every module")], ["argument buffers before/after, repeated calls"])

p("C12", "Results are the same with and without NumPy",
  "Every function available without NumPy and Astropy gives, for scalar arguments, the same results (to rounding) in the pure-Python installation as in the NumPy installation, and raises the same kind of exception for invalid arguments; results depending on Astropy agree to the documented accuracy, and exactly when the built-in method is forced.",
  ["inputs", "configurations"], "all public functions x scalar inputs of their domain x both installations",
  "The suites of the two installations sample the same few values, each against its own expectations.",
  ["mathfun.py", "_dummy.py", "__init__.py"], [("math fallback", "mathfun.py")], ["the same call in two interpreters"])

p("C13", "Ellipsoids are self-consistent and honoured by every function",
  "Every ellipsoid model in the registry has flattening, third flattening and eccentricity consistent with its semi-axes, lookup by name returns exactly that model, unknown names raise an error, and the Earth models have their published defining parameters. Every function taking an ellipsoid uses that ellipsoid in all parts of the computation (scaling both axes by k scales all lengths by k and leaves angles unchanged), and omitting it (or passing None) is the same as passing WGS84.",
  ["inputs", "configurations"], "all registered models and custom axes, all functions with an ellipsoid argument",
  "Tests check parameters for some models and almost only WGS84 for functions.",
  ["ellipsoid.py"], [("registry and derived parameters", "ellipsoid.py")], ["Ellipsoid attributes; scaled calls"])

p("C14", "Ellipsoid and geodesic caches are transparent",
  "Whatever sequence of lookups, geodesic computations, cache clears, new models added to the registry and custom ellipsoids occurs, every lookup and computation answers as if nothing had been cached: by the parameters of the ellipsoid asked for, never those of another one of the same name or of an earlier entry, and repeated lookups return equal objects.",
  ["histories"], "all sequences of registry lookups, cache clears, registrations, geodesic calls with equal names and different axes",
  "Tests check one lookup after one clear; no sequences.", ["ellipsoid.py", "karney.py"],
  [("lookup caches", "ellipsoid.py"), ("per-ellipsoid geodesic cache", "karney.py")], ["results along call histories"])

p("C15", "Karney geodesics: inverse and direct solve the geodesic problem exactly",
  "The inverse solution's distance and azimuths describe a geodesic of the ellipsoid that starts at the first point and ends at the second (to about 15 nm on Earth-sized ellipsoids), it is a shortest one, and the direct solution follows the geodesic equations from the start with the given azimuth and (signed, any) distance; this holds for nearly antipodal, coincident, meridional, equatorial and polar points and ellipsoids with flattening up to 1/10, oblate or spherical.",
  ["inputs", "configurations"], "all pairs of points, azimuths, distances up to several revolutions, registered ellipsoids",
  "Tests compare about twenty reference lines.", ["karney.py"],
  [("series and Newton iteration", "karney.py")], ["return values of geodesic_inverse, geodesic_direct"])

p("C16", "Geodesic lines and polygons are consistent with the geodesics they are made of",
  "A geodesic line's points lie on the geodesic between its ends at equal spacing, including both ends; a polygon's perimeter is the sum of the lengths of its edges and its area is the signed ellipsoidal area enclosed by its geodesic edges (positive clockwise seen from above, as the existing tests pin), unchanged by starting at another vertex, negated by reversal, additive when the polygon is split along a diagonal, also across the antimeridian.",
  ["inputs", "configurations"], "all polygons of moderate size (not enclosing a pole or with edges of 180 degrees of longitude), all ellipsoids, both units",
  "Tests compute one polygon's area sign and one line.", ["karney.py"],
  [("area series and line sampling", "karney.py")], ["return values of geodesic_line, geodesic_area"])

p("C17", "Vincenty distance, reckoning and tracks agree with the geodesics",
  "vdist returns the geodesic distance and forward azimuth between the points, vreckon the end point of the geodesic with given start, distance and azimuth, and track2 points on the geodesic between its ends with equal spacing; vdist and vreckon are inverse to each other, for coincident, polar, equatorial and meridional points, on every ellipsoid, within Vincenty's accuracy (about a millimetre away from antipodal points).",
  ["inputs", "configurations"], "pairs of points up to 179 degrees apart, distances to half the circumference, all ellipsoids, both units",
  "Tests check a handful of pairs on WGS84.", ["vincenty.py"],
  [("Vincenty iteration", "vincenty.py")], ["return values of vdist, vreckon, track2"])

p("C18", "Rhumb lines keep a constant azimuth on the ellipsoid",
  "loxodrome_direct ends where the constant-azimuth line of the given length from the start point ends, loxodrome_inverse gives the length and azimuth (in [0,360) or [0,2pi)) of the shorter rhumb line between two points, and they are inverse to each other; meridian_dist and meridian_arc are meridian arc lengths, departure is the length of the parallel, and meanm is the centroid of points weighted by area. This includes east-west and meridional lines and crossings of the antimeridian.",
  ["inputs", "configurations"], "all starts away from the poles, azimuths, lengths that stay off the poles, all ellipsoids, both units",
  "Tests check a few lines of WGS84.", ["lox.py"], [("rectifying and isometric latitude", "lox.py")], ["return values of lox functions"])

p("C19", "Auxiliary latitudes follow their definitions and invert each other",
  "Geocentric, parametric, isometric, conformal, authalic and rectifying latitude equal their defining formulae on the ellipsoid (to the documented series accuracy), are odd and increasing, fix the equator and the poles, and each inverse returns the geodetic latitude; geocentric conversions at altitude refer to the point at that altitude.",
  ["inputs", "configurations"], "latitudes in [-90,90] including poles and tiny values, altitudes, all ellipsoids, both units, scalars and arrays",
  "Tests check five latitudes of WGS84 against tabulated values.", ["latitude.py", "rcurve.py"],
  [("closed forms and series", "latitude.py")], ["return values of latitude functions"])

p("C20", "Radii of curvature and equivalent spheres follow their definitions",
  "Meridian, transverse and parallel radii and the geocentric radius equal the ellipsoid's geometry at each latitude, and the equivalent spheres (equal volume, equal surface area, equal meridian length, mean of axes, local curvature, Euler curvature between two points) equal theirs, for every ellipsoid, method and unit.",
  ["inputs", "configurations"], "latitudes in [-90,90], all ellipsoids, all methods",
  "Tests check WGS84 at one or two latitudes.", ["rcurve.py", "rsphere.py"],
  [("closed forms", "rcurve.py, rsphere.py")], ["return values"])

p("C21", "n-vector operations are the spherical geometry of unit normals",
  "An n-vector is the unit outward normal of the ellipsoid at a geodetic position, and conversions to and from geodetic and ECEF denote the same position, poles included; distance is the great-circle distance on the given radius, interpolation is the point at that fraction of the great-circle arc, intersection lies on both great circles, mean is the normalised sum and cross-track distance is the signed perpendicular distance from the great circle.",
  ["inputs", "configurations"], "all pairs/triples of directions, fractions in [0,1], radii",
  "Tests use axis-aligned points.", ["nvector.py"], [("vector algebra", "nvector.py")], ["return values of nvector functions"])

p("C22", "A line of sight meets the ellipsoid where lookAtSpheroid says, or NaN",
  "When the ray from the observer with the given azimuth and tilt from nadir meets the ellipsoid, the returned latitude and longitude is the nearer intersection and the returned slant range its distance, on the ray and on the surface; otherwise the results are NaN. Each element of arrays is decided on its own, and negative heights raise ValueError.",
  ["inputs", "configurations"], "all observers above the surface to 1e8 m, azimuths, tilts, ellipsoids, grazing rays aside",
  "Tests check one satellite position on WGS84.", ["los.py"], [("ray-ellipsoid intersection", "los.py")], ["return values of lookAtSpheroid"])

p("C23", "Times and sidereal angles are converted exactly",
  "The Julian date is that of the UTC instant, Greenwich sidereal time and the Earth rotation angle follow the IAU expressions for them and local sidereal time adds the longitude, in [0,2pi), for any timezone-aware or naive (UTC) datetime and UT1 offset; leap seconds are those in force at the instant, and text, dates, lists and NumPy datetimes are parsed to the same instant as the equivalent datetime.",
  ["inputs", "configurations"], "datetimes 1900-2100 with microseconds and time zones around month, year, leap day and leap second boundaries",
  "Tests use one date.", ["sidereal.py", "timeconv.py", "earth_orientation.py"],
  [("date arithmetic", "sidereal.py, earth_orientation.py, timeconv.py")], ["return values"])

p("C24", "Horizontal and equatorial directions are the same direction in the sky",
  "azel2radec and radec2azel (built-in method) are inverse rotations by the observer's latitude and local sidereal time, returning azimuth and right ascension in [0,360) and elevation and declination in [-90,90], at the zenith, celestial poles and all quadrants too; the Astropy method agrees to the accuracy of the models.",
  ["inputs", "configurations"], "all directions, observers and times, scalars and arrays",
  "Tests check one direction.", ["azelradec.py", "vallado.py"], [("rotation", "vallado.py, azelradec.py")], ["return values"])

p("C25", "Angular separation is the true angle between directions",
  "Both angular-separation functions return the angle between the two directions, in [0,180], symmetric, zero exactly for equal directions and 180 for opposite ones, accurate (relative) down to very small separations, and haversine is sin squared of half the angle.",
  ["inputs", "configurations"], "all pairs of directions incl. tiny and nearly opposite, both units",
  "Tests check one pair.", ["haversine.py"], [("haversine formula", "haversine.py")], ["return values"])

p("C26", "Geodetic and geocentric spherical coordinates denote the same point",
  "geodetic2spherical returns the geocentric latitude, longitude and distance of the geodetic point, spherical2geodetic is its inverse, for all ellipsoids, latitudes, heights and units; Cartesian-polar and Cartesian-spherical helpers are inverse to each other and denote the same point.",
  ["inputs", "configurations"], "points with b/2 < R < 1000a, all ellipsoids, all quadrants",
  "Tests check five points.", ["spherical.py", "utils.py"], [("closed forms", "spherical.py, utils.py")], ["return values"])

p("C27", "The command line computes what the library computes",
  "For every command, running the command line with the same arguments, options and ellipsoid prints the result of the library call, as text (space separated, with the requested decimals) or JSON, with option defaults equal to the library's defaults; unknown commands, options and ellipsoids, malformed option values and missing or surplus arguments exit with status 2 and print no result, and a call the library rejects exits with a nonzero status and prints no result; the last of repeated options counts, and options of a command may stand anywhere among its arguments.",
  ["inputs", "configurations", "histories"], "all commands x options x ellipsoids x output modes x both installations",
  "Tests run a few commands.", ["__main__.py"], [("argument mapping", "__main__.py")], ["stdout and exit status"])

p("C28", "Invalid input is rejected, valid degenerate input is answered",
  "Arguments documented as invalid (latitudes beyond a quarter turn in vdist, vreckon, loxodrome_direct, azel2radec and radec2azel; negative distances there and negative observer heights in lookAtSpheroid; too few points of a track or polygon; antipodal ends of a track; unknown methods, frames, sequences and models; ellipsoids longer than wide) raise ValueError (KeyError for models, AssertionError for ellipsoids), for scalars and for any element of an array alike, in either unit; values up to the limit are accepted. Every function answers valid degenerate arguments (exact and nearly exact poles, antimeridian, whole turns, zenith and nadir, zero distances, coincident points, points on axes) with finite numbers in the range of the quantity, without exception or endless loop, except where the answer does not exist: isometric latitude at the poles (infinite), rhumb lines through a pole, great circles through coincident or antipodal points, empty polygons, lines of sight that miss (NaN).",
  ["inputs", "configurations"], "all documented checks x values just inside and outside x position in arrays; all functions x degenerate inputs x units x ellipsoids x both installations",
  "Tests check a few rejections, far from the limits.", ["vincenty.py", "latitude.py", "lox.py", "rcurve.py", "aer.py", "los.py", "karney.py", "ellipsoid.py"],
  [("argument checks", "every module")], ["exceptions and finiteness"])

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
