"""Commands in the order of spec/cli_table.qnt with the names of their arguments."""

COMMANDS = [
    ("aer2dca", "az el srange heading"),
    ("aer2ecef", "az el srange lat0 lon0 alt0"),
    ("aer2eci", "az el srange lat0 lon0 h0 t"),
    ("aer2enu", "az el srange"),
    ("aer2geodetic", "az el srange lat0 lon0 h0"),
    ("aer2ned", "az elev slantRange"),
    ("aer2nwu", "az elev slantRange"),
    ("aer2sez", "az elev slantRange"),
    ("authalic2geodetic", "authalic_lat"),
    ("azel2radec", "az_deg el_deg lat_deg lon_deg time"),
    ("body2ecef", "xb yb zb lat0 lon0 h0 yaw pitch roll"),
    ("body2ecefv", "xb yb zb lat0 lon0 yaw pitch roll"),
    ("body2enu", "xb yb zb yaw pitch roll"),
    ("body2enu_matrix", "yaw pitch roll"),
    ("body2geodetic", "xb yb zb lat0 lon0 h0 yaw pitch roll"),
    ("body2ned", "xb yb zb yaw pitch roll"),
    ("body2ned_matrix", "yaw pitch roll"),
    ("body2nwu", "xb yb zb yaw pitch roll"),
    ("body2nwu_matrix", "yaw pitch roll"),
    ("body2sez", "xb yb zb yaw pitch roll"),
    ("body2sez_matrix", "yaw pitch roll"),
    ("body_matrix", "yaw pitch roll"),
    ("conformal2geodetic", "conformal_lat"),
    ("datetime2sidereal", "time lon_radians"),
    ("dca2aer", "dr cr above heading"),
    ("dca2ecef", "dr cr above lat0 lon0 h0 heading"),
    ("dca2enu", "dr cr above heading"),
    ("dca2geodetic", "dr cr above lat0 lon0 h0 heading"),
    ("dca2ned", "dr cr above heading"),
    ("ecef2aer", "x y z lat0 lon0 h0"),
    ("ecef2body", "x y z lat0 lon0 h0 yaw pitch roll"),
    ("ecef2bodyv", "x y z lat0 lon0 yaw pitch roll"),
    ("ecef2dca", "x y z lat0 lon0 h0 heading"),
    ("ecef2eci", "x y z time"),
    ("ecef2eci_state", "x y z vx vy vz time"),
    ("ecef2enu", "x y z lat0 lon0 h0"),
    ("ecef2enu_matrix", "lat0 lon0"),
    ("ecef2enuv", "u v w lat0 lon0"),
    ("ecef2geodetic", "x y z"),
    ("ecef2ned", "x y z lat0 lon0 h0"),
    ("ecef2ned_matrix", "lat0 lon0"),
    ("ecef2nedv", "x y z lat0 lon0"),
    ("ecef2nvector", "x y z"),
    ("ecef2nwu", "x y z lat0 lon0 h0"),
    ("ecef2nwu_matrix", "lat0 lon0"),
    ("ecef2nwuv", "x y z lat0 lon0"),
    ("ecef2sez", "x y z lat0 lon0 h0"),
    ("ecef2sez_matrix", "lat0 lon0"),
    ("ecef2sezv", "x y z lat0 lon0"),
    ("eci2aer", "x y z lat0 lon0 h0 t"),
    ("eci2ecef", "x y z time"),
    ("eci2ecef_state", "x y z vx vy vz time"),
    ("eci2geodetic", "x y z t"),
    ("enu2aer", "e n u"),
    ("enu2body", "e n u yaw pitch roll"),
    ("enu2body_matrix", "yaw pitch roll"),
    ("enu2dca", "e n u heading"),
    ("enu2ecef", "e1 n1 u1 lat0 lon0 h0"),
    ("enu2ecef_matrix", "lat0 lon0"),
    ("enu2ecefv", "e n u lat0 lon0"),
    ("enu2geodetic", "e n u lat0 lon0 h0"),
    ("enu2uvw", "east north up lat0 lon0"),
    ("geoc2geod", "geocentric_lat geocentric_distance"),
    ("geocentric2geodetic", "geocentric_lat alt_m"),
    ("geocentric_radius", "geodetic_lat"),
    ("geod2geoc", "geodetic_lat alt_m"),
    ("geodetic2aer", "lat lon h lat0 lon0 h0"),
    ("geodetic2authalic", "geodetic_lat"),
    ("geodetic2body", "lat lon h lat0 lon0 h0 yaw pitch roll"),
    ("geodetic2conformal", "geodetic_lat"),
    ("geodetic2dca", "lat lon h lat0 lon0 h0 heading"),
    ("geodetic2ecef", "lat lon alt"),
    ("geodetic2eci", "lat lon alt t"),
    ("geodetic2enu", "lat lon h lat0 lon0 h0"),
    ("geodetic2geocentric", "geodetic_lat alt_m"),
    ("geodetic2isometric", "geodetic_lat"),
    ("geodetic2ned", "lat lon h lat0 lon0 h0"),
    ("geodetic2nvector", "lat lon"),
    ("geodetic2nwu", "lat lon h lat0 lon0 h0"),
    ("geodetic2parametric", "geodetic_lat"),
    ("geodetic2rectifying", "geodetic_lat"),
    ("geodetic2sez", "lat lon h lat0 lon0 h0"),
    ("geodetic2spherical", "lat lon alt"),
    ("greenwichsrt", "Jdate"),
    ("isometric2geodetic", "isometric_lat"),
    ("meridian", "lat"),
    ("ned2aer", "n e d"),
    ("ned2body", "n e d yaw pitch roll"),
    ("ned2body_matrix", "yaw pitch roll"),
    ("ned2dca", "n e d heading"),
    ("ned2ecef", "n e d lat0 lon0 h0"),
    ("ned2ecef_matrix", "lat0 lon0"),
    ("ned2geodetic", "n e d lat0 lon0 h0"),
    ("nvector2ecef", "n1 n2 n3"),
    ("nvector2geodetic", "n1 n2 n3"),
    ("nvector_cross_track_distance", "n1_1 n1_2 n1_3 n2_1 n2_2 n2_3 np_1 np_2 np_3"),
    ("nvector_distance", "n1_1 n1_2 n1_3 n2_1 n2_2 n2_3"),
    ("nvector_interpolate", "n1_1 n1_2 n1_3 n2_1 n2_2 n2_3 fraction"),
    ("nvector_intersection", "n1_1 n1_2 n1_3 n2_1 n2_2 n2_3 n3_1 n3_2 n3_3 n4_1 n4_2 n4_3"),
    ("nvector_mean", "n1s n2s n3s"),
    ("nwu2aer", "n w u"),
    ("nwu2body", "n w u yaw pitch roll"),
    ("nwu2body_matrix", "yaw pitch roll"),
    ("nwu2ecef", "n w u lat0 lon0 h0"),
    ("nwu2ecef_matrix", "lat0 lon0"),
    ("nwu2ecefv", "n w u lat0 lon0"),
    ("nwu2geodetic", "n w u lat0 lon0 h0"),
    ("parallel", "lat"),
    ("parametric2geodetic", "parametric_lat"),
    ("radec2azel", "ra_deg dec_deg lat_deg lon_deg time"),
    ("rectifying2geodetic", "rectifying_lat"),
    ("sez2aer", "s e z"),
    ("sez2body", "s e z yaw pitch roll"),
    ("sez2body_matrix", "yaw pitch roll"),
    ("sez2ecef", "s e z lat0 lon0 h0"),
    ("sez2ecef_matrix", "lat0 lon0"),
    ("sez2ecefv", "s e z lat0 lon0"),
    ("sez2geodetic", "s e z lat0 lon0 h0"),
    ("spherical2geodetic", "lat lon radius"),
    ("str2dt", "time"),
    ("transverse", "lat"),
    ("uvw2enu", "u v w lat0 lon0"),
]

# ellipsoids in the order of the specification (default: number 21)
MODELS = (
    "maupertuis plessis everest1830 everest1830m everest1967 airy bessel clarke1866 clarke1878 clarke1860 helmert "
    "hayford international1924 krassovsky1940 wgs66 australian international1967 grs67 sa1969 wgs72 grs80 wgs84 "
    "wgs84_mean iers1989 pz90.11 iers2003 gsk2011 mercury venus moon mars jupiter io saturn uranus neptune pluto "
    "jupyter"
).split()
