// The commands of the command line: name, number of arguments, options (bits below).
module cli_table {
  pure val DEG: int = 1
  pure val ELLIPSOID: int = 2
  pure val FORCE: int = 4
  pure val UT1: int = 8
  pure val POLAR: int = 16
  pure val SEQUENCE: int = 32
  pure val FRAME: int = 64
  pure val ALT: int = 128
  pure val RADIUS: int = 256
  type Command = { name: str, arity: int, options: int }
  pure val COMMANDS: List[Command] = [
    { name: "aer2dca", arity: 4, options: 1 },
    { name: "aer2ecef", arity: 6, options: 3 },
    { name: "aer2eci", arity: 7, options: 27 },
    { name: "aer2enu", arity: 3, options: 1 },
    { name: "aer2geodetic", arity: 6, options: 3 },
    { name: "aer2ned", arity: 3, options: 1 },
    { name: "aer2nwu", arity: 3, options: 1 },
    { name: "aer2sez", arity: 3, options: 1 },
    { name: "authalic2geodetic", arity: 1, options: 3 },
    { name: "azel2radec", arity: 5, options: 12 },
    { name: "body2ecef", arity: 9, options: 99 },
    { name: "body2ecefv", arity: 8, options: 97 },
    { name: "body2enu", arity: 6, options: 33 },
    { name: "body2enu_matrix", arity: 3, options: 33 },
    { name: "body2geodetic", arity: 9, options: 99 },
    { name: "body2ned", arity: 6, options: 33 },
    { name: "body2ned_matrix", arity: 3, options: 33 },
    { name: "body2nwu", arity: 6, options: 33 },
    { name: "body2nwu_matrix", arity: 3, options: 33 },
    { name: "body2sez", arity: 6, options: 33 },
    { name: "body2sez_matrix", arity: 3, options: 33 },
    { name: "body_matrix", arity: 3, options: 33 },
    { name: "conformal2geodetic", arity: 1, options: 3 },
    { name: "datetime2sidereal", arity: 2, options: 12 },
    { name: "dca2aer", arity: 4, options: 1 },
    { name: "dca2ecef", arity: 7, options: 3 },
    { name: "dca2enu", arity: 4, options: 1 },
    { name: "dca2geodetic", arity: 7, options: 3 },
    { name: "dca2ned", arity: 4, options: 1 },
    { name: "ecef2aer", arity: 6, options: 3 },
    { name: "ecef2body", arity: 9, options: 99 },
    { name: "ecef2bodyv", arity: 8, options: 97 },
    { name: "ecef2dca", arity: 7, options: 3 },
    { name: "ecef2eci", arity: 4, options: 28 },
    { name: "ecef2eci_state", arity: 7, options: 28 },
    { name: "ecef2enu", arity: 6, options: 3 },
    { name: "ecef2enu_matrix", arity: 2, options: 1 },
    { name: "ecef2enuv", arity: 5, options: 1 },
    { name: "ecef2geodetic", arity: 3, options: 3 },
    { name: "ecef2ned", arity: 6, options: 3 },
    { name: "ecef2ned_matrix", arity: 2, options: 1 },
    { name: "ecef2nedv", arity: 5, options: 1 },
    { name: "ecef2nvector", arity: 3, options: 3 },
    { name: "ecef2nwu", arity: 6, options: 3 },
    { name: "ecef2nwu_matrix", arity: 2, options: 1 },
    { name: "ecef2nwuv", arity: 5, options: 1 },
    { name: "ecef2sez", arity: 6, options: 3 },
    { name: "ecef2sez_matrix", arity: 2, options: 1 },
    { name: "ecef2sezv", arity: 5, options: 1 },
    { name: "eci2aer", arity: 7, options: 25 },
    { name: "eci2ecef", arity: 4, options: 28 },
    { name: "eci2ecef_state", arity: 7, options: 28 },
    { name: "eci2geodetic", arity: 4, options: 27 },
    { name: "enu2aer", arity: 3, options: 1 },
    { name: "enu2body", arity: 6, options: 33 },
    { name: "enu2body_matrix", arity: 3, options: 33 },
    { name: "enu2dca", arity: 4, options: 1 },
    { name: "enu2ecef", arity: 6, options: 3 },
    { name: "enu2ecef_matrix", arity: 2, options: 1 },
    { name: "enu2ecefv", arity: 5, options: 1 },
    { name: "enu2geodetic", arity: 6, options: 3 },
    { name: "enu2uvw", arity: 5, options: 1 },
    { name: "geoc2geod", arity: 2, options: 3 },
    { name: "geocentric2geodetic", arity: 2, options: 3 },
    { name: "geocentric_radius", arity: 1, options: 3 },
    { name: "geod2geoc", arity: 2, options: 3 },
    { name: "geodetic2aer", arity: 6, options: 3 },
    { name: "geodetic2authalic", arity: 1, options: 3 },
    { name: "geodetic2body", arity: 9, options: 99 },
    { name: "geodetic2conformal", arity: 1, options: 3 },
    { name: "geodetic2dca", arity: 7, options: 3 },
    { name: "geodetic2ecef", arity: 3, options: 3 },
    { name: "geodetic2eci", arity: 4, options: 27 },
    { name: "geodetic2enu", arity: 6, options: 3 },
    { name: "geodetic2geocentric", arity: 2, options: 3 },
    { name: "geodetic2isometric", arity: 1, options: 3 },
    { name: "geodetic2ned", arity: 6, options: 3 },
    { name: "geodetic2nvector", arity: 2, options: 1 },
    { name: "geodetic2nwu", arity: 6, options: 3 },
    { name: "geodetic2parametric", arity: 1, options: 3 },
    { name: "geodetic2rectifying", arity: 1, options: 3 },
    { name: "geodetic2sez", arity: 6, options: 3 },
    { name: "geodetic2spherical", arity: 3, options: 3 },
    { name: "greenwichsrt", arity: 1, options: 0 },
    { name: "isometric2geodetic", arity: 1, options: 3 },
    { name: "meridian", arity: 1, options: 3 },
    { name: "ned2aer", arity: 3, options: 1 },
    { name: "ned2body", arity: 6, options: 33 },
    { name: "ned2body_matrix", arity: 3, options: 33 },
    { name: "ned2dca", arity: 4, options: 1 },
    { name: "ned2ecef", arity: 6, options: 3 },
    { name: "ned2ecef_matrix", arity: 2, options: 1 },
    { name: "ned2geodetic", arity: 6, options: 3 },
    { name: "nvector2ecef", arity: 3, options: 131 },
    { name: "nvector2geodetic", arity: 3, options: 1 },
    { name: "nvector_cross_track_distance", arity: 9, options: 256 },
    { name: "nvector_distance", arity: 6, options: 256 },
    { name: "nvector_interpolate", arity: 7, options: 0 },
    { name: "nvector_intersection", arity: 12, options: 0 },
    { name: "nvector_mean", arity: 3, options: 0 },
    { name: "nwu2aer", arity: 3, options: 1 },
    { name: "nwu2body", arity: 6, options: 33 },
    { name: "nwu2body_matrix", arity: 3, options: 33 },
    { name: "nwu2ecef", arity: 6, options: 3 },
    { name: "nwu2ecef_matrix", arity: 2, options: 1 },
    { name: "nwu2ecefv", arity: 5, options: 1 },
    { name: "nwu2geodetic", arity: 6, options: 3 },
    { name: "parallel", arity: 1, options: 3 },
    { name: "parametric2geodetic", arity: 1, options: 3 },
    { name: "radec2azel", arity: 5, options: 12 },
    { name: "rectifying2geodetic", arity: 1, options: 3 },
    { name: "sez2aer", arity: 3, options: 1 },
    { name: "sez2body", arity: 6, options: 33 },
    { name: "sez2body_matrix", arity: 3, options: 33 },
    { name: "sez2ecef", arity: 6, options: 3 },
    { name: "sez2ecef_matrix", arity: 2, options: 1 },
    { name: "sez2ecefv", arity: 5, options: 1 },
    { name: "sez2geodetic", arity: 6, options: 3 },
    { name: "spherical2geodetic", arity: 3, options: 3 },
    { name: "str2dt", arity: 1, options: 0 },
    { name: "transverse", arity: 1, options: 3 },
    { name: "uvw2enu", arity: 5, options: 1 }
  ]
}
