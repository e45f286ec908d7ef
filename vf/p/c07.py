prop("C07", "Position coordinate transformations preserve the point",
 "For every point on or above the Earth (from -11 km to beyond lunar-transfer altitudes) and every supported ellipsoid, conversion among geodetic, geocentric, Cartesian and spherical coordinates yields the geodetically defined coordinates (to a fraction of a millimetre, relaxed within 0.02 degree of a pole), any chain of conversions returns the same point, longitudes are in [0,360), accessors agree with conversions, addition/subtraction/range act on the Cartesian vectors leaving operands alone, equality means within tolerance on the same ellipsoid and frame, invalid latitude, polar angle or radius is refused leaving the object unchanged, and printed coordinates scan back to the same point in every documented format.",
 ["inputs"], "random points biased to equator, poles, meridians, surface and orbit altitudes; 5 ellipsoids; all 16 conversion pairs; hostile text",
 "Unit tests convert a handful of points; iteration limits, branch cuts and ellipsoid mix-ups show only at particular latitudes, heights or coordinate pairs.",
 ["core/lib/GNSSCore/Position.cpp", "core/lib/GNSSCore/Position.hpp", "core/lib/Math/Triple.cpp", "core/lib/GNSSCore/WGS84Ellipsoid.hpp", "core/lib/GNSSCore/PZ90Ellipsoid.hpp"],
 [{"name": "geodetic iteration", "where": "Position.cpp convertCartesianToGeodetic, convertGeocentricToGeodetic"}, {"name": "system dispatch", "where": "Position.cpp transformTo"}, {"name": "text form", "where": "Position.cpp setToString, printf"}],
 "random points and ellipsoids; non-trivial when the point is new",
 ["convert", "arith", "invalid", "text"], note="Oracle: long-double closed-form geodetic-to-Cartesian model.")
