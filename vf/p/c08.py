prop("C08", "Line-of-sight geometry: look angles, local frames, pierce point, light time",
 "For every receiver position (below 89 degrees latitude) and target, geodetic and geocentric azimuth/elevation equal the angles of the line of sight in the local north-east-up triad of that vertical, azimuth lies in [0,360), coincident points are refused; East-North-Up, North-East-Down and Radial-Along-Cross conversions are the corresponding orthonormal rotations and keep clocks; the ionospheric pierce point lies on the shell along the ray; preciseRho solves the light-time equation with Earth rotation to 5 mm, less clock, relativity and correction; vector products, rotations and magnitudes equal their definitions and degenerate vectors are refused.",
 ["inputs"], "random receivers, azimuths, elevations -60..90, ranges 1 m to 40000 km; random vectors over 11 decades",
 "Quadrant, sign and frame errors show only for some directions or hemispheres; the tests use a few geometries.",
 ["core/lib/GNSSCore/Position.cpp", "core/lib/Math/Triple.cpp", "core/lib/GNSSCore/Xvt.cpp", "core/lib/Math/RACRotation.cpp", "ext/lib/GNSSCore/ENUUtil.cpp", "ext/lib/GNSSCore/NEDUtil.cpp"],
 [{"name": "local triads", "where": "Position.cpp azimuthGeodetic/elevationGeodetic, Triple.cpp azAngle/elvAngle"}, {"name": "pierce point", "where": "Position.cpp getIonosphericPiercePoint"}, {"name": "light time", "where": "Xvt.cpp preciseRho"}],
 "targets constructed from chosen azimuth/elevation/range, so that the answer is known; non-trivial when the geometry is new",
 ["look", "ipp", "triple", "rho"], note="Oracle: long-double vector geometry; inertial-frame light-time iteration.")
