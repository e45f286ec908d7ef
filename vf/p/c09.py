prop("C09", "Reference-frame transformations and ellipsoid constants",
 "Every predefined and user-built 7-parameter Helmert transformation maps positions by the published small-angle formula, its inverse returns the input to second order in the parameters, the result carries the other frame's label, all input forms (Position, Vector, Triple, Xvt, doubles) agree, and unknown frames, other frames or rotations beyond the small-angle limit are refused. Frame names round-trip; each ellipsoid's constants are mutually consistent and the published ones.",
 ["inputs"], "random points at surface to GEO radius through all predefined and random small transforms, both directions, all input forms",
 "A sign or direction error in one parameter shows only away from the test points or in the inverse branch.",
 ["core/lib/RefTime/HelmertTransform.cpp", "core/lib/RefTime/HelmertTransform.hpp", "core/lib/RefTime/ReferenceFrame.cpp", "core/lib/GNSSCore/EllipsoidModel.hpp", "core/lib/GNSSCore/PZ90Ellipsoid.hpp", "core/lib/GNSSCore/GPSEllipsoid.hpp"],
 [{"name": "rotation/scale/translation", "where": "HelmertTransform.cpp transform"}, {"name": "stdTransforms table", "where": "HelmertTransform.cpp"}],
 "random points and parameters; non-trivial when the point is new",
 ["names", "std", "user"], note="Oracle: the Boucher-Altamimi/ICD parameters and formula in long double.")
