prop("C11", "Broadcast ionospheric delay follows IS-GPS-200 and the store's model in force",
 "For every coefficient set, receiver position, satellite direction, time of day and GPS band, the Klobuchar correction equals the IS-GPS-200 algorithm (local time reduced to one day, clamps, night-time floor, (f1/f)^2 band scaling), with coefficients given in semicircles, in radians, or decoded from the broadcast page; unset models and other bands are refused; the model store answers from the latest model not later than the request, refuses requests before the first, skips repeats, and editing keeps exactly the models inside the interval.",
 ["inputs", "histories"], "random and broadcast-quantised coefficients, all latitudes/longitudes/elevations/azimuths and times of day; random add/edit/query histories of the store",
 "The local-time wrap and the unit of the coefficients matter only for some longitudes, directions and periods; tests use a few points.",
 ["core/lib/GNSSCore/IonoModel.cpp", "core/lib/GNSSCore/IonoModelStore.cpp", "core/lib/GNSSEph/EngAlmanac.cpp"],
 [{"name": "Klobuchar evaluation", "where": "IonoModel::getCorrection"}, {"name": "model lookup", "where": "IonoModelStore::getCorrection, addIonoModel, edit"}],
 "random model/receiver/direction/time; non-trivial when the parameter set or the history is new", ["formula", "almanac", "store"],
 note="Oracle: long-double IS-GPS-200 algorithm; cases within 1e-7 of the cosine's cut-off are not judged.")
