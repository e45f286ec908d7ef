prop("C24", "Almanacs decode, evaluate, store and print faithfully",
 "An almanac read from a Yuma or SEM file or decoded from a GPS LNAV or CNAV page carries exactly the transmitted values in the documented units, with the full week resolved to the one nearest the reference and the health of the signal it came on; evaluating it gives the interface document's position, velocity and clock; writing and re-reading a file returns the same almanac; and the almanac stores hand out, per subject satellite and per transmitter, the most recently broadcast (or closest) almanac, keep the earliest transmission of each, and report sizes, spans, health and last transmission accordingly, through any history of additions, edits and clears.",
 ["inputs", "histories"], "random Yuma and SEM files with 10-bit and full weeks, random LNAV and CNAV pages with extreme field values, random histories of a store",
 "Tests read one SEM and one Yuma file and a few pages; weeks across rollovers, every sign bit, and add/replace histories are not tried.",
 ["ext/lib/FileHandling/Yuma/YumaData.cpp", "ext/lib/FileHandling/SEM/SEMData.cpp", "ext/lib/FileHandling/SEM/SEMHeader.cpp", "ext/lib/GNSSEph/OrbAlmGen.cpp", "ext/lib/GNSSEph/OrbAlmStore.cpp", "ext/lib/GNSSEph/OrbAlmFactory.cpp", "ext/lib/GNSSEph/GPSAlmanacStore.cpp", "ext/lib/GNSSEph/YumaAlmanacStore.cpp", "ext/lib/GNSSEph/SEMAlmanacStore.cpp", "core/lib/GNSSEph/AlmOrbit.cpp"],
 [{"name": "files", "where": "YumaData, SEMHeader, SEMData get and put"}, {"name": "page decoding", "where": "OrbAlmGen::loadDataGpsLNAV, loadDataGpsCNAV, OrbAlmFactory"}, {"name": "stores", "where": "OrbAlmStore, GPSAlmanacStore, YumaAlmanacStore, SEMAlmanacStore"}],
 "random almanacs, pages and histories; non-trivial when new", ["yuma", "sem", "pages", "store", "gpsalm"],
 note="Oracle: independent page encoder and file writer, long-double orbit evaluation, and a list model of the store.")
