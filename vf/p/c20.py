prop("C20", "RINEX navigation files keep every field, epoch and week",
 "For every navigation record of every system (GPS, GLONASS, Galileo, BeiDou, QZSS, SBAS) and every RINEX 2 and 3 navigation header, writing produces the columns the format prescribes and reading gives back every field to the precision of the format, including the instants of Toe, Toc and transmission across week boundaries, ionosphere and time-system corrections, leap seconds and comments; reading and writing again leaves the text unchanged; conversion to the satellite's ephemeris class and back keeps elements, satellite, epochs, transmit time and fit interval, and conversion to another system's class leaves it unloaded.",
 ["inputs"], "random records of all systems at all weeks, many with Toe, Toc and transmission on either side of a week boundary, random headers of all versions",
 "Fixture files hold ordinary mid-week records of mostly one system; week crossings, rare systems and header combinations are not in them.",
 ["core/lib/FileHandling/RINEX3/Rinex3NavData.cpp", "core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp", "core/lib/FileHandling/RINEX/RinexNavData.cpp", "core/lib/FileHandling/RINEX/RinexNavHeader.cpp", "core/lib/Utilities/RNDouble.hpp"],
 [{"name": "record text", "where": "Rinex3NavData::putPRNEpoch, putRecord, getPRNEpoch, getRecord"}, {"name": "header text", "where": "Rinex3NavHeader::reallyPutRecord, reallyGetRecord"}, {"name": "conversions", "where": "Rinex3NavData::castTo, operator GPSEphemeris, loadFrom"}, {"name": "version 2", "where": "RinexNavData::getXmitWS, setXmitWeek"}],
 "random records and headers; non-trivial when new", ["file", "convert", "v2"],
 note="Oracle: independent column parser and integer seconds since 1980 for every epoch.")
