prop("C22", "RINEX observation files survive writing and reading unchanged",
 "Every RINEX 2 and 3 observation header and every epoch record - observations with loss-of-lock and strength flags, blanks, receiver clock offsets, power-failure and cycle-slip epochs, and event records with their header lines - written by the library occupies the columns the format prescribes and reads back with the same fields, times, time system, satellites and observation values; the announced record counts match; reading and rewriting leaves the text unchanged; a reused header object carries nothing over from the previous file.",
 ["inputs"], "random headers of versions 2.0-3.04 with every optional record, up to 27 observation types per system, satellite counts around the continuation limits, untimed events, epochs across the turn of the century",
 "Tests rewrite a few fixture files; continuation boundaries, event records and rare header records are not in them.",
 ["core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp", "core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp", "core/lib/FileHandling/RINEX3/RinexDatum.cpp", "core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp"],
 [{"name": "header records", "where": "Rinex3ObsHeader::writeHeaderRecords, parseHeaderRecord, numberHeaderRecordsToBeWritten"}, {"name": "epoch and observation lines", "where": "Rinex3ObsData::reallyPutRecord, reallyGetRecord and version 2 forms"}, {"name": "observation access", "where": "Rinex3ObsData::getObs, Rinex3ObsHeader::getObsIndex"}],
 "random headers and epoch sequences; non-trivial when new", ["heads", "data"],
 note="Oracle: independent column writer for epoch and observation lines, field-by-field comparison of the header, and text identity on rewriting.")
