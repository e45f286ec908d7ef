prop("C30", "SP3 and RINEX clock files survive writing and reading unchanged",
 "Every SP3 file (versions a-d: header, satellite and accuracy lists, epochs, position, velocity and correlation records, flags, blank sigmas) and every RINEX clock file (versions 2 and 3: header records, reference clocks, stations, satellite lists, records of one to six values) written by the library occupies the columns the format prescribes and reads back with the same fields, times, satellites and values; reading and rewriting leaves the text unchanged; epochs keep their fractional seconds and carry over a minute when rounded; the end of an SP3 file is recognised with or without its EOF record; a reused header, record or stream object carries nothing over from the previous file; what a version cannot hold is refused, and damaged files are errors, not data.",
 ["inputs", "histories"], "random files of SP3 a-d with 1-150 satellites, fractional epochs, every flag and optional record; random RINEX clock files with up to 27 observation types, continuation boundaries; sequences of files through one object; damaged files",
 "Tests rewrite one fixture per version, none with fractional epochs, blank sigmas, full-width text or list boundaries, and never reuse an object.",
 ["core/lib/FileHandling/SP3/SP3Header.cpp", "core/lib/FileHandling/SP3/SP3Data.cpp", "core/lib/FileHandling/SP3/SP3Stream.cpp", "core/lib/GNSSEph/SP3SatID.cpp", "core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp", "core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp", "core/lib/FileHandling/RINEX3/Rinex3ClockStream.cpp", "core/lib/FileHandling/RINEX/RinexClockHeader.cpp", "core/lib/FileHandling/RINEX/RinexClockData.cpp", "core/lib/FileHandling/RINEX/RinexClockBase.cpp", "core/lib/FileHandling/RINEX/RinexClockStream.cpp"],
 [{"name": "SP3 header and records", "where": "SP3Header, SP3Data::reallyGetRecord, reallyPutRecord, SP3Stream::close"}, {"name": "satellite identifiers", "where": "SP3SatID::fromString, toString"}, {"name": "RINEX clock headers and records", "where": "Rinex3ClockHeader, Rinex3ClockData, RinexClockHeader, RinexClockData"}],
 "random files through fresh and reused objects; non-trivial when new", ["sp3", "sp3bad", "clk3", "clk2", "made"],
 note="Oracle: independent column writer and calendar; field-by-field comparison; text identity of what the library writes.")
