prop("C23", "Reading any bytes as any file format gives records or a marked failure",
 "For every supported formatted file (RINEX 2 and 3 observation, navigation, meteorological and clock, SP3, SINEX, SEM, Yuma, IONEX, ANTEX, BINEX), reading arbitrary content - truncated, corrupted, of another format - terminates without undefined behaviour; each read either delivers a record and advances the record number, or sets the fail bit with the stream position, record and line numbers as they were; no exception leaves a stream on which exceptions are not enabled, and with them enabled every failure throws FFStreamError; what is read does not depend on files read before or on the contents of fresh memory.",
 ["inputs", "faults", "histories"], "mutations (fields, lines, truncation, binary bytes, foreign lines) of sample files of all 14 formats, with and without stream exceptions",
 "Tests read a dozen hand-broken files; the readers index into lines by column and any line can be short.",
 ["core/lib/FileHandling/FFStream.cpp", "core/lib/FileHandling/FFTextStream.cpp", "core/lib/FileHandling/FFBinaryStream.cpp", "core/lib/FileHandling/RINEX/RinexClockData.cpp", "core/lib/FileHandling/RINEX/RinexClockHeader.cpp", "core/lib/FileHandling/RINEX/RinexMetData.cpp", "core/lib/FileHandling/RINEX/RinexMetHeader.cpp", "core/lib/FileHandling/RINEX/RinexNavData.cpp", "core/lib/FileHandling/RINEX/RinexNavHeader.cpp", "core/lib/FileHandling/RINEX/RinexObsData.cpp", "core/lib/FileHandling/RINEX/RinexObsHeader.cpp", "core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp", "core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp", "core/lib/FileHandling/RINEX3/Rinex3NavData.cpp", "core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp", "core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp", "core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp", "core/lib/FileHandling/SP3/SP3Data.cpp", "core/lib/FileHandling/SP3/SP3Header.cpp", "core/lib/FileHandling/SINEX/SinexData.cpp", "core/lib/FileHandling/SINEX/SinexHeader.cpp", "core/lib/FileHandling/Binex/BinexData.cpp", "ext/lib/FileHandling/SEM/SEMData.cpp", "ext/lib/FileHandling/SEM/SEMHeader.cpp", "ext/lib/FileHandling/Yuma/YumaData.cpp", "ext/lib/FileHandling/Ionex/IonexData.cpp", "ext/lib/FileHandling/Ionex/IonexHeader.cpp", "ext/lib/Geomatics/AntexData.cpp", "ext/lib/Geomatics/AntexHeader.cpp"],
 [{"name": "stream contract", "where": "FFStream::tryFFStreamGet, FFTextStream::tryFFStreamGet, FFTextStream::formattedGetLine"}, {"name": "record parsers", "where": "reallyGetRecord of every FFData class"}],
 "mutated sample files; non-trivial when the file is new", ["text", "binex"],
 note="Oracle: sanitizers, the documented stream contract, and agreement between a run with and a run without exceptions on objects built in differently filled memory.")
