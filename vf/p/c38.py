X = "core/lib/FileHandling/RINEX/"
prop("C38", "Weather records survive RINEX meteorological files and are found by time",
 "A RINEX meteorological file of any supported version holds, column for column, the header and the records given to the writer, and is read back to the same values, also when another program wrote it with its lines in another order; a header or record that is incomplete or malformed is refused, not guessed at. Comparing headers names exactly the lines that differ among those asked for; filters and merged headers keep what their operands have in common. Weather kept by time is found as documented: the last observation up to a time, the nearest or the interpolated one within the interval, and what was flushed or never observed is not reported.",
 ["inputs", "histories"], "headers with 1-10 types in any order, 6 records each, years 1980-2079; weather histories of 40 operations",
 "Existing tests read and write a handful of fixed files; MetReader and the filters have none.",
 [X + f for f in ("RinexMetHeader.cpp", "RinexMetHeader.hpp", "RinexMetData.cpp", "RinexMetData.hpp", "RinexMetStream.cpp", "RinexMetFilterOperators.hpp")] + ["core/lib/GNSSCore/WxObsMap.cpp", "core/lib/GNSSCore/WxObsMap.hpp", "ext/lib/Rxio/MetReader.cpp"],
 [{"name": "headers", "where": "RinexMetHeader::reallyPutRecord, reallyGetRecord, compare"}, {"name": "records", "where": "RinexMetData::reallyPutRecord, reallyGetRecord"}, {"name": "filters", "where": "RinexMetFilterOperators.hpp"}, {"name": "weather", "where": "WxObsData::getWxObservation, getMostRecent, flush; MetReader::read"}],
 "random headers, records and weather histories; non-trivial when the file or history is new", ["file", "op", "wx"],
 note="Oracle: own rendering of the RINEX columns with an own calendar, and a map of the weather inserted.")
