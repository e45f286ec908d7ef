prop("C03", "GNSS week numbers, seconds of week and Z-counts are consistent",
 "For GPS, Galileo, BeiDou, QZSS and IRNSS, converting an instant to (week, seconds of week) gives the number of whole weeks and seconds since that system's epoch (1980-01-06, 1999-08-22, 2006-01-01, 1980-01-06, 1999-08-22) and converting back returns the instant; instants before the epoch are refused. The truncated (10/12/13/16/10-bit) week and rollover number always recombine to the full week, and a truncated week plus the calendar year of the instant recovers the full week. Week/Z-count values pack, unpack, add, subtract, compare and group in blocks exactly as the total count of 1.5 s units, and operations that would leave the valid range throw and change nothing.",
 ["inputs"], "instants from each epoch over thousands of weeks incl. rollovers; all Z-counts and Z-count offsets",
 "Rollover handling errs only for particular weeks and years; tests use a few fixed weeks.",
 ["core/lib/TimeHandling/Week.hpp", "core/lib/TimeHandling/WeekSecond.cpp", "core/lib/TimeHandling/GPSWeekSecond.hpp", "core/lib/TimeHandling/GALWeekSecond.hpp", "core/lib/TimeHandling/BDSWeekSecond.hpp", "core/lib/TimeHandling/QZSWeekSecond.hpp", "core/lib/TimeHandling/IRNWeekSecond.hpp", "core/lib/TimeHandling/GPSWeek.hpp", "core/lib/TimeHandling/GPSWeekZcount.cpp", "core/lib/TimeHandling/GPSZcount.cpp"],
 [{"name": "epoch constants and masks", "where": "core/lib/TimeHandling/TimeConstants.hpp; Nbits/bitmask/MJDEpoch of each class"}, {"name": "adjustToYear", "where": "core/lib/TimeHandling/Week.hpp"}, {"name": "addZcounts", "where": "GPSZcount.cpp, GPSWeekZcount.cpp"}],
 "random instants biased to week, day, 1.5 s and rollover edges; non-trivial when the instant (and system) is new",
 ["ws", "zcount"], note="Oracle: day counting from the epochs, integer arithmetic on total Z-counts.")
