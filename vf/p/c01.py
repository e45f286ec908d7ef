prop("C01", "Calendar and time representations agree with the civil calendar",
 "For every supported day (JD 0 to 3442448) and time of day, the conversions between the library's internal time and each representation (Julian day/civil date/day of year, year-month-day-h:m:s, year-doy-seconds, MJD, Julian date, Unix, POSIX and ANSI time, seconds-of-day/h:m:s) agree with the historical Julian/Gregorian calendar, and converting to a representation and back returns the same instant to within that representation's resolution, with the same time system. Values outside a representation's range are refused with an exception and leave the target object unchanged. Comparison operators on two values of one representation agree with the order of the instants, and are never equal (and ordering them throws) when the two carry different specific time systems.",
 ["inputs"], "every calendar day of the supported range (enumerated), all times of day, all twelve time systems",
 "The tests convert a few dozen dates; a fault at a leap century, the 1582 gap, year boundaries, negative years or the edge of a millisecond shows only on other inputs.",
 ["core/lib/TimeHandling/TimeConverters.cpp", "core/lib/TimeHandling/CommonTime.cpp", "core/lib/TimeHandling/CivilTime.cpp", "core/lib/TimeHandling/YDSTime.cpp", "core/lib/TimeHandling/MJD.cpp", "core/lib/TimeHandling/JulianDate.cpp", "core/lib/TimeHandling/UnixTime.cpp", "core/lib/TimeHandling/PosixTime.cpp", "core/lib/TimeHandling/ANSITime.cpp"],
 [{"name": "calendar algorithms", "where": "core/lib/TimeHandling/TimeConverters.cpp convertJDtoCalendar/convertCalendarToJD"},
  {"name": "range checks and normalisation", "where": "core/lib/TimeHandling/CommonTime.cpp set/setInternal"},
  {"name": "conversion to and from each representation", "where": "convertToCommonTime/convertFromCommonTime of each class"}],
 "calendar stage: all 3442449 days against a day-counting model (exhaustive); other stages: random times biased to boundaries (year/month/week/1582/epoch edges, first/last millisecond, sub-millisecond fractions); a case is non-trivial when its (day, msod, fraction, system) is new",
 ["calendar", "reps", "tags", "invalid"],
 observe=["public conversion methods, CommonTime::getInternal"],
 note="Exhaustive over civil days; random over times of day. Oracle: a calendar counted month by month, written without reference to the library's formulas, and 128-bit attosecond arithmetic.")
