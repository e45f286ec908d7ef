prop("C04", "Printed times say the right thing and scan back to the same instant",
 "For every representable time and every conversion specifier and field width, the formatted text shows exactly the value of that field in the calendar or GNSS time scale it names. Scanning a text printed with a complete time specification (civil, day-of-year, week/seconds, week/Z-count in any GNSS, MJD, JD, ANSI, Unix, POSIX), with delimiters or fixed widths, by either scanner, returns the same instant to the resolution printed, and the same time system when it was printed. Text that does not fit the format ends in a library exception or a valid time, never in a crash or memory error.",
 ["inputs"], "times x format strings (all specifiers, flags, widths, precisions, separators) x arbitrary and corrupted texts",
 "There are some forty specifiers freely combined; the tests print and scan fixed examples at one or two epochs.",
 ["core/lib/TimeHandling/TimeString.cpp", "core/lib/TimeHandling/TimeTag.cpp", "core/lib/TimeHandling/CivilTime.cpp", "core/lib/TimeHandling/YDSTime.cpp", "core/lib/TimeHandling/GPSWeekSecond.hpp", "core/lib/TimeHandling/BDSWeekSecond.hpp", "core/lib/TimeHandling/GALWeekSecond.hpp", "core/lib/TimeHandling/QZSWeekSecond.hpp", "core/lib/TimeHandling/IRNWeekSecond.hpp", "core/lib/Utilities/StringUtils.hpp"],
 [{"name": "per-class printf/setFromInfo", "where": "core/lib/TimeHandling/*.cpp"}, {"name": "getInfo tokeniser", "where": "core/lib/TimeHandling/TimeTag.cpp"}, {"name": "scanTime/mixedScanTime", "where": "core/lib/TimeHandling/TimeString.cpp"}, {"name": "formattedPrint", "where": "core/lib/Utilities/StringUtils.hpp"}],
 "random times and generated format strings; hostile stage mutates printed text and formats; non-trivial when (format, text) is new",
 ["print", "scan", "systems", "twodigit", "hostile"], note="Oracle: an independent formatter over the calendar model. Numeric fields whose last digit is a rounding tie are compared as numbers.")
