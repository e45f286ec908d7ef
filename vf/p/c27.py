prop("C27", "String and number-text utilities do what they document and round trip",
 "Words are counted, extracted, split (by one delimiter, by any of several, respecting quotes) and removed exactly as their documentation defines, for any string, delimiter and index; stripping, translating, changing, justifying, centering, extracting and classifying strings match their definitions and never loop or read outside the string; pattern matching returns the leftmost longest match; text made from numbers (decimal, hexadecimal, FORTRAN and scientific notation, FormattedDouble with every lead, sign, width and exponent choice) has the stated layout and reads back to the number within the digits written, also when its exponent needs more room; blank text reads as zero; and hex dumps and pretty printing contain exactly the bytes or words given, within the width asked for.",
 ["inputs"], "random strings over delimiter-rich alphabets, quoted fields, wildcard patterns, numbers of all magnitudes and signs (also ±0, powers of ten, roundings to the next decade), dump layouts",
 "Tests call each function on one or two fixed strings; indices past the end, repeated delimiters, empty arguments, three-digit exponents and unusual dump layouts are not exercised.",
 ["core/lib/Utilities/StringUtils.hpp", "core/lib/Utilities/StringUtils.cpp", "core/lib/Utilities/FormattedDouble.hpp", "core/lib/Utilities/FormattedDouble.cpp", "core/lib/Utilities/HexDumpDataConfig.cpp"],
 [{"name": "words", "where": "StringUtils.hpp words/split/removeWords"}, {"name": "edit", "where": "StringUtils.hpp strip/translate/change/justify"}, {"name": "numbers", "where": "StringUtils.hpp/.cpp number text, FormattedDouble"}, {"name": "dump", "where": "StringUtils.cpp hexDumpData, HexDumpDataConfig.cpp"}],
 "random strings and numbers; non-trivial when new", ["words", "quotes", "edit", "match", "numbers", "scientific", "text"],
 note="Oracle: independent tokenizer, matcher and formatter models; written text parsed back. split(..., ignoreEmpty=false) and the is...String functions on text with no digit are not claimed.")
