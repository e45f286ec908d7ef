D = "core/lib/FileDirProc/"
prop("C36", "File specifications name, take apart, order and find exactly the right files",
 "A file specification gives, for a time and values, the one name with every field at its place and width, takes that name apart again into the same values and time, knows which fields it has, and refuses what is not a specification; names are ordered by their fields as documented, wherever the files lie, keeping all of them but older versions. A search over a directory tree returns each existing file matching the specification whose time lies in the asked span and whose fields pass the filter, exactly once and no other, for absolute and relative paths, at every granularity and across year, month and week boundaries; hunting with chunks, filters and order agrees. Making and checking directories and files changes nothing else.",
 ["inputs", "configurations", "environment"], "random specifications of up to 12 fields; trees of up to 4 levels and 24 files with decoys in a scratch directory; spans of 0 s to years; filters on any field",
 "Existing tests use three fixed trees and a handful of specifications.",
 [D + f for f in ("FileSpec.cpp", "FileSpec.hpp", "FileSpecFind.cpp", "FileSpecFind.hpp", "FileHunter.cpp", "FileHunter.hpp", "FileUtils.hpp")],
 [{"name": "names and fields", "where": "FileSpec::init, toString, extractField, extractCommonTime, createSearchString"}, {"name": "order", "where": "FileSpec::sortList"}, {"name": "search", "where": "FileSpecFind::findGlob"}, {"name": "hunt", "where": "FileHunter::find"}, {"name": "directories", "where": "FileUtils"}],
 "random specifications, lists and directory trees; non-trivial when the specification or tree is new", ["spec", "sort", "find", "hunt", "dirs"],
 note="Oracle: own field table, calendar and rendering of names; the expected file set comes from the values each file was created with.")
