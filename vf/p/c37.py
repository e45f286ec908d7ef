D = "core/lib/CommandLine/"
prop("C37", "Command lines are understood as typed, and every mistake in them is reported",
 "A command line is understood as typed: every option given, short, bundled, long or abbreviated, with its value attached or following, is counted, with its values and its place in the order; what is left goes to the trailing option. Each unknown option, missing or superfluous value, value of the wrong kind, missing required option, option given too often and broken rule between options is reported once, naming it, and nothing else is. Option files, ignored and deprecated options, lists and list files are expanded to what they stand for, one command line does not influence the next, and usage and configuration show every option as defined with its value.",
 ["inputs", "configurations", "histories"], "up to 10 options of 11 kinds, groups and rules between them, up to 12 arguments of every form; option files nested 3 deep",
 "Existing tests parse some fixed command lines; CommandLine and its files have none.",
 [D + f for f in ("CommandOption.cpp", "CommandOption.hpp", "CommandOptionParser.cpp", "CommandOptionParser.hpp", "CommandOptionWithTimeArg.cpp", "CommandOptionWithCommonTimeArg.cpp", "CommandOptionWithPositionArg.cpp", "CommandLine.cpp", "CommandLine.hpp", "getopt.c")] + ["core/lib/Utilities/expandtilde.cpp"],
 [{"name": "parsing options", "where": "CommandOptionParser::parseOptions"}, {"name": "rules", "where": "CommandOption*::checkArguments"}, {"name": "describing", "where": "CommandOptionParser::displayUsage"}, {"name": "CommandLine", "where": "CommandLine::PreProcessArgs, Parse, Postprocess"}, {"name": "files", "where": "expandtilde.cpp"}],
 "random option sets and command lines; non-trivial when the command line is new", ["parser", "line"],
 note="Oracle: the command line is generated from a list of events, so that counts, values, order and errors are known without parsing.")
