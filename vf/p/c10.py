prop("C10", "Tropospheric delay models follow their published formulas and validity protocol",
 "For every receiver height, latitude, day and weather and every elevation, each tropospheric model's zenith delays, mapping functions and total delay equal the published formulas (Black, Goad-Goodman, Saastamoinen-Davis, Niell, UNB3, MOPS, GMF/GPT); delay = dry zenith x dry map + wet zenith x wet map, positive, decreasing with elevation, zero below the documented cutoff; a model answers only when all its required inputs have been given, in whatever order and whatever their value, and otherwise refuses; invalid weather or day is refused; a reused model answers exactly as a fresh one with the same latest inputs, and the position, Xvt and weather-record overloads agree with explicit setting.",
 ["inputs", "histories"], "random height -400..8500 m, latitude incl. table nodes and 0, day 1..366, weather, elevation 5..90; random sequences of setters on reused models; construction in dirty memory",
 "Table interpolation, hemisphere, stale-parameter and uninitialised-flag errors depend on particular inputs or histories; tests dump one site per model.",
 ["core/lib/GNSSCore/TropModel.cpp", "core/lib/GNSSCore/NBTropModel.cpp", "core/lib/GNSSCore/GlobalTropModel.cpp", "core/lib/GNSSCore/MOPSTropModel.cpp", "core/lib/GNSSCore/NeillTropModel.cpp", "core/lib/GNSSCore/SaasTropModel.cpp", "core/lib/GNSSCore/GGTropModel.cpp", "core/lib/GNSSCore/GGHeightTropModel.cpp", "core/lib/GNSSCore/SimpleTropModel.cpp", "core/lib/GNSSCore/GCATTropModel.cpp"],
 [{"name": "validity flags", "where": "valid, validRxHeight, validDOY ... in each model"}, {"name": "table interpolation", "where": "NB_Interpolate, dry_mapping_function, MOPS prepareParameters"}],
 "random model parameters; non-trivial when the parameter set is new", ["formula", "global", "shape", "reuse", "protocol"],
 note="Oracle: independent formulas over one copy of the published tables; quartic profiles integrated numerically; IERS test case for GMF/GPT.")
