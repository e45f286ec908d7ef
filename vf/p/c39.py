X = "ext/lib/FileHandling/Ionex/"
prop("C39", "Ionosphere maps survive IONEX files and give the values their grid defines",
 "An IONEX file holds, column for column, the header, code biases and TEC and RMS maps given to the writer, for every grid in latitude, longitude and height and every exponent, and is read back to the same values, whatever order its header lines have; a header whose grid, times or dimensions do not fit together, and a map that does not fit the grid, are refused. The value at a position is the bilinear interpolation of the four grid points around it, on every meridian and up to the edges of the grid, and in time the nearest map or the interpolation, turned with the sun or not as asked for, up to and including the first and last map; no value is given outside or from undefined points. Slant delays, mapping functions and code biases follow the documented formulas.",
 ["inputs", "histories"], "grids of up to 12 x 145 x 4 points, up to 8 maps; stores of 5 epochs; 3 consecutive files",
 "No existing test covers IONEX.",
 [X + f for f in ("IonexHeader.cpp", "IonexHeader.hpp", "IonexData.cpp", "IonexData.hpp", "IonexStream.hpp", "IonexStore.cpp", "IonexStore.hpp")],
 [{"name": "header", "where": "IonexHeader::WriteHeaderRecords, ParseHeaderRecord, reallyGetRecord"}, {"name": "maps", "where": "IonexData::reallyPutRecord, reallyGetRecord"}, {"name": "interpolation", "where": "IonexData::getIndex, getValue"}, {"name": "store", "where": "IonexStore::getIonexValue, findDCB, loadFile, clear"}, {"name": "delays", "where": "IonexStore::getSTEC, getIono, iono_mapping_function"}],
 "random headers, grids, maps and positions; non-trivial when the file or query is new", ["file", "value", "store"],
 note="Oracle: own rendering of the IONEX columns, and interpolation in extended precision on the integer values of the maps.")
