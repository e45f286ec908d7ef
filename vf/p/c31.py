prop("C31", "Antenna calibrations are read, kept, selected and applied as written",
 "Every ANTEX file (versions 1.3, 1.4; receiver and satellite antennas, any grid, with or without azimuths, RMS blocks, validity limits, codes and comments) reads back every field, reads and rewrites to the same text, and an object written occupies the prescribed columns; damaged or incomplete headers and antennas are errors. The phase centre variation is the bilinear interpolation of the grid (azimuth wrapping round, ends of the zenith range held), the total offset is PCO along the line of sight less PCV; unknown frequencies and angles outside 0-90 are refused. An antenna is valid exactly between its limits, in any time system. The store holds exactly the selected receivers, systems and antennas valid within two days of the time given, found by name, PRN or SVN; the vector from centre of mass to phase centre is the ionosphere-free (BeiDou: B3) offset turned from the Sun-oriented body frame to ECEF.",
 ["inputs", "histories"], "random ANTEX files and objects (grids of 2-19 zeniths, azimuth steps 5-120 and none, 1-4 frequencies), evaluation at and between grid points and far outside one turn, stores with overlapping antennas, satellites all over the sky, damaged files",
 "No unit test covers ANTEX files or the antenna store at all.",
 ["ext/lib/Geomatics/AntexData.cpp", "ext/lib/Geomatics/AntexData.hpp", "ext/lib/Geomatics/AntexHeader.cpp", "ext/lib/Geomatics/AntexHeader.hpp", "ext/lib/Geomatics/AntexStream.hpp", "ext/lib/Geomatics/AntennaStore.cpp", "ext/lib/Geomatics/AntennaStore.hpp", "ext/lib/Geomatics/SunEarthSatGeometry.cpp", "ext/lib/Geomatics/SolarPosition.cpp"],
 [{"name": "ANTEX reading and writing", "where": "AntexHeader, AntexData::reallyGetRecord, ParseDataRecord, reallyPutRecord"}, {"name": "interpolation", "where": "AntexData::getPhaseCenterVariation, getPhaseCenterOffset, getTotalPhaseCenterOffset, isValid"}, {"name": "store", "where": "AntennaStore::addANTEXfile, getAntenna, getSatelliteAntenna, includeReceivers"}, {"name": "body frame", "where": "AntennaStore::ComToPcVector, SatelliteAttitude, SolarPosition"}],
 "random antennas and files; non-trivial when the grid shape or selection is new", ["file", "pcv", "store", "body", "bad"],
 note="Oracle: independent column writer, own bilinear interpolation, own selection by interval overlap, own low-precision Sun and attitude (tolerance 3 mm).")
