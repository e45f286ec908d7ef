X = "core/lib/GNSSCore/"
prop("C40", "Which vehicle carried which number at a time is what the records say",
 "Satellite metadata read from its comma-separated files is exactly what the lines give, each satellite completed by its launch, its catalogue number and the clocks of its block; lines that are malformed, duplicated or lack what they refer to are reported and leave nothing behind, the other lines are kept. A satellite is found by number, vehicle or slot and channel for exactly the times from its start up to its end. The cross-reference of GPS vehicles and PRNs answers both ways alike at every time, names one vehicle per PRN and one PRN per vehicle, and refuses what it does not know.",
 ["inputs", "histories"], "files of up to 60 records of 5 systems, 60 questions each; every entry of the cross-reference with its boundaries",
 "Existing tests ask for a few satellites of one file and a few dates of the cross-reference.",
 [X + f for f in ("SatMetaDataStore.cpp", "SatMetaDataStore.hpp", "SatMetaData.cpp", "SatMetaData.hpp", "SatMetaDataSort.hpp", "SVNumXRef.cpp", "SVNumXRef.hpp")],
 [{"name": "reading", "where": "SatMetaDataStore::loadData, addSat, addLaunch, addClock, addNORAD"}, {"name": "finding", "where": "SatMetaDataStore::findSat, findSatBySVN, findSatBySlotFdma, getSVN, getPRN"}, {"name": "cross-reference", "where": "SVNumXRef::getNAVSTAR, getPRNID, isConsistent, getBlockType"}],
 "random files and questions; non-trivial when the file or question is new", ["files", "found", "svn"],
 note="Oracle: a line-by-line model of the file and a linear search of the intervals, with an own calendar; GPS block numbers as built.")
