prop("C12", "Satellite, observation and message identifiers map one-to-one to their codes",
 "For every RINEX 3 observation code of every system and version, reading gives the documented signal (band, tracking code, type), writing gives the same text back, different codes of a system are different signals, and validity is exactly the published table (including GPS C1N/C2N and the 3.02 BeiDou naming); satellite identifiers of RINEX and SP3 round-trip with the SBAS/QZSS number offsets, default system and fill character, and reject foreign systems; identifier names round-trip; orderings are strict weak orders and 'Any' matches anything; each signal maps to its navigation message; asking never changes the tables.",
 ["inputs"], "exhaustive over codes, satellites and enumerators; random four-character strings; random triples for ordering",
 "The tables have hundreds of entries of which tests touch a few; identifiers are map keys everywhere, so one wrong entry silently merges or loses data.",
 ["core/lib/GNSSCore/RinexObsID.cpp", "core/lib/GNSSCore/RinexObsID_Generated.cpp", "core/lib/GNSSCore/ObsID.cpp", "core/lib/GNSSCore/RinexSatID.cpp", "core/lib/GNSSEph/SP3SatID.cpp", "core/lib/GNSSEph/NavID.cpp", "core/lib/GNSSCore/CarrierBand.cpp", "core/lib/GNSSCore/TrackingCode.cpp"],
 [{"name": "code tables", "where": "char2ot, cb2char, tc2char, validRinexTrackingCodes"}, {"name": "number offsets", "where": "RinexSatID::fromString/toString, SP3SatID"}],
 "exhaustive tables plus random strings; non-trivial when the code or string is new", ["obsid", "allcodes", "pure", "enums", "satid", "order", "nav"],
 note="Oracle: the RINEX 3.04 signal tables, transcribed.")
