G = "ext/lib/CodeGen/"
prop("C33", "P-code generation and byte, bit and CRC codecs are exactly the published ones",
 "For every PRN code 1 to 210 and every six seconds of the week the generated P-code is, chip by chip, that of IS-GPS-200: four registers with their short cycles, the 343, 37 and 380 chip holds, the delay of the PRN, the truncated last X2 epoch of the week, and the day shifts above PRN 37; times within six seconds are taken back to their start, single bits read from the buffer are its chips and misuse of the sequence memory is refused. Byte order conversions are exact for every type, offset and alignment and touch no other byte; bit counts, reflections, exclusive-or checksums and CRCs of every order from 1 to 32, direct or augmented, reflected or not, equal polynomial division, and named CRCs are the standard ones.",
 ["inputs", "configurations"], "all PRNs with Z-counts at the beginning, end and day boundaries of the week and random ones; any register, taps and read position; random bytes, offsets, polynomials and orders",
 "There is no test of the code generator; byte codec tests use a few aligned values, CRC tests one string and four parameter sets.",
 [G + f for f in ("SVPCodeGen.cpp", "X1Sequence.cpp", "X2Sequence.cpp", "X2Sequence.hpp", "GenXSequence.cpp", "CodeBuffer.cpp", "CodeBuffer.hpp", "PCodeConst.hpp", "mergePCodeWords.h")] + ["core/lib/Utilities/BinUtils.hpp", "core/lib/Utilities/BinUtils.cpp"],
 [{"name": "code of six seconds", "where": "SVPCodeGen::getCurrentSixSeconds, X1Sequence::allocateMemory, X2Sequence::allocateMemory, X2Sequence::operator[]"}, {"name": "register sequences", "where": "GenXSequence::GenXSequence, operator[]"}, {"name": "byte order", "where": "BinUtils::buitoh*, bunto*, buhto*, encodeVar, decodeVar"}, {"name": "check sums", "where": "BinUtils::computeCRC, reflect, xorChecksum"}],
 "random codes, registers, bytes and CRC parameters; non-trivial when new", ["pcode", "seq", "codec", "crc"],
 note="Oracle: chip-by-chip P-code from the register definitions and epoch arithmetic, checked against the published first twelve chips; bitwise CRC division in both forms; bytes composed by shifts.")
