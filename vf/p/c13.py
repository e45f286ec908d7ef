prop("C13", "Navigation bit packing and unpacking are exact inverses with range refusal",
 "For every sequence of packed fields - signed, unsigned, scaled, semicircle, text, appended or inserted, of any total length and after any clear, copy, trim or invert - each field unpacks (whole, sign-magnitude or from up to four pieces) to the packed value rounded to the field's resolution, values that do not fit and bits that are not present are refused, a copy equals its original, comparison looks at exactly the requested bits and metadata, and the hex text form reads back to the same bits.",
 ["inputs", "histories"], "random field widths 1..50 bits, scales 2^-60..2^20, histories of up to 60 operations and ~2000 bits; mutated hex text",
 "Width, sign and split arithmetic and buffer growth depend on the value and on the history of the object.",
 ["core/lib/GNSSEph/PackedNavBits.cpp"],
 [{"name": "bit buffer", "where": "bits, bits_used; addUint64_t, addPackedNavBits, trimsize, copy constructor"}, {"name": "sign extension and scaling", "where": "SignExtend, ScaleValue"}],
 "random operation sequences; non-trivial when the sequence is new", ["fields", "matching", "hostile"],
 note="Oracle: an independent vector of bits.")
