prop("C06", "Time intervals and epoch-data store behave as the sets they denote",
 "For every pair of non-empty intervals with any combination of open/closed ends, membership, overlap, before, after and equality agree with set semantics (exactly one of overlaps/prior/after holds), ordering is a strict weak order by start (closed before open), reversed limits are refused without changing the object, and the printed form scans back to the same interval. An epoch-indexed data store reports exactly the epochs added and not edited out with correct limits, returns stored values bit-exactly, interpolates polynomial data of admissible degree exactly between them, and refuses instants outside its span, also after edit and clear.",
 ["inputs", "histories"], "triples of intervals over a grid with all end types, five scales; random add/edit/clear histories of the store",
 "Endpoint handling errs only where two intervals touch with particular open/closed ends; tests use a few fixed ranges.",
 ["core/lib/TimeHandling/TimeRange.cpp", "core/lib/TimeHandling/EpochDataStore.cpp", "core/lib/Math/MiscMath.hpp"],
 [{"name": "endpoint logic", "where": "TimeRange.cpp"}, {"name": "interpolation window", "where": "EpochDataStore.cpp getData"}],
 "random triples of touching/overlapping intervals; random stores of 1-40 epochs",
 ["range", "store"], note="Oracle: brute-force set membership on a half-step grid; map model and polynomial evaluation.")
