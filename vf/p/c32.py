N = "core/lib/NavFilter/"
prop("C32", "Navigation message filters judge each message rightly and lose none",
 "Every message given to a chain of navigation filters comes out exactly once: accepted by the manager or listed as rejected by a filter that the manager marks in that call, through validate and finalize, in the order of the cascade. Each filter's verdict is the documented one: LNAV and CNAV parity accept exactly the messages whose parity or CRC-24Q is right; cooking restores upright words from any polarity; empty, TLM/HOW, CNAV TOW and CNAV-2 sanity filters accept exactly the messages of the documented form, week boundaries included; ordering filters emit in time order and reject only what is more than the depth older than the newest; cross-source votes accept whole groups of the most frequent message and need the minimum of votes; the ephemeris maker completes exactly consistent, consecutive subframe sets; bit fields of the data classes are the bits of the message at every position.",
 ["inputs", "histories"], "random subframes with flipped bits, both polarities, boundary counts; message histories with late, repeated and jumping epochs; random chains of filters flushed at any moment",
 "Tests feed recorded good messages plus a few edits through single filters in one order, never flush a chain with rejecting filters and never read bit fields across words.",
 [N + f for f in ("NavFilterMgr.cpp", "NavFilter.cpp", "NavFilterKey.cpp", "NavOrderFilter.cpp", "LNavOrderFilter.cpp", "LNavCrossSourceFilter.cpp", "CNavCrossSourceFilter.cpp", "LNavParityFilter.cpp", "LNavCookFilter.cpp", "LNavEmptyFilter.cpp", "LNavTLMHOWFilter.cpp", "LNavAlmValFilter.cpp", "LNavEphMaker.cpp", "LNavFilterData.cpp", "CNavParityFilter.cpp", "CNavCookFilter.cpp", "CNavEmptyFilter.cpp", "CNavTOWFilter.cpp", "CNav2SanityFilter.cpp", "CNavFilterData.cpp", "NavMsgDataBits.cpp", "NavMsgDataPNB.cpp")],
 [{"name": "cascade and flush", "where": "NavFilterMgr::validate, finalize"}, {"name": "stateful filters", "where": "NavOrderFilter, LNavOrderFilter, LNavCrossSourceFilter, CNavCrossSourceFilter, LNavEphMaker"}, {"name": "verdicts on one message", "where": "LNav*Filter, CNav*Filter::validate"}, {"name": "bit fields", "where": "NavMsgData*::getBits, GenericNavFilterData::getBitsSplit"}],
 "random messages and histories through real filters; non-trivial when new", ["lfilt", "cfilt", "order", "vote", "eph", "mgr", "bits"],
 note="Oracle: parity and CRC recomputed from the published tables, reference models of the cascade, ordering and voting, and accounting of every message pointer.")
