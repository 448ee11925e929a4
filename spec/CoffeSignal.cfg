SPECIFICATION SSpec
INVARIANT EachOnce
INVARIANT Toggling
INVARIANT FromPairs
INVARIANT OwnTerms
INVARIANT FullSky
CHECK_DEADLOCK FALSE
VIEW View
