CONSTANTS N = 2  MaxTris = 4  Mode = "all"
INIT Init
NEXT Next
VIEW view
INVARIANTS GrowthConforms IsManifold CountSides AreasTile DomainsClosed Outward LinearFieldsReproduced SmoothingIsMean OrderFree
CHECK_DEADLOCK FALSE
