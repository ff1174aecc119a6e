CONSTANTS N = 2  MaxTris = 3
INIT Init
NEXT Next
VIEW view
INVARIANTS K0Structure Patch ShearStructure KGStructure Indifferent
CHECK_DEADLOCK FALSE
