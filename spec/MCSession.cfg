CONSTANTS MaxTerms = 1  MaxOps = 5
INIT Init
NEXT Next
VIEW view
CONSTRAINT Bound
INVARIANTS TypeOK NumbersFirst NeverStale FinNeverReady
PROPERTIES RefusalKeepsMatrices ValueErrorKeepsAll Independent OneHandle ComputingKeepsInputs ValidInputSucceeds
CHECK_DEADLOCK FALSE
