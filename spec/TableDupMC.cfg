SPECIFICATION Spec
CONSTANTS Keys = {1,2} Vals = {1,2} MaxDup = 2 Dups <- DupsAll
VIEW View
CONSTRAINT Bound
INVARIANTS TypeOK UniqueUnlessDup
PROPERTIES OnlyNamed SetThenGet
