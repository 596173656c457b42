SPECIFICATION Spec
CONSTANTS Keys = {1,2,3} Vals = {1,2} MaxDup = 2 Dups <- DupsPlain
VIEW View
INVARIANTS TypeOK UniqueUnlessDup
PROPERTIES OnlyNamed SetThenGet
