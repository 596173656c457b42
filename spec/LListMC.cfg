SPECIFICATION Spec
CONSTANTS Vals = {10,11,20} N = 2 MaxLen = 4
VIEW View
CONSTRAINT Bound
INVARIANT ReverseTwice
PROPERTIES KeepsValues SortSorts
