SPECIFICATION Spec
CONSTANTS Keys = {1,2,3} Vals = {1,2} NB = 2 MaxNodes = 3
CONSTRAINT Bound
INVARIANT InOwnBucket
PROPERTY Refines
