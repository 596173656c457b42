SPECIFICATION Spec
CONSTANTS Args <- Args3 MaxArgs = 1 TheDefs <- Defs3
VIEW View
CONSTRAINT Limit
INVARIANTS Used Grouping
