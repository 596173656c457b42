SPECIFICATION Spec
CONSTANTS Obj = {1,2} Marks = 1 Allocs = 2 MaxRefs = 2 MaxOff = 2
VIEW View
CONSTRAINT Bound
INVARIANTS Right Listed Resumes ProtectedGrey NoBlackToWhite NotOverdue PartialsEnd
