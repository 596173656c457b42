SPECIFICATION Spec
CONSTANTS Obj = {1,2,3} Marks = 2 Allocs = 2 MaxRefs = 1 MaxOff = 0
VIEW View
CONSTRAINT Bound
INVARIANTS Right Listed Resumes ProtectedGrey NoBlackToWhite NotOverdue PartialsEnd
