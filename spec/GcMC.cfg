SPECIFICATION Spec
CONSTANTS Obj = {1,2,3} Marks = 1 Allocs = 1 MaxRefs = 1 MaxOff = 0
VIEW View
CONSTRAINT Bound
INVARIANTS Right Listed Resumes ProtectedGrey NoBlackToWhite NotOverdue PartialsEnd
