SPECIFICATION Spec
CONSTANTS W = 2 NT = 2 MaxNet = 2
VIEW View
INVARIANT Disjoint
PROPERTY Answer
