SPECIFICATION Spec
CONSTANTS Elems = {0,1,2} N = 3
VIEW View
INVARIANT TypeOK
PROPERTIES EqualIsMutualSubset OperandsKept IntoEmpty Partition
