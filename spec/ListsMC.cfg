SPECIFICATION Spec
CONSTANTS Elems = {1,2,3,4} N = 2
VIEW View
INVARIANT NoDup
PROPERTIES Lifo Fifo Conserved
