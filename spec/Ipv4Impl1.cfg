SPECIFICATION ISpec
CONSTANTS W = 3 NT = 1 MaxNet = 3 SZ = 1
PROPERTIES Refines Answer
