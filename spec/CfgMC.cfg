SPECIFICATION Spec
CONSTANTS Keys <- TheKeys Texts <- TheTexts MaxSets = 0
VIEW View
INVARIANTS Acyclic OneType RefFollows
PROPERTIES SetOnly
