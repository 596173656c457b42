SPECIFICATION Spec
CONSTANTS Keys <- TheKeys Texts <- FewTexts MaxSets = 0
VIEW View
ACTION_CONSTRAINT Emit
