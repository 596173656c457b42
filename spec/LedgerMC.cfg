SPECIFICATION Spec
CONSTANTS N = 2 Sizes <- Holds MaxHist = 2 Kinds = {"log", "lock", "heap", "list", "group"} CallNames = {"sub"}
VIEW View
INVARIANTS NoneHeld CallersOwn AllGone
PROPERTIES OnlyIts GivesBack
