SPECIFICATION Spec
CONSTANTS MNames <- MNamesSmall MProgs <- MProgsSmall MEnvs <- MEnvsSmall MCwds <- MCwdsSmall MFiles <- MFilesSmall
INVARIANT Laws
PROPERTY Steps
VIEW View
CHECK_DEADLOCK FALSE
