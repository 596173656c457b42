SPECIFICATION Spec
CONSTANTS MNames = {} MProgs <- MProgsSmall MEnvs <- MEnvsSmall MCwds <- MCwdsSmall MFiles <- MFilesSmall
ACTION_CONSTRAINT Emit
VIEW GView
CHECK_DEADLOCK FALSE
