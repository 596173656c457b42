SPECIFICATION GraphSpec
CONSTANTS Args <- Args3 MaxArgs = 3 TheDefs <- Defs3
VIEW View
ACTION_CONSTRAINT Emit
