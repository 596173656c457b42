SPECIFICATION Spec
CONSTANTS NH = 1 MDests = {1} MOpts = {2} MLevels = {3, 7}
VIEW View
ACTION_CONSTRAINT Emit
