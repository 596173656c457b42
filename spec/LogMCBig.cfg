SPECIFICATION Spec
CONSTANTS NH = 2 MDests = {0, 1, 2} MOpts = {0, 2} MLevels = {3, 7}
VIEW View
INVARIANTS DefLive OneFile Whole
