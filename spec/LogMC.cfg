SPECIFICATION Spec
CONSTANTS NH = 2 MDests = {1, 2} MOpts = {2} MLevels = {3, 7}
VIEW View
INVARIANTS DefLive OneFile Whole
