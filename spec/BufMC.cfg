SPECIFICATION Spec
CONSTANTS NB = 2 Bytes = {1,2} MaxLen = 3 MaxRoom = 3
VIEW View
CONSTRAINT Bound
INVARIANTS RoomSane
PROPERTIES Fifo Others FailKeeps Conserve
