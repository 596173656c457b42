SPECIFICATION ISpec
CONSTANTS NC = 1 Pieces = {0, 1, 8, 54, 55, 56, 63, 64, 65, 128} MLen = 4
VIEW IView
INVARIANT Buffered
