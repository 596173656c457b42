SPECIFICATION ISpec
CONSTANTS NC = 1 Pieces = {0, 1, 55, 56, 63, 64, 65} MLen = 3
VIEW IView
INVARIANT Buffered
