INIT GraphInit
NEXT GraphNext
INVARIANTS Sound EmitGraph
CONSTANTS
  Area = "graph"
  Depth = 0
