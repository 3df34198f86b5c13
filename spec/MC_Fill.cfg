INIT FillInit
NEXT FillNext
INVARIANTS Filled EmitFill
CONSTANTS
  Area = "prod"
  Depth = 0
