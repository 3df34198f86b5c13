INIT Init
NEXT Next
INVARIANTS Balanced Modes Agree Emit
