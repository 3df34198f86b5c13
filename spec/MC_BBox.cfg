INIT Init
NEXT Next
INVARIANTS Ordered Emit
