INIT Init
NEXT Next
INVARIANTS Compose Unit Shifted Inside Emit
