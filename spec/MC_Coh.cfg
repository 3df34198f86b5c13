INIT Init
NEXT Next
INVARIANTS Symmetric Even Same Emit
