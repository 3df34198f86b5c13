INIT Init
NEXT Next
INVARIANTS Fresh Emit
