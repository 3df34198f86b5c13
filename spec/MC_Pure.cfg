INIT Init
NEXT Next
INVARIANT Function
INVARIANT Emit
