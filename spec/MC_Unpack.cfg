INIT Init
NEXT Next
INVARIANT Consistent
INVARIANT Emit
