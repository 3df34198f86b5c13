INIT Init
NEXT Next
INVARIANTS Sound Emit
