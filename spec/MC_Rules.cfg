INIT Init
NEXT Next
INVARIANTS Sound Known1 Emit
