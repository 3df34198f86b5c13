INIT Init
NEXT Next
INVARIANTS Conserved Shape Consistent Emit
