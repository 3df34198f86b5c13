INIT Init
NEXT Next
INVARIANTS Idempotent Explicit Emit
