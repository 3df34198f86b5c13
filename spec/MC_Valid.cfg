INIT Init
NEXT Next
INVARIANTS Clean Unrelated Located Emit
