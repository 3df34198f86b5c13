INIT Init
NEXT Next
INVARIANTS OneIndex Faithful Kept Emit
PROPERTY Stable
