INIT Init
NEXT Next
INVARIANT Writes
INVARIANT RoundTrip
INVARIANT Emit
