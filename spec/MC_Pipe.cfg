INIT Init
NEXT Next
INVARIANT Reported
INVARIANT Complete
INVARIANT Safe
INVARIANT Emit
