SPECIFICATION Spec
INVARIANT Bounded
INVARIANT Reported
INVARIANT Never
INVARIANT Emit
PROPERTY Returns
