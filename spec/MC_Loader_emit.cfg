INIT Init
NEXT EagerNext
INVARIANT NeverOwnCancel
INVARIANT ReallyFailed
INVARIANT AllEnded
INVARIANT RootLast
INVARIANT OkMeansOk
INVARIANT Independent
INVARIANT Allowed
INVARIANT Emit
