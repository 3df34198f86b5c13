INIT Init
NEXT Next
VIEW View
INVARIANTS OneForm Closed Emit
