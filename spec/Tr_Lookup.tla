------------------------------ MODULE Tr_Lookup ------------------------------
EXTENDS Lookup, Walk
JudgeLookup(c) == IF OK(c.case, c.out) THEN [ok |-> TRUE] ELSE [ok |-> FALSE, exp |-> Expected(c.case)]
==============================================================================
