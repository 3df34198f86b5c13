------------------------------ MODULE Tr_Errs ------------------------------
EXTENDS Errs, Walk
JudgeErrs(c) == LET st == Exec(c.case.prog, <<>>)
                    e == [i \in DOMAIN st |-> Obs(st[i])]
                IN [ok |-> e = c.out.st, exp |-> e]
=============================================================================
