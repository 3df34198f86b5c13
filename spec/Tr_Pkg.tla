------------------------------- MODULE Tr_Pkg -------------------------------
(* Judges what became of a model (kind "enc": out.err, out.pkg, out.bad, out.dec) or of a package         *)
(* (kind "dec": out.dec).                                                                                 *)
EXTENDS Package, Walk

View(d) == IF d.err # "" THEN Failed
           ELSE [err |-> "", path |-> d.path, tag |-> d.tag, rrels |-> d.rrels, rels |-> d.rels,
                 childs |-> Range(d.childs), atts |-> Range(d.atts), natts |-> Len(d.atts), nchilds |-> Len(d.childs)]

JudgePkg(c) ==
  IF c.case.op = "pkgdec" THEN
    LET want == Unpack(c.case.pkg) IN
    IF View(c.out.dec) = want THEN [ok |-> TRUE] ELSE [ok |-> FALSE, exp |-> want]
  ELSE
    LET m == c.case.pm
        o == c.out
        bad == IF ~Encodable(m) THEN {"written" : x \in {1} \ (IF o.err = "" THEN {} ELSE {1})}
               ELSE IF o.err # "" THEN {"not written"}
               ELSE {"ill-formed: " \o o.bad[i] : i \in DOMAIN o.bad}
                    \cup (IF Len(o.pkg.parts) = Len(PartsOf(m)) /\ Range(o.pkg.parts) = Range(PartsOf(m)) THEN {} ELSE {"parts"})
                    \cup {"relationships of " \o s.src : s \in {s \in Range(Sources(m)) : ~RelsOk(o.pkg, s)}}
                    \cup (IF PackageOf(o.pkg, m) THEN {} ELSE {"package"})
                    \cup (IF View(o.dec) = Unpack(o.pkg) THEN {} ELSE {"read"})
                    \cup (IF Restores(View(o.dec), m) THEN {} ELSE {"restored"})
    IN IF bad = {} THEN [ok |-> TRUE]
       ELSE [ok |-> FALSE, exp |-> [problems |-> bad, package |-> Pack(m)]]
=============================================================================
