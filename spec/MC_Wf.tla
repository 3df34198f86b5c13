------------------------------- MODULE MC_Wf -------------------------------
(* Every sequence of N fragments at several places of a model document, which then ends or is completed.  *)
EXTENDS Wf
CONSTANT N, Full
VARIABLES place, doc, s, n

Core == "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"
Root == "<model xmlns=\"" \o Core \o "\" xmlns:p='http://p.org' xmlns:q='http://q.org'>"
Places == <<
  [a |-> "", z |-> ""],
  [a |-> Root, z |-> "</model>"],
  [a |-> Root \o "<resources><object id='1'><mesh><vertices>", z |-> "</vertices></mesh></object></resources></model>"],
  [a |-> Root \o "<metadata name='a'>", z |-> "</metadata></model>"],
  [a |-> Root \o "<thing xmlns='http://x.org/one'>", z |-> "</thing></model>"],
  [a |-> Root \o "<bogus>", z |-> "</bogus></model>"],
  [a |-> "<model xmlns='" \o Core \o "' ", z |-> "></model>"],
  [a |-> Root \o "<build><item objectid=\"1", z |-> "\"/></build></model>"],
  [a |-> Root, z |-> ""] >>
Few == <<"</q:a>", "<p:a>", "<", ">", "/>", "</a>", "<a>", "<a", " k=\"v\"", "&", "&lt;", "<!--", "-->", "<![CDATA[", "]]>", "t">>
All == Few \o <<"</p:a>", "/", "</", "=", "\"", "'", " ", "&#65;", "&#x", ";", "-", "<?p", "?>", "<b/>", "#", "1", "&foo;", "!", "a", "<b>", "</b>", "k='v'", "?", "&#;", "]", "--">>
Frags == IF Full THEN All ELSE Few

Init == \E p \in DOMAIN Places : place = p /\ doc = Places[p].a /\ s = Feed(Begin, doc) /\ n = 0
Next == n < N /\ \E f \in DOMAIN Frags : doc' = doc \o Frags[f] /\ s' = Feed(s, Frags[f]) /\ n' = n + 1 /\ UNCHANGED place

End == Feed(s, Places[place].z)
(* What has been rejected is not mended by what follows, and an open element is not the end.               *)
Sound == /\ s.m = "bad" => Verdict(End) = "reject"
         /\ Verdict(s) = "ok" => s.st = <<>>
         /\ n = 0 /\ place \in 2..8 => (Verdict(s) = "reject" /\ Verdict(End) = "ok")
Emit == PrintT("CASE " \o ToJson([doc |-> doc, exp |-> Verdict(s)]))
        /\ (IF Places[place].z = "" THEN TRUE ELSE PrintT("CASE " \o ToJson([doc |-> doc \o Places[place].z, exp |-> Verdict(End)])))
=============================================================================
