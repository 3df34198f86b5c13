------------------------------- MODULE MC_Stl -------------------------------
(* Every short list of facets over NP positions, written in both encodings, and cut after every byte.     *)
EXTENDS Stl, Json
CONSTANTS Depth, NP
VARIABLES corners

Num == <<"0", "1.5", "-2e1">>
Bits == <<<<0, 0, 0, 0>>, <<0, 0, 192, 63>>, <<0, 0, 160, 193>>>>
Words == [w \in {Num[i] : i \in 1..3} \cup {"-2E1"} |-> IF w = "-2E1" THEN 3 ELSE CHOOSE i \in 1..3 : Num[i] = w]
Floats == [w \in {Key(Bits[i], 1) : i \in 1..3} |-> CHOOSE i \in 1..3 : Key(Bits[i], 1) = w]
Position(p) == <<p, 1, IF p = 3 THEN 2 ELSE 3>>

Code(ch) == 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch
Codes == TLCEval([ch \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> Code(ch)])
Bytes(s) == [i \in 1..Len(s) |-> Codes[SubSeq(s, i, i)]]
Upper(bs) == [i \in DOMAIN bs |-> IF bs[i] \in 97..122 THEN bs[i] - 32 ELSE bs[i]]

NFacets == Len(corners) \div 3
VertexLine(n) == Bytes("   vertex " \o Num[Position(corners[n])[1]] \o " " \o Num[Position(corners[n])[2]] \o "  " \o Num[Position(corners[n])[3]]) \o <<10>>
FacetLines(n) == Bytes(" facet normal 0 0 1") \o <<10>> \o Bytes("  outer loop") \o <<13, 10>> \o
  VertexLine(3 * n - 2) \o Upper(VertexLine(3 * n - 1)) \o VertexLine(3 * n) \o <<9>> \o Bytes("endloop") \o <<10>> \o Bytes(" endfacet ") \o <<10, 10>>
Text(end) == Bytes("Solid a") \o <<10>> \o FoldLeft(LAMBDA a, n : a \o FacetLines(n), <<>>, [n \in 1..NFacets |-> n]) \o Bytes("endsolid") \o end

Floats3(p) == Bits[p[1]] \o Bits[p[2]] \o Bits[p[3]]
FacetBytes(n) == [i \in 1..12 |-> 255] \o Floats3(Position(corners[3 * n - 2])) \o Floats3(Position(corners[3 * n - 1])) \o Floats3(Position(corners[3 * n])) \o <<7, 0>>
Binary(count) == Bytes("solid b") \o [i \in 1..73 |-> 32] \o <<count, 0, 0, 0>> \o
  FoldLeft(LAMBDA a, n : a \o FacetBytes(n), <<>>, [n \in 1..NFacets |-> n])

Cut(f, k) == SubSeq(f, 1, k)
R(f) == Read(f, Words, Floats)
Where == [n \in DOMAIN corners |-> Position(corners[n])]

Init == corners = <<>>
Next == /\ NFacets < Depth
        /\ \E a, b, d \in 1..NP : corners' = corners \o <<a, b, d>>

(* Both encodings of the facets are read as these facets; what is cut cannot be read.                     *)
RoundTrip == /\ R(Text(<<10>>)) = [text |-> TRUE, corners |-> Where, verdict |-> "good"]
             /\ R(Text(<<>>)) = R(Text(<<10>>))
             /\ R(Binary(NFacets)) = [text |-> FALSE, corners |-> Where, verdict |-> "good"]
CutText == LET f == Text(<<>>) IN \A k \in 0..(Len(f) - 1) : R(Cut(f, k)).verdict = "bad"
CutBinary == LET f == Binary(NFacets) IN \A k \in 0..(Len(f) - 1) : R(Cut(f, k)).verdict = "bad"
MoreFacets == R(Binary(NFacets + 1)).verdict = "bad"
FewerFacets == NFacets > 0 => R(Binary(NFacets - 1)) = [text |-> FALSE, corners |-> SubSeq(Where, 1, Len(Where) - 3), verdict |-> "good"]

Emit == PrintT("CASE " \o ToJson([corners |-> corners, text |-> Text(<<>>), binary |-> Binary(NFacets), more |-> Binary(NFacets + 1)]))
=============================================================================
