BOUND = "Exhaustive within the stated bounds and sampled beyond them; trusts TLC, the Go harness that runs the public API, and the Python that carries JSON between them. "
NOTE = {
 "C01": ("every small combination of core model parts enumerated by TLC, encoded and replayed; random models encoded, both the written XML (tokenized independently) and its decoding judged by TLC against the specification", BOUND + "Transforms are compared to three decimals; values of empty metadata groups and paths with spaces are out of scope."),
 "C02": ("every small combination of extension parts enumerated by TLC, encoded and replayed; random models with all extensions encoded, both the written XML and its decoding judged by TLC", BOUND + "Coordinates are compared at the precision asked for."),
 "C03": ("random documents rich in unknown, nested and misplaced content decoded and encoded again, both results judged by TLC against the specification", BOUND + "White space between tags of unknown elements is not kept."),
 "C04": ("streaming decoder machine compared by TLC with the denotation of every small document, each replayed; large random documents in lexical variants judged by TLC", BOUND + "Documents are namespace-well-formed, without duplicate attributes; line ends inside attribute values are written as references."),
 "C05": ("every checked attribute malformed alone and in pairs, enumerated by TLC from the rules of the specification, and random documents, decoded and judged by TLC", BOUND + "Numbers out of range are judged for being reported only."),
 "C06": ("a machine that decides well-formedness, explored by TLC over every sequence of fragments at several places of a document, and every element inside every other with any attribute, all replayed; damaged documents, their prefixes and very deep ones judged by TLC", BOUND + "Constraints that the decoder may or may not check (repeated attributes, undeclared prefixes, text around the root, ...) are not judged; packages damaged at random only have to come to an end."),
 "C07": ("the loader as a state machine, every interleaving of its steps with every way its parts can end checked by TLC (invariants and termination); the schedules replayed through gated reads, the recorded events and results validated as traces of the machine, some under the race detector", BOUND + "Up to three children exhaustively, six by simulation; what is read is controlled, not the scheduler of Go inside a read."),
 "C08": ("polling tasks as a state machine checked by TLC (bounded work after the end, right result, termination); every place the context can end in replayed by position of reading, the results judged by TLC", BOUND + "A substantial amount, and a bounded number, is 10000 elements or facets."),
 "C24": ("all short histories of operations, one after another and at the same time, enumerated by TLC and replayed, the answers and models judged by TLC against those of processes of their own; concurrent ones under the race detector", BOUND + "Concurrent encoding is for models without attachments, whose streams encoding reads."),
 "C18": ("all small component graphs enumerated by TLC and replayed; larger random models judged by TLC", BOUND + "Coordinates and transforms are small integers, exact in float32; models with component cycles are judged for termination only."),
 "C19": ("every multiset of oriented triangles over few vertices enumerated by TLC and replayed; damaged surfaces and models judged by TLC", BOUND + "Triangles have three different vertices."),
 "C20": ("all short addition histories enumerated by TLC and replayed; long ones at every magnitude validated as traces", BOUND + "'A few millionths' is 4e-6 units."),
 "C21": ("every list of up to two facets over few positions written by TLC in both encodings and cut after every byte, and replayed; random files, damaged, cut, with wrong counts, read through failing readers into models with content, judged byte by byte by TLC", BOUND + "Coordinates are finite decimal numbers; lines are shorter than 64 kB."),
 "C22": ("all small id assignments enumerated by TLC and replayed; larger random ones validated as traces", BOUND),
 "C23": ("every string within one (thorough: two) edits of the accepted forms enumerated by TLC and replayed; generation judged for every byte value", BOUND),
 "C25": ("all pairs of near-elementary matrices enumerated by TLC and replayed; random matrices and texts judged by TLC", BOUND + "Entries are exactly representable."),
 "C26": ("all short programs of error operations enumerated by TLC and replayed; long ones judged by TLC", BOUND),
 "C09": ("all small models written and all small packages read, enumerated by TLC, with round trip as an invariant of the specification; what the code writes is read independently and judged by TLC, packages written independently are decoded and compared; larger random ones likewise", BOUND + "A package has one relationship to a root model; part names are ASCII; content types are in normal form; core properties parts are out of scope (known finding)."),
 "C10": ("every way a destination can answer the writes of a buffered encoder enumerated by TLC as plans (with the design's own invariants) and replayed; failures of attachments at every edge and all proper prefixes of packages likewise, judged by TLC", BOUND + "A failing write writes none, half or all of its bytes."),
 "C11": ("reads failing, ending early or returning changed bytes at every position of small packages (sampled positions of large ones), the outcomes judged by TLC; packages without a usable root enumerated by TLC and replayed", BOUND + "Names and positions in the zip directory have no checksum: damage there is only required to come to an end; relationships to child models that are not in the package are ignored."),
 "C12": ("every core model within two edits of one without violations enumerated by TLC and validated by the real code; random models in several parts judged by TLC", BOUND + "Violations are compared as a multiset of location, part and rule. Names are ASCII."),
 "C13": ("every set of materials within two edits of one without violations enumerated by TLC and validated by the real code; random ones judged by TLC", BOUND + "Violations are compared as a multiset of location, part and rule."),
 "C14": ("every set of slice stacks, objects and references within two edits of one without violations enumerated by TLC and validated by the real code; random ones judged by TLC", BOUND + "Violations are compared as a multiset of location, part and rule."),
 "C15": ("every lattice and its surroundings within two edits of one without violations enumerated by TLC and validated by the real code; random ones judged by TLC", BOUND + "Violations are compared as a multiset of location, part and rule."),
 "C16": ("every identifier and path within two edits of a model without violations, and every assignment of absent, empty, valid and invalid identifiers to be filled in, enumerated by TLC and replayed; random ones judged by TLC", BOUND),
 "C17": ("every component graph over three objects in two parts enumerated by TLC, validated and measured; chains, cycles, ladders and dense graphs judged by TLC", BOUND + "Termination is within 20 seconds."),
}
