#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept so that the list stays reviewable as code)."""
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe or [],hook_needed=None)))

p("C01","Core models survive encode and decode unchanged",
"Encoding any core model (units, language, thumbnails, metadata, base materials, meshes with per-triangle properties, components, build items, metadata groups, declared and required extensions, root and child parts) and decoding the result yields an equal model. The only permitted differences are normalisations: coordinates are rounded to the configured number of decimals, transforms to three decimals, identity transforms equal absent ones, and a triangle without its own property carries its object's default. The XML that was written also means the same model to an independent reader that follows the 3MF core rules.",
["inputs","configurations"],"all core models expressible through the public types in canonical form, times float precision settings",
"the tests encode three or four fixed models and compare with the decoder of the same library, so rare combinations (a property index of 0, mixed default/explicit triangle properties, special characters, precision 0 or -1, several child parts) and errors the encoder and decoder share are never seen",
["encoder.go","decoder.go","read.go","core.go","spec/utils.go","internal/xml/printer.go","internal/xml/xml.go"],
[("element by element writers","encoder.go write*"),("element decoders with defaults","decoder.go *Decoder"),("XML printer and parser","internal/xml")],
observe=["bytes of the model parts in the package written by the encoder","model returned by decoding them"])

p("C02","Extension data survives encode and decode unchanged",
"Encoding and decoding a model that carries materials (colour groups, textures, texture groups, composites, multi-properties), slice stacks and slice references, beam lattices with beam sets, or production attributes yields equal extension data, in the root and in child parts. The only permitted differences are coordinate rounding, beam radii and caps that equal the lattice default being made explicit, and a missing second radius being taken from the first. An independent reader of the written XML that follows the extension specifications reads the same data.",
["inputs","configurations"],"all extension resources and attributes expressible through the public types in canonical form, times float precision settings",
"each extension has one fixed round-trip example; combinations of defaulted and explicit values (radius equal to the lattice radius on one end only, equal property indices, non-default enumerations, empty groups) are not sampled",
["materials/encoder.go","materials/decoder.go","slices/encoder.go","slices/decoder.go","beamlattice/encoder.go","beamlattice/decoder.go","production/encoder.go","production/decoder.go"],
[("extension marshalers","*/encoder.go Marshal3MF"),("extension decoders","*/decoder.go")],
observe=["model parts written by the encoder","decoded extension values"])

p("C03","Unknown extension content is preserved and never interpreted",
"Elements from vocabularies the library does not know, placed under the model, a resources section or a mesh, and attributes from such vocabularies on core elements that keep them, survive decode and encode: the re-encoded document is well formed and contains the same unknown elements, attributes, text and nesting, in the same order. Content inside an unknown or ignored element is never read as model data, whatever its element names, and it does not disturb the elements around it. This holds for elements nested inside themselves, for namespaces declared on the unknown element itself, and for text that needs escaping.",
["inputs"],"all well-formed unknown subtrees and attributes at the extension points of the core vocabulary",
"the tests use a handful of flat unknown elements; nesting of equal names, core names inside unknown content, several unknown elements in one place, local namespace declarations and long or escaped text are not covered",
["spec/unknown.go","spec/spec.go","read.go","decoder.go","internal/xml/printer.go","encoder.go"],
[("token collector for unknown elements","spec/unknown.go UnknownTokensDecoder"),("unknown attribute groups","spec/unknown.go UnknownAttrs, spec/spec.go NewAttrGroup"),("element dispatch","read.go decodeModelFile")],
observe=["decoded unknown tokens and attributes","re-encoded model part"])

p("C04","Decoding yields exactly the model the document describes",
"For every well-formed model document the decoded model is exactly the one its recognised elements and attributes describe: every recognised element contributes once, in document order, to the element that contains it, and a misplaced or unrecognised element contributes no resource, geometry or build item (elements of extensions directly under the model or a mesh, and elements of unknown vocabularies there or among the resources, are kept as they are). An object keeps the last mesh and the last components it contains; other containers that occur several times accumulate. Omitted optional attributes take the defaults of the format (a triangle's property and indices from its object and its first index, a beam's second radius from its first and radii and caps from the lattice, a segment's second property index from its first). The lexical form of the document (prefixes, attribute order, whitespace, quoting, character references, self-closing tags, comments, CDATA sections, processing instructions) makes no difference.",
["inputs"],"all well-formed model documents over the core and registered extension vocabularies, with every combination of present and absent optional attributes",
"the tests decode one large hand-written document per package, in one lexical form and mostly with all attributes present",
["read.go","decoder.go","materials/decoder.go","slices/decoder.go","beamlattice/decoder.go","production/decoder.go","internal/xml/xml.go","spec/utils.go"],
[("stack driven dispatch of start/end/text","read.go decodeModelFile"),("default rules","decoder.go triangleDecoder, beamlattice/decoder.go beamDecoder, slices/decoder.go polygonSegmentDecoder"),("XML tokenizer","internal/xml/xml.go")],
observe=["model returned by the decoder"])

p("C05","Malformed attribute values are reported exactly where they are",
"In strict mode decoding a document with malformed attribute values fails with the first such error in document order; in non-strict mode decoding goes on to the end, in every part of the package, yields the rest of the model, and reports every malformed value. The values checked are numbers, number lists, colours, transforms, production identifiers, units, object types, mesh resolutions, and lattice clipping and cap modes; an unknown value of any other enumeration is no error and counts as its default. Each report names the attribute, whether it is required, and the exact location of its element (the path of element names with the position of each repeated element). A document without malformed values decodes without error in both modes.",
["inputs","configurations"],"all placements and combinations of malformed values over all attributes with a checked syntax, in both modes",
"the tests place errors in a few fixed spots of one document and never combine parts, repeated parents and both modes",
["read.go","decoder.go","errors/errors.go","errors/list.go","materials/decoder.go","slices/decoder.go","beamlattice/decoder.go","production/decoder.go"],
[("error wrapping along the element stack","read.go decodeModelFile, errors.WrapIndex"),("strict / non-strict switch","read.go Decoder.Strict")],
observe=["error returned by decoding, flattened to (location, attribute, required)"])

p("C06","No input crashes or hangs the decoder or passes as success when broken",
"Decoding any byte sequence or package returns: it never panics, never recurses or loops without bound, in strict and non-strict mode. A model document that is not well formed (unclosed, mismatched or truncated elements, bad attribute syntax, unknown entities) is reported as an error rather than accepted. This includes unknown or misplaced extension elements and attributes on any element, and repeated, nested or missing model elements.",
["inputs"],"all byte sequences given as a model document, and all packages around them",
"tests only sample a few broken documents; a decoder that crashes on one odd combination of known namespace and unexpected parent passes all of them",
["read.go","decoder.go","spec/spec.go","internal/xml/xml.go","opc.go"],
[("element dispatch and stack handling","read.go decodeModelFile"),("extension lookup for attributes and elements","spec/spec.go"),("tokenizer errors","internal/xml/xml.go")],
observe=["outcome of decoding: value, error, panic, timeout"])

p("C07","Parallel loading of child parts is independent of the schedule",
"A package with several child model parts decodes to the same model, each part's content under its own path and the root part read after all children, whatever the order or overlap in which the parts are read. If some child parts fail, decoding fails with the error of a part that really failed, never with an error caused by the decoder's own cancellation of the other parts. All started work has ended when decoding returns.",
["schedules","fault_sequences"],"all interleavings of the reads of the child parts, and all assignments of failures to parts",
"the tests decode at most one or two children with whatever schedule the runtime happens to pick; error overwriting and misrouted content show only under particular interleavings",
["read.go","decoder.go"],
[("one goroutine per child part with shared cancellation","read.go processNonRootModels"),("lookup of the part's own section","decoder.go modelDecoder, core.go FindResources")],
state=[("child parts","parts found through the root part's relationships","read.go Decoder.nonRootModels")],
observe=["model and error returned under a controlled schedule of reads"])

p("C08","Cancellation stops decoding promptly and is reported as such",
"When the context given to a 3MF or STL decode is cancelled or expires while a substantial amount of input remains, decoding stops after a bounded number of further elements and returns the context's error. A decode that starts with an already cancelled context never reports success for a package. A cancelled STL import leaves the model as it was.",
["schedules","fault_sequences"],"all points of the input at which cancellation can arrive, for root and child parts and for both STL encodings",
"tests cancel at one hand-picked point; a check that is skipped, or a cancellation result that is overwritten by a later step, is not seen",
["read.go","importer/stl/binary.go","importer/stl/ascii.go","importer/stl/decoder.go"],
[("periodic context checks","read.go decodeModelFile"),("periodic context checks per faces","importer/stl/*.go")],
observe=["error returned, bytes consumed after cancellation, model content"])

p("C09","Package structure survives write and read",
"Encoding writes one part per attachment, root model and child model under its own name with its own content type, a relationship from the package to the root model, from the root model to each child, and every relationship the model lists or its resources imply, each once. Decoding such a package restores the root path, children, attachments that something is related to (name, content type, bytes) and relationships of the package, root and each child, and an attachment referenced several times is restored once. The functions that work on files (CreateWriter, OpenReader) do the same, also over an existing file. Nothing that is related is lost, duplicated or attributed to the wrong source.",
["inputs","configurations"],"all combinations of attachments, child parts, thumbnails, textures and relationships at the three levels",
"tests use fixed packages with a single attachment per level; duplicates across levels, several children, and implied relationships in children are not combined",
["opc.go","read.go","encoder.go","materials/encoder.go"],
[("part and relationship writing","encoder.go Encode, opc.go"),("attachment and relationship collection","read.go processOPC, extractCoreAttachments")],
observe=["entries, content types and relationship parts of the written package","attachments, relationships and children of the decoded model"])

p("C10","A failed write is always reported by encoding",
"If any write to the destination fails, at whatever point of the package, encoding returns an error, and likewise if the data of an attachment cannot be read. If encoding returns no error the destination has received a complete package that decodes to the model. A destination that stopped after any proper prefix of the package is never accepted by the decoder as a complete model.",
["fault_sequences","crash_points"],"all write positions at which the destination can fail or stop, including short writes, and all models",
"tests only make one mocked step fail at a time in the in-memory writer; failures inside buffered flushes and the final directory are not enumerated",
["encoder.go","opc.go"],
[("error propagation through part writers and Close","encoder.go Encode, writeAttachements, writeChildModels"),("flush of the buffered XML writer","encoder.go xmlEncoder.Flush")],
observe=["error returned by encoding per failing write position","result of decoding every prefix"])

p("C11","A failed or corrupt read is never reported as success",
"If reading any part of the package that decoding uses fails, is cut short or returns data that does not match its checksum (the directory, relationships, content types, the root model, a child model or an attachment), decoding returns an error. It never returns success with content missing because a read failed. A package without a root model, or whose root relationship points to a missing part, is reported as an error.",
["fault_sequences","crash_points"],"all parts and offsets at which a read can fail or data be corrupted",
"the tests mock one failing open; a read that fails half way through an attachment or at the end of a child part is not exercised",
["read.go","opc.go","internal/xml/xml.go"],
[("error propagation from part readers","read.go processOPC, readChildModel, processRootModel"),("attachment copy","read.go addAttachment, copyFile")],
observe=["error returned per failing part and offset"])

p("C12","Core validation reports exactly the violations a model contains",
"Validating a model reports every violation of the core rules it checks (package relationships, part names, required extensions, metadata names and duplicates, resource ids, property references and index ranges, mesh sizes and triangle indices, object content, component and build item references), each at its exact location and part, and reports nothing else. A model that satisfies all the rules validates without error. The verdict does not depend on unrelated content of the model.",
["inputs"],"all models, over all combinations of valid and violating elements in root and child parts",
"the tests check a few hand-made models against fixed lists; boundary indices, child parts combined with each rule and rule interactions are not enumerated",
["validate.go","core.go","errors/errors.go","errors/list.go"],
[("rule checks per element","validate.go"),("location wrapping","errors.Wrap, WrapIndex, WrapPath")],
observe=["list of reported errors as (part, location, rule)"])

p("C13","Materials validation reports exactly the violations present",
"Validating colour groups, textures, texture groups, composite materials and multi-properties reports every violated rule of the materials extension (missing ids and fields, empty groups, dangling or wrongly typed references, missing texture parts, layer order, colour group and multi-property restrictions, blend method count, every index outside the group it indexes) at its location, and nothing else. References are resolved within the part of the resource. Resources that satisfy the rules produce no error.",
["inputs"],"all combinations of materials resources and references, with indices on both sides of every bound",
"tests use indices far out of range and one model; boundary indices and layers of each kind are not covered",
["materials/validate.go"],[("per resource checks","materials/validate.go")],
observe=["reported errors as (part, location, rule)"])

p("C14","Slice validation reports exactly the violations present",
"Validating slice stacks and objects that use them reports every violated slice rule (slices or references but not both, reference targets and nesting, increasing heights within and across stacks, minimum vertices, polygons and segments, closed polygons for solid objects, planar transforms on every build item and component along a chain of references from the build to the object, required extension for low resolution) at its location, and nothing else. Transforms are judged on the build items and components that actually refer to the object, in the part they refer to. Validation ends even when components refer to each other in a cycle.",
["inputs"],"all combinations of slice stacks, references, objects, components and build items across parts",
"tests have one model with hand-picked violations; part resolution and component nesting below other parts are not covered",
["slices/validate.go"],[("stack and reference checks","slices/validate.go validateSlices, validateRefs"),("transform search","slices/validate.go validateBuildTransforms")],
observe=["reported errors as (part, location, rule)"])

p("C15","Beam lattice validation reports exactly the violations present",
"Validating a mesh with a beam lattice reports every violated rule (object type, missing radius or minimum length, clipping mesh requirements, clipping and representation meshes that are the object itself, come later or are unsuitable, beams with equal or out-of-range vertices, unexplained second radius, beam set references to beams that do not exist) at its location, and nothing else. Beam set references are judged against the beams of the lattice. Lattices that satisfy the rules produce no error.",
["inputs"],"all lattices and surrounding objects, with references on both sides of every bound",
"the tests check one object per rule; a bound compared with the wrong collection goes unnoticed with the sampled sizes",
["beamlattice/validate.go"],[("lattice checks","beamlattice/validate.go validateObject, validateRefMesh")],
observe=["reported errors as (part, location, rule)"])

p("C16","Production rules and identifiers: complete, exact, preserved",
"Validating a model with the production extension reports every missing or invalid identifier on build, items, objects and components, and every cross-part reference outside the root, at its location and nothing else. Filling in missing identifiers gives every build, item, object and component in every part a valid identifier, changes none that was present, and leaves nothing for the production rules about identifiers to report. Generated identifiers are distinct valid version 4 identifiers.",
["inputs","histories"],"all assignments of present, empty, invalid and absent identifiers to all elements in all parts, and repeated filling",
"tests fill one model where everything is absent or one where everything is present",
["production/production.go","production/validate.go","uuid/uuid.go"],
[("identifier filling","production/production.go SetMissingUUIDs"),("identifier rules","production/validate.go")],
observe=["identifiers before and after filling","reported errors"])

p("C17","Component graphs of any shape terminate and are judged correctly",
"For every component graph, including shared sub-components, references across parts, dangling references, self references and cycles of any length, validating the model and computing its bounding box terminate. An object that lists itself as a component is reported as recursive at that component, and dangling references are reported as missing, each resolved in the part the reference names or else the part of the referring object. Graphs without such defects are not reported.",
["inputs"],"all directed component graphs over small numbers of objects and parts",
"tests contain one self reference and one cycle behind it; longer cycles and cycles through other parts never occur",
["core.go","validate.go","slices/validate.go"],
[("recursive traversal of components","core.go Object.boundingBox, slices/validate.go validateObjectTransforms"),("recursion check","validate.go validateComponents")],
observe=["termination and reported errors"])

p("C18","Bounding boxes are exact",
"The bounding box of a mesh is the smallest axis-aligned box containing all its vertices, and the bounding box of a model is the smallest box containing the transformed box of every build item, built up through its components with their transforms and in the part each reference names, for component graphs without cycles. Build items or components that refer to missing or empty objects do not affect it, and a model with no geometry has the zero box. The result does not depend on the order in which the items are processed.",
["inputs","schedules"],"all placements of meshes through nested components and items with affine transforms, including rotations, reflections and shears",
"tests use identity, scaling and translation only, where transforming two corners happens to be enough",
["core.go","math.go"],
[("recursive box union","core.go boundingBox"),("transforming a box","math.go MulBox"),("parallel reduction over items","core.go Model.BoundingBox")],
observe=["returned box"])

p("C19","Mesh coherency is decided exactly",
"Coherency checking accepts a mesh exactly when it has at least three vertices and four triangles and every edge is shared by exactly two triangles that traverse it in opposite directions. Checking a model reports exactly the incoherent meshes of solid objects, at their location and part, in root and child parts. The verdict does not depend on vertex numbering, triangle order or starting vertex.",
["inputs"],"all meshes: every multiset of oriented triangles over small vertex sets, and larger closed surfaces with any local defect",
"the tests use one cube and single defects of it; edges used three or four times, doubled triangles or flipped pairs that cancel out in sums are not enumerated",
["validate.go","math.go"],
[("edge pairing","math.go pairMatch"),("edge counting","validate.go Mesh.ValidateCoherency")],
observe=["returned error"])

p("C20","Mesh building merges equal vertices and nothing else",
"Building a mesh with vertex merging enabled returns, for every added position, an index whose stored vertex is that position up to a few millionths of a unit (the precision of the coordinates where that is coarser), gives equal positions the same index, and never merges positions further apart than that, whatever their magnitude or order. With merging disabled every addition creates a new vertex. Vertices already present are never moved or removed.",
["histories","inputs"],"all sequences of additions over near, equal, far and large coordinates, with merging on or off",
"the tests add four small vertices; large coordinates and long sequences with near duplicates are not explored",
["core.go","math.go"],
[("vertex index by quantised position","math.go vectorTree, newvec3IFromVec3"),("vertex addition","core.go MeshBuilder.AddVertex")],
observe=["returned indices and stored vertices after each addition"])

p("C21","STL import reproduces the facets or fails cleanly",
"Importing an STL file, binary or text, adds one object whose triangles have, in order, the corner positions of the file's facets (up to the few millionths of a unit within which vertices are merged), with equal corners shared, plus one build item for it under an unused id, and leaves everything else in the model as it was. Both encodings of the same facets give the same mesh. A truncated or unreadable file is reported as an error, without hanging, and leaves the model unchanged.",
["inputs","fault_sequences"],"all facet lists in both encodings, all truncation points and read failures, and all prior model contents",
"tests import one or two triangles into an empty model; misdetected encodings, truncation at every point, failing readers and facet counts that exceed the data are not explored",
["importer/stl/decoder.go","importer/stl/binary.go","importer/stl/ascii.go"],
[("format detection","importer/stl/decoder.go isASCII"),("facet readers","importer/stl/binary.go, ascii.go"),("vertex sharing","core.go MeshBuilder")],
observe=["objects, items and mesh after import","returned error"])

p("C22","Resource lookup, ids and traversal are consistent",
"The unused id offered for a part is positive, is used by no resource of that part, and is the lowest such id, whatever ids (duplicates, gaps, zero) are present. Looking up an asset or object by part and id returns one that has that id in exactly that part, the root being addressable by its own path or by the empty path, or reports absence. Traversals visit every asset or object exactly once, children in lexical order and then the root, and stop at the first error, which they return.",
["inputs"],"all assignments of ids, including duplicates, zero and gaps, to resources of root and child parts",
"tests use a few fixed id lists",
["core.go"],
[("id search","core.go UnusedID"),("lookup","core.go FindResources, FindAsset, FindObject"),("ordered traversal","core.go WalkAssets, WalkObjects")],
observe=["returned ids, resources and visit sequence"])

p("C23","Identifier syntax is accepted exactly in its four forms",
"An identifier is accepted exactly when it is 36 characters of hyphenated hexadecimal, the same after a case-insensitive urn:uuid: prefix, the same enclosed in braces, or 32 hexadecimal digits; everything else is rejected without panicking. Generated identifiers are accepted, in the first form, with version 4 and the standard variant for every sequence of random bytes. This decides which identifiers decoding and validation accept.",
["inputs"],"all strings, and all random byte sequences",
"tests sample a dozen strings; single-character deviations at each position are not enumerated",
["uuid/uuid.go"],[("syntax check","uuid/uuid.go validateUUID"),("generation","uuid/uuid.go New")],
observe=["accept or reject"])

p("C24","Reading operations are pure and repeatable",
"Validating, checking coherency, computing bounding boxes and encoding leave the model unchanged (the streams of attachments, which encoding reads, aside), and repeating them, in any order or from several goroutines at once, gives the same answers. Decoding the same package again, with the same decoder or another, into a fresh model gives an equal model. One model's results never depend on what was decoded, encoded or validated before.",
["histories","schedules"],"all sequences and interleavings of these operations on the same model or package",
"the tests call each operation once on a fresh value",
["core.go","validate.go","encoder.go","read.go","errors/errors.go"],
[("shared error values and location wrapping","errors/errors.go"),("decoder state between runs","read.go Decoder.nonRootModels"),("parallel reductions","core.go BoundingBox, validate.go ValidateCoherency")],
observe=["model projection before and after","answers of repeated operations"])

p("C25","Affine transforms compose and apply consistently",
"Applying the product of two transforms to a point equals applying them one after the other in the format's row-vector convention, the identity changes nothing, translation adds its offset after the transform, and planar application agrees with spatial application in the plane. A transform written to text and parsed back has the same twelve entries, rounded to three decimals; text with any other number of entries or a malformed entry is rejected. A transform applied to a box gives the smallest box around its eight transformed corners.",
["inputs"],"all affine transforms and points over exactly representable values",
"the tests compare a few products with constants; index slips in rarely used entries (shear, projection column) pass",
["math.go","spec/utils.go"],
[("matrix products","math.go Matrix.Mul, Mul3D, Mul2D, MulBox, Translate"),("text form","math.go Matrix.String, spec/utils.go ParseMatrix")],
observe=["returned matrices, points and boxes"])

p("C26","Error reports keep every error once with its full location",
"Combining errors keeps every non-nil error exactly once in order, flattening nested collections, and combining nothing yields no error. Adding location levels to an error or collection prefixes the level to the location of every member and changes nothing else, and the printed location lists the levels from outermost to innermost with the position of indexed levels. The original error remains reachable by unwrapping.",
["histories","inputs"],"all sequences of combining and wrapping operations",
"tests combine two or three errors in fixed shapes",
["errors/list.go","errors/errors.go"],
[("collection building","errors/list.go Append"),("location levels","errors/errors.go Wrap, WrapIndex, WrapPath, XPath")],
observe=["members, locations and texts of the resulting error"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['title']
print(len(P))
