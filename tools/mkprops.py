import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S="src/"
add("C01","Saving as MSH 4.1 and loading back loses nothing",
 "For every consistent mesh description whose numbers are finite, saving it as MSH 4.1 (ASCII or binary) and loading the result yields an identical description: header, node blocks including parametric coordinates, element blocks, entities with their physical-group and boundary tags, physical groups, and all node/element/element-node data. Every number comes back bit for bit, and every list keeps its order and multiplicity. A description with zero nodes (or zero elements) comes back with an empty node (or element) part.",
 ["inputs","configurations"],"all consistent mesh descriptions x {ASCII, binary} x {default build, NanoSpline build}",
 "The tests round-trip about ten hand-written meshes whose coordinates are 0, 1 or 0.1-like, never with entities compared, never parametric, never with several fields per entry.",
 [S+"save_msh.cpp",S+"save_msh_nodes.cpp",S+"save_msh_elements.cpp",S+"save_msh_entities.cpp",S+"save_msh_data.cpp",S+"save_msh_physical_groups.cpp",S+"load_msh.cpp",S+"load_msh_nodes.cpp",S+"load_msh_elements.cpp",S+"load_msh_entities.cpp",S+"load_msh_data.cpp",S+"load_msh_physical_groups.cpp"],
 [("section writers, one per section","src/save_msh*.cpp v41 namespaces"),("section readers, one per section","src/load_msh*.cpp v41 namespaces")],
 [("MshSpec","the mesh description","include/mshio/MshSpec.h")],["return value of load_msh"])
add("C02","Saving as MSH 2.2 and loading back keeps mesh and data",
 "For every consistent mesh description with finite numbers, saving it as MSH 2.2 (ASCII or binary) and loading the result yields every node (tag and x,y,z, in order), every element (tag, type, entity tag and node list, in order), the physical group names and all post-processing data, each exactly once and with every number bit for bit. The node and element counts and tag ranges of the result describe exactly that content, and consistent results of such a load pass validation. (Parametric coordinates and entity records have no place in a saved 2.2 file and do not come back.)",
 ["inputs","configurations"],"all consistent mesh descriptions x {ASCII, binary} x {default build, NanoSpline build}; several element blocks, types and entities per mesh",
 "The tests round-trip through 2.2 only meshes with one or two blocks whose blocks survive the regrouping unchanged and whose tags are 1..N.",
 [S+"save_msh_nodes.cpp",S+"save_msh_elements.cpp",S+"load_msh_nodes.cpp",S+"load_msh_elements.cpp",S+"load_msh_post_process.cpp",S+"save_msh_data.cpp",S+"load_msh_data.cpp"],
 [("2.2 writers flatten blocks","src/save_msh_nodes.cpp, src/save_msh_elements.cpp v22"),("2.2 readers plus regrouping","src/load_msh_elements.cpp v22, src/load_msh_post_process.cpp")],
 [("Nodes/Elements","block lists and summary fields","include/mshio/MshSpec.h")],["return value of load_msh"])
add("C03","Saved files have the exact MSH layout",
 "Whatever consistent mesh description is saved, the bytes written are a well-formed MSH file of the requested version and encoding: the sections present are exactly those with content, and each holds its fields in the order, number and (in binary) width and little-endian encoding that the MSH 4.1 or 2.2 format prescribes. An independent reader of the format recovers from them exactly the saved content; nothing is missing, duplicated or added.",
 ["inputs","configurations"],"all consistent mesh descriptions x {4.1, 2.2} x {ASCII, binary} x {default, NanoSpline build}",
 "The tests only ever read saved files back with this library's own reader, so a mistake made in both directions, or a file other tools cannot read, passes.",
 [S+"save_msh.cpp",S+"save_msh_format.cpp",S+"save_msh_nodes.cpp",S+"save_msh_elements.cpp",S+"save_msh_entities.cpp",S+"save_msh_data.cpp",S+"save_msh_physical_groups.cpp",S+"save_msh_curves.cpp",S+"save_msh_patches.cpp"],
 [("section order and presence conditions","src/save_msh.cpp"),("field order and widths","src/save_msh_*.cpp")],
 [],["bytes written by save_msh"])
add("C04","MSH 4.1 files load to exactly what they state",
 "Loading any well-formed MSH 4.1 file (ASCII or binary), whoever wrote it, yields a description that holds exactly the header, node blocks, element blocks, entities, physical groups and post-processing data the file states, in file order, with every number bit for bit and all 64 bits of every node and element tag. A section absent from the file leaves that part of the description empty.",
 ["inputs"],"all well-formed 4.1 files, with any subset of the supported sections, in both encodings",
 "Two checked-in 4.1 files are loaded and only two counts are compared.",
 [S+"load_msh.cpp",S+"load_msh_format.cpp",S+"load_msh_nodes.cpp",S+"load_msh_elements.cpp",S+"load_msh_entities.cpp",S+"load_msh_data.cpp",S+"load_msh_physical_groups.cpp",S+"io_utils.cpp"],
 [("section dispatch","src/load_msh.cpp"),("v41 readers","src/load_msh_*.cpp")],
 [],["return value of load_msh"])
add("C05","MSH 2.2 files load complete, in order and correctly grouped",
 "Loading any well-formed MSH 2.2 file (ASCII or binary, any number of tags per element, any grouping of elements in binary headers) keeps every node and element exactly once in file order; elements form maximal consecutive blocks of equal dimension, entity tag and type, and nodes form maximal consecutive blocks of equal entity, where a node belongs to the entity of the last element that uses it (dimension 0, tag 0 if none does). Block sizes, totals and smallest/largest tags describe exactly that content, also for empty sections, and the result passes validation when its references resolve.",
 ["inputs"],"all well-formed 2.2 files in both encodings: interleaved types and entities, unsorted or sparse tags, 0..k tags per element, empty sections",
 "Two checked-in 2.2 files with one block each are loaded; regrouping with interleaved entities, shared nodes or unsorted tags is never exercised.",
 [S+"load_msh_nodes.cpp",S+"load_msh_elements.cpp",S+"load_msh_post_process.cpp"],
 [("per-element blocks then regrouping","src/load_msh_elements.cpp v22, src/load_msh_post_process.cpp")],
 [("entity_dims/entity_tags","last entity seen per node","src/load_msh_post_process.cpp")],["return value of load_msh"])
add("C06","MSH 2.2 element tags become entities with physical groups",
 "After loading a 2.2 file with one element section, the entity lists hold, for each dimension, exactly one record per elementary tag carried by an element of that dimension that has at least two tags, ordered by tag, and its physical group tags are exactly the set of first tags of those elements in increasing order. Elements with one tag or none create no record, further tags are ignored, and the element's entity tag is its second tag (its only tag if it has one, 1 if it has none).",
 ["inputs"],"all well-formed 2.2 files in both encodings, with elements of all dimensions and 0..k tags each",
 "No test looks at the entities a 2.2 file produces.",
 [S+"load_msh_elements.cpp"],
 [("entity_tag_to_physical_tags and create_entities","src/load_msh_elements.cpp v22")],
 [("entity_tag_to_physical_tags","per dimension: elementary tag -> set of physical tags","src/load_msh_elements.cpp")],["spec.entities after load_msh"])
add("C07","ASCII white space and number spelling never change the result",
 "Two ASCII MSH files that differ only in white space between tokens (blanks, tabs, LF or CRLF line ends, empty lines, several records on one line or one record over several), in stray text between sections, or in the spelling of a floating-point number (sign, exponent or fixed notation, trailing zeros) load to the same description.",
 ["inputs"],"all well-formed ASCII files of both versions x all layouts",
 "The tests load the layout the library itself writes plus two fixed files.",
 [S+"load_msh.cpp",S+"load_msh_nodes.cpp",S+"load_msh_elements.cpp",S+"load_msh_entities.cpp",S+"load_msh_data.cpp",S+"load_msh_physical_groups.cpp",S+"load_msh_format.cpp"],
 [("formatted stream extraction","src/load_msh_*.cpp")],[],["return value of load_msh"])
add("C08","Section order, repetition and unknown sections",
 "After the header, the order of sections in a file does not affect the loaded description; each post-processing section adds one data set in file order, and in 2.2 repeated node and element sections add up. A section this library does not support is skipped up to its end marker, whatever it contains and wherever it stands, in ASCII and binary files, without changing anything else that is loaded.",
 ["inputs"],"all permutations of sections, repeated data sections, and unknown sections with arbitrary text or binary bodies at any position, in both versions and encodings",
 "The tests never permute sections, and no test file contains an unknown section.",
 [S+"load_msh.cpp",S+"load_msh_data.cpp",S+"load_msh_post_process.cpp"],
 [("section dispatch loop and forward_to","src/load_msh.cpp")],[],["return value of load_msh"])
add("C09","Names and string tags survive verbatim",
 "Every physical group name and every data string tag, whatever characters it contains (empty, blanks, quotes, backslashes, line breaks, text that looks like a section marker, non-ASCII bytes), is loaded back exactly as it was saved, in every version and encoding, and never affects how the rest of the file is read.",
 ["inputs"],"all strings over all bytes x {4.1, 2.2} x {ASCII, binary}",
 "The tests use a handful of alphanumeric names, and names of physical groups are never compared after loading.",
 [S+"save_msh_physical_groups.cpp",S+"load_msh_physical_groups.cpp",S+"save_msh_data.cpp",S+"load_msh_data.cpp"],
 [("std::quoted on both sides","src/*_physical_groups.cpp, src/*_data.cpp")],[],["names after load_msh(save_msh(spec))"])
add("C10","Binary payload bytes never affect parsing",
 "In binary files no byte pattern of the payload changes how the file is read: values whose bytes look like white space, '$' or section markers, counts of 9, 10, 13 or 32, NaN and infinity payloads, signed zeros, subnormals and tags using all 64 bits (4.1 nodes and elements) or 31 bits (2.2 and data entries) are saved and loaded bit for bit.",
 ["inputs"],"all bit patterns of doubles, tags and counts in binary 4.1 and 2.2 files",
 "The tests use small tags and a few round coordinates; no first payload byte is ever a white-space byte.",
 [S+"io_utils.cpp",S+"load_msh_format.cpp",S+"load_msh_nodes.cpp",S+"load_msh_elements.cpp",S+"load_msh_entities.cpp",S+"load_msh_data.cpp",S+"load_msh_curves.cpp",S+"load_msh_patches.cpp"],
 [("exactly one separator byte is skipped before binary payload","eat_white_space(in, 1) in src/load_msh_*.cpp")],[],["return value of load_msh on binary input"])
add("C11","Damaged files are refused and loading always ends safely",
 "For every input, loading ends: it returns a description or throws an exception, and never hangs, crashes or touches memory it does not own. A file cut off inside a section (including inside its end marker), and an ASCII file that holds something else where a number is expected or fewer entries than announced, are refused with an exception, and so is a binary MSH 2.2 $Elements section whose group headers announce more elements than the section does; a file cut between sections loads exactly its complete sections. References to nodes that do not exist do no harm while loading, and validation rejects those outside the range of node tags.",
 ["inputs","fault_sequences"],"every truncation point of every well-formed file; every replaced, dropped or duplicated token of ASCII files; arbitrary byte damage for termination and memory safety",
 "No test loads a malformed file.",
 [S+"load_msh.cpp",S+"load_msh_nodes.cpp",S+"load_msh_elements.cpp",S+"load_msh_entities.cpp",S+"load_msh_data.cpp",S+"load_msh_physical_groups.cpp",S+"load_msh_post_process.cpp",S+"load_msh_format.cpp"],
 [("stream state checks","src/load_msh.cpp"),("node lookup","src/load_msh_post_process.cpp")],[],["outcome of load_msh"])
add("C12","Unsupported input is refused, never misread",
 "Loading refuses with the library's UnsupportedFeature exception any version other than 2.2 and 4.1, a 4.1 file whose data size is not 8, a binary file of foreign byte order, and any element type outside 1..31; it refuses with InvalidFormat an $Entities section in a 2.2 file and a data set with fewer than three integer tags. Saving refuses a description of any other version or element type, and refuses a tag that does not fit the 32-bit field of the requested binary layout instead of truncating it.",
 ["inputs"],"every position such a feature can occupy in an otherwise well-formed file or description, in both versions and encodings",
 "No test expects an exception.",
 [S+"load_msh_format.cpp",S+"element_utils.cpp",S+"load_msh_entities.cpp",S+"load_msh_data.cpp",S+"save_msh.cpp",S+"save_msh_format.cpp",S+"save_msh_elements.cpp",S+"save_msh_nodes.cpp",S+"save_msh_data.cpp"],
 [("format checks","src/load_msh_format.cpp"),("assert_element_is_supported","src/element_utils.cpp")],[],["exception thrown by load_msh / save_msh"])
add("C13","validate_spec decides whether a description is consistent",
 "validate_spec returns normally for every consistent description, in particular for everything loaded from a consistent well-formed file, and throws CorruptData when block counts, node or element totals, node-tag or coordinate counts, element data length for the block's element type, or the announced smallest/largest tags contradict the content. It never crashes and never alters the description, and the nodes and elements of a description it accepts are saved without reading outside their arrays.",
 ["inputs"],"all descriptions and all single and double perturbations of their count, range and size fields, including empty blocks",
 "The tests call validate_spec only on valid descriptions, so it could accept everything.",
 [S+"validate_spec.cpp"],[("field-by-field assertions","src/validate_spec.cpp")],[],["outcome of validate_spec"])
add("C14","Read and write failures are reported",
 "If the output cannot be opened or written completely, at whatever byte the failure happens, saving to a file throws, and saving to a stream throws or leaves the stream in a failed state. If the input cannot be opened or a read fails midway, loading throws. When no failure occurs both return normally and the whole file is there.",
 ["fault_sequences","crash_points"],"every byte position at which the sink or source can fail, for files and streams",
 "The tests use in-memory streams that never fail.",
 [S+"save_msh.cpp",S+"load_msh.cpp"],[("open and write checks","src/save_msh.cpp"),("open check and stream state","src/load_msh.cpp")],[],["outcome of save_msh/load_msh under injected faults"])
add("C15","Calls are independent of each other",
 "The result of each load, save and validate call depends only on its arguments: not on calls made before (including calls that threw), nor on calls running at the same time on other objects, and not on whether the file or the stream form is used. Saving and validating leave the description unchanged, and saving the same description twice writes the same bytes.",
 ["histories","schedules"],"all sequences of calls (also failing ones) and all interleavings of concurrent calls on distinct objects",
 "Each test makes one save and one load of its own in one thread.",
 [S+"load_msh.cpp",S+"save_msh.cpp","include/mshio/mshio.h"],[("no shared mutable state","src/*.cpp")],[],["results of every call in a history"])
add("C16","NanoSpline sections round-trip, and do no harm when disabled",
 "With the NanoSpline extension on, every curve and patch (all tags, types, degrees, counts, weights flag, control points and knots) and the extension's version come back unchanged after save and load in ASCII and binary, in both versions, alongside the rest of the description. With the extension off, a file containing those sections loads with every standard section intact.",
 ["inputs","configurations"],"all consistent curves and patches x {4.1, 2.2} x {ASCII, binary} x {extension on, off}",
 "One fixed mesh-less description with two curves and one patch, no knots; patches are never compared.",
 [S+"load_msh_curves.cpp",S+"save_msh_curves.cpp",S+"load_msh_patches.cpp",S+"save_msh_patches.cpp",S+"load_msh_nanospline_format.h",S+"save_msh_nanospline_format.h",S+"load_msh.cpp"],
 [("custom sections","src/*_curves.cpp, src/*_patches.cpp"),("skip when disabled","src/load_msh.cpp forward_to")],[],["return value of load_msh"])
add("C17","Element type table",
 "For each of the 31 element types the node count and dimension reported by the library, and used by every reader and writer, are those of the documented table; for every other integer both queries throw UnsupportedFeature.",
 ["inputs"],"all 32-bit integers (all 31 supported types, all small neighbours and extremes)",
 "The tests use element types 1, 2, 3 and 15 only.",
 [S+"element_utils.cpp"],[("lookup tables","src/element_utils.cpp")],[],["nodes_per_element, get_element_dim, element blocks of every type through save and load"])
add("C18","Chains of format conversions preserve mesh and data",
 "However often a description with finite numbers and element blocks of their types' own dimension is re-saved and re-loaded, in any sequence of versions and encodings, the sequence of nodes (tag, x, y, z), the sequence of elements (tag, type, entity tag, node list), the physical group names and all post-processing data stay the same bit for bit. Repeating the last conversion changes nothing at all, and ASCII and binary give the same description.",
 ["histories","inputs"],"all sequences over {4.1, 2.2} x {ASCII, binary} applied to consistent descriptions",
 "The tests make one save and one load per description.",
 [S+"load_msh.cpp",S+"save_msh.cpp",S+"load_msh_post_process.cpp",S+"load_msh_elements.cpp",S+"save_msh_elements.cpp"],
 [("round trip per step","src/load_msh*.cpp, src/save_msh*.cpp")],[],["the description after each step of the chain"])
add("C19","The Python module gives the same library",
 "Every field of the standard parts of the description (header, nodes, elements, entities, physical groups, post-processing data; not the NanoSpline curves and patches) is reachable in Python under the name it has in C++, and there is one value behind both: what is assigned on one side, in whatever order and however deeply nested, is what the other side reads, and nothing else changes. load_msh, save_msh, validate_spec, nodes_per_element and get_element_dim called from Python with the same arguments do exactly what the C++ functions do, exceptions included. The package mshio exports all of it.",
 ["inputs","histories"],"all fields of all bound classes, all sequences of assignments from both sides, all descriptions and files passed to the bound functions",
 "No test imports the Python module.",
 ["python/pymshio.cpp","python/mshio/__init__.py"],[("nanobind class and function definitions","python/pymshio.cpp"),("re-export","python/mshio/__init__.py")],
 [("one C++ object behind a Python object","the attribute reads the C++ member it is named after","python/pymshio.cpp")],["attributes and functions of the Python module"])
add("C20","Locale and stream settings never matter",
 "What is written and what is read depend on the arguments alone: not on the process's global locale, whether set before or changed during a call, and not on the number base, notation, precision, field width, fill character, sign or white-space flags or the locale that the caller's stream carries. When a call returns or throws, the stream has its flags, precision, fill character and locale back.",
 ["inputs","configurations","histories"],"all locales (numeric facets) and stream settings x all descriptions and files x all versions and encodings, stream and file form",
 "The tests run in the classic locale on freshly made streams.",
 [S+"load_msh.cpp",S+"save_msh.cpp",S+"io_utils.cpp"],[("settings guard","src/io_utils.cpp PlainSettings")],[],["bytes written, description loaded, settings of the stream afterwards"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
