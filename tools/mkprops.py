import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,obs,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))

p("P01","Written text parses back to an equal value",
 "For every value tree whose names are ASCII letters, digits, - and _ starting with a letter or _ (and whose identities on unit, tuples, containers, sequences and maps are not the words true and false), and for every formatting configuration, writing the value as text and parsing that text succeeds and gives a value equal to the original, with the same kind, the same order and the same contents at every node. The only freedom is that the three empty forms (unit, empty tuple, empty container) share one spelling and may come back as one another.",
 ["inputs","configurations"],"all value trees (any nesting of all nine kinds) x all id-display settings x all width limits",
 "Round-tripping depends on the whole shape of the tree: which kind sits inside which, whether a node is a map key, which ids exist and where lines are broken. Tests fix a few dozen shapes; the failing combinations are the untested nestings.",
 ["src/fmt/mod.rs","src/fmt/cntr.rs","src/fmt/maps.rs","src/fmt/seqs.rs","src/fmt/tuples.rs","src/fmt/prims.rs","src/parse/mod.rs","src/parse/cntr.rs","src/parse/heuristics.rs"],
 [("fmts","representation and id flag chosen per node","src/fmt/formatter.rs:Formatter")],
 [("write_node","src/fmt/mod.rs"),("parse","src/parse/mod.rs"),("apply_config","src/fmt/solver.rs")],
 ["Kserd::as_str_with_config","kserd::parse::parse"])

p("P02","Displayed identities survive the text, hidden ones do not appear",
 "After writing a value as text and parsing it back, every node whose identity was displayed carries exactly that identity, and every node whose identity was hidden (or absent) carries none. Which kinds of node display their identity is decided only by the formatting configuration, except that a unit always displays its identity.",
 ["inputs","configurations"],"all value trees with identities on any subset of nodes x all 32 id-display settings x width limits",
 "There are five display flags, nine kinds and three layouts, each with its own writer for identities; a lost, misplaced or spurious identity still yields an equal value, because equality ignores identities.",
 ["src/fmt/mod.rs","src/fmt/solver.rs","src/fmt/cntr.rs","src/fmt/tuples.rs","src/parse/names.rs","src/parse/cntr.rs"],
 [("Fmt.id","whether the node's identity is written","src/fmt/mod.rs:Fmt")],
 [("maybe_write_prim_ident / maybe_write_nonprim_ident","src/fmt/mod.rs"),("apply_config","src/fmt/solver.rs"),("ident","src/parse/names.rs")],
 ["Kserd::as_str_with_config","kserd::parse::parse","Kserd::id"])

p("P03","Formatting requests keep the layout of every node legal",
 "After any history of layout, identity and configuration requests on a formatter, no node has a layout more verbose than its kind, its position (root, map key, nameless element) or its parent allows. A new formatter starts with every node at its most verbose legal layout and identities shown. A refused request reports the rule it broke and changes nothing; an accepted request sets the node, lowers its descendants to at most that layout, and changes nothing else.",
 ["histories","inputs"],"all histories of inline/concise/verbose/id/apply_config requests (including out-of-range nodes) on all small value trees",
 "The rules are relations between parents and children that must survive every order of requests; tests exercise single requests on fixed trees.",
 ["src/fmt/formatter.rs","src/fmt/solver.rs","src/fmt/mod.rs"],
 [("fmts","per-node layout and id flag","src/fmt/formatter.rs:Formatter")],
 [("request_repr_alteration","src/fmt/formatter.rs"),("line_repr_constraints","src/fmt/formatter.rs"),("apply_config","src/fmt/solver.rs")],
 ["Formatter::{new,id,inline,concise,verbose,apply_config,fmts}"])

p("P04","Every reachable layout writes text that parses back",
 "Whatever history of requests a formatter has accepted, writing its current state never panics and produces text that parses to a value equal to the original, with exactly the displayed identities.",
 ["histories","inputs"],"all formatter states reachable by any request history on all small value trees",
 "The number of layout combinations is exponential in the number of nodes; only a handful are ever rendered by tests, and layouts reached by manual requests are never reached by configurations.",
 ["src/fmt/formatter.rs","src/fmt/cntr.rs","src/fmt/maps.rs","src/fmt/seqs.rs","src/fmt/tuples.rs","src/parse/mod.rs","src/parse/cntr.rs","src/parse/list.rs","src/parse/map.rs"],
 [("fmts","per-node layout and id flag","src/fmt/formatter.rs:Formatter")],
 [("write_string","src/fmt/formatter.rs"),("parse","src/parse/mod.rs")],
 ["Formatter::write_string","kserd::parse::parse"])

p("P05","The width limit decides the layout consistently",
 "With no width limit the whole value is written on a single line (line breaks can come only from string contents); with a limit of zero every node takes the most verbose layout its kind, position and parent allow. Between the two, and give or take a few columns per node (widths are estimates, rough only for byte arrays and for string contents outside plain ASCII letters and digits): a value that fits within the limit is written on one line, one whose one-line form does not fit is broken up, and so is every part inside it that does not fit beside its own field name or key, while a part that fits where it stands is not; a container whose one-member-per-line form does not fit either becomes line-oriented. Raising the limit never makes the whole value more verbose, and applying the same configuration twice changes nothing more.",
 ["configurations","inputs","histories"],"all value trees x all width limits (none, 0, 1, ..., beyond the text width) x preceding request histories",
 "A violation shows only at particular combinations of width, offset, nesting and prior state; tests fix a few widths on a few values.",
 ["src/fmt/solver.rs","src/fmt/formatter.rs","src/fmt/mod.rs"],
 [("fmts","per-node layout and id flag","src/fmt/formatter.rs:Formatter")],
 [("apply_config","src/fmt/solver.rs"),("inline_widths / concise_widths","src/fmt/solver.rs")],
 ["Formatter::apply_config","Formatter::fmts","Kserd::as_str_with_config"])

p("P06","Parsing never panics and reports well-formed errors",
 "For every input text, parsing terminates with either a value or an error, never a panic. An error has at least one trace; every trace names an existing line of the input, gives a column inside that line or at its end and quotes that line exactly; outer traces never lie behind inner ones; all accessors of the error agree with each other and with the rendered backtrace.",
 ["inputs"],"all texts",
 "Failure positions are computed by pointer offsets and line tables; which position is reported depends on the exact bytes, line endings and where in the grammar the failure happens.",
 ["src/parse/mod.rs","src/parse/err.rs","src/parse/cntr.rs","src/parse/list.rs","src/parse/map.rs","src/parse/prims.rs"],
 [("Error.errs / Error.lines","offsets of the failures and the table of line starts","src/parse/mod.rs:Error")],
 [("parse","src/parse/mod.rs"),("Error::new / get / backtrace","src/parse/err.rs")],
 ["kserd::parse::parse","parse::Error::{get,iter,len,is_empty,backtrace}","Trace"])

p("P07","The single-line grammar is parsed exactly",
 "A text without line breaks that follows the documented single-line grammar parses to exactly the value it denotes (kinds, contents, order, identities), and a text that does not follow it is rejected; nothing is skipped, guessed or left unread. When a field or a key is repeated the last one wins.",
 ["inputs"],"all single-line token sequences",
 "Accepting a malformed text or misreading a valid one is only visible when the whole language is compared with an independent definition; tests list a few accepted texts and very few rejected ones.",
 ["src/parse/mod.rs","src/parse/heuristics.rs","src/parse/list.rs","src/parse/map.rs","src/parse/cntr.rs","src/parse/prims.rs","src/parse/names.rs"],
 [],
 [("kserd_delimited","src/parse/mod.rs"),("pattern_match_delimited / recognise_field_assign","src/parse/heuristics.rs"),("prim","src/parse/prims.rs")],
 ["kserd::parse::parse"])

p("P08","Insignificant whitespace and line layout never change the value",
 "Spaces and tabs around values, separators and delimiters, the choice between one-line and one-item-per-line layout, blank lines, indentation inside delimiters and LF versus CRLF line endings never change the parsed value or its identities. String contents are never altered by this freedom.",
 ["inputs"],"all small values x all placements of optional whitespace and all choices of layout per delimiter pair",
 "Each gap between tokens is handled by a different parser call; a single missing whitespace skip only shows for one gap, one kind and one layout.",
 ["src/parse/wsp.rs","src/parse/list.rs","src/parse/map.rs","src/parse/cntr.rs","src/parse/heuristics.rs","src/parse/prims.rs"],
 [],
 [("inline_whitespace / multiline_whitespace / ignore_inline_whitespace","src/parse/wsp.rs"),("recognise_concise","src/parse/heuristics.rs")],
 ["kserd::parse::parse"])

p("P09","A line-oriented document denotes the container its lines describe",
 "A document made of identity lines, field assignments, nested-container headers and repeated sequence or map entry headers parses to the container those lines describe: each line goes to the container given by its indentation (four spaces or one tab per level), entries of a sequence keep document order, and of repeated fields, keys or identities the last one wins. Blank lines, extra indentation of a first line and line-ending style change nothing.",
 ["histories","inputs"],"all sequences of document lines up to a length over all line forms and indentation levels",
 "The meaning of a line depends on all lines before it (which container is open, which sequence it extends); tests contain a few hand-written documents.",
 ["src/parse/cntr.rs","src/parse/mod.rs","src/parse/heuristics.rs"],
 [("seqs / maps / rfields","entries gathered so far for the open container","src/parse/cntr.rs:verbose")],
 [("verbose / verbose_cntr_field / expect_indents","src/parse/cntr.rs"),("kserd_nested","src/parse/mod.rs")],
 ["kserd::parse::parse"])

p("P10","Every string survives the text format",
 "Any string, whatever characters it contains (quotes, every other delimiter, line breaks, control and non-ASCII characters, text that looks like syntax), written anywhere a string may stand and parsed back gives the identical string, and never disturbs the nodes around it.",
 ["inputs"],"all strings x all positions (root, element, field, key, entry, line-oriented field) x all layouts",
 "The writer picks one of many delimiters from the set of characters in use, and the parser guesses structure from raw text; failures need one particular subset of characters in one particular position.",
 ["src/fmt/prims.rs","src/parse/prims.rs","src/parse/heuristics.rs"],
 [("Used","set of delimiter characters present in the string","src/fmt/prims.rs:Used")],
 [("fmt_str","src/fmt/prims.rs"),("string / parse_str","src/parse/prims.rs"),("recognise_field_assign","src/parse/heuristics.rs")],
 ["Kserd::as_str_with_config","kserd::parse::parse"])

p("P11","Every byte array survives the text format",
 "Any byte array, of any length and contents, written anywhere a value may stand and parsed back gives the identical bytes, and never disturbs the nodes around it.",
 ["inputs"],"all byte arrays x all positions",
 "The encoding packs 13 or 14 bits at a time, so the outcome depends on bit patterns across byte boundaries and on the remainder at the end.",
 ["src/fmt/prims.rs","src/parse/prims.rs","src/ds/barr.rs"],
 [],
 [("fmt_byte_array","src/fmt/prims.rs"),("barr","src/parse/prims.rs")],
 ["Kserd::as_str","kserd::parse::parse","Value::barr"])

p("P12","Numbers are totally ordered by their mathematical value",
 "Comparing any two numbers, whatever mix of unsigned, signed and floating representation they have, agrees with their exact mathematical order, with all zeros equal, all NaNs equal to each other and above everything else. Equality, ordering and hashing agree: two numbers compare equal exactly when they are equal, and equal numbers hash the same; comparison with primitive types gives the same answers.",
 ["inputs"],"all pairs and triples of numbers over all representations, including extremes, values around powers of two, signed zeros, infinities and NaNs of both signs",
 "Mixed comparisons go through lossy conversions; errors appear only near the limits of the representations (2^53, 2^63, 2^127, 2^128, signed zeros) and violate laws over triples that no single test states.",
 ["src/ds/num.rs"],
 [],
 [("PartialEq / Ord / Hash for Number","src/ds/num.rs"),("cmp_float_to_uint / cmp_float_to_int","src/ds/num.rs")],
 ["Number::{eq,cmp,partial_cmp,hash}"])

p("P13","Number conversions are exact or refused",
 "Converting a number to an unsigned or signed integer gives the integer it denotes, where a float counts as an integer only within 1e-10 of it, and is refused whenever the number is not (that close to) an integer or does not fit; it never wraps, truncates or saturates. Constructing a number from any primitive keeps its value (a 32-bit float keeps the value its shortest decimal spelling denotes), its identity names the primitive type, and converting to a float gives the nearest float.",
 ["inputs"],"all numbers and all primitive values (all 8 and 16 bit values, all 32-bit floats, boundary families of the wide types)",
 "The boundary cases (just outside the range, values that round, subnormals, huge floats) form a large set of which tests check a handful and random tests almost never hit.",
 ["src/ds/num.rs"],
 [],
 [("as_u128 / as_i128 / as_f64","src/ds/num.rs"),("From impls / f32_to_f64","src/ds/num.rs")],
 ["Number::{as_u128,as_i128,as_f64,from}","Kserd::new_num"])

p("P14","Number text is read and written without loss",
 "Every number written as text reads back as an equal number (NaN as NaN), alone and inside a value. A numeric text is read as the number it denotes: digits with optional underscores and sign give exactly that integer, decimal and exponent forms give the nearest float, an integer too large for every representation is never wrapped, and any other text is refused.",
 ["inputs"],"all numbers; all short texts over the numeric alphabet",
 "Reading switches between three representations by the look of the text; the switches sit at width limits and odd spellings which tests do not enumerate.",
 ["src/ds/num.rs","src/parse/prims.rs","src/fmt/prims.rs"],
 [],
 [("Display for Number / FromStr for Number","src/ds/num.rs"),("num","src/parse/prims.rs")],
 ["Number::to_string","Number::from_str","kserd::parse::parse"])

p("P15","Value equality and ordering are lawful and ignore identities",
 "Equality of values is an equivalence and ordering is a total order over all values of all kinds; the two agree with each other, and both ignore identities at every depth. Hence a map built from any entries keeps exactly one entry per equal key, the last one given, and finds it again.",
 ["inputs","histories"],"all pairs and triples of small value trees with arbitrary identities; all insertion histories of map entries",
 "The laws quantify over pairs and triples of arbitrary trees; tests compare selected pairs.",
 ["src/ds/val.rs","src/ds/kserd.rs","src/ds/num.rs"],
 [("Value::Map","BTreeMap keyed by Kserd","src/ds/val.rs")],
 [("PartialEq / Ord for Value","src/ds/val.rs"),("PartialEq / Ord for Kserd","src/ds/kserd.rs")],
 ["Kserd::{eq,cmp}","Value::{eq,cmp}"])

p("P16","Encoding then decoding gives the original data",
 "Any serialisable data (all primitive types, strings, options, tuples, sequences, maps, every form of struct and enum, nested arbitrarily) encodes to a value, and decoding that value to the same type gives data equal to the original, whether the value owns its strings, was cloned or is a borrowed view. Types that borrow decode from a borrowed view and point into the original.",
 ["inputs"],"all values of a family of types covering every form of the data model, composed to a depth, with boundary primitives",
 "Each shape takes a different path on both sides and correctness is a property of their composition (option of option, enum inside map key, newtype of unit...), which is a product space tests do not cover.",
 ["src/encode/encoder.rs","src/encode/decoder.rs","src/encode/mod.rs"],
 [],
 [("Encoder","src/encode/encoder.rs"),("Decoder","src/encode/decoder.rs")],
 ["Kserd::enc","Kserd::decode","Encoder","Decoder"])

p("P17","Data survives encode, write, parse and decode",
 "Any serialisable data encoded to a value, written as text under any configuration that displays identities, parsed and decoded to the same type gives data equal to the original; data containing no enums or options also survives when identities are hidden.",
 ["inputs","configurations"],"all values of the data-model family x formatting configurations",
 "Text loses distinctions the in-memory value has (empty forms, integer versus float, identities), so decoding must compensate in each of them; only the composition shows it.",
 ["src/encode/encoder.rs","src/encode/decoder.rs","src/fmt/mod.rs","src/parse/mod.rs"],
 [],
 [("Encoder","src/encode/encoder.rs"),("Decoder","src/encode/decoder.rs"),("parse","src/parse/mod.rs"),("apply_config","src/fmt/solver.rs")],
 ["Kserd::enc","Kserd::as_str_with_config","kserd::parse::parse","Kserd::decode"])

p("P18","Decoding to a type gives the exact data or an error",
 "Decoding any value tree to any type either gives data that agrees exactly with the tree (every integer equal, a float the nearest of the requested width, every string, length, field and variant as in the tree) or returns an error; it never panics, wraps, truncates or invents data. Fields the type does not know are passed over. A number outside the range of the requested integer type, a wrong number of elements, an unknown variant or a missing field is an error.",
 ["inputs"],"all small value trees x a family of target types",
 "The matrix of value kinds against requested types is large and mostly about rejections, which tests hardly state.",
 ["src/encode/decoder.rs","src/ds/num.rs"],
 [],
 [("Decoder","src/encode/decoder.rs")],
 ["Kserd::decode"])

p("P19","Borrowing and ownership never change data",
 "Converting values between borrowed and owned form, cloning them, and taking borrowed views yields values equal to the original with identical identities at every node, and an owned result does not depend on the buffer the original borrowed from. Mutating a copy-on-write string or byte array changes only that copy, never the borrowed source or other views.",
 ["histories","inputs"],"all small value trees with mixed borrowed/owned leaves x all histories of conversions and mutations up to a depth",
 "The traversals visit keys, values, identities and leaves of each kind separately and one missed case loses data only for that kind at that position.",
 ["src/ds/kserd.rs","src/ds/val.rs","src/ds/kstr.rs","src/ds/barr.rs"],
 [("Kstr / Barr","copy-on-write string and bytes","src/ds/kstr.rs, src/ds/barr.rs")],
 [("into_owned / mk_brw / to_mut","src/ds/kserd.rs, src/ds/val.rs, src/ds/kstr.rs, src/ds/barr.rs")],
 ["Kserd::{into_owned,mk_brw,clone}","Kstr::*","Barr::*"])

p("P20","Navigation visits the whole tree and its links agree",
 "Navigating any value visits every node exactly once in depth-first order starting at the root; each node reports the right parent, position within its parent, key status, kind and children, and following links in any direction is consistent. Depth-first and breadth-first descendant listings contain exactly the nodes below, in their documented orders.",
 ["inputs","histories"],"all value trees; all link-following walks",
 "The tree is flattened into an index table built in several passes; index errors show only for particular shapes (maps beside maps, empty collections, deep last children).",
 ["src/nav/mod.rs","src/nav/navigator.rs","src/nav/node.rs","src/nav/value.rs"],
 [("Navigator nodes","flattened tree with parent and child indices","src/nav/navigator.rs:Navigator")],
 [("Navigator::new / get / nodes","src/nav/navigator.rs"),("Node accessors","src/nav/node.rs")],
 ["Navigator::*","Node::*","NodeValue"])

p("P21","Accessors report and mutate exactly the value that is there",
 "For every value, each typed accessor succeeds exactly when the value has that kind (or converts exactly, for numbers and characters) and returns exactly its content; lookups of fields and entries find exactly what is present. Any history of mutations through the mutable accessors leaves the value equal to what the same edits give on a plain model, with everything else untouched.",
 ["histories","inputs"],"all small values x all accessors; all mutation histories up to a depth",
 "About twenty accessors times nine kinds times mutable/immutable variants; an accessor that looks in the wrong place shows only for particular kind/accessor pairs.",
 ["src/ds/val.rs","src/ds/kserd.rs"],
 [("Value","the nine kinds of value","src/ds/val.rs:Value")],
 [("accessors and Accessor","src/ds/val.rs")],
 ["Value::{unit,bool,ch,uint,int,float,str,barr,tuple,cntr,seq,tuple_or_seq,map and *_mut}","Accessor"])

p("P22","Names are accepted exactly when they follow the rules",
 "Setting an identity or constructing a container succeeds exactly when the name follows the documented rules, for every character in every position, and a refused name reports the error without building anything. Every name of ASCII letters, digits, - and _ that starts with a letter or _ is accepted by the constructors, and round-trips through text as identity and as field name.",
 ["inputs"],"all names up to a length over a boundary alphabet; every Unicode character at the start, middle and end",
 "The rule is per character and per position; tests try a few characters.",
 ["src/ds/kserd.rs","src/ds/val.rs","src/parse/names.rs"],
 [],
 [("with_id","src/ds/kserd.rs"),("InvalidFieldName::validate / new_cntr","src/ds/val.rs"),("valid_name / field_name","src/parse/names.rs")],
 ["Kserd::with_id","Kserd::with_identity","Value::new_cntr","Kserd::new_cntr"])

p("P23","Direct conversion of Rust values builds the value they denote",
 "Converting any standard value (numbers, characters, strings, unit, tuples of every supported length, arrays, vectors, boxes, options and results, nested arbitrarily) gives a value with exactly its contents in order and the identity of its type; a present option and a box are their contents. When converting any member fails, the whole conversion returns the error of the first one that fails.",
 ["inputs"],"all values of a family of types covering every supported type and length",
 "There is one implementation per tuple arity and array length; an index slip in one of them is invisible to tests of the others.",
 ["src/to_kserd.rs","src/ds/kserd.rs"],
 [],
 [("ToKserd impls","src/to_kserd.rs")],
 ["ToKserd::into_kserd","Kserd::new*"])

p("P24","Parsing and writing cost stays proportional to a small polynomial",
 "The work to parse a text or to write a value grows at most polynomially with its size, for nested as well as for long inputs and for malformed as well as for valid ones: no input of a few dozen characters makes parsing explode.",
 ["inputs"],"all short token strings, and all repetitions of short token patterns (nesting families)",
 "Backtracking alternatives multiply per nesting level; tests nest two or three levels, where an exponential is still invisible.",
 ["src/parse/map.rs","src/parse/mod.rs","src/parse/cntr.rs","src/parse/heuristics.rs","src/fmt/solver.rs","src/nav/navigator.rs"],
 [],
 [("kvp_kserd_to_kserd","src/parse/map.rs"),("kserd_nested","src/parse/mod.rs"),("verbose_cntr_field","src/parse/cntr.rs")],
 ["kserd::parse::parse","Kserd::as_str_with_config"])

p("P25","A value has one text per configuration, however it is asked for",
 "The text of a value depends only on the value and the formatting configuration: writing it again, writing a clone, a borrowed view or an owned copy, using the shorthand, the Display form or a formatter, all give the same text; asking without a configuration uses the documented defaults; writing to a buffer that already holds text appends exactly that text and leaves what was there alone. Reading the text and writing the value read under the same configuration gives the same text again (values with a negative zero, or with a unit, an empty tuple or an empty container, may change their spelling once).",
 ["inputs","histories"],"all value trees x configurations x previous contents of the buffer",
 "The writers look back into the buffer they append to (removing trailing separators, measuring columns), and the solver works from estimated widths; a slip shows only for particular shapes and buffers.",
 ["src/fmt/mod.rs","src/fmt/formatter.rs","src/fmt/cntr.rs","src/fmt/tuples.rs","src/fmt/seqs.rs","src/fmt/maps.rs","src/fmt/prims.rs","src/fmt/solver.rs"],
 [],
 [("as_str / as_str_with_config / Display","src/fmt/mod.rs"),("Formatter::write_string","src/fmt/formatter.rs")],
 ["Kserd::{as_str,as_str_with_config}","Display for Kserd","Formatter::{apply_config,write_string}","FormattingConfig::default"])

p("P26","Encoding builds exactly the value of the data's form, or reports the first error",
 "Encoding any data gives the value of its documented form: a struct or struct variant is a container with exactly its fields and the name of the type or variant as identity, unit, newtype and tuple forms are tuples with that identity, an option is a tuple named Some or None, sequences, tuples and maps keep their members in order with the last of equal keys winning, and each primitive is what its constructor gives. If a member fails, a name is not a legal identity, or a map value has no key, encoding returns that error (of the first member that fails) and never panics or builds a part.",
 ["inputs","histories"],"all data of serde's data model up to a size with failing members anywhere; all names; all call histories on a map",
 "Each form of the data model has its own serialiser code path; an error dropped or a member lost in one of them is invisible to tests of the others, and round trips hide slips made on both sides.",
 ["src/encode/encoder.rs","src/encode/mod.rs"],
 [],
 [("Encoder and its helpers","src/encode/encoder.rs")],
 ["Kserd::enc","Encoder"])

p("P27","Each layout is written in its documented form",
 "Whatever layouts and identities have been requested of a formatter, the text it writes has the documented form of each layout: a primitive is its bare literal; an inline value stands on one line in its own delimiters with members separated by a comma and a space; a concise value has its delimiters on the first and last line and one member per line between them, indented by four further columns, with further lines of a member aligned under its start; a verbose container has one `name = value` line per field without delimiters, a nested verbose container a `[name]` header with its fields indented by four columns, verbose sequences and maps one `[[name]]` header per member; an identity stands exactly where it is shown (before the delimiters, after a colon in a header, or on a line of its own for a value without header) and nowhere else.",
 ["inputs","histories"],"all value trees x every reachable state of the formatter",
 "Reading the text back hides every slip the parser tolerates (indentation, alignment, a member on the wrong line, an identity repeated or absent); which layouts meet depends on the history of requests.",
 ["src/fmt/mod.rs","src/fmt/formatter.rs","src/fmt/cntr.rs","src/fmt/tuples.rs","src/fmt/seqs.rs","src/fmt/maps.rs","src/fmt/prims.rs"],
 [],
 [("Formatter::write_string","src/fmt/formatter.rs"),("write functions of containers, tuples, sequences, maps","src/fmt")],
 ["Formatter::{inline,concise,verbose,id,write_string}"])

p("P28","Every build configuration behaves the same",
 "The crate builds with every subset of its features (encode, format, parse), with and without debug assertions and overflow checks, and what it does depends neither on the other features that happen to be enabled nor on the kind of build: accessors, edits, equality, order, navigation, number conversion and reading, names, direct conversion, written texts, layouts, parsing with its errors, and encoding and decoding give the same results in each configuration that offers them.",
 ["inputs","configurations"],"all build configurations x all cases of the listed families",
 "Tests run in one configuration, with assertions on: work done inside an assertion, an overflow that panics in one build and wraps in the other, or a helper that exists only beside another feature show only elsewhere.",
 ["src/lib.rs","src/nav/navigator.rs","src/ds/num.rs","src/fmt/mod.rs","src/parse/mod.rs","src/encode/mod.rs"],
 [],
 [("feature-gated modules","src/lib.rs"),("validate (debug assertions only)","src/nav/navigator.rs")],
 ["cargo features encode, format, parse","debug and release profiles"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
