#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Decoding a format description yields the value its meaning prescribes",
 "For every well-typed format description and every input, running the compiled description accepts exactly the inputs the format language's documented meaning accepts, returns exactly the value that meaning prescribes, and leaves exactly the unconsumed bytes. This covers concatenation, alternation, counted/conditional/until repetition, slices, peeks, bit streams, seeks, views, re-decoding, bindings, parameters, dynamic Huffman formats, hard and soft conditions and tolerated failures, in any nesting.",
 ["programs","inputs"],"all format descriptions the language can express x all byte strings",
 "The tests decode a few dozen fixed formats on fixed inputs; the guarantee is about arbitrary nestings of some forty constructors with data dependencies between them.",
 ["src/decoder.rs","src/format.rs","src/read.rs","src/decoder/value.rs","src/decoder/seq_kind.rs"],
 [("format compiler and interpreter","src/decoder.rs compile_format / parse"),("input cursor","src/read.rs"),("pattern matching","src/decoder/value.rs")],
 "decoded value, acceptance and remaining input of a run of the compiled program")
p("C02","The location-tracking decoder agrees with the plain one and its spans are true",
 "For every format and input the location-tracking decoder accepts and rejects exactly as the plain decoder does, yields the same value and leaves the same remaining input. Every byte value it reports as read from the input lies in the input at the reported offset, and the span of a node covers the bytes its parse consumed.",
 ["programs","inputs"],"all format descriptions x all byte strings",
 "It is a second hand-written interpreter; tests compare nothing between the two beyond a few renderings.",
 ["src/loc_decoder.rs","src/decoder.rs"],
 [("location-tracking interpreter","src/loc_decoder.rs parse_with_loc / eval_with_loc"),("span algebra","src/loc_decoder.rs ParseLoc")],
 "values, remaining input and spans returned by a located run")
p("C03","Generated Rust decoders compile and behave as the format description does",
 "For every format description within the code generator's supported subset, the Rust source it emits compiles, and the compiled decoder accepts exactly the inputs the interpreter accepts, returns the corresponding value, and leaves the same number of bytes unconsumed.",
 ["programs","inputs"],"all format descriptions in the supported subset x all byte strings",
 "Tests run one fixed generated module on a handful of files; the generator's correctness is over all descriptions.",
 ["src/codegen/mod.rs","src/codegen/typed_decoder.rs","src/codegen/typed_format.rs","src/codegen/model.rs","src/parser/mod.rs","src/prelude.rs","src/typecheck.rs"],
 [("code generator","src/codegen"),("type inference driving it","src/typecheck.rs"),("run-time support","src/parser, src/prelude.rs")],
 "emitted source text, compiler verdict, and the compiled decoder's result")
p("C04","Deterministic choice and repetition find the one parse whenever it exists",
 "When a description built from alternation, repetition and concatenation compiles as deterministic, every input has at most one way to match it in full, and the decoder accepts exactly those inputs that match in some way, producing that match. A description in which two alternatives can match the same input in full within the prediction depth is refused at compile time rather than resolved silently, and one whose every choice is settled by looking a bounded distance ahead, well within that depth, compiles. Naming a sub-description and referring to it never changes what is accepted.",
 ["programs","inputs"],"all choice/repetition descriptions x all byte strings",
 "Prediction trees are built over sets of bytes and follow contexts; tests exercise a few hand-picked trees.",
 ["src/lib.rs","src/decoder.rs"],
 [("lookahead prediction tree","src/lib.rs MatchTree*"),("use at alternation and loops","src/decoder.rs Branch/While/Until/RepeatBetween")],
 "compile verdict; accepted inputs; decoded value against exhaustive search of all derivations")
p("C05","Static size, lookahead and nullability analysis never lies",
 "Whenever a decode of a format succeeds, the number of bytes it consumed lies within the bounds the analysis computed for that format, and the bytes it examined ahead of its starting position do not exceed its computed lookahead. A format that can succeed without consuming anything is always reported nullable, so zero-or-more and one-or-more repetition of it is refused at compile time and no such compiled repetition loops forever on finite input.",
 ["programs","inputs"],"all format descriptions x all byte strings",
 "Soundness of an abstract interpretation is over all programs and inputs.",
 ["src/format.rs","src/bounds.rs","src/lib.rs"],
 [("consumption and lookahead bounds","src/format.rs match_bounds / lookahead_bounds / is_nullable"),("expression bounds","src/lib.rs Expr::bounds")],
 "bytes consumed and read by a run, compared with computed bounds","read-only access to the computed bounds")
p("C06","Every decoded value inhabits the type inferred for its format",
 "For every well-typed format, both type checkers accept it and infer compatible types, and every value a successful decode returns is an inhabitant of the inferred type: base widths, tuple arity, record labels and order, variant membership, element and option types. An ill-typed description is rejected before any decoding.",
 ["programs","inputs"],"all format descriptions, well-typed and ill-typed x all byte strings",
 "Type soundness quantifies over all programs; tests check types of a few.",
 ["src/typecheck.rs","src/typecheck/inference.rs","src/lib.rs","src/valuetype.rs"],
 [("unification type checker","src/typecheck.rs"),("direct inference at definition","src/lib.rs infer_type / infer_format_type")],
 "inferred type and decoded value")
p("C07","Expression evaluation computes exact integer and sequence results",
 "Every expression evaluates to the mathematically exact result of its operators in the operand width (arithmetic, bitwise, comparison, casts, byte-order assembly, sequence slicing, indexing, flattening, folding, keyed search, pattern matching), independent of how its operands were produced. A statically computed range for an expression always contains its value.",
 ["programs","inputs"],"all well-typed expressions x all operand values for which the result is representable",
 "Operators interact with widths, lazily represented sequences and wrapped values in combinations tests do not sample.",
 ["src/decoder.rs","src/decoder/value.rs","src/decoder/seq_kind.rs","src/decoder/search.rs","src/loc_decoder.rs","src/lib.rs"],
 [("expression evaluator","src/decoder.rs Expr::eval"),("integer operators","src/decoder/value.rs"),("lazy sequences","src/decoder/seq_kind.rs"),("keyed search","src/decoder/search.rs"),("range analysis","src/lib.rs Expr::bounds")],
 "value computed by a zero-width compute format")
p("C08","The generated-code run-time parser stays inside its window and restores position",
 "Through any nesting and sequence of slices, peeks, negative peeks, alternatives, seeks, views, alignment and bit mode, the run-time parser reads exactly the byte or bit at its logical position, never reads beyond the innermost window or the buffer, and leaving a context puts the position exactly where that context's contract says. A failed operation reports an error instead of reading on.",
 ["inputs","histories"],"all buffers x all sequences of parser operations",
 "The state machine's contexts nest arbitrarily; unit tests cover single transitions.",
 ["src/parser/mod.rs","src/parser/offset.rs","src/parser/view.rs"],
 [("parser state machine","src/parser/mod.rs"),("offset and context stack","src/parser/offset.rs"),("views","src/parser/view.rs")],
 "bytes returned, offsets, remaining counts and errors")
p("C09","DEFLATE, zlib and gzip decoding recovers the original bytes",
 "For every byte string and every valid way of compressing it (stored, fixed and dynamic Huffman blocks, any match lengths and distances, any block split, any optional header fields), the decoders recover exactly the original bytes, both interpreted and as generated code. Streams whose codes or lengths are invalid are refused (the two reserved length symbols 286 and 287 are skipped, as the description documents) and never decode to different data silently.",
 ["inputs"],"all payloads x all encodings of them",
 "Tests decode six fixed gzip files.",
 ["doodle-formats/src/format/deflate.rs","doodle-formats/src/format/zlib.rs","doodle-formats/src/format/gzip.rs","src/decoder.rs","src/prelude.rs"],
 [("deflate description","doodle-formats/src/format/deflate.rs"),("Huffman decoding","src/decoder.rs make_huffman_codes, src/prelude.rs parse_huffman"),("window copy","src/prelude.rs / SubSeqInflate")],
 "inflated bytes from both back ends")
p("C10","Shipped generated decoders agree with the shipped descriptions on every file",
 "For every shipped format and every input file, well-formed or corrupted, the decoder generated from the shipped description accepts exactly the files the interpreted description accepts, extracts the same content and leaves the same number of bytes (files on which an expression of the description itself overflows, where interpretation aborts, have no reference to agree with).",
 ["inputs","fault_sequences"],"all shipped formats x all files, including arbitrary corruptions",
 "Tests compare a few fixed files on one back end each.",
 ["generated/gencode.rs","doodle-formats/src/format","src/codegen","src/decoder.rs"],
 [("generated module","generated/gencode.rs"),("descriptions","doodle-formats/src/format")],
 "acceptance and decoded content from both back ends")
p("C11","Text decoding accepts exactly valid UTF-8 and yields its characters",
 "The text format accepts a byte string in full exactly when it is well-formed UTF-8 (no overlong forms, surrogates or out-of-range code points), and the decoded characters are exactly those the bytes encode; the ASCII and NUL-terminated string forms split at exactly the terminator.",
 ["inputs"],"all byte strings",
 "Tests decode two sample files.",
 ["doodle-formats/src/format/text.rs","src/lib.rs"],
 [("UTF-8 description","doodle-formats/src/format/text.rs")],
 "decoded characters and acceptance")
p("C12","Container and record formats recover exactly what was encoded",
 "For every document an independent encoder produces in the shipped archive, image, container, executable and toy formats (tar, PNG, GIF, RIFF, run-length, ELF, TIFF, zlib-wrapped data, digit and Peano strings, seek-table files, JPEG marker streams), decoding accepts it and recovers every encoded field, length and payload. Violating a field constraint the description states makes the decode fail.",
 ["inputs"],"all documents of each shipped format",
 "Tests decode one sample file per format and mostly assert only that it parses.",
 ["doodle-formats/src/format"],
 [("format descriptions","doodle-formats/src/format/*.rs")],
 "decoded records")
p("C13","Byte sets obey set algebra",
 "Every byte-set operation (construction from bytes and ranges, union, intersection, difference, complement, membership, size, extremes, disjointness, ordering of iteration, printing) agrees with the mathematical set of byte values it stands for.",
 ["inputs"],"all byte sets and byte values",
 "256-bit sets cannot be covered by examples.",
 ["src/byte_set.rs","src/byte_set/pretty_print.rs"],
 [("byte set","src/byte_set.rs")],"members observed through every query")
p("C14","Interval arithmetic encloses every concrete result",
 "For any values inside two intervals, the result of the concrete operation on those values lies inside the interval the bounds operation returns, and union, containment and exactness queries agree with the sets of integers the intervals stand for.",
 ["inputs"],"all intervals and all members of them, including unbounded ones and the extremes of the machine range",
 "Soundness is over all pairs of intervals.",
 ["src/bounds.rs","src/numeric/core.rs"],
 [("usize bounds","src/bounds.rs"),("big-integer bounds","src/numeric/core.rs Bounds")],"bounds results vs member enumeration")
p("C15","The numeric sub-language computes exactly or reports failure",
 "Every numeric expression evaluates to the exact integer result when it fits the representation its annotations prescribe, and otherwise the result is flagged as not representable (or undefined); it never wraps, truncates, changes sign or panics. Each of the fixed-width run-time operations that generated code calls computes the exact result of its operation, flags a result outside its output width, and agrees with the evaluator. Type elaboration assigns every sub-expression a consistent representation that admits its value.",
 ["programs","inputs"],"all numeric expressions x all constants and machine representations",
 "Combinations of representation, sign and range are unbounded.",
 ["src/numeric/core.rs","src/numeric/eval.rs","src/numeric/elaborator.rs","src/numeric/codegen.rs"],
 [("evaluator","src/numeric/eval.rs"),("elaborator","src/numeric/elaborator.rs"),("code generation","src/numeric/codegen.rs")],"evaluation results")
p("C16","Rendered output faithfully shows the decoded value",
 "For every decoded value, the JSON output (plain and located) parses back to exactly that value; the tree rendering shows, in order, every visible label and leaf (all but fields named with a leading double underscore, values fixed by the description alone, and the middle of sequences longer than the preview, with sequences of records of atomic fields tabulated row by row and all-boolean records summarised by the labels that are set) and, when locations are shown, each leaf's and table row's byte position; values differing in a visible leaf never render alike; the flat listing names the listed definitions that occur, in order; and rendering never fails on a decodable value.",
 ["programs","inputs"],"all decodable values of all formats",
 "Tests snapshot a few renderings.",
 ["src/output/tree.rs","src/output/flat.rs","src/output.rs","src/decoder/value.rs"],
 [("tree renderer","src/output/tree.rs"),("flat renderer","src/output/flat.rs"),("serialisation","src/decoder/value.rs")],"output text")
p("C17","Generated decoders survive arbitrary input",
 "On any byte string whatsoever, the shipped generated decoders and the run-time library return a value or an error: they do not panic, read out of bounds, recurse without limit or fail to terminate.",
 ["inputs","fault_sequences"],"all byte strings, including mutations of valid files",
 "A parser for untrusted input is judged by the inputs nobody wrote down.",
 ["generated/gencode.rs","src/parser","src/prelude.rs"],
 [("generated decoders","generated/gencode.rs"),("run-time library","src/parser, src/prelude.rs")],"panic / error / value")
p("C18","Code generation is a deterministic function of the description",
 "Generating code twice for the same description, in the same or different processes and after any other generation, gives byte-identical source, for the shipped descriptions and for any other.",
 ["programs","histories"],"all descriptions, any process history",
 "Hash-order and global-state dependence shows only across runs and histories.",
 ["src/codegen/mod.rs","src/codegen/name.rs","src/typecheck.rs","generated/gencode.rs"],
 [("name assignment","src/codegen/name.rs"),("generator","src/codegen/mod.rs")],"emitted source text")
p("C19","Canonical Huffman decoding inverts canonical Huffman encoding",
 "For every complete or incomplete set of code lengths that forms a prefix code, and every symbol sequence, the decoders built at run time from the lengths decode the canonical encoding of that sequence back to it, with zero-length symbols never produced and unassigned codes rejected; optional symbol orderings are applied as given.",
 ["inputs"],"all valid length vectors x all symbol sequences",
 "The space of codes is combinatorial.",
 ["src/decoder.rs","src/prelude.rs"],
 [("interpreter's code construction","src/decoder.rs make_huffman_codes"),("run-time decoder","src/prelude.rs parse_huffman")],"decoded symbols from both back ends")
p("C20","Run-time library helpers match their sequence semantics",
 "The helper routines generated code calls (keyed search over sorted and unsorted sequences, slice extraction with self-overlapping extension, folds, bounded-repetition tests, byte-order assembly) return exactly what the corresponding description operators mean; those that can fail report an error outside their domain.",
 ["inputs"],"all argument values",
 "Boundary combinations of lengths, offsets and duplicates are unbounded.",
 ["src/prelude.rs","src/decoder/search.rs"],
 [("prelude helpers","src/prelude.rs")],"returned values")
p("C21","Borrowed binary views and arrays read exact values within range",
 "Every read, seek, sub-range, array, stride and iteration operation of the binary reading library returns the big-endian value stored at exactly the requested position, agrees between random access, iteration and search, and fails cleanly whenever the requested range leaves the data. Four-byte tags survive conversion to and from text and display distinctly.",
 ["inputs","histories"],"all buffers x all sequences of read operations; all tags and strings",
 "Ranges, strides and lengths combine without bound; there are no tests of this library beyond doc examples.",
 ["smallsorts/src/binary/read.rs","smallsorts/src/tag.rs"],
 [("scopes, cursors and arrays","smallsorts/src/binary/read.rs"),("tags","smallsorts/src/tag.rs")],"returned values and errors")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
