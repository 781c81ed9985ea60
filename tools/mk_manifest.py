import json
A=lambda *fs: list(fs)
P=[]
def prop(id,title,stmt,over,qtext,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
E_=['src/encode/encoders.rs','src/encode/primitives.rs','src/shared/string_utils.rs','src/shared/validation.rs']
D_=['src/decode/scanner.rs','src/decode/parser.rs','src/decode/decoders.rs','src/decode/event_builder.rs']
prop('C01','Decoding the encoding of a value gives the value back',
 'For every JSON-like value with unique keys and finite numbers, and every supported delimiter and indentation of at least one, decoding the encoded text with the same indentation gives the same value, in strict and in lenient mode. Strings, numbers (bit for bit), array order and object key order are all kept; only the rows of a table come back in the key order of the first row.',
 ['inputs','configurations'],'all values (any nesting, any Unicode strings and keys, any finite doubles), delimiters comma, pipe and tab, indent 1..16, strict and lenient',
 'The tests encode and decode a few dozen fixed values; quoting, escaping, header choice, list-item layout and number text interact, so only a search over values and options reaches the combinations.',
 E_+D_,[('line writer and array form selection','src/encode/encoders.rs'),('quoting and escaping','src/encode/primitives.rs, src/shared/string_utils.rs'),('line scanner, header and token parser','src/decode')],
 ['encode','try_decode'])
prop('C02','Key folding followed by path expansion is lossless',
 'Encoding a value with key folding on (any flatten depth) and decoding it with path expansion on gives the value back, provided that no unquoted dotted key of the value itself would be expanded and that it is at most 100 levels deep (expansion stops with an error at its fixed limit). Folded text that is decoded without expansion is still valid strict TOON and holds the same leaves under dotted keys.',
 ['inputs','configurations'],'all values whose keys are mixtures of identifiers, dotted paths, quoted-only keys and prefixes of each other; all flatten depths; both decode modes',
 'Folding and expansion are two independent algorithms; the tests exercise them apart and on a handful of shapes, never sibling collisions at depth combined with limits.',
 ['src/encode/folding.rs','src/encode/encoders.rs','src/decode/expand.rs'],[('fold decision','src/encode/folding.rs'),('dotted path expansion and merge','src/decode/expand.rs')],['encode','try_decode'])
prop('C03','Encoding produces the canonical TOON text',
 'For every value and option set the encoder writes the one canonical text: inline form for arrays of primitives, the tabular form exactly when all rows are objects with the same primitive-valued keys, list form otherwise, with exact counts, delimiters in headers, indentation, and key order as given. With key folding on, exactly the chains of single-key objects of identifier keys are folded, up to the flatten depth, and never where the dotted key collides with a sibling.',
 ['inputs','configurations'],'all values, delimiters, indents 0..16, folding off/safe and flatten depths',
 'Fixtures compare a finite list of texts; a wrong choice of form or a wrong fold often still round-trips, so only an independent encoder over generated values settles it.',
 E_+['src/encode/folding.rs'],[('array form selection','src/encode/encoders.rs'),('tabular header detection','src/encode/encoders.rs'),('fold decision','src/encode/folding.rs')],['encode_lines'])
prop('C04','Scalars are quoted exactly when needed and numbers are exact',
 'A string or key is written without quotes if and only if it is safe to: quoted whenever it is empty, padded, looks like a number or literal, contains the active delimiter, a colon, a bracket, brace, quote, backslash or control whitespace, or starts with a hyphen, and not otherwise. Every finite number is written in plain decimal without exponent, with the fewest digits that read back to the same double, and every escape sequence decodes to the character it was made from.',
 ['inputs'],'short strings over the special alphabet (enumerated) and random longer ones, in value, inline cell, row and key position, all delimiters; all doubles by bit pattern',
 'The set of strings that look like something else is unbounded and depends on position and delimiter; the tests list some twenty.',
 ['src/encode/primitives.rs','src/shared/string_utils.rs','src/shared/validation.rs','src/shared/literal_utils.rs','src/decode/parser.rs'],[('unquoted-safety predicate','src/shared/validation.rs'),('escaping and unescaping','src/shared/string_utils.rs'),('number formatting','src/encode/primitives.rs'),('numeric literal recogniser','src/shared/literal_utils.rs')],['encode','try_decode'])
prop('C05','A TOON document decodes to the value it denotes',
 'Every well-formed document decodes to the value its notation denotes, whatever freedom of form it uses: per-array delimiters, optional quoting, padding around cells, exponents, blank lines outside arrays, empty cells, list form where inline would do. Any other text, valid or damaged, is accepted or rejected, and read, as the format rules say.',
 ['inputs','configurations'],'documents built from values with random formatting choices; texts damaged by random edits; texts assembled from fragments of the notation; strict and lenient; indents 1..8',
 'The decoder tests read canonical text, mostly what the encoder itself writes; hand-written documents use a wider notation, and an independent reading of it is needed to know what they mean.',
 D_,[('indentation scanner','src/decode/scanner.rs'),('header and token parser','src/decode/parser.rs'),('recursive line decoder','src/decode/decoders.rs')],['try_decode'])
prop('C06','Strict decoding rejects every structurally damaged document',
 'In strict mode a document is rejected when a declared length or field count disagrees with what follows, when a row, item or cell is missing, extra or at the wrong level, when a blank line interrupts an array, or when indentation has tabs or is not a multiple of the indent. Malformed tokens (unterminated strings, invalid escapes, text after a closing quote, a field without a colon) are rejected in both modes.',
 ['inputs','fault_sequences'],'every kind of damage at every array, row, cell and line of generated valid documents',
 'Each check in the tests uses one small document; the guards sit on different paths (inline, tabular, list, nested, in list items, at the root) and each must hold on all of them.',
 D_+['src/decode/validation.rs'],[('count and blank-line validation','src/decode/validation.rs'),('extra rows and items checks','src/decode/decoders.rs'),('strict indentation','src/decode/scanner.rs')],['try_decode'])
prop('C07','Lenient decoding extends strict decoding and recovers as documented',
 'Whatever strict decoding accepts, lenient decoding accepts with the same value. Lenient decoding additionally reads documents with wrong declared counts, missing or extra cells, blank lines inside arrays and ragged indentation, giving the value of what is actually there (missing cells are null).',
 ['inputs','configurations'],'generated, damaged and wild texts in both modes',
 'The two modes share code through many conditionals; tests look at one mode at a time.',
 D_+['src/decode/validation.rs'],[('mode conditionals','src/decode/decoders.rs, src/decode/scanner.rs, src/decode/validation.rs')],['try_decode'])
prop('C08','Every input is handled: a value or an error, in bounded space',
 'Decoding any text with any options ends and returns a value or an error: it never panics, overflows the stack for nesting up to 1000 levels, or hangs: a thousand levels or a hundred kilobytes take seconds at most, never hours. The memory it takes is bounded by the size of the text and not by the lengths the text declares. The same holds for encoding any value, as text, lines or events, with key folding or a replacer; there the nesting counts as well as the size.',
 ['inputs','configurations'],'arbitrary, damaged and adversarial texts (huge declared lengths, deep nesting, extreme indents, long lines, control characters), arbitrary, deep and wide values with all encoding options',
 'Robustness is a claim about all inputs; the tests contain only inputs someone thought of.',
 D_+E_+['src/decode/expand.rs'],[('size hints from declared lengths','src/decode/decoders.rs'),('recursion','src/decode/decoders.rs, src/encode/encoders.rs'),('slicing by byte offset','src/decode/parser.rs')],['try_decode','encode'])
prop('C09','Path expansion merges dotted keys by fixed rules',
 'With path expansion on, exactly the unquoted keys made of two or more identifier segments joined by dots are expanded, at every depth up to the fixed limit, and objects reached by several paths are merged in document order. Where paths conflict, strict mode reports an error that names the key and lenient mode lets the later one win; all other keys, and the order of keys, are untouched.',
 ['inputs','configurations'],'documents of dotted, plain, quoted and near-identifier keys that overlap, at any depth and inside arrays, both modes',
 'Conflicts arise from pairs and triples of keys in either order at any depth; the tests hold a few pairs at the root.',
 ['src/decode/expand.rs','src/shared/validation.rs'],[('expansion','src/decode/expand.rs'),('merge and conflict rules','src/decode/expand.rs')],['try_decode with path expansion'])
prop('C10','All entry points and default options agree',
 'The string, line, event, asynchronous-signature, JSON-text, WebAssembly and command-line conversion entry points give the same results and the same error messages for the same input and options; the panicking ones panic exactly when the fallible ones fail. Options left out mean indent 2, comma, strict, no folding, no expansion and no depth limit, and JSON text that is read has its numbers preserved exactly.',
 ['inputs','configurations'],'generated values, JSON texts and TOON texts, each with full, partial and no options, through every entry point',
 'Each entry point has its own few tests; agreement is a relation between all of them on every input.',
 ['src/lib.rs','src/encode/mod.rs','src/decode/mod.rs','src/options.rs','src/cli/conversion.rs','src/wasm.rs'],[('option resolution','src/options.rs'),('entry points','src/lib.rs, src/encode/mod.rs, src/decode/mod.rs, src/wasm.rs, src/cli/conversion.rs')],['public functions'])
prop('C11','Event streams are well formed and agree with the values',
 'The events of a decoded document or an encoded value form one complete value: containers nest and close, every object member is a key followed by exactly one value, and in strict mode an announced array length is the number of its items. The events of encoding a value equal the events of decoding its encoded text and build that value, a key being marked quoted exactly when it must be written with quotes.',
 ['inputs'],'generated values and options; generated, damaged and wild texts that decode',
 'Tests compare the events of a few documents; nesting and length guarantees are invariants of every stream.',
 ['src/encode/mod.rs','src/encode/encoders.rs','src/decode/decoders.rs','src/decode/event_builder.rs'],[('event emission','src/decode/decoders.rs, src/encode/mod.rs'),('builder','src/decode/event_builder.rs')],['encode_stream_events','try_decode_stream_sync'])
prop('C12','Asynchronous streams yield what the synchronous API gives',
 'Collected, the asynchronous decode stream gives the events of the synchronous decoder, and fails exactly when it fails; the asynchronous encoders give the lines, text and events of the synchronous ones. The stream of lines tells their number at any time. Every stream ends, yields nothing after its end or after an error, and the decode stream yields the leading simple fields of a document as their lines are read rather than at the end (also when a later line turns out to be at fault).',
 ['inputs','histories','configurations'],'documents that start with simple fields, any documents, damaged and wild texts, in both modes; any values and options including replacers',
 'The incremental path is a second decoder; the tests feed it a handful of documents and do not compare it with the first.',
 ['src/decode/async_decode.rs','src/encode/async_encode.rs'],[('incremental state machine','src/decode/async_decode.rs'),('line and event streams','src/encode/async_encode.rs')],['AsyncDecodeStream','AsyncEncodeStream','AsyncEncodeEventStream'])
prop('C13','A replacer sees each node once and shapes the output exactly',
 'The replacer is called first on the root with an empty key and path, then for each member in document order, parents before children, with its key (or index as text), its current value and its full path. What it returns is what is encoded: a changed value is descended into, an omitted member or item disappears with later items keeping their original indexes in paths, and an omitted root leaves the root as it was.',
 ['inputs','histories'],'generated values with replacers chosen at random per node (keep, omit, replace by primitives or containers, depending on key and path)',
 'Tests use single-purpose replacers on small objects; order, paths and descent into replaced values need a model of the whole traversal.',
 ['src/encode/replacer.rs','src/encode/normalize.rs'],[('traversal','src/encode/replacer.rs')],['encode with a replacer'])
prop('C14','JSON output is valid, complete and correctly laid out',
 'For every value both JSON printers (from events and from values) write valid JSON text that parses back to the value, on one line for indent zero and otherwise with the given indentation, with all control characters and quotes escaped. Event sequences that are not one complete value (mismatched, missing or surplus ends, values without keys, keys outside objects) are rejected by the printer and by the tree builder.',
 ['inputs','histories'],'generated values, indents 0..16; well-formed event sequences with one fault; random event sequences',
 'The printers are state machines over event histories; tests walk a few.',
 ['src/cli/json_stream.rs','src/cli/json_stringify.rs','src/decode/event_builder.rs'],[('streaming printer','src/cli/json_stream.rs'),('value printer','src/cli/json_stringify.rs'),('tree builder','src/decode/event_builder.rs')],['command-line JSON output'])
prop('C15','The command-line program converts as the library does',
 'For every input, option spelling and order, and input and output channel (file, standard input, standard output, output file, the same file), the program writes exactly the library result for those options followed by a newline, and exits with zero exactly when the library succeeds, whether or not its messages can be written to standard error. The direction is taken from the flags, else from the file extension in any case, else it encodes; JSON converted to TOON and back by the program is the same JSON value.',
 ['inputs','configurations'],'generated JSON and TOON inputs times options, spellings, channels and file names',
 'The program tests run some twenty fixed calls; the cross product of options, channels and names is not reached.',
 ['src/cli/mod.rs','src/cli/args.rs','src/cli/conversion.rs','src/main.rs'],[('argument parsing and mode detection','src/cli/args.rs'),('reading and writing','src/cli/mod.rs')],['toon program'])
prop('C16','A failing command-line call reports it and leaves outputs alone',
 'When the input is invalid, missing or not UTF-8, the arguments are wrong, or the output cannot be created or fully written, the program exits with a non-zero status, says why on standard error (the message of the library, or the file that cannot be read or written), writes nothing to standard output and does not crash, even when standard error cannot be written. If the input or the arguments are at fault, an existing output file is left untouched and none is created.',
 ['inputs','fault_sequences','configurations'],'invalid JSON and TOON of every kind, bad arguments, missing directories, full devices and file size limits, with and without an existing output file, also in place',
 'Only a few failures are tested, and none with an output file already there or with a write that fails late.',
 ['src/cli/mod.rs','src/cli/args.rs','src/main.rs','src/error.rs'],[('read before create','src/cli/mod.rs'),('exit status','src/main.rs'),('flush of the output file','src/cli/mod.rs')],['toon program'])
prop('C17','Results depend only on the input and the options',
 'Encoding or decoding the same input with the same options gives the same result every time, whatever was encoded or decoded before (successfully or not) and whatever other threads do at the same time. The same goes for calls from within a replacer and after one that panicked. Values passed in are not changed.',
 ['histories','schedules'],'random sequences of encode, decode, stream and failing calls, repeated in other orders and on eight threads at once',
 'Caches or scratch buffers shared between calls show only in particular call sequences or interleavings.',
 E_+D_,[('no shared state','src/encode, src/decode')],['encode','try_decode'])
prop('C18','Encoded text has clean, self-consistent lines',
 'Encoded text never has a trailing newline, trailing spaces, tabs in the indentation, blank lines or carriage returns, and every line is indented by a multiple of the indent, at most one level deeper than the structure allows. Strings with line breaks never break a line, and every array header announces the number of rows, items or cells that follow.',
 ['inputs','configurations'],'all values with strings of any characters, delimiters, indents, folding',
 'Stated by the format for every output; the tests look at specific outputs.',
 ['src/encode/encoders.rs','src/encode/primitives.rs'],[('line writer','src/encode/encoders.rs'),('escaping','src/shared/string_utils.rs')],['encode_lines'])
prop('C19','Re-encoding is stable',
 'Decoding any accepted text and encoding the result gives a text that decodes to the same value, and encoding that again gives the same text: one pass normalises a document and further passes change nothing. Changing only delimiter or indentation on the way does not change the value.',
 ['inputs','histories'],'generated, damaged and wild texts that decode; chains of conversions with random options',
 'A metamorphic relation over chains of conversions; the tests have none.',
 E_+D_,[('encoder and decoder together','src/encode, src/decode')],['encode','try_decode'])
prop('C20','Numbers outside JSON are normalised everywhere',
 'NaN and the infinities are encoded as null and negative zero as zero, wherever they occur, including in values that a replacer returns and in conversions from floating-point numbers. Converting a value to and from the common JSON value type keeps everything else (key order, strings, integers to the nearest double).',
 ['inputs'],'values with such numbers at any position, replacers that return them, integers around every representability edge',
 'The tests check the four numbers at the root.',
 ['src/lib.rs','src/encode/normalize.rs','src/encode/replacer.rs','src/encode/primitives.rs'],[('normalisation','src/encode/normalize.rs'),('conversions','src/lib.rs')],['encode','conversions'])
prop('C21','Decoding errors name the right line and counts',
 'When strict decoding rejects a document because of a blank line inside an array or bad indentation, the error names the line where it is (the first of them), counting from one and counting blank lines. Where a count is wrong, the message gives the declared and the actual count; where rows or list items follow the declared ones, the declared count at least.',
 ['inputs','fault_sequences'],'one fault at a random line of generated documents with blank lines before it',
 'Tests compare a few messages for faults near the top of small documents.',
 ['src/decode/scanner.rs','src/decode/validation.rs','src/error.rs'],[('line numbers','src/decode/scanner.rs'),('count messages','src/decode/validation.rs')],['error text'])
prop('C22','The statistics report the stated estimates and change nothing else',
 'With statistics asked for, the program writes the same output as without and reports on standard error, for the JSON input and the TOON output, the larger of a quarter of the non-whitespace characters (rounded down), the number of words, and one. The saving is reported, as tokens and as a percentage of the JSON estimate, exactly when there is one.',
 ['inputs','configurations'],'generated JSON inputs in compact, padded and indented layout, all encoding options and channels',
 'One or two inputs are tested, on the presence of the report only.',
 ['src/cli/mod.rs'],[('estimate and report','src/cli/mod.rs')],['toon program, standard error'])
LEVEL={}
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
TECH={
'C01':'property-based round-trip testing over generated values and options',
'C02':'property-based round-trip testing with folding and expansion',
'C03':'differential property-based testing against a reference encoder',
'C04':'enumeration of short strings plus property-based testing against a quoting model; round trip of doubles by bit pattern',
'C05':'property-based testing on documents known by construction and differential fuzzing against a reference decoder',
'C06':'structured fault injection into generated documents',
'C07':'metamorphic property-based testing between the two decoding modes',
'C08':'fuzzing with panic, processor-time and allocation monitors',
'C09':'property-based testing against a model of path expansion',
'C10':'differential property-based testing between entry points',
'C11':'invariant checking over generated event histories and differential testing',
'C12':'differential property-based testing of polled streams against the synchronous API',
'C13':'model-based property testing of the replacer call history',
'C14':'property-based round-trip testing of the printers and fault injection into event histories',
'C15':'differential property-based testing of the built program against the library',
'C16':'fault injection into generated calls of the built program',
'C17':'stateful property-based testing: call histories replayed in other orders and on threads',
'C18':'invariant checking over generated encodings',
'C19':'metamorphic property-based testing of conversion chains',
'C20':'metamorphic property-based testing with special numbers',
'C21':'structured fault injection with expected diagnostics',
'C22':'property-based testing of the built program against a model of the estimate',
}
NOTE='Search over generated inputs with an explicit oracle: it shows absence of a violation only on what was generated (counts, non-trivial rule and samples are in the evidence). Trusted: the generators, the reference models in harness/src, the Rust toolchain and serde_json.'
EXTRA={'C17':' Threads run freely; interleavings are sampled, not enumerated.',
'C12':' Streams are polled by one task; a pending poll must have woken it.',
'C08':' A call that uses over 15 s of processor time (a hundred times the slowest on the tree) fails, and a case that does not end is reported when on its own it twice uses over 60 s; memory is measured by a counting allocator.'}
man=dict(version=1,setup_cmd='./build.sh lib && ./build.sh cli && ./build.sh async',
 checks=[dict(property=p['id'],quick_cmd=f"./check.sh {p['id']}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
   technique=TECH[p['id']],level='exploration',level_note=NOTE+EXTRA.get(p['id'],'')) for p in P],
 not_applicable=[],
 notes='No hooks are needed: every property is observed through the public API (and the built program). Fix commits in /repo are listed in known-findings.txt.')
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(man,json.load(open('/root/.vp/MANIFEST.schema.json')))
for p in P: jsonschema.validate(p,json.load(open('/root/.vp/PROPERTIES.schema.json')))
