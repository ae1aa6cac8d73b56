PROPS = []
def P(id, title, statement, over, quant, why, files, mech, observe, technique=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe)
    if na: d['na'] = na
    else: d['technique'], d['note'] = technique, note
    PROPS.append(d)

P('P01', 'Tokenizing is total and loses no byte',
  'For every UTF-8 text the tokenizer ends, never panics, and yields tokens whose spans tile the text from the first byte to the last in order, each token carrying exactly the text of its span, with character boundaries respected. After the end it keeps reporting the end, and the lexemes built on the tokens have in-range, ordered spans and come out the same on every run.',
  ['inputs'], 'every UTF-8 text: token soup, arbitrary characters, well-formed documents and edited documents',
  'The existing tests tokenize a few dozen hand-written snippets; the guarantee is about every text, most of which are malformed.',
  ['crates/styx-tokenizer/src/tokenizer.rs', 'crates/styx-parse/src/lexer.rs'],
  [('hand-written tokenizer with heredoc state', 'Tokenizer::next_token'), ('lexer grouping tokens into lexemes', 'Lexer::next_lexeme')],
  ['Tokenizer::next_token', 'Lexer::next_lexeme', 'styx tokens'],
  'property-based testing: structured text generators, tiling invariant over the token sequence, shrinking',
  'Random search over texts up to a few hundred bytes (and repeated units to 60 kB); trusts the invariant checker in harness/src/props/lang.rs.')

P('P02', 'The event parser is total and its event stream is well nested',
  'For every UTF-8 text, in document and in expression mode, parsing ends without panicking and with a number of events linear in the text, the events bracket properly (document, object, sequence, tag, entry), and every event span lies in the text on character boundaries. Parsing is a pure function of the text: a second run, a clone taken in the middle of a run, and the whole-vector interface give the same events.',
  ['inputs'], 'every UTF-8 text nested less deep than the stack allows, in both parser modes',
  'Unit tests check event lists of selected snippets; error recovery paths combine in ways no list of snippets covers.',
  ['crates/styx-parse/src/parser/mod.rs', 'crates/styx-parse/src/lexer.rs', 'crates/styx-parse/src/events.rs'],
  [('pull parser state machine and event queue', 'Parser::next_event'), ('one-slot lexeme stash', 'LexemeSource')],
  ['Parser::next_event', 'Parser::parse_to_vec', 'Parser::new_expr'],
  'property-based testing / fuzzing: generated texts against a bracket-and-span automaton over the event history',
  'Random search; nesting up to a few hundred levels (deeper input overflows the stack: known finding).')

P('P03', 'Every spelling of a document parses to exactly that document',
  'For every abstract document and every concrete spelling of it (bare, quoted, raw or heredoc scalars; newline or comma separators; attributes or braces; dotted paths; comments; CRLF; implicit or explicit root), parsing reports no error and yields exactly the intended entries: same keys, values, nesting, order, scalar kinds, doc comments and source spans. The tree API agrees with the event stream.',
  ['inputs'], 'every finite document built from scalars, units, tags, sequences and objects, times every choice of concrete syntax the renderer knows',
  'Goldens fix about a hundred documents; the syntax choices multiply (kind of scalar x position x separator x line ending x nesting).',
  ['crates/styx-tokenizer/src/tokenizer.rs', 'crates/styx-parse/src/lexer.rs', 'crates/styx-parse/src/parser/mod.rs', 'crates/styx-tree/src/builder.rs', 'docs/content/reference/spec/parser.md'],
  [('lexing of scalars, escapes, heredoc dedent', 'Lexer::next_lexeme'), ('entry and path assembly', 'Parser'), ('event to tree', 'TreeBuilder')],
  ['Parser::next_event', 'styx_tree::parse', 'styx_tree::Document::parse'],
  'property-based testing: generate abstract document, render in random concrete syntax, compare with the reference tree (model-based oracle)',
  'The renderer is an independent reading of the specification; constructs with recorded known defects (nested dotted keys, chained tags in the tree) are left out of the tree comparison and counted.')

P('P04', 'Malformed documents are rejected, with the error at the fault',
  'A document holding a construct the language forbids (duplicate or reopened or conflicting key or path, excess atoms, unclosed or stray delimiter, comma in a sequence, bad escape, tag name, heredoc delimiter, key, attribute, dangling doc comment, content after an explicit root) is never accepted by the event parser or the tree API, wherever in a document the construct appears. For a locatable fault an error span touches the construct, and the error is of the kind of the construct (a duplicate key is not reported as an unclosed object). The error for a repeated key names the first definition of that key, and the one for a reopened path or one leading through a value names the closed or terminal path.',
  ['inputs'], 'every malformed construct of a table of about 130 patterns, planted at every kind of place in every generated document',
  'Tests place each malformed construct in one fixed, mostly minimal document.',
  ['crates/styx-parse/src/parser/mod.rs', 'crates/styx-parse/src/lexer.rs', 'crates/styx-tree/src/builder.rs'],
  [('key and path bookkeeping', 'PathState'), ('lexer errors', 'Lexeme::Error'), ('error events', 'ParseErrorKind')],
  ['Parser::next_event', 'styx_tree::parse'],
  'property-based testing: mutation of well-formed documents by planting known-malformed constructs; must-reject oracle',
  'Covers the forbidden constructs of the table; the absence of false rejections is P03.')

P('P05', 'The syntax tree is lossless and has the shape of the document',
  'For every text the concrete syntax tree reproduces the text byte for byte, its tokens tile it, and its diagnostics lie inside it. For every well-formed document it reports no error, and its nodes spell exactly the document: same entries, keys, values, nesting, doc comments and ranges as the document has.',
  ['inputs'], 'every UTF-8 text for losslessness; every generated document and spelling for shape',
  'Tests check a handful of snippets; editors, the formatter and the language server rely on it for any text at any moment of editing.',
  ['crates/styx-cst/src/parser.rs', 'crates/styx-cst/src/ast.rs', 'crates/styx-cst/src/validation.rs', 'crates/styx-cst/src/syntax_kind.rs'],
  [('recovering parser building a rowan green tree', 'CstParser'), ('validation', 'validate')],
  ['styx_cst::parse', 'styx_cst::validate', 'styx cst'],
  'property-based testing: round-trip (tree to text) on arbitrary text; model-based comparison of node structure on generated documents',
  'Random search; structure compared through kinds, tokens and ranges.')

P('P06', 'Formatting a document preserves everything but its layout',
  'For every document the parser accepts, the source formatter under any indentation gives a document that is accepted too, ends with a line break, means the same (keys, values, order, scalar contents and kinds, tags, doc comments), and holds the same significant tokens in the same order, comments included. A document with syntax errors is returned unchanged.',
  ['inputs'], 'every generated document with comments in random layout, every accepted arbitrary text, every indentation option',
  'Tests compare snapshots of about a hundred documents; layout, comments, separators, tags and heredocs combine freely.',
  ['crates/styx-format/src/cst_format.rs', 'crates/styx-cst/src/parser.rs', 'crates/styx-cst/src/ast.rs', 'crates/styx-format/src/options.rs'],
  [('CST walk writing entries, objects, sequences and comments', 'CstFormatter'), ('single-line or block decision', 'contains_block_object')],
  ['styx_format::format_source', 'styx FILE', 'textDocument/formatting'],
  'property-based testing: metamorphic relation (same meaning, same significant tokens before and after) and comparison with the generating model',
  'Documents the parser rejects but the syntax tree tolerates are outside the relation: the formatter drops their excess values (known finding P06).')

P('P07', 'Formatting twice changes nothing more',
  'For every text that is well-formed, and for every text with syntax errors, formatting the output of the source formatter with the same options gives that output again.',
  ['inputs'], 'every generated document, every accepted arbitrary text, every broken text, every indentation option',
  'Idempotence over all layouts cannot be sampled by a list of snapshots: each rule for blank lines and blocks reads the layout the previous pass wrote.',
  ['crates/styx-format/src/cst_format.rs', 'crates/styx-cst/src/ast.rs'],
  [('blank-line and block rules', 'CstFormatter::format_document'), ('single-line or block decision', 'contains_block_object')],
  ['styx_format::format_source', 'styx --in-place', 'textDocument/formatting'],
  'property-based testing: idempotence f(f(x)) = f(x) on generated documents and arbitrary text',
  'Random search over layouts; texts with no syntax error that the parser rejects for another reason are left out.')

P('P08', 'Writing a value and parsing the text gives the value back',
  'For every value tree (objects with any keys, tags, scalars with any text, sequences, units, doc comments) and every combination of format options, the value formatter writes a text that the parser accepts, that ends as configured, and that parses back to exactly that value: same keys, order, scalar contents, tags, nesting and doc comments. The same holds for the writer API driven directly by any well-nested sequence of calls.',
  ['inputs'], 'every finite value tree with arbitrary Unicode text in keys and scalars; every option combination (indent, width, inline threshold, heredoc threshold, compact)',
  'Snapshot tests format selected trees; whether a text needs quotes, a raw string or a heredoc depends on content, width, position and options together.',
  ['crates/styx-format/src/value_format.rs', 'crates/styx-format/src/writer.rs', 'crates/styx-format/src/scalar.rs', 'crates/styx-format/src/options.rs'],
  [('value tree walk', 'format_value'), ('writer: separators, quoting, heredocs, inline or block', 'StyxWriter'), ('scalar classification', 'can_be_bare')],
  ['styx_format::format_value', 'styx_format::format_object_braced', 'StyxWriter'],
  'property-based testing: round trip value -> text -> value on generated trees under generated options',
  'Tagged scalars are written as one-element sequences (known finding) and are left out of the random trees under the default path.')

P('P09', 'Typed values survive writing and reading with facet-styx',
  'For every value of every supported type (integers to 128 bits, floats, booleans, characters, any text, options, sequences, maps, tuples, nested and recursive structs, enums with unit, newtype, tuple and struct variants, renamed and defaulted fields), under any formatting options, in document, compact and expression mode, facet-styx writes a well-formed document that means the value and reads it back equal. Whatever spelling a document uses (order of fields, kind of scalar, layout, attributes, dotted paths, doc comments, optional fields left out, unknown fields, an @schema declaration), reading it gives the value it spells.',
  ['inputs', 'configurations'], 'every value of the type family, every formatting option and every spelling of its document',
  'Tests round-trip a few fixed values; text and numbers at the edges, enum payloads in every position and every spelling multiply beyond any list.',
  ['crates/facet-styx/src/serializer.rs', 'crates/facet-styx/src/parser.rs', 'crates/styx-format/src/writer.rs', 'crates/styx-format/src/scalar.rs'],
  [('serializer over the writer', 'StyxSerializer'), ('event adapter', 'StyxParser::convert_event')],
  ['facet_styx::to_string', 'facet_styx::to_string_with_options', 'facet_styx::to_string_compact', 'facet_styx::peek_to_string_expr', 'facet_styx::from_str', 'facet_styx::from_str_expr'],
  'property-based testing: typed value generators, round-trip through text, and reading of randomly spelled documents against the value they were made from',
  'A fixed family of 15 derive types; None outside a tag is written as @, which facet-styx does not read back (known finding), so such values are only checked as written.')

P('P10', 'Typed values survive writing and reading with serde_styx',
  'For every value of every supported type (the family of P09 through serde), under any formatting options and in compact mode, serde_styx writes a well-formed document that means the value and reads it back equal, None included. Whatever spelling a document uses, reading it gives the value it spells; read without a known type, a bare scalar is a boolean, null, integer, float or text by its content, and every other kind of scalar is text.',
  ['inputs', 'configurations'], 'every value of the type family, every formatting option and every spelling of its document',
  'The serde tests cover a few flat structs; enums, heredocs, attributes, paths and quoting had no test at all.',
  ['crates/serde_styx/src/ser.rs', 'crates/serde_styx/src/de.rs', 'crates/styx-format/src/writer.rs'],
  [('serde serializer over the writer', 'serde_styx::Serializer'), ('serde deserializer over parser events', 'serde_styx::Deserializer')],
  ['serde_styx::to_string', 'serde_styx::to_string_with_options', 'serde_styx::to_string_compact', 'serde_styx::from_str'],
  'property-based testing: typed value generators, round-trip through text, reading of randomly spelled documents, untyped reading against a reference conversion',
  'A fixed family of 16 derive types and serde_json::Value.')

P('P11', 'facet-styx and serde_styx agree',
  'For every typed value, facet-styx and serde_styx write the same text under the same options. For every text, well-formed or not, that both read into a type they read the same value, and a text with a syntax error is read by neither.',
  ['inputs', 'configurations'], 'every value of the type family under every option, and every text near a document of the type',
  'The compatibility tests compare a handful of fixed flat values.',
  ['crates/facet-styx/src/serializer.rs', 'crates/serde_styx/src/ser.rs', 'crates/serde_styx/src/de.rs', 'crates/facet-styx/src/parser.rs', 'crates/styx-compat-tests/src/lib.rs'],
  [('two front ends over one writer', 'StyxWriter'), ('two adapters over one event parser', 'StyxParser / Deserializer')],
  ['facet_styx::to_string', 'serde_styx::to_string', 'facet_styx::from_str', 'serde_styx::from_str'],
  'property-based testing: differential testing of the two implementations on generated values and damaged documents',
  'Where only one of them converts (unit to a number or text, tagged keys) acceptance is not compared, only syntax errors are.')

P('P12', 'A scalar means what the target type makes of its text, or is rejected',
  'Whatever its spelling (bare, quoted, raw, heredoc), a scalar read into a number, boolean, character or text type gives exactly the value its text denotes in that type: integers of every width to their limits, floats correctly rounded. A text the type cannot hold (out of range, wrong syntax, more than one character) is rejected, never wrapped, truncated or rounded. facet-styx and serde_styx alike.',
  ['inputs'], 'every scalar text and spelling for every primitive type',
  'Tests read a few small numbers; overflow and rounding appear only at the limits of each width.',
  ['crates/facet-styx/src/parser.rs', 'crates/serde_styx/src/de.rs', 'crates/styx-parse/src/lexer.rs'],
  [('scalar conversion', 'StyxParser::parse_scalar'), ('scalar parsing', 'Deserializer::parse')],
  ['facet_styx::from_str', 'serde_styx::from_str'],
  'property-based testing: texts generated around the limits of each type, in random spelling, against the reference conversion of the text',
  'Reference conversion is Rust FromStr of each primitive type.')

P('P13', 'Schema validation accepts exactly the documents that conform',
  'For every schema (objects with optional, defaulted, deprecated, flattened and catch-all fields, sequences, tuples, maps, unions, enums, one-of, constrained strings, integers and floats, recursive named types) and every document, validation reports an error exactly when the document does not conform to what the schema language says, with an error of the right kind and the path of the offending value. The verdict does not depend on how schema or document are spelled, is the same every time the schema is read, and validation never crashes, however schema and document are malformed.',
  ['inputs'], 'every schema, every document and every spelling of both',
  'Tests validate a few fixed pairs; constraints, nesting of schema constructors and recursion combine without bound.',
  ['crates/facet-styx/src/schema_validate.rs', 'crates/facet-styx/src/schema_types.rs', 'crates/facet-styx/src/schema_error.rs'],
  [('validator', 'Validator::validate_value'), ('schema types', 'Schema / SchemaFile')],
  ['facet_styx::validate', 'facet_styx::from_str::<SchemaFile>', 'facet_styx::to_string'],
  'property-based testing: generated schemas with conforming and mutated documents against an independent reference validator',
  'Where the specification is silent (tagged payloads of untagged types, integers beyond 128 bits, unit map keys, conflicting flattened fields) any verdict is allowed. Known findings: pattern is not enforced, literal schemas cannot be read.')

P('P14', 'The schema generated from a type describes its documents',
  'For every supported type (generics, recursion, types sharing a name, tuples, flattened structs and maps, defaults, options, enums of every payload), the schema facet-styx generates reads back from its text, keeps documentation and default values, accepts every document that facet-styx writes for a value of the type or that spells one, and rejects documents with a part of the wrong shape, an unknown variant or a missing field that the type cannot be read from.',
  ['inputs'], 'every value of the type family and every mutation of its document',
  'Tests look for words in the generated text of a few flat types; whether it accepts exactly the values of the type needs values.',
  ['crates/facet-styx/src/schema_gen.rs', 'crates/facet-styx/src/schema_types.rs', 'crates/facet-styx/src/schema_validate.rs'],
  [('schema generator', 'SchemaGenerator'), ('schema types', 'Schema / SchemaFile')],
  ['facet_styx::schema_from_type', 'facet_styx::schema_file_from_type', 'facet_styx::validate', 'facet_styx::to_string'],
  'property-based testing: typed values, their written and spelled documents and mutants of them, against the generated schema (differential with the typed reader)',
  'A fixed family of 30 types. Not finite floats, integers beyond 128 bits signed and chained tags have no schema value and are left out; array lengths are not part of a schema.')

P('P15', 'Language server answers fit the text that the editor shows',
  'For every history of opening, changing and closing documents of any content, the language server answers every request without crashing, from the current text alone; every range it sends lies in that text, counted in UTF-16 units as the protocol demands. A text the parser rejects gets an error diagnostic, a well-formed one gets none. Semantic tokens (and terminal highlighting) never overlap or cross lines and mark each comment, doc comment, key, scalar, tag and heredoc marker as what it is and nothing else; the outline lists the entries of the document, nested as they are, with their kinds and places; new lines are indented by the number of containers around the cursor; formatting edits turn the text into exactly what the formatter gives.',
  ['inputs', 'histories'], 'every text, every history of documents, every position',
  'Tests use short ASCII documents, which hide offsets in bytes or characters, and one state of one document.',
  ['crates/styx-lsp/src/server.rs', 'crates/styx-lsp/src/semantic_tokens.rs', 'crates/styx-lsp/src/extensions.rs'],
  [('language server', 'StyxLanguageServer'), ('semantic tokens', 'compute_semantic_tokens / compute_highlight_spans'), ('outline', 'collect_document_symbols')],
  ['LanguageServer requests over JSON-RPC', 'styx_lsp::compute_highlight_spans'],
  'stateful property-based testing: the server driven in process over JSON-RPC through generated histories, its answers compared with a model of the document and with a fresh server',
  'Extensions, code actions, references and execute_command are only checked for answering with ranges in the document; external processes are not started.')

P('P16', 'Language server follows the schema of the document',
  'For every document that declares a schema file, the published diagnostics are exactly the errors and warnings of schema validation, at their places and linked to the schema; the declaration links to the schema file; hovering a key shows the documentation, the path and the type that the schema declares for that path (through named types, optional, defaulted, deprecated and flattened types, sequence items, map values and catch-alls), nothing for an undeclared key, and the link and go-to-definition lead to that declaration; completion in an object offers exactly the declared fields it lacks. Schemas that are damaged or refer to themselves never crash or hang the server.',
  ['inputs'], 'every schema and every document, at every key',
  'Tests look up a handful of fixed paths in fixed schemas; same-named fields at several places, wrappers and recursion are not among them.',
  ['crates/styx-lsp/src/server.rs', 'crates/styx-lsp/src/schema_validation.rs'],
  [('schema lookup', 'get_field_info_from_schema'), ('completion fields', 'get_schema_fields_at_path'), ('diagnostics', 'StyxLanguageServer::compute_diagnostics')],
  ['LanguageServer requests over JSON-RPC'],
  'property-based testing: generated schemas and documents, the server in process over JSON-RPC, answers compared with a walk of the generated schema and with the validator',
  'Keys inside enums, unions, tuples and tagged chains are only checked for being answered. Completion is checked in untagged objects outside sequences; how it quotes inserted names is not.')

P('P17', 'The styx command does what its options say and nothing else',
  'For every input file, standard input and combination of a single output option, the command reports success exactly when the input is a well-formed document and the output can be written, with the documented exit codes (1 syntax or usage, 2 validation, 3 input or output); it writes exactly the formatted document (or, with --json-out, JSON with the meaning of the document) to the place asked for, changes no other file, never writes over its input except with --in-place, and leaves every file untouched when it fails. --validate decides by the schema given with --schema, else by the one the document declares: a path relative to the document or the schema with the declared id in a binary on the PATH. The inspection commands print what the libraries see.',
  ['inputs', 'configurations'], 'every input, every way of naming it, every output option and target, every schema source',
  'The command has hardly any tests, and those run it on a few fixed files; the interplay of option, target, input and failure is where data is lost.',
  ['crates/styx-cli/src/main.rs'],
  [('file mode', 'run_file_first'), ('schema sources', 'load schema from path or binary'), ('JSON output', 'value_to_json')],
  ['styx FILE [options]', 'styx tree|events|tokens|lexemes|cst FILE'],
  'property-based testing: the built command run in a scratch directory on generated files and options, its exit code, output and the whole directory compared with a model',
  'Runs that combine several output options, `--json-out` over the input, network subcommands, completion scripts and terminal colours are not covered; validation verdicts and formatting are those of the libraries, which P06, P07 and P13 decide.')

P('P18', 'Schemas embedded in a binary come out intact, and nothing else does',
  'For every file, extraction never crashes and never returns a schema that was not embedded; every intact embedded schema (current and legacy layout) comes out exactly as embedded, in order, whatever surrounds it, damaged schemas included, and whether the file is raw bytes or an ELF, Mach-O, universal or PE file with a schema section. Each embedding macro embeds exactly the text its string literal or file holds, for every literal syntax of Rust and every schema with an id, any number of schemas per program.',
  ['inputs'], 'every file content and object layout, every schema text, every string literal',
  'Tests extract two or three short schemas from buffers made by the same code; object files, damage and literal escapes are untested.',
  ['crates/styx-embed/src/lib.rs', 'crates/styx-embed-macros/src/lib.rs'],
  [('extraction', 'extract_schemas / extract_schemas_from_object'), ('macros', 'embed_inline / embed_file / embed_files / embed_outdir_file')],
  ['extract_schemas', 'extract_schemas_from_object', 'extract_schemas_from_file', 'the embedding macros'],
  'property-based testing: generated files with intact, damaged and fake schemas and generated programs compiled with rustc, what comes out compared with what went in',
  'Object files are written by a small writer in the harness (ELF 32/64 and both byte orders, Mach-O 32/64, universal, PE32+); compiled programs are ELF only.')

P('P19', 'The Go, JavaScript and Python parsers agree with the Rust one',
  'For every well-formed document without chained tags, the parsers in Go, JavaScript and Python give the tree that the Rust parser gives: the same entries in the same order, with dotted paths and attributes expanded alike, the same texts, scalar kinds and tags, and the same byte spans except for tagged keys. Every malformed construct the language has a rule against (dangling doc comments excepted) is refused by all of them, and any text at all ends in a tree or an error, never in a crash or an endless loop.',
  ['inputs'], 'every document, every malformed construct and every text',
  'The ports are only compared on the sixty-odd files of the compliance corpus, each about one construct; how constructs combine, and damaged text, is not in it.',
  ['implementations/styx-go/parser.go', 'implementations/styx-go/lexer.go', 'implementations/styx-js/src/parser.ts', 'implementations/styx-js/src/lexer.ts', 'implementations/styx-py/styx/parser.py', 'implementations/styx-py/styx/lexer.py'],
  [('Go parser', 'Parse'), ('JavaScript parser', 'parse'), ('Python parser', 'parse')],
  ['Parse / parse of each port', 'styx_tree::parse'],
  'property-based testing: differential, generated documents and planted errors given to all three ports and the Rust parser, trees compared node by node',
  'The ports run as separate processes fed line by line. Dotted keys inside nested objects, doc comments, lone carriage returns and texts only some of the parsers refuse are known to differ and are left out.')

P('P20', 'Values are found and changed by path as in the maps and lists they stand for',
  'For every document and every path made of keys and indices (keys without dots and brackets), looking the path up in a tree or document, at once or step by step, for reading or for changing, finds exactly the value the document has there, however the document spells it (nested objects, attributes, sibling dotted paths), and nothing where the document has none. After any history of insertions, replacements, pushes and retaggings the tree holds exactly the values of an ordered map and list edited alike, with untouched entries, their order and comments kept, and every accessor (kind, length, keys, items, texts, tags) agrees with it.',
  ['inputs', 'histories'], 'every document, path and history of edits',
  'Tests look up two or three fixed paths; the interplay of spelling, tags, unit keys, repeated prefixes and earlier edits is not sampled.',
  ['crates/styx-tree/src/value.rs', 'crates/styx-tree/src/lib.rs'],
  [('path lookup', 'Value::get'), ('document lookup', 'Document::get'), ('edits', 'Object::insert')],
  ['Value::get / get_mut', 'Document::get', 'Object and Sequence methods', 'Value::with_joined_paths'],
  'property-based testing: stateful, generated documents and histories of lookups and edits against a model of ordered maps and lists',
  'A path that several sibling dotted paths share names several partial objects in the tree; which of them it finds is not checked. Chained tags are left out (the tree keeps one).')

P('P21', 'C programs see the same document and own what they get',
  'For every text without NUL, a C program built with the header and the shared library gets a document exactly when the Rust parser accepts the text, otherwise an error message; walking the document by index, by key and by path shows it the same entries, tags, kinds and texts in the same order; null pointers, bad UTF-8, indices past the end and paths to nowhere give the documented empty answers; and when everything it was given is freed, no memory remains in use.',
  ['inputs', 'resources'], 'every text and every path',
  'The C interface has no tests at all but two example programs.',
  ['crates/styx-ffi/src/lib.rs', 'crates/styx-ffi/include/styx.h'],
  [('C entry points', 'styx_parse'), ('header', 'styx.h')],
  ['the functions of styx.h, from a C program'],
  'property-based testing: generated documents and texts read by a C program through the shared library, its dump compared with the model and its memory use with that before',
  'The C program is built with gcc against the debug library; freed memory is overwritten (MALLOC_PERTURB_) so that use after free shows. Texts holding NUL cannot pass through C strings.')

P('P22', 'Formatted text is laid out by its nesting and style',
  'For every well-formed document and every indentation, the source formatter starts each line with exactly the indentation of its nesting (one step deeper than the line on which the enclosing bracket was opened; a closing bracket level with that line), leaves no trailing, doubled or tabbed spaces between tokens, and no blank lines at the start, at the end, next to a bracket or twice in a row. The value formatter keeps the same rules for every value and option; with the inline style nothing inside brackets breaks the line (heredocs aside), with the multiline style every entry of an object starts a line.',
  ['inputs', 'configurations'], 'every document or value, every indentation, width, threshold and style',
  'Tests compare a few dozen snapshots; layout depends on how constructs nest and where comments and long texts stand.',
  ['crates/styx-format/src/cst_format.rs', 'crates/styx-format/src/writer.rs', 'crates/styx-format/src/value_format.rs'],
  [('source formatter', 'format_source'), ('value formatter', 'format_value'), ('options', 'FormatOptions')],
  ['format_source', 'format_value', 'styx FILE'],
  'property-based testing: generated documents and values formatted under random options, every line of the output checked against layout rules',
  'Where the formatter chooses between one line and several (widths, thresholds) is not specified and not checked; doc comments in the inline style are left out.')
P('P23', 'The typed syntax tree and its warnings tell what the document says',
  'For every well-formed document, walking the concrete syntax tree through its typed wrappers (Document, Object, Sequence, Entry, Key, Value, Scalar, Heredoc, Tag) gives the keys, decoded texts, scalar kinds, doc comments in order, elements and spans of the document; looking a key up finds its first entry in whatever spelling. Validating the tree warns of exactly the keys that repeat an earlier text key of their object, at the repeated key, and of exactly the objects with both commas and newlines between their entries.',
  ['inputs'], 'every well-formed document, with or without repeated keys',
  'Tests call an accessor or two on one-line documents; decoding and order depend on the spelling of each part.',
  ['crates/styx-cst/src/ast.rs', 'crates/styx-cst/src/validation.rs', 'crates/styx-cst/src/parser.rs'],
  [('text of a scalar', 'text_content'), ('entries of an object', 'Object'), ('warnings', 'validate')],
  ['styx_cst::parse', 'Document::cast', 'styx_cst::validate'],
  'property-based testing: generated documents read through the typed wrappers and compared with the model tree that they were written from; warnings compared with a model over the tree and its tokens',
  'Attribute objects have no wrapper of their own and are read as nodes; repeated tag and unit keys, and repeated keys of attribute objects and of dotted paths, are not claimed to be reported.')
P('P24', 'Spans, doc comments and tags arrive next to typed values, and are written back',
  'For every document of a type with metadata containers (facet_styx::Documented, or a container with span, doc and tag fields) around its fields, elements, map keys and map values, reading gives each container the decoded value, the span of exactly the text of that value (tag included) or key, the lines of the doc comment before its entry, and the tag. What was read, written with any options (on one line doc comments are left out) and read again, has the same values, doc comments and tags.',
  ['inputs', 'configurations'], 'every document that conforms to such a type, in every spelling',
  'Tests give a container one value at a time in one spelling; metadata is lost or misplaced depending on what stands around it.',
  ['crates/facet-styx/src/parser.rs', 'crates/facet-styx/src/serializer.rs', 'crates/facet-styx/src/schema_types.rs'],
  [('reading', 'StyxParser'), ('writing keys', 'emit_field_key'), ('containers', 'Documented')],
  ['facet_styx::from_str', 'facet_styx::to_string', 'facet_styx::to_string_compact'],
  'property-based testing: documents generated from the types with known spans, docs and tags; what is read is compared with them, and with what is read after writing',
  'Doc comments of values inside an Option or of a map with plain string keys are dropped by facet-format itself and not claimed; None is not written and read back (known finding of P09).')
P('P25', 'Rendered errors show the place and text that they are about',
  'For every text, every syntax error (styx_tree::ParseError), every error of reading it into a type and every error and warning of validating it renders without a crash to a report that names the file, the line and the column (in characters) where the span of the error starts, shows that line and marks exactly the characters of the span in it. A duplicate key report stands at the repetition and also marks the first definition. An error of reading for a scalar that does not fit its type, or for an unknown field, stands at the faulty key or scalar, or at what comes right before it. A result renders all of its errors and warnings. With NO_COLOR set, reports of reading and validation have no escape codes.',
  ['inputs'], 'every text, every error at every place in it',
  'Tests compare a few snapshots of short ASCII texts; where an error lies in the text decides whether it is shown right.',
  ['crates/styx-tree/src/diagnostic.rs', 'crates/facet-styx/src/error.rs', 'crates/facet-styx/src/schema_error.rs'],
  [('syntax errors', 'write_report'), ('reading', 'build_deserialize_error_report'), ('validation', 'build_report')],
  ['ParseError::render', 'RenderError::render', 'ValidationResult::render'],
  'property-based testing: generated malformed, damaged and non-conforming documents; place, line and marks of each report recomputed from the span of the error',
  'Texts with line ends other than LF and CRLF are only checked for crashes; marks are checked on lines whose characters are one column wide. Whether the span itself is right is claimed by P04 and P13.')
P('P26', 'A schema release is numbered by what it changes, and released unchanged',
  'For every two versions of a schema, styx diff and styx publish list each change made to a type, field, variant, union member or limit once, as breaking, additive or patch by the rules of docs/design-grammar-publishing.md; whenever some document is valid under the old version only the change is major, and whenever one is valid under the new version only it is at least minor; files alike show no change. The next version follows from that (0.x: breaking bumps minor), a crate is published only with a token, a crate name, a change and consent, and holds the schema byte for byte, as does the crate that styx package writes. Failures (registry, archive, either schema) end with the documented codes, nothing published and nothing left behind; names and versions never run as commands.',
  ['inputs', 'faults'], 'every two schemas, every state of the registry, every name, version and answer',
  'These commands have no tests: they need a registry, and their verdict is a relation between two schemas and all documents.',
  ['crates/styx-cli/src/main.rs'],
  [('comparing schemas', 'compare_schemas'), ('version numbers', 'calculate_next_version'), ('publishing', 'run_publish'), ('packaging', 'run_package')],
  ['styx diff', 'styx publish', 'styx package'],
  'property-based testing: generated schemas and labelled changes to them, a stand-in registry with injected faults; reports compared with the labels and with how generated documents validate under both versions',
  'Open and not checked against documents: changes of types whose fields are flattened into others, new fields beside a catch-all, payloads of variants (an enum takes bare values too). Changes that the rules do not list may be called breaking.')
P('P27', 'The WebAssembly bindings report and convert documents faithfully',
  'For every text, parse, validate and to_json of styx-wasm agree on whether it is well formed, and parse gives one diagnostic per syntax error with its span. For every well-formed document to_json answers JSON with the entries, elements, tags and texts of the document in order, where only bare scalars may become numbers, booleans or null and unit becomes null; the object it returns is what JSON.parse makes of the text it returns. For every JSON object from_json answers a well-formed document that to_json turns back into the same JSON (scalars have no type: a text that reads as a number or word may come back as that); malformed JSON and roots that are no objects are refused.',
  ['inputs'], 'every text, every well-formed document, every JSON object',
  'The bindings have no tests; the playgrounds convert whatever is typed into them both ways.',
  ['crates/styx-wasm/src/lib.rs'],
  [('diagnostics', 'parse'), ('to JSON', 'payload_to_json'), ('from JSON', 'json_to_value')],
  ['parse', 'validate', 'to_json', 'from_json'],
  'property-based testing: the bindings built natively with stand-ins for the JavaScript host; generated documents compared with the model, generated JSON round-tripped, any text differentially against the parser',
  'The stand-ins (harness/web) keep what wasm-bindgen and serde-wasm-bindgen do with plain data; the WebAssembly build itself does not run here. Left open: keys that are tagged texts or collide in JSON, chains of tags, texts right below a tag (known finding of P08).')
