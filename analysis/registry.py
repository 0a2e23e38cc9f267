"""The properties, and how each is decided. tools/gen.py writes properties.jsonl and MANIFEST.json from this file."""
TRUST = 'rustc nightly front end (type checking, MIR construction, trait resolution); the fact dumper in /verif/driver; ' \
        'the abstract interpreter and its models of std functions in /verif/analysis'
PROPS = {}


def prop(id, title, statement, over, text, why, files, mechanism, module=None, fn='run', level='proof', technique=None,
         note=None, explanation=None, na=None, assumptions=None, observe=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                     mechanism=mechanism, module=module, fn=fn, level=level, technique=technique, note=note,
                     explanation=explanation or note, na=na, assumptions=assumptions, trusted=TRUST, observe=observe)


HE = 'crates/hcl-edit/src/'
HR = 'crates/hcl-rs/src/'
HP = 'crates/hcl-primitives/src/'

prop('P01', 'No whitespace or comment is lost between parsing and the parsed document',
     'Every piece of whitespace and every comment which parsing attaches to a node of the editable document is available '
     'as exactly that text of the source once parsing has returned, for every kind of node and every nesting. No node '
     'keeps a mere reference to a source position which would later be printed as nothing or as a default.',
     ['inputs'], 'every document, expression and template accepted by the parser',
     'The round-trip tests compare a handful of documents; a node kind whose comments are lost only shows with a comment '
     'at exactly that place (for instance before a binary operator or inside a traversal), and there are about forty places.',
     [HE + 'raw_string.rs', HE + 'repr.rs', HE + 'parser/mod.rs', HE + 'expr', HE + 'structure', HE + 'template'],
     [('per-node despan methods which replace spans by text', HE + 'expr/mod.rs, structure/*.rs, template/mod.rs, repr.rs'),
      ('despan of the result of every parse entry point', HE + 'parser/mod.rs')],
     module='p_despan', technique='must-consume dataflow over MIR, obligations derived from type layouts',
     note='On every path of each resolution method every constituent that can hold captured text is resolved with the same '
          'source; the leaf stores exactly the text at the captured range; every str->document entry point resolves its '
          'result. Which trivia the grammar captures in the first place is the subject of P02.')

prop('P02', 'Printing a parsed document reproduces its tokens',
     'Parsing a document, expression or template and printing the result unmodified yields the same sequence of tokens, '
     'whitespace and comments as the source, each once and in its place, for every construct of the grammar. Outside of '
     'this are the spelling of line endings (CRLF), the spelling of escape sequences inside of strings, the indentation of '
     'indented heredocs, and objects which repeat a key.',
     ['inputs'], 'every document, expression and template accepted by the parser',
     'The grammar has thousands of combinations of optional parts and places for trivia; the tests sample a few dozen, and '
     'a misplaced or dropped piece of trivia shows only in the one combination which has it.',
     [HE + 'parser', HE + 'encode', HE + 'repr.rs'],
     [('grammar productions and their semantic actions', HE + 'parser/{expr,structure,template,state,repr}.rs'),
      ('encoders', HE + 'encode/{expr,structure,template,mod}.rs')],
     module='p_rt', level='other',
     technique='abstract interpretation of parser and printer over symbolic token streams, induction over productions',
     note='Each of 24 productions is interpreted on symbolic tokens with its sub-productions opaque, then the resulting tree '
          'is run through the printer; the two token sequences must agree on every path. Repetitions are unrolled up to two '
          'rounds. Operator precedence climbing is covered by P06, string contents by P07, resolution of spans by P01.')

prop('P03', 'Visitors reach every child of every node',
     'The default traversal of the read-only and of the mutable visitor hands every child of a visited node which has a '
     'visit method to exactly that method, once, whatever the shape of the node. The only exceptions are attribute keys '
     'and object keys, which the mutable visitor never hands out because they must stay unique.',
     ['programs', 'inputs'], 'every visitor implementation, every node of every document',
     'Tests use one or two visitors on one document; a child that is skipped or visited twice is invisible unless a test '
     'visits precisely that child kind.',
     [HE + 'visit.rs', HE + 'visit_mut.rs'],
     [('default method bodies of the visitor traits', HE + 'visit.rs'), ('mutable counterparts', HE + 'visit_mut.rs')],
     module='p_visit', technique='must-consume dataflow over MIR of the default methods, obligations from type layouts',
     note='Covers all 92 default methods of both traits on all paths; loops count only when they run over the whole collection.')

prop('P05', 'Equality compares all semantic parts and ignores decor and positions',
     'Two documents, expressions, templates or values compare equal only if they agree in every semantic part: variant, '
     'names, operators, strip markers, labels, every child and every flag that changes meaning. Surrounding whitespace '
     'and comments of a node and its position in the source never influence the comparison, and a value never differs '
     'from itself.',
     ['inputs'], 'all pairs of values of every comparable node type',
     'Tests compare equal things far more often than almost-equal things; a forgotten part makes unequal trees equal and '
     'thereby also weakens every other test that uses the comparison.',
     [HE + 'expr', HE + 'structure', HE + 'template/mod.rs', HE + 'repr.rs', HR + 'expr', HR + 'structure', HR + 'template'],
     [('hand-written and derived comparison functions', HE + '**, ' + HR + '**')],
     module='p_eq', technique='path-sensitive dataflow over MIR of every comparison function, obligations from type layouts',
     note='On every path returning true each semantic constituent was compared with its counterpart; no path reads '
          'decor or spans; no path returns false without a difference. Pure layout preferences may be compared or not. '
          'Numeric comparison is excluded (numeric semantics).')

prop('P04', 'Converting between editable and plain trees loses nothing but layout',
     'Converting a plain expression, template or structure to its editable form and back yields the same tree, and '
     'converting an editable tree to its plain form and back yields the same tree up to whitespace, comments, positions '
     'and layout preferences: every variant, name, operator, flag, strip marker, label and child is kept, in order, in '
     'its own role. Bodies and objects are taken to hold each key once.',
     ['inputs'], 'every value of every type with conversions in both directions',
     'Tests convert a few documents in one direction; a dropped flag or swapped pair of children of a rarely used node '
     '(else-branch strip marker, key variable of a for directive) is not visible in them.',
     [HR + 'expr/edit.rs', HR + 'template/edit.rs', HR + 'structure/edit.rs'],
     [('From implementations in both directions', HR + 'expr/edit.rs, template/edit.rs, structure/edit.rs')],
     module='p_conv', technique='abstract interpretation of the composed conversions, field-flow compared with the type layouts',
     note='For every pair of conversions the composition is evaluated on a symbolic value, path by path; each variant and '
          'field must come back as itself. Quoted and heredoc template text, which is converted by printing and re-parsing, '
          'is outside the field flow and is not claimed here.')

prop('P06', 'Operators have the precedence, grouping and spelling of the specification',
     'In every chain of binary operators the expression tree follows the language specification: multiplication binds '
     'tighter than addition, then ordering, equality, and, or; operators of one level group to the left; and no operand '
     'or operator is lost. Every operator is printed, serialized and parsed with its one spelling, and the published '
     'precedence of each operator agrees with the grouping the parser produces.',
     ['inputs'], 'all operators, all pairs of operators, chains of any length',
     'There are 13 operators and 169 ordered pairs in chains of any length; tests use a handful, and a wrong level or '
     'associativity only shows in one combination.',
     ['crates/hcl-primitives/src/expr.rs', HE + 'parser/expr.rs'],
     [('operator tables and spelling', 'crates/hcl-primitives/src/expr.rs'),
      ('operator precedence parser', HE + 'parser/expr.rs')],
     module='p_ops', technique='abstract interpretation of the operator tables and combination over MIR, compared with the '
     'specification levels for all pairs',
     note='The climbing algorithm itself is the external pratt crate and trusted.')

prop('P08', 'Templates evaluate to their pieces, trimmed where markers say so',
     'The text of a template is the concatenation, in order, of its literal texts, the interpolated values, the chosen '
     'branches of its if directives and one copy of the body per element of its for directives. A literal loses leading '
     'or trailing white space up to and including one line break exactly when the neighbouring interpolation or directive '
     'tag has a strip marker on that side. A template that is one interpolation evaluates to the value itself.',
     ['inputs'], 'all templates: every combination of strip markers, every neighbourhood of literals, all white space '
     'shapes of any length',
     'Three markers per directive, two sides each, nested bodies and the shape of the white space multiply to thousands '
     'of cases; a marker applied on the wrong side or to the wrong branch shows in one of them.',
     [HR + 'eval/template.rs', HR + 'template/mod.rs', 'crates/hcl-primitives/src/template.rs', HR + 'eval/impls.rs'],
     [('template evaluation and trimming', HR + 'eval/template.rs'), ('strip markers of elements', HR + 'template/mod.rs'),
      ('strip marker tables', 'crates/hcl-primitives/src/template.rs')],
     module='p_tpl', technique='abstract interpretation of template evaluation over MIR on texts abstracted to characters '
     'and runs of characters, compared with the trimming rules',
     note='White space runs stand for any length; templates of up to three elements and two levels of nesting.')

prop('P13', 'Evaluating an expression yields the value the specification gives',
     'Evaluating a literal, collection, operator, conditional, traversal (indexing, attribute access and both splats), '
     'object key, function call or document structure yields the value the language specification gives for the values '
     'of its parts, and an error exactly when there is none. Every part is used in its own role, only what is needed is '
     'evaluated, and an error of a nested evaluation ends the evaluation and is what the caller gets.',
     ['inputs'], 'all expressions and contexts: every operator with every combination of operand types, every '
     'sequence of traversal operators up to length four, arrays and objects of every shape used',
     'Evaluation is compositional over 13 expression kinds, 7 value types and 14 operators; tests try a few dozen '
     'combinations, and mistakes sit in the rest (a splat of null, an index into the wrong type, an ignored nested error).',
     [HR + 'eval/impls.rs', HR + 'eval/expr.rs', HR + 'eval/mod.rs'],
     [('Evaluate implementations', HR + 'eval/impls.rs'), ('traversal, splat and collection helpers', HR + 'eval/expr.rs'),
      ('lookup and error context', HR + 'eval/mod.rs')],
     module='p_eval', fn='run_values', technique='abstract interpretation of the evaluator over MIR with unknown '
     'sub-expressions; every path compared with the evaluation rules of the specification',
     note='The value of a nested expression is an arbitrary value of each type; number arithmetic itself is P12.')

prop('P14', 'In-place evaluation visits everything and reports every error',
     'Evaluating a document, expression or template in place evaluates every nested expression that does not depend on '
     'loop variables (of a conditional expression, the condition and the chosen branch), also after others failed. It '
     'succeeds exactly if none failed and otherwise reports the errors of all of them, at least one. Every expression that '
     'evaluated is replaced by its value in its own place and nothing else is changed.',
     ['inputs'], 'all documents, expressions and templates, every subset of failing parts',
     'Every combination of failing and succeeding siblings is a separate case; tests check one document with a few '
     'errors, and a dropped error or child of one node kind goes unseen.',
     [HR + 'eval/impls.rs', HR + 'eval/error.rs'],
     [('evaluate_in_place implementations', HR + 'eval/impls.rs'), ('error aggregation', HR + 'eval/error.rs')],
     module='p_inplace', technique='abstract interpretation of in-place evaluation over MIR with success or failure of '
     'every nested part; events, result and final state compared with the rule',
     note='The base expression of a traversal evaluated on its own is left alone, as it has no value to hold it.')

prop('P15', 'Names resolve to the innermost declaration and scopes do not leak',
     'A variable or function name evaluates to the declaration of the innermost enclosing scope that has it, and is an '
     'error if no scope has one. The variables of a for expression are visible in its value, key and condition and '
     'nowhere else, for each element hold that element and its key or index, and the elements are kept, dropped or '
     'grouped as the condition and mode say, in order.',
     ['inputs', 'histories'], 'all for expressions, collections and context chains',
     'A leak or a stale variable only shows with shadowing, nested scopes or several iterations together; tests look at '
     'single-scope programs.',
     [HR + 'eval/mod.rs', HR + 'eval/expr.rs', HR + 'eval/impls.rs'],
     [('context chain', HR + 'eval/mod.rs'), ('for collection iterator', HR + 'eval/expr.rs')],
     module='p_eval', fn='run_scopes', technique='abstract interpretation of for evaluation and name lookup over MIR, '
     'following the context chain and comparing bindings at each nested evaluation',
     note='Collections of up to three elements, context chains of up to three scopes; elements are arbitrary.')

prop('P16', 'Functions only run with arguments their declaration admits',
     'A function is called exactly when the number of arguments fits its declared parameters and every argument has its '
     'declared type; otherwise the call is an error and the function does not run. The function receives all arguments in '
     'order, and positional and variadic arguments are told apart by the declaration.',
     ['inputs'], 'all parameter types (nested to depth three), all argument counts and values',
     'The type grammar is recursive and the arity cases multiply with the variadic parameter; tests check a few '
     'signatures, and function authors rely on the check instead of validating.',
     [HR + 'eval/func.rs'],
     [('FuncDef::call, ParamType::is_satisfied_by', HR + 'eval/func.rs'), ('FuncArgs accessors', HR + 'eval/func.rs')],
     module='p_eval', fn='run_funcs', technique='abstract interpretation of the call path over MIR for every signature '
     'and argument shape, compared with the declared signature',
     note='Parameter types are enumerated to depth three, argument lists to length four.')

prop('P17', 'The formatter writes every part once, laid out as configured',
     'Formatting a document, expression, template or value writes each of its parts exactly once, in order and in the form the '
     'grammar gives them; nesting is shown by indentation, and the layout options (indentation, dense, compact arrays and objects, '
     'identifier keys) are obeyed. Every error of the underlying writer is reported and nothing is written after one. The text '
     'does not depend on anything formatted before at the same nesting.',
     ['inputs', 'fault_sequences'], 'all values, layout options, and failures of the writer at any point',
     'Layout state (indentation, first element, compact depth, previous structure) is shared by all nested nodes, so the combinations '
     'are unbounded; tests format a few documents and never use a writer that fails.',
     [HR + 'format/mod.rs', HR + 'format/impls.rs'],
     [('Formatter', HR + 'format/mod.rs'), ('impl Format for Expression/Body/Template/Value', HR + 'format/impls.rs')],
     module='p_fmt', fn='run', technique='abstract interpretation of the formatter over MIR, comparing what every path writes with the '
     'text the grammar and the options give; every write is also taken to fail',
     note='Sequences are enumerated to length two or three, nesting to depth three; nested nodes are abstract texts. Literal strings are '
     'checked by the escaping property.')

prop('P18', 'Serialization of foreign data keeps every part of it',
     'Serializing any value of the serde data model to a value, an expression or a document gives every element and entry exactly once '
     'and in order, with its number, text and kind unchanged, blocks and labels where the markers ask for them, and expressions or '
     'structures of the library embedded as they are. What has no representation is reported as an error, as is every error of a part, '
     'never dropped. Nothing of one serialization, finished or failed, influences a later one on the same thread.',
     ['inputs', 'histories'], 'all values of the data model in all positions, and sequences of serializations on a thread',
     'The serializers are six hand-written matrices of the thirty kinds of the data model against the places they can stand in; tests '
     'touch the diagonal. The side tables and the thread-wide flag only show in failed or nested serializations.',
     [HR + 'ser', HR + 'value/ser.rs', HR + 'expr/ser', HR + 'structure/ser', HR + 'structure/body.rs'],
     [('ValueSerializer, ExpressionSerializer, BodySerializer, StructureSerializer, BlockSerializer, LabeledBlockSerializer', HR + 'value/ser.rs, expr/ser, structure/ser'),
      ('with_internal_serialization, InternalHandles, Serializer', HR + 'ser/mod.rs')],
     module='p_ser', fn='run', level='other', technique='abstract interpretation of the serializers over MIR (with their serde protocol types), one run per kind and '
     'position with children abstract, compared with the data model\'s own meaning',
     note='Every kind of the data model is placed in every kind of position, sequences up to length three, blocks nested to depth three; children are '
     'abstract and may fail. Known findings: handles of embedded structures leak in three positions.')

prop('P19', 'Deserialization gives every part of the data',
     'Deserializing a value, an expression or a document into a type gives that type every element and entry exactly once and in order, with '
     'its number, text and kind unchanged, whatever the type asks for; data that does not fit the type, including elements and entries too '
     'many, is reported, as is every error of a part. Every node of the language deserialized into its own kind is the same node, and the '
     'library\'s own types take the data of any other format unchanged.',
     ['inputs'], 'all values, expressions and documents, and all requests a type can make of them',
     'The deserializers answer thirty kinds of requests for sixteen kinds of data; tests use the derived structs of a few types, which '
     'exercise a handful of the pairs and never count what is left over.',
     [HR + 'de/mod.rs', HR + 'value/de.rs', HR + 'expr/de.rs', HR + 'structure/de.rs', HP + 'number.rs'],
     [('ValueDeserializer, EnumAccess, VariantAccess', HR + 'value/de.rs'), ('impl Deserializer for Expression, Operation, TemplateExpr, TraversalOperator', HR + 'expr/de.rs'),
      ('impl IntoDeserializer for Body, Structure, Block', HR + 'structure/de.rs'), ('from_str, from_slice, from_reader, from_body', HR + 'de/mod.rs')],
     module='p_de', fn='run', level='other', technique='abstract interpretation of the deserializers over MIR (with their serde protocol types), one run per '
     'request and kind of data with parts abstract, compared with the data itself',
     note='Every request of the data model is made of every kind of value and expression, sequences up to length three; every kind of node is read back from '
     'itself; parts are abstract and may fail. Known finding: typed requests do not look into parenthesised expressions.')

prop('P27', 'The JSON form of a document has all of it under its names',
     'The JSON form of a document, which deserialization into other types and conversion to values use, has each attribute under its name and '
     'each block under its name and labels at any depth. Blocks of the same name and labels form a list in document order, a single one is '
     'an object, entries keep the order of their first appearance, and nothing is lost. Converting values to expressions and plain '
     'expressions to values keeps every element, entry, number and text.',
     ['inputs'], 'all documents in which the blocks of one name have the same number of labels and no attribute of that name exists',
     'Merging is a fold over interleaved blocks with shared label prefixes; which prefixes are shared and in what order they interleave is '
     'unbounded, and tests have two or three blocks.',
     [HR + 'structure/json_spec.rs', HR + 'expr/mod.rs'],
     [('IntoJsonSpec for Body and Block, JsonNode::deep_merge', HR + 'structure/json_spec.rs'), ('From<Expression> for Value, From<Value> for Expression, FromIterator', HR + 'expr/mod.rs')],
     module='p_json', fn='run', level='other', technique='abstract interpretation of the conversion over MIR on all interleavings of attributes and blocks up to a bound, with bodies '
     'and expressions abstract, compared with the JSON form the specification gives',
     note='All sequences of up to three structures from thirteen (labels to depth two), of up to three deeply labelled blocks, and all orders of five; bodies '
     'of blocks are abstract, so nesting is covered inductively.')

prop('P11', 'Identifiers are valid wherever they come from',
     'Every operation that makes an identifier or variable name of a text accepts exactly the valid identifiers, which it keeps unchanged. '
     'Other texts are refused, or by the sanitizing operations turned into a valid identifier in which every character that may stand there is '
     'kept. Only operations that say so in their name skip the check; nothing else in the library uses them on text that was not matched '
     'as an identifier.',
     ['inputs'], 'all texts and all operations that make identifiers',
     'There are seventeen ways to make an identifier, and validity depends on the class of every character by its position; tests try a few '
     'words on one or two of them.',
     [HP + 'ident.rs', HR + 'ident.rs', HR + 'expr/variable.rs', HR + 'ser/mod.rs'],
     [('Ident::{new, try_new, new_sanitized}, TryFrom, FromStr', HP + 'ident.rs'), ('Identifier::{new, sanitized}, From', HR + 'ident.rs'),
      ('IdentifierSerializer', HR + 'ser/mod.rs')],
     module='p_ident', fn='run', level='other', technique='abstract interpretation over MIR of every function from text to identifiers on one text per sequence of '
     'character classes, and a census of the unchecked constructors\' callers',
     note='All texts of up to three characters, one of each class the grammar distinguishes, and longer ones with the odd character at the end; functions are found '
     'by their signature. The classes of non-ASCII characters are those of Unicode (unicode-ident is trusted).')

prop('P20', 'hcl2json converts every input, reports every error and writes everything',
     'The converter reads each input once and writes one value with all of them in order, as a list or a map by path as configured. Whenever '
     'opening, listing, reading, converting or writing fails, including what is still buffered at the end, it ends with an error; when told '
     'to continue, only inputs that failed are left out, each with a warning.',
     ['inputs', 'fault_sequences'], 'all arguments, inputs and failures of the files and the output',
     'Which of the fallible steps fails, and after which others, multiplies with the options; tests run the happy path and cannot make a '
     'write fail.',
     ['crates/hcl2json/src/main.rs'],
     [('main, convert, bulk_convert, read_hcl, write_json, glob_files', 'crates/hcl2json/src/main.rs')],
     module='p_cli', fn='run', level='other', technique='abstract interpretation of the whole program over MIR with an effect model of files, readers, writers and '
     'parallel iterators in which every fallible operation may fail',
     note='All combinations of options for ten lists of files and directories; every operation on the outside succeeds or fails. The libraries '
     'used (clap, glob, walkdir, rayon, serde_json) are modelled.')

prop('P22', 'No error that an operation reports is dropped',
     'Every error that parsing, evaluating, converting, formatting, serializing or input and output report to the library or the converter is '
     'looked at or passed on: it is never discarded, replaced by a default value, or skipped with the item that caused it. The exceptions are '
     'documented: simplifying keeps what cannot be evaluated.',
     ['inputs', 'fault_sequences'], 'all calls that may fail and all ways in which they fail',
     'A dropped error is only seen when the operation does fail, and most operations (writers, nested conversions) never fail in tests.',
     [HR + 'lib.rs', HE + 'lib.rs', HP + 'lib.rs', 'crates/hcl2json/src/main.rs'],
     [('every call that returns a Result', HR + 'lib.rs'), ('every call that returns a Result', HE + 'lib.rs'), ('every call that returns a Result', 'crates/hcl2json/src/main.rs')],
     module='p_err', fn='run', level='other', technique='use analysis over MIR of the result of every fallible call in all crates, with the adapters that turn errors into nothing',
     note='All 2870 fallible calls; a result which is matched on counts as looked at. Known finding: the conversion of template texts replaces a parse error.')

prop('P23', 'Template markers in text are escaped and restored exactly',
     'Text escaped for use in a template starts no interpolation and no directive there, is left as it is where it has no marker, and unescaping '
     'it gives the original text back, whatever markers, doubled or not, it has.',
     ['inputs'], 'all texts', 'Runs of dollar and percent signs before braces interact; tests have five texts.',
     [HP + 'template.rs'], [('escape_markers, unescape_markers', HP + 'template.rs')],
     module='p_marker', fn='run', level='other', technique='abstract interpretation over MIR of escaping and unescaping on every sequence of character classes up to the window of the rewriting, '
     'compared with the marker grammar',
     note='All sequences up to length four over dollar, percent, brace and any other character, up to five over the three, and longer ones; the rewriting '
     'looks at three characters at a time.')

prop('P07', 'Any text survives being written into a document and read back',
     'Every text, whatever characters, quotes, escapes, markers and line breaks it has, written as a string or template of a document and parsed '
     'again, is the same text.',
     ['inputs'], 'all texts', 'Escaping is a rewriting of unbounded character sequences; tests have a few dozen.',
     [HE + 'encode/mod.rs', HE + 'parser/string.rs', HE + 'parser/template.rs'], [('write_escaped, escape_markers', HE + 'encode/mod.rs'), ('string_fragment', HE + 'parser/string.rs')],
     na='The statement relates the writer to what the parser makes of its output for every character sequence. The parser side is built of winnow combinators over '
        'byte streams, and deciding the composition needs the two as transducers; no sound static argument over MIR in reach extracts the '
        'parser\'s. Which parts are escaped at all is decided by P02 and P17, the pieces of templates by P08.')

prop('P09', 'Parsing ends with a result on every input',
     'For every input, parsing returns a document or an error and neither panics, overflows the stack nor runs without end.',
     ['inputs'], 'all inputs', 'Depth and length of the input are unbounded.',
     [HE + 'parser/mod.rs', HE + 'parser/expr.rs'], [('expr, body, template', HE + 'parser/expr.rs')],
     na='False for deep nesting: the parser recurses with the input and has no limit, so a stack overflow depends on the stack size at run time. The remaining panics '
        'are assertions inside winnow about stream offsets, runtime quantities that no static argument in reach bounds.')

prop('P10', 'Formatted output is valid UTF-8 and no operation has undefined behaviour',
     'Text the library returns is valid UTF-8 whatever the writer and the configuration, and no input leads to undefined behaviour.',
     ['inputs', 'configurations'], 'all inputs and configurations', 'Tests sample ASCII configurations.',
     [HR + 'format/mod.rs', HP + 'internal_string.rs'], [('Formatter, format_string', HR + 'format/mod.rs')],
     na='After the repair of the only unchecked conversion no unsafe code is left in the library, so the compiler decides the property (safe Rust); a check '
        'of our own would only look for the word unsafe, and new unsafe code may be right.')

prop('P12', 'Arithmetic on numbers is exact or rounded once, and never leaves the numbers',
     'Sums, differences, products, quotients and remainders of two numbers are exact when they are integers that fit, otherwise the floating point '
     'result; what is no finite number is refused. Equal numbers are ordered and hashed equally.',
     ['inputs'], 'all pairs of numbers', 'There are 2^128 pairs; tests use small ones.',
     [HP + 'number.rs'], [('N::checked_add, checked_sub, checked_mul, checked_div, checked_rem, from_finite_f64', HP + 'number.rs')],
     na='The property is about rounding and range of 64 bit integers and floats for all operands; it takes bit-precise reasoning (a solver) or execution, '
        'both outside this family. An interval analysis cannot tell a rounded result from an exact one.')

prop('P29', 'Indented heredocs lose exactly the indentation their lines have in common',
     'The text of an indented heredoc is that of its lines without the longest leading whitespace that all of them share, at every nesting of '
     'templates.',
     ['inputs'], 'all heredocs', 'Line structure, blanks and interpolations interleave without bound.',
     [HE + 'template/mod.rs', HE + 'util.rs'], [('HeredocTemplate::dedent, dedent_by', HE + 'template/mod.rs')],
     na='The indentation is computed from raw source text which the parser splits at interpolations and which is kept as spans; the rule is about the lengths of whitespace '
        'runs at run time, compared across elements. The abstract texts used for P08 and P17 have no such lengths.')

CHECKS = {k: v for k, v in PROPS.items() if v['module']}
