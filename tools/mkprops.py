"""writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files, 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                                                 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': list(observe), 'hook_needed': None}})


LEX, GR, VIS, NODES, EMI, PRIM, TY, CON = ('src/parser/lexer.rs', 'src/parser/parser.lalrpop', 'src/ast/visitor.rs', 'src/ast/nodes.rs',
                                           'src/simplified_representation/emitter.rs', 'src/simplified_representation/primitives.rs', 'src/type.rs', 'src/contract.rs')

p('C01', 'Parsing never panics, whatever the input text',
  'For every string given as contract source, parsing returns either a contract or an error value: no text makes tokenizing, building the syntax tree, converting it to a contract, or converting and printing its types panic (out-of-range or non-boundary slicing, arithmetic overflow, unwrap of nothing, unimplemented/todo/assert). Exhaustion of stack or memory by extremely large input is outside this statement.',
  ['inputs'], 'all Unicode strings, well-formed or not',
  'The tests feed about twenty valid ASCII contracts and short grammar fragments; malformed text, non-ASCII text and unusual but valid types (function types, misapplied constructors, qualified names, address types as map keys) never reach the slicing, unwrapping and unimplemented arms.',
  [LEX, GR, EMI, TY, PRIM, CON],
  [('token scanner and its byte slicing', LEX), ('semantic actions', GR), ('conversion of types and components', EMI), ('From<SrType> for Type', TY)],
  ['Contract::from_str', 'Contract::parse', 'Lexer as Iterator', 'Display for Type'])
p('C02', 'The extracted contract interface is complete and in source order',
  'For every program that parses, the resulting contract has the name written after `contract`, one init parameter per contract parameter, one field per contract field and one transition per `transition`, each with its name exactly as written, its own parameters with their own types, and all of them in source order. Nothing else is added: procedures, library definitions, imports, constraints, initial values and bodies contribute no parameter, field or transition, and a syntax tree whose types are supported is never turned into an error.',
  ['programs'], 'all syntax trees the grammar can build, with any number of parameters, fields and components in any mixture',
  'Tests compare about twenty fixed contracts; an interaction between, say, a constraint, a procedure between transitions or a particular parameter type and the bookkeeping of the conversion shows only for other combinations and counts.',
  [EMI, CON, 'src/field.rs', 'src/transition.rs'],
  [('conversion of contract, fields, parameters and transitions', EMI)], ['Contract.name', 'Contract.init_params', 'Contract.fields', 'Contract.transitions'],
  [('conversion stack', 'identifiers, fields and types under construction', EMI)])
p('C03', 'Every written type is reported as the type it denotes',
  'A type written in a contract is reported as the corresponding value: the primitive names map to their variants, ByStr followed by a number n to the byte string of that size (20 to the plain address), Option, List, Pair and Map to their variants with their arguments in written order at any nesting depth, an address type to its kind and its fields in order, and every other type name - user-defined, qualified or hex-qualified - to Other with the full written name. Parentheses make no difference, a type constructor without all its arguments becomes Other with its name, and function types, polymorphic types and type variables are rejected with an error.',
  ['programs'], 'all type expressions of the grammar, at any nesting depth and in any of the positions where a type may be written',
  'The tests contain a few dozen concrete types; the recursion over nested types, the map-value and map-key forms of the grammar and the non-ASCII, misapplied or qualified names are sampled hardly or not at all.',
  [EMI, PRIM, TY], [('conversion of type expressions', EMI), ('From<SrType> for Type', TY)], ['Field.type of fields, parameters and address fields'])
p('C04', 'Printing a parsed type gives Scilla that denotes the same type',
  'The text printed for any type obtained from a contract is a valid Scilla type expression that can stand wherever a type may be written, also as an argument of another type, and that parses back to an equal type. Byte string sizes are taken to be written without leading zeros.',
  ['inputs'], 'all type values that parsing can produce, at any nesting depth',
  'One unit test prints two nested lists; maps, options, address types with fields and nested combinations are not printed by any test, and no test parses printed text.',
  [TY, GR, 'src/field.rs'], [('Display for Type', TY), ('type rules of the grammar', GR)], ['Display for Type', 'Contract::from_str'])
p('C05', 'Tokens carry exactly the text they stand for, in order, without gaps',
  'For every input, each token with a text carries precisely the slice of the source between its start and end offsets, tokens follow each other in increasing order without overlap, and everything between two tokens is whitespace or complete comments. Nothing of the source is skipped otherwise: text that is not a token, including a comment that is never closed, yields the unknown token and thus a parse error.',
  ['inputs'], 'all strings, including non-ASCII text inside strings and comments and malformed literals',
  'Tests check that valid contracts parse; token offsets are never compared with the source and malformed or multi-byte text is not tokenized.',
  [LEX], [('Lexer::next', LEX)], ['Iterator for Lexer'], [('chars', 'what remains to be tokenized', LEX)])
p('C06', 'Keywords, symbols and literals are recognised by their exact spelling',
  'A word is tokenized as a keyword exactly when the whole word is that keyword, each symbol as its own token with the longest symbol winning, and every other word or literal as the class its spelling belongs to (identifier, type identifier, special and template identifier, sized byte string type, number, hex number, string). Each token class is the one the grammar uses for that spelling, and converting a token to text gives its spelling back.',
  ['inputs'], 'all words and symbol sequences, in particular words that extend a keyword or type name by letters, digits or underscores',
  'The tests use each keyword in valid positions only; words that begin with or contain a keyword, adjacent symbols and keyword-like type names are infinitely many and largely unsampled.',
  [LEX, GR], [('keyword and symbol tables, literal patterns', LEX), ('extern token table', GR), ('From<Token> for String', LEX)], ['Iterator for Lexer', 'String::from(Token)'])
p('C07', 'Reported positions are exact: offset, line and column',
  'The start position of every token gives the byte offset of its first character, the number of newlines before it and the number of bytes since the last newline. A token that lies on one line ends on it, as many columns further as it has bytes. This holds wherever the token stands: after comments, strings with newlines, blank lines and multi-byte characters.',
  ['inputs'], 'all inputs with tokens at any distance from newlines, comments and multi-line strings',
  'No test looks at a position; an error in the bookkeeping accumulates only over inputs with comments, tabs, blank lines or multi-line strings before the token.',
  [LEX], [('line and column bookkeeping', LEX)], ['Lexer items', 'start and end of syntax tree nodes', 'parse error messages'], [('line, character, last_position', 'position of the scanner', LEX)])
p('C08', 'A traversal visits every child once, in source order, between Enter and Exit',
  'Traversing any syntax tree with any converter calls, for each node, its own hook on Enter, then traverses every child node of the tree exactly once and in source order, then calls the same hook on Exit, each time with that very node. When the hook answers SkipChildren on Enter, neither the children nor the Exit hook of that node are called, and the traversal of the surrounding nodes goes on. (On Exit a hook answers that the traversal continues, or fails; other answers there have no meaning.)',
  ['programs', 'histories'], 'all syntax trees and all converters, that is all sequences of hook answers',
  'The only converter in the repository skips most of the tree, so the tests never reach most traversal functions, and never with SkipChildren or an error in the middle.',
  [VIS, 'src/ast/converting.rs', NODES, 'src/ast/mod.rs'], [('AstVisitor implementations', VIS)], ['AstVisitor::visit', 'AstConverting hooks'])
p('C09', 'A converter error stops the traversal and is returned unchanged',
  'When a hook of a converter returns an error during a traversal, no further hook is called and the traversal as a whole returns that very error. When no hook returns an error, the traversal succeeds.',
  ['programs', 'histories', 'fault_sequences'], 'all syntax trees, all converters and every point at which a hook can fail',
  'No test has a converter that fails; the failing point ranges over every hook call of every traversal.',
  [VIS, EMI], [('AstVisitor implementations', VIS), ('propagation with ? in the conversion', EMI)], ['AstVisitor::visit', 'SrEmitter::emit'])
p('C10', 'Source positions given to a converter are balanced and belong to the node',
  'Around the traversal of every node that has a position, the converter is told exactly once the start and end of that node before any hook of the node and told to drop them afterwards. Positions given and dropped are balanced on every way through the traversal, also when a hook fails or skips.',
  ['programs', 'histories'], 'all syntax trees and all sequences of hook answers',
  'The converter in the repository ignores positions, so no test observes one.',
  [VIS], [('position handling in visit', VIS)], ['push_source_position', 'pop_source_position'])
p('C11', 'The grammar accepts exactly the documented Scilla constructs',
  'Each rule of the grammar accepts the texts its documented form allows, written with white space and comments between the tokens, and no others: every alternative, optional part, separator and repetition (none, one, many) of types, expressions, patterns, statements, library and contract definitions. In particular every construct that the documentation of the rule lists and the syntax tree can represent is accepted, and nothing is accepted that leaves out a mandatory part, adds a stray one or repeats what may occur once. Keywords, symbols, names and literals are recognised by their spelling as the tokens the rules are written in (identifier, special, type and template identifier, sized byte string type, number, hex number, string).',
  ['programs'], 'all source texts for each of the grammar rules, with any number of list elements and any white space and comments',
  'The tests parse some sixty fragments and twenty contracts, mostly one per alternative; omitted optional parts, empty and longer lists and invalid sequences next to valid ones are not covered.',
  [GR, LEX], [('LALRPOP rules', GR), ('Lexer::next', LEX)], ['the generated parsers', 'Contract::from_str'])
p('C12', 'Parsing puts every part of a construct into its own place of the tree',
  'In the syntax tree of any accepted construct, each name, literal, type, expression, statement and list of the source appears exactly once, in the place of the node that stands for it and with exactly the text written there, with list elements in source order and none lost or repeated. Alternatives of a rule give the node variant of that construct.',
  ['programs'], 'all accepted source texts for each of the grammar rules',
  'The parser tests only check that parsing succeeds, and the contract tests look only at the interface: the content of trees of expressions, patterns, statements and libraries is never compared.',
  [GR, NODES, LEX], [('semantic actions', GR), ('Lexer::next', LEX)], ['NodeProgram and the trees of the other public parsers'])
p('C13', 'Each syntax tree node spans exactly the source of its construct',
  'The start of every syntax tree node is where the first token of the construct it stands for starts in the source text (byte offset, line and column) and its end is the byte offset at which the last token ends. Spans of children therefore lie within that of their parent, and siblings do not overlap.',
  ['programs'], 'all accepted source texts for each of the grammar rules',
  'No test looks at the position of a node.',
  [GR, NODES, LEX], [('location markers of the rules', GR), ('Lexer::next', LEX)], ['start and end of WithMetaData'])
p('C14', 'Parsing succeeds only if all steps succeed, and their errors are reported',
  'Parsing a contract returns a contract only if the whole text was accepted by the grammar of a program and the conversion succeeded; a syntax error or conversion error is returned as a parse error that carries the message of its cause, and an unreadable file or one that is not UTF-8 as an I/O error. Parsing a file gives the same result as parsing its content, and a contract is never returned in place of an error nor partially filled.',
  ['inputs', 'fault_sequences'], 'all inputs and all failures of reading, parsing and converting',
  'Tests parse only valid contracts from files that exist.',
  [CON, 'src/error.rs', EMI], [('Contract::from_str and Contract::parse', CON), ('Error conversions', 'src/error.rs')], ['Contract::from_str', 'Contract::parse', 'Error'])
p('C15', 'Parsing is a pure function of its input',
  'The result of parsing depends only on the given text (or the content of the given file): parsing the same text again, before or after other texts or on several threads at once, gives an equal result. Parsing reads and changes nothing else: no global or thread-local state, environment, time, randomness, other files, network, processes or output, and no unsafe code is involved; parsed values can be sent to and shared between threads.',
  ['histories', 'schedules', 'configurations'], 'all sequences and interleavings of parses, and all environments',
  'A test parses each text once in one process; dependence on earlier calls, on threads or on the environment shows only in combinations that are not run.',
  [CON, LEX, EMI, TY, PRIM], [('all functions reachable from the public API', CON)], ['Contract::from_str', 'Contract::parse'])
p('C16', 'Tokenizing always terminates',
  'For every input, each call for the next token consumes at least one character or reports the end, and the work for one call is bounded by what remains of the input; so the token stream of a finite input is finite. Once the end is reported it is reported ever after.',
  ['inputs'], 'all strings',
  'A test that does not terminate shows only for the input it runs on.',
  [LEX], [('Lexer::next', LEX)], ['Iterator for Lexer'])
p('C17', 'The public data types keep what they are given and compare by content',
  'Constructing fields and transitions keeps exactly the given name, type and parameters; adding to a list keeps earlier elements and order, and lists give access to exactly their elements. Two contracts, fields, transitions, types, lists or syntax trees are equal exactly if all their parts are equal, and a clone equals its original.',
  ['inputs', 'histories'], 'all values of the public data types',
  'The tests compare values that are expected to be equal, so a comparison that ignores a part, or a constructor that loses one, goes unnoticed for the values where it matters.',
  ['src/field.rs', 'src/transition.rs', CON, TY, NODES, LEX], [('constructors, list wrappers, derived comparison', 'src/field.rs')], ['Field::new', 'Transition::new', 'FieldList', 'TransitionList', 'PartialEq', 'Clone', 'Default'])
p('C18', 'Names in the syntax tree print exactly as they are written in the source',
  'Printing an identifier node gives its written name and nothing else: plain, special and type names verbatim, a qualified name as qualifier, dot and name, byte string types by their name, Event as Event and the unsized byte string type as ByStr. Printing a node with a position gives the same text as printing the node.',
  ['inputs'], 'all identifier nodes',
  'Only the names of contracts and transitions in the test contracts are printed; qualified, special and hex-qualified names are not.',
  [NODES], [('Display implementations', NODES)], ['Display for the identifier nodes', 'WithMetaData'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
