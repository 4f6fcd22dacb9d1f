"""the registered checks: property -> rule text, decision procedure, manifest texts"""
import visitor, emitter, contract, purity, datatypes, printing, grammar, typeprint, lexer, panics

MIRAI = 'path-sensitive dataflow (abstract interpretation) over rustc MIR'
TRUST = 'Trusted: rustc\'s MIR, the models of std functions in engine/models.py, the specification tables in engine/. '

CHECKS = {}
NOT_APPLICABLE = {}


def reg(pid, rule, fn, technique, note):
    CHECKS[pid] = {'rule': rule, 'fn': fn, 'technique': technique, 'note': note}


reg('C08', 'For every AstVisitor::visit implementation (obligation = one control-flow path with its hook answers): the trace of hook calls and child visits equals Enter, every child field of the node type in source order, Exit; nothing after SkipChildren.',
    lambda m, p, ck: visitor.check(m, 'C08', ck), MIRAI,
    TRUST + 'All paths of all visit implementations for an arbitrary converter; loops by fixpoint. Child order is the declaration order of the node types unless the table in visitor.py says otherwise. Assumes converters answer SkipChildren only on Enter, as documented.')
reg('C09', 'For every path of every AstVisitor::visit implementation on which a hook or child visit fails: nothing is called afterwards and exactly that error value is returned; without failure Ok is returned.',
    lambda m, p, ck: visitor.check(m, 'C09', ck), MIRAI,
    TRUST + 'All paths of all visit implementations for an arbitrary converter, error values tracked by identity.')
reg('C10', 'For every path of every AstVisitor::visit implementation: push_source_position/pop_source_position are balanced (typestate), and what is visited in between is the node whose start and end were pushed, once.',
    lambda m, p, ck: visitor.check(m, 'C10', ck), 'typestate analysis over rustc MIR paths',
    TRUST + 'All paths of all visit implementations for an arbitrary converter.')
reg('C02', 'The conversion entry point is interpreted on an arbitrary syntax tree (parser replaced by "some tree"; type nodes by induction): on every successful path the contract name, init parameters, fields and transitions are exactly those of the tree, one per element and in order (loop effects by fixpoint); errors are only those of a declared type; no panic.',
    lambda m, p, ck: emitter.check_c02(m, p, ck), MIRAI,
    TRUST + 'All syntax trees, any list lengths. Assumes the parser delivers a tree (C11-C14) and child types convert as C03 decides.')
reg('C03', 'For each form of each class of type node, each builtin name and argument count (and an arbitrary name), in each context in which it can be nested: the Type in the resulting contract equals the one the form denotes given those of its parts (structural induction); unsupported forms are rejected with an error.',
    lambda m, p, ck: emitter.check_c03(m, p, ck), MIRAI + ', structural induction over type nodes',
    TRUST + 'Induction step over all node forms with arbitrary sub-types; argument lists up to 3, address fields any number.')
reg('C14', 'Contract::from_str and Contract::parse are interpreted with every fallible step (reading, the generated program parser, converting a type) both succeeding and failing: each outcome with a failed step is the error of the right kind carrying that step\'s error value, each contract comes from parsing the whole text resp. the content of the given file, the grammar has no error recovery, and printing an error carries its message.',
    contract.check, MIRAI,
    TRUST + 'All outcomes of the steps in all combinations that the code distinguishes. The generated parser is trusted to accept only complete inputs (LALRPOP).')
reg('C15', 'Over the call graph of all functions reachable from the public API (generated parser and semantic actions included): no call of a std function with an effect beyond its arguments and result (environment, time, randomness, hash table order, other files, network, processes, output, thread-local state), no global state that can change, no unsafe code; the types parsing returns are Send and Sync.',
    purity.check, 'effect analysis over the MIR call graph, auto-trait queries to rustc',
    'Trusted: rustc\'s MIR, the list of std functions with effects in engine/purity.py, the purity of lalrpop_util, regex and thiserror. Closed by construction: all functions and call sites of the crate are scanned.')
reg('C17', 'Every PartialEq and Clone of a public data type is either derived (as recorded by rustc) or its body is interpreted on two arbitrary values: it answers true only on paths where every part was found equal, false only where a difference was found, and a copy keeps every part. Field::new, Transition::new, new_without_param, FieldList::push, Deref/DerefMut and the defaults are interpreted on arbitrary arguments and lists: the result holds exactly what was given.',
    datatypes.check, 'abstract interpretation over rustc MIR, derive facts from rustc',
    TRUST + 'Hand-written comparisons of lists are decided for lengths up to 2. Derived implementations are correct by the definition of derive.')
reg('C18', 'Every Display implementation of a name node (and of the wrapper with position around each of them) is interpreted on an arbitrary node: on each path the text is the written name of the node - the written text verbatim, qualifier, dot and name for qualified names, Event and ByStr for the nodes without a text.',
    printing.check_names, MIRAI,
    TRUST + 'All nodes; written texts are arbitrary strings. A difference is reported only with a witness (concrete names for which the texts differ).')

reg('C04', 'Display for Type is interpreted on every variant with arbitrary parts (structural induction: the text of a part stands for the part in every type position). Each outcome\'s text is cut into tokens, derived from each of the six type positions of the grammar, the semantic actions of the derivation are interpreted, and the type the tree denotes must be the printed one; text parts must not run into each other.',
    typeprint.check, MIRAI + ', structural induction, derivation in the grammar LALRPOP derived',
    TRUST + 'All types that parsing can produce; address types with 0 to 4 fields. Conversion of a tree to a type as decided by C03, tokens as in C06.')

LEXTECH = MIRAI + ' over texts of symbolic characters (sets of Unicode characters), every path to the end of the text'
LEXNOTE = ('Trusted: rustc\'s MIR, the models of std and regex functions in engine/models.py and engine/lexdom.py, the token specification in engine/lexer.py. '
           'Every text of up to 3 (thorough: 4) arbitrary Unicode characters; beyond that texts built from tokens, white space and comments with arbitrary characters in them, up to three tokens in a row, '
           'and texts with tokens and gaps of up to 200 (thorough: 260) characters, including lengths next to every number the scanner mentions. A difference is reported with a concrete text that takes the path. ')
LEXRULE = 'Lexer::new and next are interpreted on texts of symbolic characters until the end is reported twice; on every path '
reg('C05', LEXRULE + 'the tokens begin and end where the specification puts them, carry exactly that slice, skip only white space and complete comments, and text that is no token gives the unknown token.',
    lexer.check({'text'}), LEXTECH, LEXNOTE)
reg('C06', LEXRULE + 'each token has the kind that its spelling has in the specification. The terminals of the grammar stand for the token of their spelling, and the conversion of each token to text, interpreted, gives the spelling.',
    lexer.check({'kind'}, spell=True), LEXTECH, LEXNOTE)
reg('C07', LEXRULE + 'the start of each token is the byte offset, the number of newlines and the number of bytes since the last newline before it; the end of a token on one line is on that line, its length in bytes further.',
    lexer.check({'pos'}), LEXTECH, LEXNOTE)
reg('C16', LEXRULE + 'every loop ends, there are no more tokens than characters, and once the end is reported it is reported again.',
    lexer.check({'progress'}), LEXTECH, LEXNOTE)
reg('C01', LEXRULE + 'there is no panic (slicing, indexing, arithmetic, unwrap). Neither is there one on any path of the semantic actions (all derivations), the conversion of an arbitrary syntax tree, the conversion of every form of type, the printing of every type and name, the traversal with an arbitrary converter, and Contract::parse and from_str with every step failing or not.',
    panics.check, MIRAI + ' of the scanner, the semantic actions, the conversion and the printing',
    LEXNOTE + 'The bounds of C02, C03, C04, C08, C11 and C14 for the other parts. The generated parse loop and the crates it depends on are trusted; exhaustion of stack and memory is excluded.')

GNOTE = 'Trusted: LALRPOP (the productions are read from the parser it generates; its tables accept exactly the grammar), rustc\'s MIR, the specification grammar in engine/gramspec.py, models of std functions. '
reg('C11', 'All sentential forms (over the terminals and the 42 documented nonterminals, up to a length) of each rule of the grammar - productions as LALRPOP derives them, helper rules expanded, semantic actions interpreted - are those of the specification grammar; no action rejects one of them. The scanner delivers the tokens of the specification (as C06).',
    lexer.with_tokens(grammar.check('C11'), {'kind'}), 'grammar analysis: comparison of sentential forms of the derived productions with a specification grammar',
    GNOTE + 'Forms of up to 26 (thorough: 40) symbols per rule, so lists of up to about 12 elements. A difference is reported only with a token sequence that one side derives and the other does not (Earley).')
reg('C12', 'For every derivation of every sentential form of each grammar rule the semantic actions are interpreted (rustc\'s MIR) on symbolic children: the node that results has the variant of the construct and each child in the place the specification gives it, list elements once and in order. The scanner delivers the texts of the tokens (as C05).',
    lexer.with_tokens(grammar.check('C12'), {'text'}), MIRAI + ' of the semantic actions, over the derived productions',
    GNOTE + 'Forms of up to 26 (thorough: 40) symbols per rule.')
reg('C13', 'For every derivation of every sentential form of each grammar rule the semantic actions are interpreted (rustc\'s MIR) with symbolic positions: start and end of each node that is built are the start of the first and the end of the last token of the construct it stands for. The scanner delivers the positions of the tokens (as C05, C07).',
    lexer.with_tokens(grammar.check('C13'), {'pos', 'end'}), MIRAI + ' of the semantic actions, over the derived productions',
    GNOTE + 'Forms of up to 26 (thorough: 40) symbols per rule. The position markers of LALRPOP are its start and end lookahead positions; an empty address kind has no extent and its span is not specified.')
