# a converter that records what happens; F = name of hook that fails / skips
import re
conv = open('/repo/src/ast/converting.rs').read()
methods = re.findall(r'fn (emit_\w+)\(\s*&mut self,\s*\w+: TreeTraversalMode,\s*\w+: &(\w+),?\s*\)', conv)
REC = '''#![allow(dead_code)]
use scilla_parser::ast::{converting::AstConverting, nodes::*, visitor::AstVisitor, TraversalResult, TreeTraversalMode};
use scilla_parser::parser::{lexer::{Lexer, SourcePosition}, parser::*};
#[derive(Default)]
struct Rec { log: Vec<String>, depth: i64, fail: &'static str, skip: &'static str, pos: Vec<(usize, usize)> }
impl Rec {
    fn ev(&mut self, name: &str, mode: TreeTraversalMode) -> Result<TraversalResult, String> {
        let enter = matches!(mode, TreeTraversalMode::Enter);
        self.log.push(format!("{}{}", if enter { "+" } else { "-" }, name));
        if enter && name == self.fail { return Err(format!("boom {name}")); }
        if enter && name == self.skip { return Ok(TraversalResult::SkipChildren); }
        Ok(TraversalResult::Continue)
    }
    fn count(&self, e: &str) -> usize { self.log.iter().filter(|x| x.as_str() == e).count() }
}
impl AstConverting for Rec {
    fn push_source_position(&mut self, s: &SourcePosition, e: &SourcePosition) { self.depth += 1; self.pos.push((s.position, e.position)); }
    fn pop_source_position(&mut self) { self.depth -= 1; }
''' + '\n'.join('    fn %s(&mut self, m: TreeTraversalMode, _n: &%s) -> Result<TraversalResult, String> { self.ev("%s", m) }' % (a, b, a[5:]) for a, b in methods) + '\n}\n'
V = 'src/ast/visitor.rs'
SEEDS = [
 dict(id='C08-a', property='C08', edits=[(V, '''                    match_expression.visit(emitter)?;
                    for clause in clauses {
                        clause.visit(emitter)?;
                    }
''', '''                    match_expression.visit(emitter)?;
                    for clause in clauses.iter().rev() {
                        clause.visit(emitter)?;
                    }
''')], demo=REC + '''
fn main() {
    let src = "match x with | A => b | C d => let e = f in g end";
    let mut errs = vec![];
    let e = FullExpressionParser::new().parse(&mut errs, Lexer::new(src)).unwrap();
    let mut r = Rec::default();
    r.skip = "pattern";
    e.visit(&mut r).unwrap();
    let first_let = r.log.iter().position(|x| x == "+full_expression").unwrap();
    let seq: Vec<_> = r.log[first_let..].to_vec();
    let pats: Vec<_> = r.pos.iter().filter(|(s, _)| src[*s..].starts_with("A =") || src[*s..].starts_with("C d")).map(|p| p.0).collect();
    assert!(pats.windows(2).all(|w| w[0] <= w[1]), "clauses out of order {pats:?} {seq:?}");
}
''', needs='a match expression with two or more clauses whose order a converter observes', breaks='the clauses of a match expression are traversed from last to first'),
 dict(id='C08-b', property='C08', edits=[(V, '''                NodeScillaType::MapType(key, value) => {
                    key.visit(emitter)?;
                    value.visit(emitter)
                }
''', '''                NodeScillaType::MapType(key, value) => {
                    key.visit(emitter)?;
                    if let NodeTypeMapValue::MapKeyValue(entry) = &value.node {
                        return entry.visit(emitter);
                    }
                    value.visit(emitter)
                }
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = ScillaTypeParser::new().parse(&mut errs, Lexer::new("Map Uint32 (Map String Bool)")).unwrap();
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    let e2 = ScillaTypeParser::new().parse(&mut errs, Lexer::new("Map Uint32 Map String Bool")).unwrap();
    e2.visit(&mut r).unwrap();
    assert_eq!(r.count("+scilla_type"), r.count("-scilla_type"));
    assert!(r.count("+type_map_value") >= 4);
}
''', needs='a map type whose value is itself written as a map', breaks='the node of the map value and the Exit hook of the map type are left out for maps of maps'),
 dict(id='C09-a', property='C09', edits=[(V, '''            for statement in &self.statements {
                statement.visit(emitter)?;
            }
            Ok(TraversalResult::Continue)
''', '''            for statement in &self.statements {
                if let Err(msg) = statement.visit(emitter) {
                    if self.statements.len() > 1 {
                        return Err(format!("in statement block: {msg}"));
                    }
                    return Err(msg);
                }
            }
            Ok(TraversalResult::Continue)
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = StatementBlockParser::new().parse(&mut errs, Lexer::new("accept; x = y; send z")).unwrap();
    let mut r = Rec::default();
    r.fail = "variable_identifier";
    assert_eq!(e.visit(&mut r).err(), Some("boom variable_identifier".to_string()));
}
''', needs='a hook failing inside a statement of a block with several statements', breaks='the error of the converter is rewritten on its way'),
 dict(id='C09-b', property='C09', edits=[(V, '''                    for arg in args {
                        arg.visit(emitter)?;
                    }
                    Ok(TraversalResult::Continue)
''', '''                    args.iter().fold(Ok(TraversalResult::Continue), |acc, arg| {
                        let next = arg.visit(emitter);
                        acc.and(next)
                    })
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = ScillaTypeParser::new().parse(&mut errs, Lexer::new("Pair (List Uint32) Bool")).unwrap();
    let mut r = Rec::default();
    r.fail = "type_argument";
    assert!(e.visit(&mut r).is_err());
    assert_eq!(r.log.last().unwrap(), "+type_argument");
    assert_eq!(r.count("+type_argument"), 1, "traversal went on after the error: {:?}", r.log);
}
''', needs='a hook failing on a type argument that is not the last one', breaks='the remaining type arguments are traversed after an error'),
 dict(id='C10-a', property='C10', edits=[(V, '''        let ret = self.node.visit(emitter);
        emitter.pop_source_position();

        ret
''', '''        let ret = self.node.visit(emitter)?;
        emitter.pop_source_position();

        Ok(ret)
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = ScillaTypeParser::new().parse(&mut errs, Lexer::new("Pair (List Uint32) Bool")).unwrap();
    let mut r = Rec::default();
    r.fail = "meta_identifier";
    assert!(e.visit(&mut r).is_err());
    assert_eq!(r.depth, 0);
}
''', needs='a hook that fails below a node with a position', breaks='the source position stays on the converter when a hook fails'),
 dict(id='C10-b', property='C10', edits=[(V, '''                NodeStatement::Bind {
                    right_hand_side, ..
                } => right_hand_side.visit(emitter),
''', '''                NodeStatement::Bind {
                    left_hand_side,
                    right_hand_side,
                } => {
                    emitter.push_source_position(&left_hand_side.start, &right_hand_side.end);
                    let result = right_hand_side.node.visit(emitter);
                    emitter.pop_source_position();
                    result
                }
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let src = "x = y";
    let e = StatementBlockParser::new().parse(&mut errs, Lexer::new(src)).unwrap();
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    assert!(r.pos.iter().filter(|p| **p == (0, 5)).count() <= 1, "{:?}", r.pos);
}
''', needs='a bind statement traversed by a converter that looks at positions', breaks='the expression of a bind statement is announced with the span of the whole statement'),
]
