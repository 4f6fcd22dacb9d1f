import os
_ns = {}
exec(open('/tmp/vw/tools/seeds/visitor.py' if not os.path.exists('tools/seeds/visitor.py') else 'tools/seeds/visitor.py').read(), _ns)
REC = _ns['REC'].replace("skip: &'static str,", "skip: &'static str, quiet: bool,").replace('return Err(format!("boom {name}"));', 'return Err(if self.quiet { String::new() } else { format!("boom {name}") });')
V = 'src/ast/visitor.rs'
SEEDS = [
 dict(id='C08-c', property='C08', edits=[(V, '''                NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                    type_map_key.visit(emitter)?;
                    type_map_value.visit(emitter)
                }
''', '''                NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                    type_map_key.visit(emitter)?;
                    if type_map_value.start == type_map_key.start {
                        return emitter.emit_value_literal(TreeTraversalMode::Exit, self);
                    }
                    type_map_value.visit(emitter)
                }
''')], demo=REC + '''
use scilla_parser::ast::nodes::*;
fn main() {
    let p = scilla_parser::parser::lexer::SourcePosition::default();
    fn w<T>(node: T, p: &scilla_parser::parser::lexer::SourcePosition) -> WithMetaData<T> { WithMetaData { node, start: p.clone(), end: p.clone() } }
    let n = || w(NodeMetaIdentifier::ByteString, &p);
    let l = NodeValueLiteral::LiteralEmptyMap(w(NodeTypeMapKey::GenericMapKey(n()), &p), w(NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(n()), &p));
    let mut r = Rec::default();
    l.visit(&mut r).unwrap();
    assert_eq!(r.count("+type_map_value"), 1, "{:?}", r.log);
}
''', needs='an empty map built by a program, where all nodes have the same position', breaks='the value type is not traversed'),
 dict(id='C08-d', property='C08', edits=[(V, '''                    if let Some(type_annotation) = type_annotation {
                        type_annotation.visit(emitter)?;
                    }
                    expression.visit(emitter)?;
                    containing_expression.visit(emitter)
''', '''                    if let Some(type_annotation) = type_annotation {
                        type_annotation.visit(emitter)?;
                    }
                    if let NodeFullExpression::LocalVariableDeclaration { expression: inner, .. } = &expression.node {
                        inner.visit(emitter)?;
                    }
                    expression.visit(emitter)?;
                    containing_expression.visit(emitter)
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = FullExpressionParser::new().parse(&mut errs, Lexer::new("let a = let b = c in d in e")).unwrap();
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    assert_eq!(r.count("+full_expression"), 5, "{:?}", r.log);
}
''', needs='a let expression bound in a let expression', breaks='an inner expression is traversed twice'),
 dict(id='C08-e', property='C08', edits=[(V, '''                    identifier.visit(emitter)?;
                    for pattern in argument_patterns {
                        pattern.visit(emitter)?;
                    }
''', '''                    identifier.visit(emitter)?;
                    for pattern in argument_patterns.iter().skip_while(|p| {
                        matches!(p.node, NodeArgumentPattern::WildcardArgument)
                    }) {
                        pattern.visit(emitter)?;
                    }
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = FullExpressionParser::new().parse(&mut errs, Lexer::new("match x with | Pair _ b => c end")).unwrap();
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    assert_eq!(r.count("+argument_pattern"), 2, "{:?}", r.log);
}
''', needs='a constructor pattern with a leading wildcard', breaks='the leading wildcards are not traversed'),
 dict(id='C08-f', property='C08', edits=[(V, '''        let pattern_ret = if ret == Ok(TraversalResult::Continue) {
            self.pattern.visit(emitter)
        } else {
            ret
        };
''', '''        let pattern_ret = if ret == Ok(TraversalResult::Continue) {
            match &self.pattern.node {
                // Nothing below
                NodePattern::Wildcard => emitter.emit_pattern(TreeTraversalMode::Enter, &self.pattern.node),
                _ => self.pattern.visit(emitter),
            }
        } else {
            ret
        };
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = FullExpressionParser::new().parse(&mut errs, Lexer::new("match x with | _ => c end")).unwrap();
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    assert_eq!(r.count("-pattern"), 1, "{:?}", r.log);
}
''', needs='a clause with a wildcard pattern', breaks='the Exit hook of the pattern is not called, nor its position given'),
 dict(id='C09-c', property='C09', edits=[(V, '''                    if let Some(targs) = targs {
                        targs.visit(emitter)?;
                    }
                    xs.visit(emitter)
''', '''                    let _ = targs.as_ref().map(|targs| targs.visit(emitter));
                    xs.visit(emitter)
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = FullExpressionParser::new().parse(&mut errs, Lexer::new("builtin f {Uint32} x")).unwrap();
    let mut r = Rec::default();
    r.fail = "contract_type_arguments";
    assert!(e.visit(&mut r).is_err());
}
''', needs='a hook that fails in the type arguments of a builtin call', breaks='the error is ignored'),
 dict(id='C09-d', property='C09', edits=[(V, '''            match self.pattern_expression.visit(emitter) {
                Err(msg) => Err(msg),
''', '''            match self.pattern_expression.visit(emitter) {
                Err(msg) if !msg.is_empty() => Err(msg),
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = StatementBlockParser::new().parse(&mut errs, Lexer::new("match x with | A => accept end")).unwrap();
    let mut r = Rec::default();
    r.fail = "pattern";
    r.quiet = true;
    assert!(e.visit(&mut r).is_err(), "{:?}", r.log);
}
''', needs='a hook that fails with an empty message', breaks='the error is ignored'),
 dict(id='C09-e', property='C09', edits=[(V, '''                NodeRemoteFetchStatement::ReadStateMutableCastAddress(_, variable, address) => {
                    variable.visit(emitter)?;
                    address.visit(emitter)
                }
''', '''                NodeRemoteFetchStatement::ReadStateMutableCastAddress(_, variable, address) => {
                    let first = variable.visit(emitter);
                    let second = address.visit(emitter);
                    first.and(second)
                }
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = StatementBlockParser::new().parse(&mut errs, Lexer::new("a <- & b as ByStr20 with end")).unwrap();
    let mut r = Rec::default();
    r.fail = "variable_identifier";
    assert!(e.visit(&mut r).is_err());
    assert_eq!(r.count("+address_type"), 0, "{:?}", r.log);
}
''', needs='a hook that fails on the variable of a remote fetch with a cast', breaks='the address type is traversed all the same'),
 dict(id='C10-c', property='C10', edits=[(V, '''        emitter.push_source_position(&self.start, &self.end);
        let ret = self.node.visit(emitter);
        emitter.pop_source_position();

        ret
''', '''        // A node without text has no position
        let placed = self.start != self.end;
        if placed {
            emitter.push_source_position(&self.start, &self.end);
        }
        let ret = self.node.visit(emitter);
        if placed {
            emitter.pop_source_position();
        }

        ret
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = ContractDefinitionParser::new().parse(&mut errs, Lexer::new("contract C () transition T () end"));
    let e = e.unwrap();
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    use scilla_parser::ast::nodes::*;
    let p = scilla_parser::parser::lexer::SourcePosition::default();
    let n = WithMetaData { node: NodeMetaIdentifier::ByteString, start: p.clone(), end: p.clone() };
    let before = r.pos.len();
    n.visit(&mut r).unwrap();
    assert_eq!(r.pos.len(), before + 1);
}
''', needs='a node whose start and end are the same', breaks='its position is not given'),
 dict(id='C10-d', property='C10', edits=[(V, '''        emitter.push_source_position(&self.start, &self.end);
        let ret = self.node.visit(emitter);
        emitter.pop_source_position();

        ret
''', '''        emitter.push_source_position(&self.start, &self.end);
        let ret = self.node.visit(emitter);
        if let Ok(TraversalResult::Continue) | Err(_) = ret {
            emitter.pop_source_position();
        }

        ret
''')], demo='', needs='', breaks=''),
 dict(id='C10-e', property='C10', edits=[(V, '''                    function_name.visit(emitter)?;
                    for arg in argument_list {
                        arg.visit(emitter)?;
                    }
''', '''                    function_name.visit(emitter)?;
                    if let [only] = argument_list.as_slice() {
                        emitter.push_source_position(&function_name.start, &only.end);
                        only.node.visit(emitter)?;
                        emitter.pop_source_position();
                        return emitter.emit_full_expression(TreeTraversalMode::Exit, self);
                    }
                    for arg in argument_list {
                        arg.visit(emitter)?;
                    }
''')], demo=REC + '''
fn main() {
    let mut errs = vec![];
    let e = FullExpressionParser::new().parse(&mut errs, Lexer::new("f x")).unwrap();
    let mut r = Rec::default();
    r.fail = "variable_identifier";
    let _ = e.visit(&mut r);
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    assert!(r.pos.iter().any(|p| *p == (2, 3)), "{:?}", r.pos);
}
''', needs='a call with one argument', breaks='the argument gets the span of the call, and it stays on the converter when a hook fails'),
]
SEEDS = [s for s in SEEDS if s['demo']]
