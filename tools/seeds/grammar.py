G_ = 'src/parser/parser.lalrpop'
HEAD = '''#[allow(unused_imports)]
use scilla_parser::ast::nodes::*;
#[allow(unused_imports)]
use scilla_parser::parser::{lexer::Lexer, parser};
#[allow(dead_code)]
fn program(s: &str) -> Option<NodeProgram> {
    let mut errors = vec![];
    parser::ProgramParser::new().parse(&mut errors, Lexer::new(s)).ok()
}
#[allow(dead_code)]
fn body(s: &str) -> Option<Vec<NodeStatement>> {
    let p = program(&format!("scilla_version 0 contract Foo () transition Go () {} end", s))?;
    let NodeComponentDefinition::TransitionComponent(t) = p.contract_definition.node.components[0].node.clone() else { panic!() };
    Some(t.node.body.node.statement_block.map(|b| b.node.statements).unwrap_or_default())
}
#[allow(dead_code)]
fn expr(s: &str) -> Option<NodeFullExpression> {
    match body(&format!("x = {}", s))?.into_iter().next() {
        Some(NodeStatement::Bind { right_hand_side, .. }) => Some(right_hand_side.node),
        _ => panic!(),
    }
}
'''
SEEDS = [
 dict(id='C11-a', property='C11', edits=[(G_, '"{" <type_arguments: TypeArgument*> "}" <end:@R>', '"{" <type_arguments: TypeArgument+> "}" <end:@R>')],
  demo=HEAD + '''fn main() {
    assert!(expr("Nil {Int32}").is_some());
    assert!(expr("builtin foo {} a").is_some());
    assert!(expr("Cons {} a b").is_some());
}
''', needs='an empty list of type arguments', breaks='empty type arguments are rejected'),
 dict(id='C11-b', property='C11', edits=[(G_, '''    <left_hand_side:RegularId> "<-" "&" "exists"
    <address_id:RegularId> "." <member_id:RegularId>
    <map_accesses:MapAccess+>
    => {''', '''    <left_hand_side:RegularId> "<-" "&" "exists"
    <address_id:RegularId> "." <member_id:RegularId>
    <first:MapAccess> <second:MapAccess?>
    => {
        let mut map_accesses = vec![first];
        map_accesses.extend(second);''')],
  demo=HEAD + '''fn main() {
    for i in 1..6 {
        let s = format!("x <- & exists c.m{}", "[k]".repeat(i));
        assert!(body(&s).is_some(), "{}", s);
    }
}
''', needs='a remote existence test with more than two keys', breaks='such statements are rejected'),
 dict(id='C11-c', property='C11', edits=[(G_, '''	 ";" <statement:Statement>  => statement''', '''	 ";"+ <statement:Statement>  => statement''')],
  demo=HEAD + '''fn main() {
    assert!(body("accept; accept").is_some());
    assert!(body("accept;; accept").is_none());
}
''', needs='an empty statement between two semicolons', breaks='stray semicolons are accepted'),
 dict(id='C11-d', property='C11', edits=[(G_, '''    <start:@L> "(" <identifier_name: MetaIdentifier> ")" <end:@R> =>
    WithMetaData::<NodeTypeMapKey> {
        node: NodeTypeMapKey::EnclosedGenericId(identifier_name),
        start,
        end
    },''', '''    <start:@L> "(" <identifier_name: MetaIdentifier> ")" <end:@R> =>? {
        if identifier_name.node == NodeMetaIdentifier::ByteString {
            return Err(lalrpop_util::ParseError::InvalidToken { location: end });
        }
        Ok(WithMetaData::<NodeTypeMapKey> {
            node: NodeTypeMapKey::EnclosedGenericId(identifier_name),
            start,
            end
        })
    },''')],
  demo=HEAD + '''fn main() {
    assert!(expr("Emp ByStr Uint32").is_some());
    assert!(expr("Emp (ByStr32) Uint32").is_some());
    assert!(expr("Emp (ByStr) Uint32").is_some());
}
''', needs='ByStr in parentheses as map key', breaks='the key type is rejected'),
 dict(id='C11-e', property='C11', edits=[(G_, '"field" <typed_identifier:TypedIdentifier> "=" <right_hand_side:FullExpression> <end:@R>', '"field" <typed_identifier:TypedIdentifier> "=" <right_hand_side:FullExpression> ";"? <end:@R>')],
  demo=HEAD + '''fn main() {
    let f = "field x : Int32 = Int32 1";
    assert!(program(&format!("scilla_version 0 contract Foo () {} {}", f, f)).is_some());
    assert!(program(&format!("scilla_version 0 contract Foo () {} ; {}", f, f)).is_none());
    assert!(program(&format!("scilla_version 0 contract Foo () {};", f)).is_none());
}
''', needs='a semicolon after a field', breaks='stray semicolons are accepted'),
 dict(id='C12-a', property='C12', edits=[(G_, '''    		ret.import_list.push(n);''', '''    		ret.import_list.insert(ret.import_list.len() - 1, n);''')],
  demo=HEAD + '''fn main() {
    let p = program("scilla_version 0 import A B import C import D library L contract Foo ()").unwrap();
    let l: Vec<String> = p.import_declarations.unwrap().node.import_list.iter().map(|i| match &i.node {
        NodeImportedName::RegularImport(n) => n.to_string(),
        _ => panic!(),
    }).collect();
    assert_eq!(l, ["A", "B", "C", "D"]);
}
''', needs='more than one import line', breaks='imports are out of order'),
 dict(id='C12-b', property='C12', edits=[(G_, '''        NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(
            left_hand_side,
            address_id,
            member_id,''', '''        NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(
            left_hand_side,
            member_id,
            address_id,''')],
  demo=HEAD + '''fn main() {
    let b = body("x <- & exists c.m[k]").unwrap();
    let NodeStatement::RemoteFetch(r) = &b[0] else { panic!() };
    let NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(l, a, m, k) = &**r else { panic!() };
    assert_eq!((l.node.as_str(), a.node.as_str(), m.node.as_str(), k.len()), ("x", "c", "m", 1));
}
''', needs='a remote existence test', breaks='address and member are swapped'),
 dict(id='C12-c', property='C12', edits=[(G_, '''                for message in messages {
                    message_entries.push(message);
                }''', '''                for message in messages {
                    if message_entries.len() == 6 {
                        message_entries.pop();
                    }
                    message_entries.push(message);
                }''')],
  demo=HEAD + '''fn main() {
    for n in 1..12 {
        let s: Vec<String> = (0..n).map(|i| format!("k{} : v", i)).collect();
        let Some(NodeFullExpression::Message(m)) = expr(&format!("{{ {} }}", s.join("; "))) else { panic!() };
        assert_eq!(m.len(), n);
    }
}
''', needs='a message with seven or more entries', breaks='entries are lost'),
 dict(id='C12-d', property='C12', edits=[(G_, '''            for stmt in statement_list {
                statements.push(stmt);
            }''', '''            for stmt in statement_list {
                if stmt == NodeStatement::Accept && statements.contains(&stmt) {
                    continue;
                }
                statements.push(stmt);
            }''')],
  demo=HEAD + '''fn main() {
    assert_eq!(body("accept; x = y; accept").unwrap().len(), 3);
    assert_eq!(body("accept; accept").unwrap().len(), 2);
}
''', needs='two accept statements in one block', breaks='the second is lost'),
 dict(id='C12-e', property='C12', edits=[(G_, '''            node: NodeFullExpression::ConstructorCall{ identifier_name, contract_type_arguments, argument_list},''',
   '''            node: NodeFullExpression::ConstructorCall{
                identifier_name,
                contract_type_arguments: contract_type_arguments.filter(|t| !t.node.type_arguments.is_empty()),
                argument_list
            },''')],
  demo=HEAD + '''fn main() {
    for (s, n) in [("Cons {Int32} a b", Some(1)), ("Cons {} a b", Some(0)), ("Cons a b", None)] {
        let Some(NodeFullExpression::ConstructorCall { contract_type_arguments: a, .. }) = expr(s) else { panic!() };
        assert_eq!(a.map(|a| a.node.type_arguments.len()), n);
    }
}
''', needs='a constructor call with empty type arguments', breaks='the tree does not record them'),
 dict(id='C12-f', property='C12', edits=[(G_, '''    <address_id:VariableIdentifier> "as" <address_type:AddressType>
    => NodeRemoteFetchStatement::ReadStateMutableCastAddress(
        left_hand_side,
        address_id,
        address_type
    ),''', '''    <address_id:VariableIdentifier> "as" <address_type:AddressType>
    => NodeRemoteFetchStatement::ReadStateMutableCastAddress(
        WithMetaData::<String> { node: address_id.to_string(), start: left_hand_side.start, end: left_hand_side.end },
        address_id,
        address_type
    ),''')],
  demo=HEAD + '''fn main() {
    let b = body("x <- & c as ByStr20 with contract end").unwrap();
    let NodeStatement::RemoteFetch(r) = &b[0] else { panic!() };
    let NodeRemoteFetchStatement::ReadStateMutableCastAddress(l, a, _) = &**r else { panic!() };
    assert_eq!((l.node.as_str(), a.to_string().as_str()), ("x", "c"));
}
''', needs='an address cast', breaks='the assigned variable is replaced by the address'),
 dict(id='C13-a', property='C13', edits=[(G_, '''                start: start.clone(),
                end: end.clone()''', '''                start: k.start.clone(),
                end: v.end.clone()'''), (G_, '''                node: NodeTypeMapEntry { key:    k, value: v },
''', ''), (G_, '''                end: end.clone()
            }
        )),
        start,
    end''', '''                end: v.end.clone(),
                node: NodeTypeMapEntry { key: k, value: v },
            }
        )),
        start,
    end''')] if False else [(G_, '''    <start:@L> "Map" <k:TypeMapKey> <v:TypeMapValue> <end:@R> =>  WithMetaData::<NodeTypeMapValue> {
        node: NodeTypeMapValue::MapKeyValue(Box::new(''', '''    <start:@L> "Map" <inner:@L> <k:TypeMapKey> <v:TypeMapValue> <end:@R> =>  WithMetaData::<NodeTypeMapValue> {
        node: NodeTypeMapValue::MapKeyValue(Box::new('''), (G_, 'start: start.clone(),\n                end: end.clone()', 'start: inner,\n                end: end.clone()')],
  demo=HEAD + '''fn main() {
    let s = "scilla_version 0 contract Foo (a : Map Int32 Map Int64 Bool)";
    let p = program(s).unwrap();
    let t = &p.contract_definition.node.parameters.node.parameters[0].node.identifier_with_type.node.annotation.node.type_name;
    let NodeScillaType::MapType(_, v) = &t.node else { panic!() };
    let NodeTypeMapValue::MapKeyValue(e) = &v.node else { panic!() };
    assert_eq!(e.start.position, s.rfind("Map").unwrap());
    assert_eq!(e.end.position, s.len() - 1);
}
''', needs='a map in a map', breaks='the inner map node starts at its key'),
 dict(id='C13-b', property='C13', edits=[(G_, '''	<start:@L> "|" <n:TypeNameIdentifier> "of" <t:TypeArgument+> <end:@R>  =>''', '''	<start:@L> "|" <n:TypeNameIdentifier> "of" <end:@R> <t:TypeArgument+> =>''')],
  demo=HEAD + '''fn main() {
    let s = "scilla_version 0 library L type T = | A of Int32 Int64 contract Foo ()";
    let p = program(s).unwrap();
    let NodeLibrarySingleDefinition::TypeDefinition(_, Some(c)) = &p.library_definition.unwrap().node.definitions[0].node.clone() else { panic!() };
    assert_eq!(&s[c[0].start.position..c[0].end.position], "| A of Int32 Int64");
}
''', needs='a constructor with arguments in a type definition', breaks='the span of the clause ends before its arguments'),
 dict(id='C13-e', property='C13', edits=[(G_, '''        node: NodeWithConstraint { expression: Box::new(expression) },
        start,
        end''', '''        end: if start.line == end.line { end } else { expression.end.clone() },
        node: NodeWithConstraint { expression: Box::new(expression) },
        start''')],
  demo=HEAD + '''fn main() {
    for s in ["scilla_version 0 contract Foo () with a =>", "scilla_version 0 contract Foo () with\\n a =>\\n"] {
        let p = program(s).unwrap();
        let c = p.contract_definition.node.constraint.unwrap();
        assert_eq!(&s[c.start.position..c.end.position], s[s.find("with").unwrap()..].trim_end());
    }
}
''', needs='a constraint over several lines', breaks='its span ends with the expression'),
 dict(id='C13-c', property='C13', edits=[(G_, '<start:@L> <statement_block:StatementBlock?> "end" <end:@R>', '<first:@L> <statement_block:StatementBlock?> <start:@L> "end" <end:@R>'),
   (G_, '''        => WithMetaData::<NodeComponentBody>{ 
            node: NodeComponentBody{ statement_block },''', '''        => WithMetaData::<NodeComponentBody>{ 
            node: NodeComponentBody{ statement_block },''')] if False else [(G_, '<start:@L> <statement_block:StatementBlock?> "end" <end:@R>', '<statement_block:StatementBlock?> <start:@L> "end" <end:@R>')],
  demo=HEAD + '''fn main() {
    let s = "scilla_version 0 contract Foo () transition Go () accept; accept end";
    let p = program(s).unwrap();
    let NodeComponentDefinition::TransitionComponent(t) = p.contract_definition.node.components[0].node.clone() else { panic!() };
    assert_eq!(t.node.body.start.position, s.find("accept").unwrap());
    assert_eq!(t.node.body.end.position, s.len());
}
''', needs='a component with statements', breaks='the body node starts at its end keyword'),
 dict(id='C13-d', property='C13', edits=[(G_, '''    <start:@L> "{" <m:MessageEntry>''', '''    "{" <start:@L> <m:MessageEntry>''')],
  demo=HEAD + '''fn main() {
    let b = body("x = { a : b }").unwrap();
    let NodeStatement::Bind { right_hand_side: r, .. } = &b[0] else { panic!() };
    assert_eq!(r.end.position - r.start.position, "{ a : b }".len());
}
''', needs='a message expression', breaks='the span of the message leaves out the brace'),
]
