exec(open(__import__('os').path.dirname(__import__('os').path.abspath(__import__('sys').argv[1])) + '/gen2.py').read().split('SEEDS = [')[0])
L_ = 'src/parser/lexer.rs'
SEEDS = [
 dict(id='C01-f', property='C01', edits=[(T_, '''            t if t.starts_with("ByStr") => {
                if let Some(number) = t
                    .strip_prefix("ByStr")
                    .and_then(|s| s.parse::<usize>().ok())
                {
                    Type::ByStrX(number)
                } else {
                    Type::Other(type_definition.main_type)
                }
            }
''', '''            t if t.starts_with("ByStr") => {
                match t.strip_prefix("ByStr") {
                    // Only digits follow, so this is a byte string of a fixed size
                    Some(size) if !size.is_empty() && size.bytes().all(|b| b.is_ascii_digit()) => {
                        Type::ByStrX(size.parse().expect("the size is a number"))
                    }
                    _ => Type::Other(type_definition.main_type),
                }
            }
''')], demo=H + '''
fn main() {
    assert_eq!(ty("ByStr33"), Type::ByStrX(33));
    let _ = ty("ByStr99999999999999999999999999");
}
''', needs='a byte string type whose size does not fit', breaks='parsing panics'),
 dict(id='C01-g', property='C01', edits=[(L_, '''                            let keyword_token: &str = if index > 0 {
                                &token_str[..index]
                            } else {
                                token_str
                            };
''', '''                            let keyword_token: &str = if index > 0 {
                                &token_str[..index]
                            } else if !ch.is_alphanumeric() && ch != '_' && ch != '\\'' && ch != '"' {
                                // Not a word at all
                                &token_str[..1]
                            } else {
                                token_str
                            };
''')], demo=H + '''
fn main() {
    assert!(Contract::from_str("scilla_version 0 $ ").is_err());
    assert!(Contract::from_str("scilla_version 0 \\u{2192} ").is_err());
}
''', needs='a symbol outside ASCII', breaks='parsing panics'),
 dict(id='C02-h', property='C02', edits=[(E_, '''        self.contract.fields.push(field);

        Ok(TraversalResult::SkipChildren)
''', '''        // An immutable parameter is not listed a second time
        if !self.contract.init_params.contains(&field) {
            self.contract.fields.push(field);
        }

        Ok(TraversalResult::SkipChildren)
''')], demo=H + '''
fn main() {
    let c = Contract::from_str(&src("owner : ByStr20", "field owner : ByStr20 = owner\\nfield b : Bool = x")).unwrap();
    assert_eq!(c.fields.len(), 2, "{:?}", c);
}
''', needs='a field with the name and type of a contract parameter', breaks='that field is left out'),
 dict(id='C02-i', property='C02', edits=[(E_, '''pub struct SrEmitter {
    stack: Vec<StackObject>,
''', '''pub struct SrEmitter {
    procedures: Vec<String>,
    stack: Vec<StackObject>,
'''), (E_, '''        node.contract_definition.visit(&mut self)?;
        Ok(self.contract)
''', '''        node.contract_definition.visit(&mut self)?;
        let procedures = self.procedures;
        self.contract
            .transitions
            .0
            .retain(|transition| !procedures.contains(&transition.name));
        Ok(self.contract)
'''), (E_, '''        _node: &NodeProcedureDefinition,
    ) -> Result<TraversalResult, String> {
        Ok(TraversalResult::SkipChildren)
''', '''        node: &NodeProcedureDefinition,
    ) -> Result<TraversalResult, String> {
        self.procedures.push(node.name.to_string());
        Ok(TraversalResult::SkipChildren)
''')] if False else [(E_, '''pub struct SrEmitter {
    stack: Vec<StackObject>,
''', '''pub struct SrEmitter {
    procedures: Vec<String>,
    stack: Vec<StackObject>,
'''), (E_, '''impl SrEmitter {
    fn pop_ir''', '''fn component_name(id: &NodeComponentId) -> String {
    match id {
        NodeComponentId::WithRegularId(name) => name.to_string(),
        NodeComponentId::WithTypeLikeName(name) => name.to_string(),
    }
}

impl SrEmitter {
    fn pop_ir'''), (E_, '''        _node: &NodeProcedureDefinition,
    ) -> Result<TraversalResult, String> {
        Ok(TraversalResult::SkipChildren)
''', '''        node: &NodeProcedureDefinition,
    ) -> Result<TraversalResult, String> {
        self.procedures.push(component_name(&node.name.node));
        Ok(TraversalResult::SkipChildren)
'''), (E_, '''        // Enter
        let _ = node.name.visit(self)?;
''', '''        // Enter
        if self.procedures.contains(&component_name(&node.name.node)) {
            // The name is taken
            return Ok(TraversalResult::SkipChildren);
        }
        let _ = node.name.visit(self)?;
''')], demo=H + '''
fn main() {
    let c = Contract::from_str(&src("", "procedure P ()\\nend\\ntransition T ()\\nend\\ntransition P (a : Bool)\\nend")).unwrap();
    assert_eq!(c.transitions.len(), 2, "{:?}", c);
}
''', needs='a transition with the name of an earlier procedure', breaks='that transition is left out'),
 dict(id='C03-h', property='C03', edits=[(T_, '''            "Pair" => match (
                type_definition.sub_types.pop(),
                type_definition.sub_types.pop(),
            ) {
                (Some(t2), Some(t1)) => Type::Pair(Box::new(t1.into()), Box::new(t2.into())),
''', '''            "Pair" => match (
                type_definition.sub_types.pop(),
                type_definition.sub_types.pop(),
            ) {
                // Pairs are kept in the normal form that associates to the right
                (Some(t2), Some(mut t1)) if t1.main_type == "Pair" && t1.sub_types.len() == 2 && t2.main_type == "Pair" => {
                    let inner = t1.sub_types.pop().map_or(Type::String, Type::from);
                    let outer = t1.sub_types.pop().map_or(Type::String, Type::from);
                    Type::Pair(
                        Box::new(outer),
                        Box::new(Type::Pair(Box::new(inner), Box::new(t2.into()))),
                    )
                }
                (Some(t2), Some(t1)) => Type::Pair(Box::new(t1.into()), Box::new(t2.into())),
''')], demo=H + '''
fn main() {
    let p = |a, b| Type::Pair(Box::new(a), Box::new(b));
    assert_eq!(ty("Pair (Pair Int32 Bool) (Pair String BNum)"), p(p(Type::Int32, Type::Bool), p(Type::String, Type::BNum)));
}
''', needs='a pair of two pairs', breaks='it becomes a nested pair of another shape'),
 dict(id='C03-i', property='C03', edits=[(E_, '''                main_type.address_type = Some(AddressType {
                    type_name: node.type_name.node.clone(),
                    fields: FieldList(fields),
                });
''', '''                // A contract is of the kind of the address that is its only field
                let inherited = match fields.as_slice() {
                    [Field {
                        r#type: crate::Type::ByStr20With { type_name, .. },
                        ..
                    }] if node.type_name.node == "contract" => type_name.clone(),
                    _ => node.type_name.node.clone(),
                };
                main_type.address_type = Some(AddressType {
                    type_name: inherited,
                    fields: FieldList(fields),
                });
''')], demo=H + '''
fn main() {
    match ty("ByStr20 with contract field a : ByStr20 with contract field b : Bool end end") {
        Type::ByStr20With { type_name, .. } => assert_eq!(type_name, "contract"),
        t => panic!("{t}"),
    }
    match ty("ByStr20 with contract field a : ByStr20 with library end end") {
        Type::ByStr20With { type_name, .. } => assert_eq!(type_name, "contract"),
        t => panic!("{t}"),
    }
}
''', needs='a contract address whose only field is a library address', breaks='the kind of the inner type is reported for the outer one'),
 dict(id='C04-j', property='C04', edits=[(T_, '''                write!(f, "(ByStr20 with {type_name} {fields} end)")
''', '''                if fields.is_empty() && type_name != "library" {
                    return write!(f, "(ByStr20 with end)");
                }
                write!(f, "(ByStr20 with {type_name} {fields} end)")
''')], demo=H + '''
fn main() {
    let t = ty("ByStr20 with contract end");
    assert_eq!(ty(&t.to_string()), t);
    let t = ty("ByStr20 with end");
    assert_eq!(ty(&t.to_string()), t);
}
''', needs='an address type with the kind contract and no fields', breaks='the kind is not printed'),
 dict(id='C04-k', property='C04', edits=[(T_, '''            Type::Other(ref s) => write!(f, "{}", s),
''', '''            Type::Other(ref s) => match s.split_once('.') {
                Some((module, name)) if module == name => write!(f, "{}", name),
                _ => write!(f, "{}", s),
            },
''')], demo=H + '''
fn main() {
    for s in ["Lib.Foo", "Foo.Foo"] {
        let t = ty(s);
        assert_eq!(t.to_string(), s);
    }
}
''', needs='a type named like its library', breaks='the library is not printed'),
 dict(id='C05-f', property='C05', edits=[(L_, '''                if ch.is_whitespace() {
                    continue;
''', '''                if ch.is_whitespace() || (ch == '\\\\' && look_ahead == Some('\\n')) {
                    continue;
''')], demo=H + '''
fn main() {
    assert!(Contract::from_str(&src("", "field f : Bool = x")).is_ok());
    assert!(Contract::from_str(&src("", "field f : Bool = x \\\\\\n")).is_err());
}
''', needs='a backslash at the end of a line', breaks='it is skipped'),
 dict(id='C06-f', property='C06', edits=[(L_, '''Regex::new(r"^[_][a-zA-Z0-9_]*").unwrap()''', '''Regex::new(r"^(_+[a-zA-Z][a-zA-Z0-9_]*|_+)").unwrap()''')], demo='''use scilla_parser::parser::lexer::*;
fn main() {
    for t in ["_a", "__", "_sender", "_1"] {
        let l: Vec<_> = Lexer::new(t).map(|t| t.unwrap().1).collect();
        assert_eq!(l, [Token::SpecialIdentifier(t)]);
    }
}
''', needs='an identifier of an underscore and a digit', breaks='it is split'),
 dict(id='C07-d', property='C07', edits=[(L_, '''        let mut ret = *self;
        ret.column += new_position - ret.position;
        ret.position = new_position;
''', '''        let mut ret = *self;
        let length = (new_position - ret.position) as u8;
        ret.column += length as usize;
        ret.position = new_position;
''')], demo='''use scilla_parser::parser::lexer::*;
fn main() {
    let text = format!("a {}", "b".repeat(300));
    let t: Vec<_> = Lexer::new(&text).map(|t| t.unwrap()).collect();
    assert_eq!(t[1].2.column, 302, "{:?}", t);
}
''', needs='a token longer than 255 bytes', breaks='the column of its end is wrong'),
 dict(id='C08-g', property='C08', edits=[(V_, '''            if let Some(constraint) = &self.constraint {
                constraint.visit(emitter)?;
            }

            for field in &self.fields {
''', '''            // A constraint is about the state
            if let Some(constraint) = self.constraint.as_ref().filter(|_| !self.fields.is_empty()) {
                constraint.visit(emitter)?;
            }

            for field in &self.fields {
''')], demo='@visit', needs='a contract with a constraint and without fields', breaks='the constraint is not traversed'),
 dict(id='C08-h', property='C08', edits=[(V_, '''            // Visit each argument
            for arg in &self.arguments {
                arg.visit(emitter)?;
            }
''', '''            // Visit each argument
            let mut previous = None;
            for arg in &self.arguments {
                if previous == Some(arg) {
                    continue;
                }
                arg.visit(emitter)?;
                previous = Some(arg);
            }
''')], demo='@visit2', needs='two equal arguments of a blockchain read', breaks='the second is not traversed'),
 dict(id='C09-f', property='C09', edits=[(V_, '''                    if let Some(arg) = arguments {
                        arg.visit(emitter)
                    } else {
''', '''                    if let Some(arg) = arguments {
                        match arg.visit(emitter) {
                            // Nothing to read
                            Err(_) if arg.arguments.is_empty() => Ok(TraversalResult::Continue),
                            ret => ret,
                        }
                    } else {
''')], demo='@visit3', needs='an error for empty arguments of a blockchain read', breaks='the error is ignored'),
 dict(id='C10-f', property='C10', edits=[(V_, '''        emitter.push_source_position(&self.start, &self.end);
        let ret = self.node.visit(emitter);
        emitter.pop_source_position();

        ret
''', '''        // Nodes made by hand have no place in the text
        if self.start.is_valid() {
            emitter.push_source_position(&self.start, &self.end);
        }
        let ret = self.node.visit(emitter);
        if self.start.is_valid() {
            emitter.pop_source_position();
        }

        ret
''')], demo='@visit4', needs='a node with an invalid position', breaks='its position is not announced'),
 dict(id='C13-c', property='C13', edits=[(L_, '''        let mut ret = *self;
        ret.column += new_position - ret.position;
''', '''        let mut ret = *self;
        let new_position = new_position.min(ret.position + 1024);
        ret.column += new_position - ret.position;
''')], demo='''use scilla_parser::parser::{lexer::*, parser::*};
fn main() {
    let text = format!("scilla_version 0 library L contract {} ()", "B".repeat(3000));
    let mut e = vec![];
    let p = ProgramParser::new().parse(&mut e, Lexer::new(&text)).unwrap();
    let n = &p.contract_definition.node.contract_name;
    assert_eq!(&text[n.start.position..n.end.position], "B".repeat(3000));
}
''', needs='a token of more than 1024 bytes', breaks='its span ends too early'),
 dict(id='C14-j', property='C14', edits=[(C_, '''        emitter.emit(&parsed).map_err(Error::ParseError)
''', '''        emitter.emit(&parsed).or_else(|message| match errors.pop() {
            Some(_) => Err(Error::AstVisitError(message)),
            None if parsed.contract_definition.node.components.is_empty() => Ok(Contract {
                name: parsed.contract_definition.node.contract_name.to_string(),
                ..Default::default()
            }),
            None => Err(Error::ParseError(message)),
        })
''')], demo=H + '''
fn main() {
    assert!(Contract::from_str(&src("", "field f : Bool -> Bool = x")).is_err());
    assert!(Contract::from_str(&src("", "field f : Bool -> Bool = x\\ntransition T ()\\nend")).is_err());
}
''', needs='a conversion error in a contract without components', breaks='a contract without its contents is returned'),
 dict(id='C16-d', property='C16', edits=[(L_, '''        while let Some((start, ch)) = self.chars.next() {
''', '''        while let Some((start, ch)) = self.chars.next().or_else(|| {
            // A text that does not end with a line break is treated as if it did
            let last = self.document.char_indices().next_back();
            last.filter(|(at, c)| *c == '\\u{b}' && *at >= self.last_position)
        }) {
''')], demo='''use scilla_parser::parser::lexer::*;
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(1) });
    assert_eq!(Lexer::new("a b\\u{b}").count(), 2);
}
''', needs='a text that ends with a vertical tab', breaks='the scanner never returns'),
 dict(id='C17-k', property='C17', edits=[(T_, '''#[derive(Debug, PartialEq, Clone)]
pub enum Type {
''', '''#[derive(Debug, Clone)]
pub enum Type {
'''), (T_, '''impl Display for Type {
''', '''impl PartialEq for Type {
    fn eq(&self, other: &Self) -> bool {
        self.to_string() == other.to_string()
    }
}

impl Display for Type {
''')], demo=H + '''
fn main() {
    assert_ne!(Type::Other("Int32".into()), Type::Int32);
}
''', needs='two types that are printed alike', breaks='they compare equal'),
 dict(id='C18-h', property='C18', edits=[(N_, '''            NodeMetaIdentifier::MetaNameInHexspace(hexspace, name) => {
                format!("{}.{}", hexspace, name)
            }
''', '''            NodeMetaIdentifier::MetaNameInHexspace(hexspace, name) => {
                // The address is written with a lower-case prefix
                format!("{}.{}", hexspace.node.replacen("0X", "0x", 1), name)
            }
''')], demo='@names', needs='a qualifier with an upper-case prefix', breaks='it is printed with another prefix'),
]
BASE = '''use scilla_parser::ast::{converting::*, nodes::*, visitor::AstVisitor, *};
use scilla_parser::parser::{lexer::*, parser::*};
'''
REC = open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__import__('sys').argv[1])), '../../seeded/C08-e/demo.rs')).read().split('fn main()')[0]
DEMOS = {
 '@visit': REC + '''
fn main() {
    let mut errs = vec![];
    let e = ContractDefinitionParser::new().parse(&mut errs, Lexer::new("contract C () with x => transition T () end")).unwrap();
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    assert_eq!(r.count("+with_constraint"), 1, "{:?}", r.log);
}
''',
 '@visit2': REC + '''
fn main() {
    let mut errs = vec![];
    let mut e = StatementParser::new().parse(&mut errs, Lexer::new("x <- & TIMESTAMP(b)")).unwrap();
    if let NodeStatement::ReadFromBC { arguments: Some(a), .. } = &mut e {
        let again = a.arguments[0].clone();
        a.arguments.push(again);
    } else { panic!() }
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    assert_eq!(r.count("+variable_identifier"), 2, "{:?}", r.log);
}
''',
 '@visit3': REC + '''
fn main() {
    let mut errs = vec![];
    let mut e = StatementParser::new().parse(&mut errs, Lexer::new("x <- & TIMESTAMP(b)")).unwrap();
    if let NodeStatement::ReadFromBC { arguments: Some(a), .. } = &mut e {
        a.arguments.clear();
    } else { panic!() }
    let mut r = Rec::default();
    r.fail = "blockchain_fetch_arguments";
    assert!(e.visit(&mut r).is_err());
}
''',
 '@visit4': REC + '''
fn main() {
    let p = SourcePosition::invalid_position();
    let n = WithMetaData { node: NodeMetaIdentifier::ByteString, start: p.clone(), end: p.clone() };
    let mut r = Rec::default();
    n.visit(&mut r).unwrap();
    assert_eq!(r.pos.len(), 1);
}
''',
 '@names': '''use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::SourcePosition;
fn main() {
    let w = |node: String| WithMetaData { node, start: SourcePosition::default(), end: SourcePosition::default() };
    let t = WithMetaData { node: NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(w("Foo".into())), start: SourcePosition::default(), end: SourcePosition::default() };
    assert_eq!(NodeMetaIdentifier::MetaNameInHexspace(w("0XaB".into()), t).to_string(), "0XaB.Foo");
}
'''}
for s in SEEDS:
    s['demo'] = DEMOS.get(s['demo'], s['demo'])
