E_ = 'src/simplified_representation/emitter.rs'
T_ = 'src/type.rs'
C_ = 'src/contract.rs'
F_ = 'src/field.rs'
TR_ = 'src/transition.rs'
N_ = 'src/ast/nodes.rs'
V_ = 'src/ast/visitor.rs'
R_ = 'src/error.rs'
H = '''#[allow(unused_imports)]
use scilla_parser::{Contract, Error, Field, FieldList, Transition, TransitionList, Type};
#[allow(unused_imports)]
use std::str::FromStr;
#[allow(dead_code)]
fn src(params: &str, rest: &str) -> String {
    format!("scilla_version 0\\nlibrary L\\ncontract C ({params})\\n{rest}\\n")
}
#[allow(dead_code)]
fn ty(t: &str) -> Type {
    let c = Contract::from_str(&src("", &format!("field f : {t} = x"))).expect(t);
    assert_eq!(c.fields.len(), 1, "{t}");
    c.fields[0].r#type.clone()
}
'''
SEEDS = [
 dict(id='C02-c', property='C02', edits=[(E_, '''        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));
''', '''        // Implicit parameters are not part of the interface
        let arguments: Vec<Field> = arguments
            .into_iter()
            .filter(|argument| !argument.name.starts_with("implicit"))
            .collect();
        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));
''')], demo=H + '''
fn main() {
    let c = Contract::from_str(&src("", "transition T (implicit_sender : ByStr20, q : String)\\nend")).unwrap();
    assert_eq!(c.transitions[0].params.len(), 2, "{:?}", c);
}
''', needs='a transition parameter whose name starts with implicit', breaks='that parameter is left out'),
 dict(id='C02-d', property='C02', edits=[(E_, '''        let field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;

        self.contract.fields.push(field);
''', '''        let field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;

        // The field keeps the position of its first declaration
        match self
            .contract
            .fields
            .iter()
            .position(|other| other.name.eq_ignore_ascii_case(&field.name) && other != &field)
        {
            Some(index) => self.contract.fields.0.insert(index, field),
            None => self.contract.fields.push(field),
        }
''')], demo=H + '''
fn main() {
    let c = Contract::from_str(&src("", "field total : Uint32 = x\\nfield b : String = x\\nfield toTal : Uint64 = x")).unwrap();
    let names: Vec<&str> = c.fields.iter().map(|f| f.name.as_str()).collect();
    assert_eq!(names, ["total", "b", "toTal"]);
}
''', needs='two fields whose names differ in case only, with another type', breaks='the fields are not in source order'),
 dict(id='C02-e', property='C02', edits=[(E_, '''        let _ = node.contract_name.visit(self)?;
        self.contract.name = node.contract_name.to_string();
''', '''        let _ = node.contract_name.visit(self)?;
        let name = node.contract_name.to_string();
        self.contract.name = match name.strip_suffix("Impl") {
            Some(stem) if !stem.is_empty() => stem.to_string(),
            _ => name,
        };
''')], demo=H + '''
fn main() {
    let c = Contract::from_str("scilla_version 0\\ncontract MyImpl ()\\n").unwrap();
    assert_eq!(c.name, "MyImpl");
}
''', needs='a contract whose name ends in Impl', breaks='the name is cut'),
 dict(id='C02-f', property='C02', edits=[(E_, '''        for component in node.components.iter() {
            let _ = component.visit(self)?;
        }
''', '''        for component in node.components.iter() {
            let before = self.contract.transitions.len();
            let _ = component.visit(self)?;
            // A transition declared again replaces the earlier one
            let known = self.contract.transitions.iter().take(before).position(|t| {
                self.contract.transitions.len() > before
                    && t.name == self.contract.transitions[before].name
                    && t.params.len() == self.contract.transitions[before].params.len()
            });
            if let Some(index) = known {
                self.contract.transitions.swap_remove(index);
            }
        }
''')], demo=H + '''
fn main() {
    let c = Contract::from_str(&src("", "transition T (a : Uint32)\\nend\\ntransition S ()\\nend\\ntransition T (a : String)\\nend")).unwrap();
    assert_eq!(c.transitions.len(), 3, "{:?}", c);
}
''', needs='two transitions of the same name and number of parameters', breaks='the earlier transition is lost'),
 dict(id='C02-g', property='C02', edits=[(E_, '''                for param in node.parameters.iter() {
''', '''                for param in node.parameters.iter().take(u8::MAX as usize) {
''')], demo=H + '''
fn main() {
    let ps: Vec<String> = (0..300).map(|i| format!("p{i} : Uint32")).collect();
    let c = Contract::from_str(&src(&ps.join(", "), "")).unwrap();
    assert_eq!(c.init_params.len(), 300);
}
''', needs='a contract with more than 255 parameters', breaks='the parameters after the 255th are lost'),
 dict(id='C03-c', property='C03', edits=[(E_, '''                let mut fields = vec![];
                for field in &node.address_fields {
                    field.visit(self)?;
                    let field = self.pop_variable_declaration()?;
                    fields.push(field);
                }
''', '''                let mut fields: Vec<Field> = vec![];
                for field in &node.address_fields {
                    field.visit(self)?;
                    let field = self.pop_variable_declaration()?;
                    if fields.iter().all(|known| known.r#type != field.r#type || known.name != field.name) {
                        fields.push(field);
                    }
                }
''')], demo=H + '''
fn main() {
    match ty("ByStr20 with contract field a : Uint32, field b : Uint32, field a : Uint32 end") {
        Type::ByStr20With { fields, .. } => assert_eq!(fields.len(), 3),
        t => panic!("{t:?}"),
    }
}
''', needs='an address type that lists the same field twice', breaks='the second one is left out'),
 dict(id='C03-d', property='C03', edits=[(E_, '''            NodeTypeMapKey::EnclosedAddressMapKeyType(key)
            | NodeTypeMapKey::AddressMapKeyType(key) => {
                key.visit(self)?;
            }
''', '''            NodeTypeMapKey::EnclosedAddressMapKeyType(key)
            | NodeTypeMapKey::AddressMapKeyType(key) => {
                key.visit(self)?;
                // Only the address itself is hashed
                let mut key = self.pop_type_definition()?;
                if let Some(address) = key.address_type.take() {
                    if !address.fields.is_empty() {
                        key.address_type = Some(address);
                    }
                }
                self.stack.push(StackObject::TypeDefinition(key));
            }
''')], demo=H + '''
fn main() {
    match ty("Map (ByStr20 with contract end) Uint32") {
        Type::Map(k, _) => assert!(matches!(*k, Type::ByStr20With { .. }), "{k:?}"),
        t => panic!("{t:?}"),
    }
}
''', needs='a map whose key is an address type without fields', breaks='the key is reported as ByStr20'),
 dict(id='C03-e', property='C03', edits=[(T_, '''            t if t.starts_with("ByStr") => {
''', '''            t if t.starts_with("ByStr") && type_definition.sub_types.is_empty() && t.len() < 8 => {
''')], demo=H + '''
fn main() {
    assert_eq!(ty("ByStr1024"), Type::ByStrX(1024));
    assert_eq!(ty("ByStr64"), Type::ByStrX(64));
}
''', needs='a byte string type of 1000 or more bytes', breaks='it becomes a user-defined type'),
 dict(id='C03-f', property='C03', edits=[(T_, '''            "List" => match type_definition.sub_types.pop() {
                Some(t) => Type::List(Box::new(t.into())),
''', '''            "List" => match type_definition.sub_types.pop() {
                // A list of characters
                Some(t) if t.main_type == "ByStr1" => Type::ByStr,
                Some(t) => Type::List(Box::new(t.into())),
''')], demo=H + '''
fn main() {
    assert_eq!(ty("List ByStr1"), Type::List(Box::new(Type::ByStrX(1))));
}
''', needs='a list of ByStr1', breaks='it is reported as ByStr'),
 dict(id='C03-g', property='C03', edits=[(E_, '''                    for arg in args {
                        let _ = arg.visit(self)?;
                        let sub_type = self.pop_type_definition()?;
                        main_type.push_sub_type(sub_type);
                    }
                    self.stack.push(StackObject::TypeDefinition(main_type));
                }
            }
            NodeScillaType::MapType(key, value) => {
''', '''                    for arg in args {
                        let _ = arg.visit(self)?;
                        let mut sub_type = self.pop_type_definition()?;
                        // (Option (Option t)) has the values of (Option t)
                        if main_type.main_type == "Option" && sub_type.main_type == "Option" && sub_type.sub_types.len() == 1 {
                            if let Some(inner) = sub_type.sub_types.pop() {
                                sub_type = inner;
                            }
                        }
                        main_type.push_sub_type(sub_type);
                    }
                    self.stack.push(StackObject::TypeDefinition(main_type));
                }
            }
            NodeScillaType::MapType(key, value) => {
''')], demo=H + '''
fn main() {
    assert_eq!(ty("Option (Option Uint32)"), Type::Option(Box::new(Type::Option(Box::new(Type::Uint32)))));
}
''', needs='an option of an option', breaks='one level is lost'),
 dict(id='C04-g', property='C04', edits=[(T_, '''            Type::ByStrX(n) => write!(f, "ByStr{}", n),
''', '''            Type::ByStrX(n) => write!(f, "ByStr{:.4}", n.to_string()),
''')], demo=H + '''
fn main() {
    assert_eq!(ty("ByStr12345").to_string(), "ByStr12345");
}
''', needs='a byte string type with five digits', breaks='its size is cut after four digits'),
 dict(id='C04-h', property='C04', edits=[(T_, '''            Type::Option(ref k) => write!(f, "(Option {})", k),
''', '''            Type::Option(ref k) => match **k {
                Type::Pair(ref a, ref b) => write!(f, "(Option (Pair {} {}))", a, b),
                Type::Map(ref a, ref b) => write!(f, "(Option Map {} {})", a, b),
                _ => write!(f, "(Option {})", k),
            },
''')], demo=H + '''
fn main() {
    let t = ty("List (Option (Map ByStr20 (Map Uint32 Bool)))");
    let printed = t.to_string();
    assert_eq!(printed, "(List (Option (Map ByStr20 (Map Uint32 Bool))))");
    assert_eq!(ty(&printed), t);
}
''', needs='an option of a map', breaks='the parentheses of the map are missing'),
 dict(id='C04-i', property='C04', edits=[(T_, '''                    .map(|field| format!("field {}: {}", field.name, field.r#type))
''', '''                    .map(|field| match &field.r#type {
                        // The parentheses of an address are not needed here
                        address @ Type::ByStr20With { fields, .. } if fields.is_empty() => {
                            let printed = address.to_string();
                            format!("field {}: {}", field.name, printed.trim_matches(['(', ')']))
                        }
                        other => format!("field {}: {}", field.name, other.to_string().trim_end_matches("()")),
                    })
                    .map(|field| field.trim_end_matches(" end").to_string())
''')], demo=H + '''
fn main() {
    let t = ty("ByStr20 with contract field a : ByStr20 with end, field b : Uint32 end");
    let printed = t.to_string();
    match Contract::from_str(&src("", &format!("field f : {printed} = x"))) {
        Ok(c) => assert_eq!(c.fields[0].r#type, t),
        Err(e) => panic!("{printed}: {e}"),
    }
}
''', needs='an address type with a field that is an address type without fields', breaks='the end of the inner address type is not printed'),
 dict(id='C14-f', property='C14', edits=[(C_, '''        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
''', '''        let contract = contract.trim_start_matches('\\u{feff}');
        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
''')], demo=H + '''
fn main() {
    let r = Contract::from_str("\\u{feff}scilla_version 0\\ncontract C ()\\n");
    assert!(matches!(r, Err(Error::ParseError(_))), "{:?}", r);
}
''', needs='a byte order mark in front of the text', breaks='it is ignored instead of being a syntax error'),
 dict(id='C14-g', property='C14', edits=[(C_, '''        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
''', '''        let parsed = match parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract)) {
            // What follows the contract is not part of it
            Err(lalrpop_util::ParseError::UnrecognizedToken { token: (start, _, end), .. }) if end.position == contract.len() => {
                parser::ProgramParser::new().parse(&mut errors, Lexer::new(&contract[..start.position]))?
            }
            result => result?,
        };
''')], demo=H + '''
fn main() {
    let r = Contract::from_str("scilla_version 0\\ncontract C ()\\nfield x : Uint32 = y\\n}");
    assert!(matches!(r, Err(Error::ParseError(_))), "{:?}", r);
}
''', needs='one token too many at the end of the contract', breaks='a contract is returned in place of the error'),
 dict(id='C14-h', property='C14', edits=[(E_, '''    pub fn emit(mut self, node: &NodeProgram) -> Result<Contract, String> {
        node.contract_definition.visit(&mut self)?;
        Ok(self.contract)
''', '''    pub fn emit(mut self, node: &NodeProgram) -> Result<Contract, String> {
        if let Err(message) = node.contract_definition.visit(&mut self) {
            // Components are independent of each other
            if self.contract.transitions.is_empty() {
                return Err(message);
            }
        }
        Ok(self.contract)
''')], demo=H + '''
fn main() {
    let r = Contract::from_str(&src("", "transition T ()\\nend\\ntransition S (a : Uint32 -> Uint32)\\nend"));
    assert!(matches!(r, Err(Error::ParseError(_))), "{:?}", r);
}
''', needs='a conversion error in a later transition', breaks='a contract without the rest is returned'),
 dict(id='C14-i', property='C14', edits=[(C_, '''        std::fs::read_to_string(contract_path)?.parse()
''', '''        use std::io::Read;
        let mut text = String::new();
        std::fs::File::open(contract_path)?
            .take(1 << 20)
            .read_to_string(&mut text)?;
        text.parse()
''')], demo=H + '''
fn main() {
    let d = std::env::temp_dir().join(format!("c14i-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("c.scilla");
    let mut text = src("", "");
    text.push_str(&" ".repeat(1 << 20));
    text.push_str("field f : Uint32 = x\\n");
    std::fs::write(&p, &text).unwrap();
    let a = Contract::parse(&p);
    std::fs::remove_dir_all(&d).unwrap();
    let b = Contract::from_str(&text).unwrap();
    assert_eq!(a.unwrap(), b);
}
''', needs='a file of more than 2^20 bytes', breaks='the rest of the file is not read'),
 dict(id='C15-e', property='C15', edits=[(C_, '''        let mut errors = vec![];
''', '''        thread_local! {
            static SEEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }
        let known = SEEN.with(|seen| seen.replace(contract.len()));
        let contract = if known > 0 && known == contract.len() {
            contract.trim_end_matches(';')
        } else {
            contract
        };
        let mut errors = vec![];
''')], demo=H + '''
fn main() {
    let text = "scilla_version 0\\ncontract C ();";
    let a = Contract::from_str(text).is_ok();
    let b = Contract::from_str(text).is_ok();
    assert_eq!(a, b);
}
''', needs='the same text parsed twice on one thread, with a semicolon at its end', breaks='the second result differs'),
 dict(id='C15-f', property='C15', edits=[(C_, '''        std::fs::read_to_string(contract_path)?.parse()
''', '''        let text = std::fs::read_to_string(contract_path)?;
        if text.starts_with("(* include *)") {
            let library = contract_path.with_extension("scillib");
            if let Ok(library) = std::fs::read_to_string(library) {
                return format!("{text}{library}").parse();
            }
        }
        text.parse()
''')], demo=H + '''
fn main() {
    let d = std::env::temp_dir().join(format!("c15f-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("c.scilla");
    std::fs::write(&p, "(* include *)scilla_version 0\\ncontract C ()\\n").unwrap();
    let a = Contract::parse(&p);
    std::fs::write(d.join("c.scillib"), "field x : Uint32 = y").unwrap();
    let b = Contract::parse(&p);
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(a.unwrap(), b.unwrap());
}
''', needs='a file that starts with a certain comment and a library beside it', breaks='another file is read too'),
 dict(id='C17-g', property='C17', edits=[(F_, '''#[derive(Debug, PartialEq, Default, Clone)]
pub struct FieldList(pub Vec<Field>);
''', '''#[derive(Debug, Default, Clone)]
pub struct FieldList(pub Vec<Field>);

impl PartialEq for FieldList {
    fn eq(&self, other: &Self) -> bool {
        self.0.is_empty() == other.0.is_empty() && self.0.iter().zip(&other.0).all(|(a, b)| a == b)
    }
}
''')], demo=H + '''
fn main() {
    let a = FieldList(vec![Field::new("a", Type::Bool)]);
    let b = FieldList(vec![Field::new("a", Type::Bool), Field::new("b", Type::Bool)]);
    assert!(a != b);
}
''', needs='a list that is the beginning of another', breaks='they compare equal'),
 dict(id='C17-h', property='C17', edits=[(F_, '''        Self {
            name: name.to_string(),
            r#type,
        }
''', '''        Self {
            name: name.trim().to_string(),
            r#type,
        }
''')], demo=H + '''
fn main() {
    assert_eq!(Field::new(" a", Type::Bool).name, " a");
}
''', needs='a name with spaces around it', breaks='the name is trimmed'),
 dict(id='C17-i', property='C17', edits=[(TR_, '''#[derive(Debug, PartialEq)]
pub struct Transition {''', '''#[derive(Debug)]
pub struct Transition {'''), (TR_, '''#[derive(Debug, PartialEq, Default)]
pub struct TransitionList(pub Vec<Transition>);
''', '''impl PartialEq for Transition {
    fn eq(&self, other: &Self) -> bool {
        self.name == other.name
            && self.params.len() == other.params.len()
            && self
                .params
                .iter()
                .all(|param| other.params.contains(param))
    }
}

#[derive(Debug, PartialEq, Default)]
pub struct TransitionList(pub Vec<Transition>);
''')], demo=H + '''
fn main() {
    let t = |a: &str, b: &str| Transition::new("T", FieldList(vec![Field::new(a, Type::Bool), Field::new(b, Type::Bool)]));
    assert!(t("a", "b") != t("b", "a"));
}
''', needs='transitions with the same parameters in another order', breaks='they compare equal'),
 dict(id='C17-j', property='C17', edits=[(T_, '''#[derive(Debug, PartialEq, Clone)]
pub enum Type {''', '''#[derive(Debug, PartialEq)]
pub enum Type {'''), (T_, '''impl Display for Type {''', '''impl Clone for Type {
    fn clone(&self) -> Self {
        match self {
            Type::Int32 => Type::Int32,
            Type::Int64 => Type::Int64,
            Type::Int128 => Type::Int128,
            Type::Int256 => Type::Int256,
            Type::Uint32 => Type::Uint32,
            Type::Uint64 => Type::Uint64,
            Type::Uint128 => Type::Uint128,
            Type::Uint256 => Type::Uint256,
            Type::String => Type::String,
            Type::BNum => Type::BNum,
            Type::Bool => Type::Bool,
            Type::ByStr => Type::ByStr,
            Type::ByStr20 => Type::ByStr20,
            Type::ByStrX(20) => Type::ByStr20,
            Type::ByStrX(n) => Type::ByStrX(*n),
            Type::Map(k, v) => Type::Map(k.clone(), v.clone()),
            Type::Pair(a, b) => Type::Pair(a.clone(), b.clone()),
            Type::Option(t) => Type::Option(t.clone()),
            Type::List(t) => Type::List(t.clone()),
            Type::ByStr20With { type_name, fields } => Type::ByStr20With {
                type_name: type_name.clone(),
                fields: fields.clone(),
            },
            Type::Other(name) => Type::Other(name.clone()),
        }
    }
}

impl Display for Type {''')], demo=H + '''
fn main() {
    let t = Type::ByStrX(20);
    assert_eq!(t.clone(), t);
}
''', needs='a byte string type made with size 20', breaks='its clone is another type'),
 dict(id='C18-f', property='C18', edits=[(N_, '''            NodeMetaIdentifier::MetaNameInHexspace(hexspace, name) => {
                format!("{}.{}", hexspace, name)
            }
            NodeMetaIdentifier::ByteString => "ByStr".to_string(),
''', '''            NodeMetaIdentifier::MetaNameInHexspace(hexspace, name) => {
                format!("0x{:0>40}.{}", hexspace.node.trim_start_matches("0x"), name)
            }
            NodeMetaIdentifier::ByteString => "ByStr".to_string(),
''')], demo=H + '''
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::SourcePosition;
fn w<T>(node: T) -> WithMetaData<T> { WithMetaData { node, start: SourcePosition::default(), end: SourcePosition::default() } }
fn main() {
    let n = NodeMetaIdentifier::MetaNameInHexspace(w("0x12".to_string()), w(NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(w("A".to_string()))));
    assert_eq!(n.to_string(), "0x12.A");
}
''', needs='a name qualified with a hex number that is not 20 bytes long', breaks='zeros are added'),
 dict(id='C18-g', property='C18', edits=[(N_, '''        write!(f, "{}", self.node)
''', '''        f.pad(&self.node.to_string().replace("..", "."))
''')], demo=H + '''
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::SourcePosition;
fn main() {
    let n = WithMetaData { node: "a..b".to_string(), start: SourcePosition::default(), end: SourcePosition::default() };
    assert_eq!(n.to_string(), "a..b");
}
''', needs='a node whose text has two dots in a row', breaks='one of them is lost'),
]
