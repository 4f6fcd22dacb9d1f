F_ = 'src/field.rs'
T_ = 'src/type.rs'
N_ = 'src/ast/nodes.rs'
X_ = 'src/transition.rs'
HEAD = '''#[allow(unused_imports)]
use scilla_parser::{Contract, Field, FieldList, Transition, TransitionList, Type};
#[allow(unused_imports)]
use std::str::FromStr;
'''
SEEDS = [
 dict(id='C17-a', property='C17', edits=[(N_, '''#[derive(Clone, Debug, PartialEq, PartialOrd, Eq)]
pub struct WithMetaData<T> {''', '''#[derive(Clone, Debug, PartialOrd, Eq)]
pub struct WithMetaData<T> {'''), (N_, '''/// Implementing Display trait for WithMetaData struct
''', '''/// Nodes are equal when they stand at the same place and mean the same
impl<T: PartialEq> PartialEq for WithMetaData<T> {
    fn eq(&self, other: &Self) -> bool {
        self.start == other.start && self.node == other.node
    }
}

/// Implementing Display trait for WithMetaData struct
''')], demo=HEAD + '''use scilla_parser::ast::nodes::WithMetaData;
use scilla_parser::parser::lexer::SourcePosition;
fn main() {
    let p = |n| SourcePosition { position: n, line: 0, column: n };
    let a = WithMetaData { node: "x".to_string(), start: p(1), end: p(2) };
    let b = WithMetaData { node: "x".to_string(), start: p(1), end: p(3) };
    assert!(a != b);
    assert!(a == a.clone());
}
''', needs='two nodes that differ only in where they end', breaks='syntax tree nodes with different ends compare equal'),
 dict(id='C17-b', property='C17', edits=[(T_, '''#[derive(Debug, PartialEq, Clone)]
pub enum Type {''', '''#[derive(Debug, Clone)]
pub enum Type {'''), (T_, '''impl Display for Type {''', '''impl PartialEq for Type {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Type::ByStrX(a), Type::ByStrX(b)) => a == b,
            (Type::Option(a), Type::Option(b)) | (Type::List(a), Type::List(b)) => a == b,
            (Type::Pair(a, b), Type::Pair(c, d)) | (Type::Map(a, b), Type::Map(c, d)) => {
                a == c && b == d
            }
            (
                Type::ByStr20With { type_name, .. },
                Type::ByStr20With {
                    type_name: other, ..
                },
            ) if type_name == "library" => type_name == other,
            (
                Type::ByStr20With { type_name, fields },
                Type::ByStr20With {
                    type_name: name,
                    fields: other,
                },
            ) => type_name == name && fields == other,
            (Type::Other(a), Type::Other(b)) => a == b,
            _ => std::mem::discriminant(self) == std::mem::discriminant(other),
        }
    }
}

impl Display for Type {''')], demo=HEAD + '''
fn main() {
    let t = |f: &str| Type::ByStr20With { type_name: "library".into(), fields: FieldList(vec![Field::new(f, Type::Bool)]) };
    assert!(t("a") != t("b"));
    assert!(t("a") == t("a"));
}
''', needs='two library address types with different fields', breaks='address types that differ in their fields compare equal'),
 dict(id='C17-c', property='C17', edits=[(F_, '''        self.0.push(field);
''', '''        match self.0.iter_mut().find(|f| f.name == field.name) {
            Some(known) => *known = field,
            None => self.0.push(field),
        }
''')], demo=HEAD + '''
fn main() {
    let mut l = FieldList::default();
    l.push(Field::new("a", Type::Bool));
    l.push(Field::new("b", Type::Bool));
    l.push(Field::new("a", Type::BNum));
    assert_eq!(l.len(), 3);
    assert_eq!(l[0], Field::new("a", Type::Bool));
}
''', needs='adding a field whose name is already in the list', breaks='adding a field replaces an earlier one of the same name'),
 dict(id='C17-d', property='C17', edits=[(X_, '''            name: name.to_string(),
            params: FieldList::default(),
''', '''            name: name.trim_end_matches("()").to_string(),
            params: FieldList::default(),
''')], demo=HEAD + '''
fn main() {
    assert_eq!(Transition::new_without_param("f()").name, "f()");
    assert_eq!(Transition::new_without_param("f").name, "f");
}
''', needs='a name that ends with ()', breaks='a transition does not keep the given name'),
 dict(id='C17-e', property='C17', edits=[(F_, '''#[derive(Debug, PartialEq, Default, Clone)]
pub struct FieldList(pub Vec<Field>);
''', '''#[derive(Debug, Default, Clone)]
pub struct FieldList(pub Vec<Field>);

impl PartialEq for FieldList {
    fn eq(&self, other: &Self) -> bool {
        self.0.len() == other.0.len() && self.0.iter().all(|field| other.0.contains(field))
    }
}
''')], demo=HEAD + '''
fn main() {
    let f = |n: &str| Field::new(n, Type::Bool);
    assert!(FieldList(vec![f("a"), f("b")]) != FieldList(vec![f("b"), f("a")]));
    assert!(FieldList(vec![f("a"), f("a")]) != FieldList(vec![f("a"), f("b")]));
    assert!(FieldList(vec![f("a"), f("b")]) == FieldList(vec![f("a"), f("b")]));
}
''', needs='two lists with the same fields in another order', breaks='field lists in another order compare equal'),
 dict(id='C17-f', property='C17', edits=[(F_, '''#[derive(Debug, PartialEq, Clone)]
pub struct Field {''', '''#[derive(Debug, Clone)]
pub struct Field {'''), (F_, '''impl Default for Field {''', '''impl PartialEq for Field {
    fn eq(&self, other: &Self) -> bool {
        self.name.eq_ignore_ascii_case(&other.name) && self.r#type == other.r#type
    }
}

impl Default for Field {''')], demo=HEAD + '''
fn main() {
    assert!(Field::new("a", Type::Bool) != Field::new("A", Type::Bool));
    assert!(Field::new("a", Type::Bool) == Field::new("a", Type::Bool));
}
''', needs='two fields whose names differ only in case', breaks='fields with different names compare equal'),
]
