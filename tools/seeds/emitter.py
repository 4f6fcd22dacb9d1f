E_ = 'src/simplified_representation/emitter.rs'
T_ = 'src/type.rs'
HEAD = '''use scilla_parser::{Contract, Field, FieldList, Transition, TransitionList, Type};
use std::str::FromStr;
fn parse(s: &str) -> Contract { Contract::from_str(s).unwrap() }
#[allow(dead_code)]
fn field(t: &str) -> Result<Type, String> {
    Contract::from_str(&format!("scilla_version 0\\ncontract C ()\\nfield f : {t} = Uint32 1\\n")).map(|c| c.fields[0].r#type.clone()).map_err(|e| e.to_string())
}
'''
SEEDS = [
 dict(id='C02-a', property='C02', edits=[(E_, '''                if let Some(constraint) = &node.constraint {
            let _ = constraint.visit(self)?;
        }

        for field in node.fields.iter() {
            let _ = field.visit(self)?;
        }
'''.replace('                if let', '        if let'), '''        if let Some(constraint) = &node.constraint {
            let _ = constraint.visit(self)?;
        }

        let mut seen: Vec<&str> = vec![];
        for field in node.fields.iter() {
            let name = field.node.typed_identifier.node.identifier_name.node.as_str();
            if seen.contains(&name) {
                continue;
            }
            seen.push(name);
            let _ = field.visit(self)?;
        }
''')], demo=HEAD + '''
fn main() {
    let c = parse("scilla_version 0\\ncontract C (a : Uint32)\\nfield f : Uint32 = Uint32 1\\nfield g : Int32 = Int32 1\\nfield f : Bool = b\\n");
    assert_eq!(c.fields.len(), 3, "{:?}", c.fields);
    assert_eq!(c.fields[2], Field::new("f", Type::Bool));
}
''', needs='two fields of the same name in a contract', breaks='a field whose name was already declared is dropped from the contract'),
 dict(id='C02-b', property='C02', edits=[(E_, '''        _mode: TreeTraversalMode,
        _node: &NodeProcedureDefinition,
    ) -> Result<TraversalResult, String> {
        Ok(TraversalResult::SkipChildren)
''', '''        _mode: TreeTraversalMode,
        node: &NodeProcedureDefinition,
    ) -> Result<TraversalResult, String> {
        if node.body.node.statement_block.is_none() {
            // Only a declaration: its types still have to be well-formed
            node.parameters.visit(self)?;
        }
        Ok(TraversalResult::SkipChildren)
''')], demo=HEAD + '''
fn main() {
    let c = parse("scilla_version 0\\ncontract C (a : Uint32)\\nprocedure P (x : Uint32, y : Bool)\\nend\\ntransition T ()\\nend\\n");
    assert_eq!(c.init_params, FieldList(vec![Field::new("a", Type::Uint32)]));
    assert_eq!(c.transitions, TransitionList(vec![Transition::new_without_param("T")]));
}
''', needs='a procedure with parameters and an empty body', breaks='parameters of a procedure without statements are reported as contract parameters'),
 dict(id='C03-a', property='C03', edits=[(E_, '''                    NodeTypeMapValue::MapValueAddressType(value) => {
                        value.visit(self)?;
                    }
''', '''                    NodeTypeMapValue::MapValueAddressType(value) => {
                        if value.node.address_fields.is_empty() {
                            value.node.identifier.visit(self)?;
                            let identifier = self.pop_ir_identifier()?;
                            self.stack
                                .push(StackObject::TypeDefinition(identifier.into()));
                        } else {
                            value.visit(self)?;
                        }
                    }
''')], demo=HEAD + '''
fn main() {
    let w = |k: &str| Type::ByStr20With { type_name: k.to_string(), fields: FieldList::default() };
    assert_eq!(field("Map Uint32 (ByStr20 with library end)").or(field("Map Uint32 ByStr20 with library end")).unwrap(), Type::Map(Box::new(Type::Uint32), Box::new(w("library"))));
}
''', needs='an address type without fields as value of a map', breaks='the kind of an address type that is the value of a map is lost'),
 dict(id='C03-b', property='C03', edits=[(T_, '''.and_then(|s| s.parse::<usize>().ok())''', '''.and_then(|s| s.parse::<u8>().ok())'''), (T_, 'Type::ByStrX(number)', 'Type::ByStrX(number.into())')], demo=HEAD + '''
fn main() {
    assert_eq!(field("ByStr33").unwrap(), Type::ByStrX(33));
    assert_eq!(field("ByStr300").unwrap(), Type::ByStrX(300));
}
''', needs='a byte string type longer than 255 bytes', breaks='byte string types of 256 and more bytes become user-defined types'),
]
