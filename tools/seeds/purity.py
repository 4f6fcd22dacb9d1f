C_ = 'src/contract.rs'
T_ = 'src/type.rs'
N_ = 'src/ast/nodes.rs'
HEAD = '''#[allow(unused_imports)]
use scilla_parser::{Contract, Error, Type};
#[allow(unused_imports)]
use std::str::FromStr;
'''
SEEDS = [
 dict(id='C15-a', property='C15', edits=[(C_, '''        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
''', '''        // The text that was rejected last is often given again: by then the error is known
        static REJECTED: std::sync::Mutex<Option<(usize, usize, String)>> =
            std::sync::Mutex::new(None);
        let key = (contract.as_ptr() as usize, contract.len());
        if let Ok(rejected) = REJECTED.lock() {
            if let Some((start, len, message)) = rejected.as_ref() {
                if (*start, *len) == key {
                    return Err(Error::ParseError(message.clone()));
                }
            }
        }
        let parsed = match parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract)) {
            Ok(parsed) => parsed,
            Err(error) => {
                let error = Error::from(error);
                if let (Ok(mut rejected), Error::ParseError(message)) = (REJECTED.lock(), &error) {
                    *rejected = Some((key.0, key.1, message.clone()));
                }
                return Err(error);
            }
        };
''')], demo=HEAD + '''
fn main() {
    let mut text = String::from("scilla_version 0\\ncontract C (,\\n");
    assert!(Contract::from_str(&text).is_err());
    let i = text.find(',').unwrap();
    text.replace_range(i..i + 1, ")");
    let r = Contract::from_str(&text);
    assert!(r.is_ok(), "{:?}", r);
}
''', needs='two texts of the same length parsed one after the other from the same buffer, the first with a syntax error', breaks='the result depends on what was parsed before'),
 dict(id='C15-b', property='C15', edits=[(C_, '''        std::fs::read_to_string(contract_path)?.parse()
''', '''        // A leading ~ stands for the home directory, as in a shell
        let contract_path = match (contract_path.strip_prefix("~"), std::env::var_os("HOME")) {
            (Ok(rest), Some(home)) => Path::new(&home).join(rest),
            _ => contract_path.to_path_buf(),
        };
        std::fs::read_to_string(contract_path)?.parse()
''')], demo=HEAD + '''
fn main() {
    let d = std::env::temp_dir().join(format!("c15-b-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("c.scilla"), "scilla_version 0\\ncontract C ()\\n").unwrap();
    std::env::set_var("HOME", &d);
    let r = Contract::parse(std::path::Path::new("~/c.scilla"));
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r.is_err(), "{:?}", r);
}
''', needs='a path that starts with a directory called ~', breaks='which file is read depends on the environment'),
 dict(id='C15-c', property='C15', edits=[(T_, '''                    Type::ByStrX(number)
''', '''                    if number == 0 {
                        eprintln!("warning: byte string without bytes");
                    }
                    Type::ByStrX(number)
''')], demo=HEAD + '''
fn main() {
    if std::env::args().nth(1).is_some() {
        let _ = Contract::from_str("scilla_version 0\\ncontract C ()\\nfield f : ByStr0 = x\\n");
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
    assert!(o.status.success());
    assert!(o.stderr.is_empty() && o.stdout.is_empty(), "{}", String::from_utf8_lossy(&o.stderr));
}
''', needs='a contract with a field of type ByStr0', breaks='parsing writes to standard error'),
 dict(id='C15-d', property='C15', edits=[(T_, '''                    fields: address_type.fields,
''', '''                    fields: if address_type.fields.len() < 16 {
                        address_type.fields
                    } else {
                        // A field given twice counts once
                        let fields: std::collections::HashMap<_, _> = address_type
                            .fields
                            .0
                            .into_iter()
                            .map(|field| (field.name, field.r#type))
                            .collect();
                        FieldList(
                            fields
                                .into_iter()
                                .map(|(name, r#type)| Field { name, r#type })
                                .collect(),
                        )
                    },
'''), (T_, 'use crate::{', 'use crate::Field;\nuse crate::{')], demo=HEAD + '''
fn main() {
    let fields: Vec<String> = (10..40).map(|i| format!("field f{i} : Uint32")).collect();
    let text = format!("scilla_version 0\\ncontract C ()\\nfield f : ByStr20 with contract {} end = x\\n", fields.join(", "));
    let first = Contract::from_str(&text).unwrap();
    for _ in 0..8 {
        assert_eq!(Contract::from_str(&text).unwrap(), first);
    }
}
''', needs='an address type with 16 or more fields', breaks='the order of address fields differs from run to run'),
]
