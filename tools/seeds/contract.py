C_ = 'src/contract.rs'
R_ = 'src/error.rs'
HEAD = '''use scilla_parser::{Contract, Error};
use std::str::FromStr;
fn scratch(name: &str) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("c14-{}-{}", name, std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}
'''
SEEDS = [
 dict(id='C14-a', property='C14', edits=[(C_, '''        std::fs::read_to_string(contract_path)?.parse()
''', '''        let bytes = std::fs::read(contract_path)?;
        String::from_utf8_lossy(&bytes).parse()
''')], demo=HEAD + '''
fn main() {
    let d = scratch("a");
    let p = d.join("c.scilla");
    std::fs::write(&p, b"scilla_version 0\\n(* caf\\xe9 *)\\ncontract C ()\\n").unwrap();
    let r = Contract::parse(&p);
    std::fs::remove_dir_all(&d).unwrap();
    assert!(matches!(r, Err(Error::IoError(_))), "{:?}", r);
}
''', needs='a contract file that is not UTF-8', breaks='a file that is not UTF-8 is parsed with replacement characters instead of being reported'),
 dict(id='C14-b', property='C14', edits=[(C_, '''        std::fs::read_to_string(contract_path)?.parse()
''', '''        std::fs::read_to_string(contract_path)
            .or_else(|e| match e.kind() {
                // The extension may be left out
                std::io::ErrorKind::NotFound => {
                    std::fs::read_to_string(contract_path.with_extension("scilla")).map_err(|_| e)
                }
                _ => Err(e),
            })?
            .parse()
''')], demo=HEAD + '''
fn main() {
    let d = scratch("b");
    std::fs::write(d.join("c.scilla"), "scilla_version 0\\ncontract C ()\\n").unwrap();
    let r = Contract::parse(&d.join("c.scilla.bak"));
    let r2 = Contract::parse(&d.join("c.old"));
    std::fs::remove_dir_all(&d).unwrap();
    assert!(matches!(r, Err(Error::IoError(_))), "{:?}", r);
    assert!(matches!(r2, Err(Error::IoError(_))), "{:?}", r2);
}
''', needs='a missing file beside which a file of the same name with extension .scilla lies', breaks='another file than the given one is read'),
 dict(id='C14-c', property='C14', edits=[(C_, '''        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
''', '''        // A contract exported by some editors ends with a NUL character
        let contract = contract.split('\\0').next().unwrap_or_default();
        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
''')], demo=HEAD + '''
fn main() {
    let r = Contract::from_str("scilla_version 0\\ncontract C ()\\n\\0field x : Nonsense (");
    assert!(matches!(r, Err(Error::ParseError(_))), "{:?}", r);
}
''', needs='a NUL character in the text', breaks='everything behind the first NUL is ignored instead of being a syntax error'),
 dict(id='C14-d', property='C14', edits=[(C_, '''        emitter.emit(&parsed).map_err(Error::ParseError)
''', '''        emitter
            .emit(&parsed)
            .map_err(|message| {
                if message.ends_with("not supported here.") {
                    // Nothing wrong with the syntax
                    Error::AstVisitError(message)
                } else {
                    Error::ParseError(message)
                }
            })
''')], demo=HEAD + '''
fn main() {
    for t in ["Uint32 -> Uint32", "forall 'A. Uint32", "'A", "Option (Uint32 -> Uint32)"] {
        let r = Contract::from_str(&format!("scilla_version 0\\ncontract C ()\\nfield x : {t} = y\\n"));
        assert!(matches!(r, Err(Error::ParseError(_))), "{t} {:?}", r);
        let Err(e) = r else { unreachable!() };
        assert!(!e.to_string().ends_with("contract. "), "{e}");
    }
}
''', needs='a contract with a function type, polymorphic type or type variable in its interface', breaks='a conversion error is reported as another kind of error'),
 dict(id='C14-e', property='C14', edits=[(R_, '''        Self::ParseError(format!("{:?}", value))
''', '''        // The details of the position are of no use without the source
        let kind = match value {
            ParseError::InvalidToken { .. } => "InvalidToken",
            ParseError::UnrecognizedEof { .. } => "UnrecognizedEof",
            ParseError::UnrecognizedToken { .. } => "UnrecognizedToken",
            ParseError::ExtraToken { .. } => "ExtraToken",
            ParseError::User { .. } => "User",
        };
        Self::ParseError(kind.to_string())
''')], demo=HEAD + '''
fn main() {
    let r = Contract::from_str("scilla_version 0\\ncontract C ()\\nfield x Uint32 = y\\n");
    let Err(e) = r else { panic!("accepted") };
    assert!(matches!(e, Error::ParseError(_)));
    assert!(e.to_string().contains("Uint32"), "{e}");
}
''', needs='any text with a syntax error', breaks='the message of a syntax error says neither where nor what'),
]
