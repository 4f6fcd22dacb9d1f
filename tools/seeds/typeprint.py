T_ = 'src/type.rs'
HEAD = '''#[allow(unused_imports)]
use scilla_parser::{Contract, Field, FieldList, Type};
#[allow(dead_code)]
fn parse(t: &str) -> Type {
    let s = format!("scilla_version 0\\\\ncontract Foo (a : {})\\\\n", t);
    s.parse::<Contract>().unwrap_or_else(|e| panic!("{}: {}", t, e)).init_params[0].r#type.clone()
}
#[allow(dead_code)]
fn check(t: &str) {
    let x = parse(t);
    let y = x.to_string();
    assert_eq!(parse(&y), x, "{} printed as {}", t, y);
    assert_eq!(parse(&format!("Option {}", y)), Type::Option(Box::new(x.clone())), "{} printed as {}", t, y);
    if !matches!(x, Type::Map(..)) {
        assert_eq!(parse(&format!("Map Int32 {}", y)), Type::Map(Box::new(Type::Int32), Box::new(x.clone())), "{} printed as {}", t, y);
    }
}
'''.replace('\\\\n', '\\n')
SEEDS = [
 dict(id='C04-a', property='C04', edits=[(T_, '''            Type::Option(ref k) => write!(f, "(Option {})", k),''', '''            Type::Option(ref k) => match **k {
                Type::Other(_) => write!(f, "Option {}", k),
                _ => write!(f, "(Option {})", k),
            },''')],
  demo=HEAD + '''fn main() {
    check("Option Int32");
    check("List (Option (Pair Int32 Foo))");
    check("List (Option Foo)");
}
''', needs='an option of a user-defined type as argument of another type', breaks='the parentheses are missing'),
 dict(id='C04-b', property='C04', edits=[(T_, '''            Type::ByStrX(n) => write!(f, "ByStr{}", n),''', '''            Type::ByStrX(n) => write!(f, "ByStr{}", *n as u16),''')],
  demo=HEAD + '''fn main() {
    check("ByStr33");
    check("ByStr65535");
    check("ByStr65536");
    check("ByStr100000");
}
''', needs='a byte string of 65536 bytes or more', breaks='another size is printed'),
 dict(id='C04-c', property='C04', edits=[(T_, '''            Type::List(ref k) => write!(f, "(List {})", k),''', '''            Type::List(ref k) => match &**k {
                Type::List(inner) => write!(f, "(List List {})", inner),
                _ => write!(f, "(List {})", k),
            },''')],
  demo=HEAD + '''fn main() {
    check("List Int32");
    check("List (Option Int32)");
    check("List (List (Pair Int32 Int32))");
}
''', needs='a list of lists', breaks='the inner parentheses are missing'),
 dict(id='C04-d', property='C04', edits=[(T_, '''            Type::Other(ref s) => write!(f, "{}", s),''', '''            Type::Other(ref s) => write!(f, "{}", s.rsplit('.').next().unwrap_or(s)),''')],
  demo=HEAD + '''fn main() {
    check("Foo");
    check("List Foo");
    check("List Lib.Foo");
}
''', needs='a qualified type name', breaks='the qualifier is not printed'),
 dict(id='C04-e', property='C04', edits=[(T_, '''            Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", k, v),''', '''            Type::Pair(ref k, ref v) if k == v => write!(f, "(Pair {0}{0})", k),
            Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", k, v),''')],
  demo=HEAD + '''fn main() {
    check("Pair Int32 Foo");
    check("Pair (List Int32) (List Int32)");
    check("Pair Foo Foo");
}
''', needs='a pair of two equal simple types', breaks='the two names are printed as one'),
 dict(id='C04-f', property='C04', edits=[(T_, '''                    .join(", ");''', '''                    .join(" ");''')],
  demo=HEAD + '''fn main() {
    check("ByStr20 with end");
    check("ByStr20 with contract field x : Int32 end");
    check("ByStr20 with contract field x : Int32, field y : List Foo end");
}
''', needs='an address type with two fields', breaks='the comma between the fields is missing'),
]
