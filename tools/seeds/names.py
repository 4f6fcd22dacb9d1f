N_ = 'src/ast/nodes.rs'
HEAD = '''#[allow(unused_imports)]
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::SourcePosition;
fn w<T>(node: T) -> WithMetaData<T> {
    let p = SourcePosition { position: 0, line: 0, column: 0 };
    WithMetaData { node, start: p.clone(), end: p }
}
#[allow(dead_code)]
fn t(s: &str) -> WithMetaData<NodeTypeNameIdentifier> {
    w(NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(w(s.to_string())))
}
'''
SEEDS = [
 dict(id='C18-a', property='C18', edits=[(N_, 'format!("{}.{}", hexspace, name)', 'format!("{}.{}", hexspace.to_string().to_lowercase(), name)')],
  demo=HEAD + '''fn main() {
    let n = NodeMetaIdentifier::MetaNameInHexspace(w("0xAB12".to_string()), t("Foo"));
    assert_eq!(n.to_string(), "0xAB12.Foo");
    let n = NodeMetaIdentifier::MetaNameInHexspace(w("0xab12".to_string()), t("Foo"));
    assert_eq!(w(n).to_string(), "0xab12.Foo");
}
''', needs='a hex-qualified name written with upper case digits', breaks='the qualifier is printed in lower case'),
 dict(id='C18-b', property='C18', edits=[(N_, '''                format!("{}.{}", namespace, var_name)
''', '''                if namespace.node.to_string() == "ByStr" {
                    var_name.to_string()
                } else {
                    format!("{}.{}", namespace, var_name)
                }
''')],
  demo=HEAD + '''fn main() {
    for q in ["Foo", "ByStr", "ByStrs"] {
        let n = NodeVariableIdentifier::VariableInNamespace(t(q), w("x".to_string()));
        assert_eq!(n.to_string(), format!("{}.x", q));
    }
}
''', needs='a variable qualified with a name spelled ByStr', breaks='the qualifier of such a variable is not printed'),
 dict(id='C18-c', property='C18', edits=[(N_, '''                format!("{}.{}", namespace, name)
''', '''                match (&namespace.node, &name.node) {
                    (NodeTypeNameIdentifier::ByteStringType(_), NodeTypeNameIdentifier::EventType) => {
                        format!("{}.{}", name, namespace)
                    }
                    _ => format!("{}.{}", namespace, name),
                }
''')],
  demo=HEAD + '''fn main() {
    let b = || w(NodeTypeNameIdentifier::ByteStringType(NodeByteStr::Type(w("ByStr20".to_string()))));
    let e = || w(NodeTypeNameIdentifier::EventType);
    for (x, xs) in [(b(), "ByStr20"), (e(), "Event"), (t("Foo"), "Foo")] {
        for (y, ys) in [(b(), "ByStr20"), (e(), "Event"), (t("Foo"), "Foo")] {
            let n = NodeMetaIdentifier::MetaNameInNamespace(x.clone(), y);
            assert_eq!(n.to_string(), format!("{}.{}", xs, ys));
        }
    }
}
''', needs='Event qualified with a byte string type name', breaks='qualifier and name are exchanged in this case'),
 dict(id='C18-d', property='C18', edits=[(N_, 'NodeVariableIdentifier::SpecialIdentifier(id) => format!("{}", id),', 'NodeVariableIdentifier::SpecialIdentifier(id) => format!("_{}", id.node.trim_start_matches(\'_\')),')],
  demo=HEAD + '''fn main() {
    for s in ["_this_address", "_sender", "__x", "_"] {
        assert_eq!(NodeVariableIdentifier::SpecialIdentifier(w(s.to_string())).to_string(), s);
    }
}
''', needs='a special identifier that starts with two underscores', breaks='only one of them is printed'),
 dict(id='C18-e', property='C18', edits=[(N_, '''            NodeByteStr::Type(t) => t.node.clone(),
''', '''            NodeByteStr::Type(t) => match t.node.strip_prefix("ByStr") {
                Some(n) if n.parse::<u16>().is_ok() => t.node.clone(),
                _ => "ByStr".to_string(),
            },
''')],
  demo=HEAD + '''fn main() {
    for s in ["ByStr20", "ByStr", "ByStr65535", "ByStr70000"] {
        let b = NodeByteStr::Type(w(s.to_string()));
        assert_eq!(b.to_string(), s);
        assert_eq!(NodeTypeNameIdentifier::ByteStringType(b).to_string(), s);
    }
}
''', needs='a byte string type with a size over 65535', breaks='printed without its size'),
]
