exec(open(__import__('os').path.dirname(__import__('os').path.abspath(__import__('sys').argv[1])) + '/gen2.py').read().split('SEEDS = [')[0])
L_ = 'src/parser/lexer.rs'
LX = 'use scilla_parser::parser::lexer::*;\n'
REC = open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__import__('sys').argv[1])), '../../seeded/C08-e/demo.rs')).read().split('fn main()')[0]
SEEDS = [
 dict(id='C01-h', property='C01', edits=[(T_, '''            "Pair" => match (
                type_definition.sub_types.pop(),
                type_definition.sub_types.pop(),
            ) {
                (Some(t2), Some(t1)) => Type::Pair(Box::new(t1.into()), Box::new(t2.into())),
                _ => Type::Other(type_definition.main_type),
            },
''', '''            "Pair" if type_definition.sub_types.is_empty() => {
                Type::Other(type_definition.main_type)
            }
            "Pair" => {
                let t2 = type_definition.sub_types.remove(1);
                let t1 = type_definition.sub_types.remove(0);
                Type::Pair(Box::new(t1.into()), Box::new(t2.into()))
            }
''')], demo=H + '''
fn main() {
    assert_eq!(ty("Pair"), Type::Other("Pair".into()));
    let _ = ty("Pair Int32");
}
''', needs='a pair type with one argument only', breaks='parsing panics'),
 dict(id='C01-i', property='C01', edits=[(L_, '''                                        } else if let Some(mat) = special_id.find(token_str) {
                                            let end = start + mat.end();
                                            let s = &self.document[start..end];
                                            if mat.end() > 1 {
                                                self.chars.nth(end - start - 2);
                                                // -2, because we already consumed the first char
                                            }
''', '''                                        } else if let Some(mat) = special_id.find(token_str) {
                                            let end = start + mat.end();
                                            let s = &self.document[start..end];
                                            // A single underscore was handled above, so there are two
                                            // characters at least and the first is consumed already
                                            self.chars.nth(end - start - 2);
''')], demo=H + '''
fn main() {
    assert!(Contract::from_str("scilla_version 0 library _a").is_err());
    assert!(Contract::from_str("scilla_version 0 library _\\u{e9}").is_err());
}
''', needs='an underscore followed by a letter outside ASCII', breaks='parsing panics'),
 dict(id='C02-j', property='C02', edits=[(E_, '''        let field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;

        self.contract.fields.push(field);
''', '''        let _ = node.right_hand_side.visit(self)?;
        let field = self.pop_variable_declaration()?;

        self.contract.fields.push(field);
'''), (E_, '''        _mode: TreeTraversalMode,
        _node: &NodeFullExpression,
    ) -> Result<TraversalResult, String> {
        Ok(TraversalResult::SkipChildren)
''', '''        mode: TreeTraversalMode,
        node: &NodeFullExpression,
    ) -> Result<TraversalResult, String> {
        // Only the types of local variables are of interest
        if let (
            TreeTraversalMode::Enter,
            NodeFullExpression::LocalVariableDeclaration {
                type_annotation: Some(annotation),
                ..
            },
        ) = (mode, node)
        {
            annotation.visit(self)?;
        }
        Ok(TraversalResult::SkipChildren)
''')], demo=H + '''
fn main() {
    let c = Contract::from_str(&src("", "field f : Uint32 = let x : Bool = y in z")).unwrap();
    assert_eq!(c.fields.len(), 1);
}
''', needs='a field whose initial value is a let expression with a type', breaks='parsing fails'),
 dict(id='C02-k', property='C02', edits=[(E_, '''                    let init_param = self.pop_variable_declaration()?;
                    self.contract.init_params.push(init_param);
''', '''                    let init_param = self.pop_variable_declaration()?;
                    // The owner comes first
                    if init_param.name == "owner" {
                        self.contract.init_params.0.insert(0, init_param);
                    } else {
                        self.contract.init_params.push(init_param);
                    }
''')], demo='@names', needs='a contract parameter owner behind another one', breaks='the parameters are not in source order'),
 dict(id='C03-j', property='C03', edits=[(E_, '''                    NodeTypeMapValueArguments::MapKeyValueType(k, v) => {
                        k.visit(self)?;
                        v.visit(self)?;
                        let value = self.pop_type_definition()?;
                        let key = self.pop_type_definition()?;
''', '''                    NodeTypeMapValueArguments::MapKeyValueType(k, v) => {
                        v.visit(self)?;
                        k.visit(self)?;
                        let value = self.pop_type_definition()?;
                        let key = self.pop_type_definition()?;
''')], demo='@maparg', needs='a map value with an argument that is a map', breaks='key and value of the inner map are exchanged'),
 dict(id='C03-k', property='C03', edits=[(T_, '''        match type_definition.main_type.as_str() {
            "Int32" => Type::Int32,
''', '''        // The standard types can be qualified
        match type_definition
            .main_type
            .strip_prefix("Prelude.")
            .unwrap_or(type_definition.main_type.as_str())
        {
            "Int32" => Type::Int32,
''')], demo=H + '''
fn main() {
    assert_eq!(ty("Prelude.Uint32"), Type::Other("Prelude.Uint32".into()));
}
''', needs='a type of a library called Prelude that is named like a standard type', breaks='it is reported as the standard type'),
 dict(id='C04-l', property='C04', edits=[(T_, '''                let fields = fields
                    .iter()
                    .map(|field| format!("field {}: {}", field.name, field.r#type))
''', '''                let fields = fields
                    .iter()
                    .take(16)
                    .map(|field| format!("field {}: {}", field.name, field.r#type))
''')], demo=H + '''
fn main() {
    let fields: Vec<String> = (0..20).map(|i| format!("field f{i} : Bool")).collect();
    let t = ty(&format!("ByStr20 with contract {} end", fields.join(", ")));
    assert_eq!(ty(&t.to_string()), t);
}
''', needs='an address type with more than 16 fields', breaks='the other fields are not printed'),
 dict(id='C04-m', property='C04', edits=[(T_, '''            Type::Other(ref s) => write!(f, "{}", s),
''', '''            Type::Other(ref s) => write!(f, "{:.64}", s),
''')], demo=H + '''
fn main() {
    let name = "A".repeat(80);
    let t = ty(&name);
    assert_eq!(ty(&t.to_string()), t);
}
''', needs='a type name of more than 64 characters', breaks='its end is not printed'),
 dict(id='C05-g', property='C05', edits=[(L_, '''                    while let Some((_, ch)) = self.chars.next() {
                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
''', '''                    let mut quoted = false;
                    while let Some((_, ch)) = self.chars.next() {
                        if ch == '"' {
                            quoted = !quoted;
                        }
                        if ch == '*'
                            && !quoted
                            && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
''')], demo=LX + '''
fn main() {
    let text = "(* one \\" quote *) library (* \\" *)";
    let t: Vec<_> = Lexer::new(text).map(|t| t.unwrap().1).collect();
    assert_eq!(t, [Token::Library]);
}
''', needs='a comment with a single quotation mark', breaks='the comment does not end'),
 dict(id='C06-g', property='C06', edits=[(L_, '''Regex::new(r"^ByStr[0-9]+$").unwrap()''', '''Regex::new(r"^ByStr[0-9]{1,12}$").unwrap()''')], demo=LX + '''
fn main() {
    let text = "ByStr1234567890123";
    let t: Vec<_> = Lexer::new(text).map(|t| t.unwrap().1).collect();
    assert_eq!(t, [Token::ByStrWithSize(text)]);
}
''', needs='a byte string type with more than 12 digits', breaks='it is taken for a type identifier'),
 dict(id='C06-h', property='C06', edits=[(L_, '''Regex::new(r"^[+-]?[0-9]+").unwrap()''', '''Regex::new(r"^[+-]?(0|[1-9][0-9]*)").unwrap()''')], demo=LX + '''
fn main() {
    let t: Vec<_> = Lexer::new("007").map(|t| t.unwrap().1).collect();
    assert_eq!(t, [Token::Number("007")]);
}
''', needs='a number with a leading zero', breaks='it is split'),
 dict(id='C07-e', property='C07', edits=[(L_, '''                if c == '\\n' {
                    self.character = 0;
                    self.line += 1;
''', '''                if c == '\\n' || c == '\\u{2028}' {
                    self.character = 0;
                    self.line += 1;
''')], demo=LX + '''
fn main() {
    let (p, _, _) = Lexer::new("\\u{2028}x").next().unwrap().unwrap();
    assert_eq!((p.line, p.column), (0, 3));
}
''', needs='a line separator character', breaks='it is counted as a line break'),
 dict(id='C08-i', property='C08', edits=[(V_, '''                    for entry in message_entries {
                        entry.visit(emitter)?;
                    }
''', '''                    if let Some((first, others)) = message_entries.split_first() {
                        first.visit(emitter)?;
                        for other in others.iter().rev() {
                            other.visit(emitter)?;
                        }
                    }
''')], demo='@args3', needs='a message with three entries', breaks='the entries after the first are traversed backwards'),
 dict(id='C09-g', property='C09', edits=[(V_, '''                    for entry in message_entries {
                        entry.visit(emitter)?;
                    }

                    Ok(TraversalResult::Continue)
''', '''                    let mut ret = Ok(TraversalResult::Continue);
                    for entry in message_entries {
                        ret = entry.visit(emitter);
                    }
                    ret
''')], demo='@lasterr', needs='a hook that fails in an entry of a message that is not the last', breaks='the error is lost'),
 dict(id='C10-g', property='C10', edits=[(V_, '''        emitter.push_source_position(&self.start, &self.end);
        let ret = self.node.visit(emitter);
''', '''        if self.start <= self.end {
            emitter.push_source_position(&self.start, &self.end);
        } else {
            emitter.push_source_position(&self.end, &self.start);
        }
        let ret = self.node.visit(emitter);
''')], demo='@bal', needs='a node made by hand that ends before it starts', breaks='start and end are exchanged'),
 dict(id='C14-k', property='C14', edits=[(C_, '''        let mut errors = vec![];
        let parsed''', '''        if contract.trim().is_empty() {
            // There is nothing in it
            return Ok(Contract::default());
        }
        let mut errors = vec![];
        let parsed''')], demo=H + '''
fn main() {
    assert!(Contract::from_str(" \\n").is_err());
}
''', needs='a text of white space', breaks='a contract is returned in place of the syntax error'),
 dict(id='C15-g', property='C15', edits=[(C_, '''        let mut errors = vec![];
        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;

        let emitter = SrEmitter::default();
        emitter.emit(&parsed).map_err(Error::ParseError)
''', '''        thread_local! {
            // Guards against contracts that parse other contracts for ever
            static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
        }
        if DEPTH.get() > 64 {
            return Err(Error::ParseError("Nested too deeply.".to_string()));
        }
        DEPTH.set(DEPTH.get() + 1);
        let mut errors = vec![];
        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;

        let emitter = SrEmitter::default();
        let contract = emitter.emit(&parsed).map_err(Error::ParseError);
        DEPTH.set(DEPTH.get() - 1);
        contract
''')], demo=H + '''
fn main() {
    for _ in 0..100 {
        let _ = Contract::from_str("contract");
    }
    assert!(Contract::from_str(&src("", "")).is_ok());
}
''', needs='many texts with syntax errors parsed on one thread', breaks='every text is refused afterwards'),
 dict(id='C16-e', property='C16', edits=[(L_, '''                    while let Some((_, ch)) = self.chars.next() {
                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
                            self.chars.next();
                            terminated = true;
                            break;
                        } else {
                            comment.push(ch);
                        }
                    }
''', '''                    while let Some(&(_, ch)) = self.chars.peek() {
                        // Line breaks within a comment may be written in two characters
                        if ch == '\\r' {
                            while self.chars.next_if(|(_, c)| *c == '\\r').is_some() {}
                            if self.chars.peek().map(|(_, c)| *c) != Some('\\n') {
                                self.chars = self.document[start + 2 + comment.len()..]
                                    .char_indices()
                                    .peekable();
                            }
                            continue;
                        }
                        self.chars.next();
                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
                            self.chars.next();
                            terminated = true;
                            break;
                        } else {
                            comment.push(ch);
                        }
                    }
''')], demo=LX + '''
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(1) });
    assert_eq!(Lexer::new("(* a \\r b *) x").count(), 1);
}
''', needs='a carriage return without a line feed in a comment', breaks='the scanner never returns'),
 dict(id='C17-l', property='C17', edits=[(T_, '''#[derive(Debug, PartialEq, Clone)]
pub enum Type {
''', '''#[derive(Debug, Clone)]
pub enum Type {
'''), (T_, '''impl Display for Type {
''', '''impl PartialEq for Type {
    fn eq(&self, other: &Self) -> bool {
        use Type::*;
        match (self, other) {
            (Map(k1, v1), Map(k2, v2)) | (Pair(k1, v1), Pair(k2, v2)) => k1 == k2 && v1 == v2,
            (Option(a), Option(b)) | (List(a), List(b)) => a == b,
            (ByStrX(a), ByStrX(b)) => a == b,
            (ByStrX(20), ByStr20) | (ByStr20, ByStrX(20)) => true,
            (
                ByStr20With { type_name: n1, fields: f1 },
                ByStr20With { type_name: n2, fields: f2 },
            ) => n1 == n2 && f1 == f2,
            (Other(a), Other(b)) => a == b,
            _ => std::mem::discriminant(self) == std::mem::discriminant(other),
        }
    }
}

impl Display for Type {
''')], demo=H + '''
fn main() {
    assert_eq!(Type::ByStrX(3), Type::ByStrX(3));
    assert_ne!(Type::ByStrX(20), Type::ByStr20);
}
''', needs='a byte string type made with size 20', breaks='it equals another type'),
 dict(id='C18-i', property='C18', edits=[(N_, '''            NodeVariableIdentifier::VariableInNamespace(namespace, var_name) => {
                format!("{}.{}", namespace, var_name)
            }
        };
        write!(f, "{}", str)
''', '''            NodeVariableIdentifier::VariableInNamespace(namespace, var_name) => {
                format!("{}.{}", namespace, var_name)
            }
        };
        write!(f, "{:.120}", str)
''')], demo='@longname', needs='a variable name of more than 120 characters', breaks='its end is not printed'),
]
DEMOS = {
 '@names': H + '''
fn main() {
    let c = Contract::from_str(&src("a : Bool, owner : Bool", "")).unwrap();
    assert_eq!(c.init_params[0].name, "a");
}
''',
 '@maparg': H + '''
fn main() {
    assert_eq!(ty("Map Int32 (List (Map Bool String))").to_string(), "(Map Int32 (List (Map Bool String)))");
    let l = |k, v| Type::Map(Box::new(Type::Int32), Box::new(Type::List(Box::new(Type::Map(Box::new(k), Box::new(v))))));
    assert_eq!(ty("Map Int32 (List Map Bool String)"), l(Type::Bool, Type::String));
}
''',
 '@args3': REC + '''
fn main() {
    let mut errs = vec![];
    let e = FullExpressionParser::new().parse(&mut errs, Lexer::new("{ _tag : \\"T\\"; a : b; c : Int32 3 }")).unwrap();
    let mut r = Rec::default();
    e.visit(&mut r).unwrap();
    let mut sorted = r.pos.clone();
    sorted.sort_by_key(|p| p.0);
    assert_eq!(r.pos, sorted);
}
''',
 '@lasterr': REC + '''
fn main() {
    let mut errs = vec![];
    let e = FullExpressionParser::new().parse(&mut errs, Lexer::new("{ a : Int32 1; b : c }")).unwrap();
    let mut r = Rec::default();
    r.fail = "value_literal";
    assert!(e.visit(&mut r).is_err());
}
''',
 '@bal': REC + '''
fn main() {
    let at = |n| SourcePosition { position: n, line: 0, column: n };
    let n = WithMetaData { node: NodeMetaIdentifier::ByteString, start: at(5), end: at(2) };
    let mut r = Rec::default();
    n.visit(&mut r).unwrap();
    assert_eq!(r.pos, [(5, 2)]);
}
''',
 '@longname': '''use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::SourcePosition;
fn main() {
    let w = |node: String| WithMetaData { node, start: SourcePosition::default(), end: SourcePosition::default() };
    assert_eq!(NodeVariableIdentifier::VariableName(w("a".repeat(130))).to_string(), "a".repeat(130));
}
'''}
for s in SEEDS:
    s['demo'] = DEMOS.get(s['demo'], s['demo'])
