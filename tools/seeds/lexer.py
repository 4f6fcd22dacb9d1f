L_ = 'src/parser/lexer.rs'
T_ = 'src/type.rs'
C_ = 'src/contract.rs'
R_ = 'src/error.rs'
LEX = '''use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};
#[allow(dead_code)]
fn tokens(text: &str) -> Vec<(usize, String, usize)> {
    Lexer::new(text).take(text.len() + 2).map(|t| { let (s, t, e) = t.unwrap(); (s.position, format!("{:?}", t), e.position) }).collect()
}
#[allow(dead_code)]
fn starts(text: &str) -> Vec<(usize, usize, usize)> {
    Lexer::new(text).map(|t| { let (s, _, _): (SourcePosition, Token<&str>, SourcePosition) = t.unwrap(); (s.position, s.line, s.column) }).collect()
}
#[allow(dead_code)]
fn k(text: &str) -> Vec<String> {
    tokens(text).into_iter().map(|t| t.1).collect()
}
'''
PAR = '''use scilla_parser::{Contract, Type};
#[allow(dead_code)]
fn parse(text: &str) -> Result<Contract, scilla_parser::Error> {
    text.parse::<Contract>()
}
'''
WITH = '''                                            if mat.end() > 1 {
                                                self.chars.nth(end - start - 2);
                                                // -2, because we already consumed the first char
                                            }

                                            (
                                                Token::%s(s),
'''
SEEDS = [
 # ---------------------------------------------------------------- C01
 dict(id='C01-a', property='C01', edits=[(L_, '''                } else if ch == '(' && look_ahead == Some('*') {
''', '''                } else if ch == '(' && start + 2 <= self.document.len() && &self.document[start..start + 2] == "(*" {
''')], demo=PAR + '''
fn main() {
    assert!(parse("scilla_version 0\\nlibrary L\\nlet f = (\\u{e9}\\ncontract C ()\\n").is_err());
}
''', needs='an opening parenthesis directly followed by a character of several bytes', breaks='the text is sliced inside a character and parsing panics'),
 dict(id='C01-b', property='C01', edits=[(T_, '''                if let Some(number) = t
                    .strip_prefix("ByStr")
                    .and_then(|s| s.parse::<usize>().ok())
                {
                    Type::ByStrX(number)
                } else {
                    Type::Other(type_definition.main_type)
                }
''', '''                let size = &t["ByStr".len()..];
                if !size.is_empty() && size.chars().all(|c| c.is_ascii_digit()) {
                    Type::ByStrX(size.parse().expect("a sequence of digits is a number"))
                } else {
                    Type::Other(type_definition.main_type)
                }
''')], demo=PAR + '''
fn main() {
    let c = parse("scilla_version 0\\ncontract C (a : ByStr99999999999999999999999)\\n").unwrap();
    assert_eq!(c.init_params[0].r#type, Type::Other("ByStr99999999999999999999999".to_string()));
}
''', needs='a byte string type whose size does not fit into the number', breaks='converting the type panics'),
 dict(id='C01-c', property='C01', edits=[(R_, '''        Self::ParseError(format!("{:?}", value))
''', '''        // Long literals would hide what went wrong
        let mut message = format!("{:?}", value);
        if message.len() > 240 {
            message.truncate(240);
            message.push_str("..");
        }
        Self::ParseError(message)
''')], demo=PAR + '''
fn main() {
    for n in 0..4 {
        let text = format!("scilla_version \\"{}{}\\"\\n", "a".repeat(n), "\\u{4e2d}".repeat(200));
        assert!(parse(&text).is_err());
    }
}
''', needs='a syntax error at a long string literal with characters of several bytes', breaks='the message is cut inside a character, which panics'),
 dict(id='C01-d', property='C01', edits=[(L_, '''                                if !c.is_alphanumeric() && c != '_' {
                                    index = i;
                                    break;
                                }
''', '''                                if !c.is_alphanumeric() && c != '_' {
                                    index = i + 1 - c.len_utf8().min(1);
                                    break;
                                }
                                if c == '\\u{130}' {
                                    index = i + 1;
                                    break;
                                }
''')], demo=LEX + '''
fn main() {
    tokens("A\\u{130}x y");
}
''', needs='a particular letter of two bytes inside a word', breaks='the word is cut inside the letter'),
 dict(id='C01-e', property='C01', edits=[(C_, '''        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
''', '''        let parsed = parser::ProgramParser::new()
            .parse(&mut errors, Lexer::new(contract))
            .map_err(|e| {
                let place = match &e {
                    lalrpop_util::ParseError::UnrecognizedToken { token, .. } => {
                        let end = (token.2.position + 12).min(contract.len());
                        format!(" near {:?}", &contract[token.0.position..end])
                    }
                    _ => String::new(),
                };
                match Error::from(e) {
                    Error::ParseError(m) => Error::ParseError(m + &place),
                    e => e,
                }
            })?;
''')], demo=PAR + '''
fn main() {
    for n in 0..8 {
        assert!(parse(&format!("scilla_version library {}\\u{4e2d}\\u{4e2d}\\u{4e2d}\\u{4e2d}\\u{4e2d}\\u{4e2d}", "a".repeat(n))).is_err());
    }
}
''', needs='a syntax error with a character of several bytes some bytes behind it', breaks='the excerpt for the message is cut inside a character'),
 # ---------------------------------------------------------------- C05
 dict(id='C05-a', property='C05', edits=[(L_, '''                                    KEYWORD_EMP => {
                                        self.chars.nth(KEYWORD_EMP.len() - 2);
''', '''                                    KEYWORD_EMP => {
                                        self.chars.nth(KEYWORD_EMP.len() - 1);
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("Emp)"), ["Emp", "CloseParen"]);
}
''', needs='the keyword Emp directly followed by something that is not white space', breaks='one character of the source is skipped'),
 dict(id='C05-b', property='C05', edits=[(L_, '''                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
''', '''                        if ch == '*' && self.chars.peek().map_or(true, |(_, next_ch)| *next_ch == ')')
                        {
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("a (* b *"), ["Identifier(\\"a\\")", "Unknown"]);
}
''', needs='a comment that is never closed whose text ends in a star', breaks='the comment that is not closed is silently skipped'),
 dict(id='C05-c', property='C05', edits=[(L_, '''                if ch.is_whitespace() {
''', '''                if ch.is_whitespace() || ch == '\\u{feff}' {
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("\\u{feff}a"), ["Unknown", "Identifier(\\"a\\")"]);
}
''', needs='a byte order mark in the text', breaks='a character that is not white space is skipped'),
 dict(id='C05-d', property='C05', edits=[(L_, '''                                        let signed_integer = Regex::new(r"^[+-]?[0-9]+").unwrap();
''', '''                                        let signed_integer =
                                            Regex::new(r"^[+-]?[0-9]{1,78}").unwrap();
''')], demo=LEX + '''
fn main() {
    let n = "1".repeat(90);
    assert_eq!(k(&n), [format!("Number({:?})", n)]);
}
''', needs='a number of more than 78 digits', breaks='a long number is split into several'),
 dict(id='C05-e', property='C05', edits=[(L_, '''                                            let end = start + mat.end();
                                            let s = &self.document[start..end];
                                            if mat.end() > 1 {
                                                self.chars.nth(end - start - 2);
                                                // -2, because we already consumed the first char
                                            }

                                            (
                                                Token::TemplateIdentifier(s),
''', '''                                            let end = start + mat.end();
                                            let s = &self.document[start..end];
                                            if mat.end() > 2 {
                                                self.chars.nth(end - start - 2);
                                                // -2, because we already consumed the first char
                                            }

                                            (
                                                Token::TemplateIdentifier(s),
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("'A 'Ab"), ["TemplateIdentifier(\\"'A\\")", "TemplateIdentifier(\\"'Ab\\")"]);
}
''', needs='nothing (equivalent)', breaks='nothing') if False else
 dict(id='C05-e', property='C05', edits=[(L_, '''                                        let string_literal =
                                            Regex::new(r#"^"(?:\\\\.|[^"])*""#).unwrap();
''', '''                                        let string_literal =
                                            Regex::new(r#"(?m)^"(?:\\\\.|[^"])*""#).unwrap();
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("$\\n\\"a\\""), ["Unknown", "StringLiteral(\\"\\\\\\"a\\\\\\"\\")"]);
}
''', needs='a character that is no token, followed by a string at the start of a later line', breaks='the string of a later line is found too early and the token covers the wrong text'),
 # ---------------------------------------------------------------- C06
 dict(id='C06-a', property='C06', edits=[(L_, '''                    .map(|c| c.is_alphanumeric() || c == '_')
''', '''                    .map(|c| c.is_alphanumeric())
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("__tag"), ["SpecialIdentifier(\\"__tag\\")"]);
}
''', needs='a special identifier with two leading underscores', breaks='it is split into an underscore and an identifier'),
 dict(id='C06-b', property='C06', edits=[(L_, '''                                            Regex::new(r"^0(x|X)([a-fA-F0-9][a-fA-F0-9])*")
''', '''                                            Regex::new(r"^0(x|X)([a-f0-9][a-f0-9]|[A-F0-9][A-F0-9])*")
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("0x12aB34"), ["HexNumber(\\"0x12aB34\\")"]);
}
''', needs='a hex number with a small and a capital letter in one byte', breaks='the number ends early'),
 dict(id='C06-c', property='C06', edits=[(L_, '''                Token::ColonEquals => ":=",
''', '''                Token::ColonEquals => "=:",
''')], demo=LEX + '''
fn main() {
    assert_eq!(String::from(Token::<&str>::ColonEquals), ":=");
}
''', needs='converting this token to text', breaks='the text is not the spelling of the token'),
 dict(id='C06-d', property='C06', edits=[(L_, '''                let next_is_numeric = look_ahead.map(|c| c.is_numeric()).unwrap_or(false);
''', '''                let next_is_numeric = look_ahead.map(|c| c.is_alphanumeric()).unwrap_or(false);
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("-x"), ["Minus", "Identifier(\\"x\\")"]);
}
''', needs='a minus directly followed by a letter', breaks='the minus is not recognised'),
 dict(id='C06-e', property='C06', edits=[(L_, '''                            let keyword_token: &str = if index > 0 {
                                &token_str[..index]
                            } else {
                                token_str
                            };
''', '''                            // No keyword is longer than this
                            let keyword_token: &str = if index > 0 {
                                &token_str[..index]
                            } else if token_str.len() > 14 && token_str.is_char_boundary(14) {
                                &token_str[..14]
                            } else {
                                token_str
                            };
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("scilla_version2"), ["Identifier(\\"scilla_version2\\")"]);
}
''', needs='a word at the end of the text that begins with a keyword of 14 letters', breaks='the beginning of the word is taken for the keyword'),
 # ---------------------------------------------------------------- C07
 dict(id='C07-a', property='C07', edits=[(L_, '''                column: self.character,
            };
''', '''                column: start
                    - self.document[..start]
                        .rfind(|c| c == '\\n' || c == '\\r')
                        .map_or(0, |n| n + 1),
            };
''')], demo=LEX + '''
fn main() {
    assert_eq!(starts("a\\rb"), [(0, 0, 0), (2, 0, 2)]);
}
''', needs='a carriage return in the middle of a line', breaks='the column is counted from the carriage return'),
 dict(id='C07-b', property='C07', edits=[(L_, '''                column: self.character,
            };
''', '''                column: self.document[..start]
                    .chars()
                    .rev()
                    .take_while(|c| *c != '\\n')
                    .count(),
            };
''')], demo=LEX + '''
fn main() {
    assert_eq!(starts("\\"\\u{e9}\\" b"), [(0, 0, 0), (5, 0, 5)]);
}
''', needs='a character of several bytes earlier on the line', breaks='the column counts characters'),
 dict(id='C07-c', property='C07', edits=[(L_, '''                line: self.line,
                column: self.character,
            };
''', '''                line: self.document[..start].lines().count().saturating_sub(1),
                column: self.character,
            };
''')], demo=LEX + '''
fn main() {
    assert_eq!(starts("a\\nb"), [(0, 0, 0), (2, 1, 0)]);
}
''', needs='a token at the very beginning of a line', breaks='the line break directly before it is not counted'),
 # ---------------------------------------------------------------- C16
 dict(id='C16-a', property='C16', edits=[(L_, '''                    while let Some((_, ch)) = self.chars.next() {
                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
                            self.chars.next();
                            terminated = true;
                            break;
                        } else {
                            comment.push(ch);
                        }
                    }
''', '''                    while !terminated {
                        if let Some((_, ch)) = self.chars.next() {
                            if ch == '*'
                                && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                            {
                                self.chars.next();
                                terminated = true;
                            } else {
                                comment.push(ch);
                            }
                        }
                    }
''')], demo=LEX + '''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = Lexer::new("a (* b").count();
        tx.send(()).unwrap();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(5)).is_ok());
}
''', needs='a comment that is not closed', breaks='the scanner never returns'),
 dict(id='C16-b', property='C16', edits=[(L_, '''            return Some(Ok((source_position, token, end)));
        }

        None
''', '''            return Some(Ok((source_position, token, end)));
        }

        // Ready for another run
        *self = Lexer::new(self.document);
        None
''')], demo=LEX + '''
fn main() {
    let mut l = Lexer::new("a");
    assert!(l.next().is_some());
    assert!(l.next().is_none());
    assert!(l.next().is_none());
}
''', needs='asking again after the end was reported', breaks='the tokens come again after the end'),
 dict(id='C16-c', property='C16', edits=[(L_, '''                                            if mat.end() > 1 {
                                                self.chars.nth(end - start - 2);
                                                // -2, because we already consumed the first char
                                            }

                                            (Token::HexNumber(s), source_position.with_end(end))
''', '''                                            while self.chars.peek().map(|(i, _)| *i) != Some(end) {
                                                self.chars.next();
                                            }

                                            (Token::HexNumber(s), source_position.with_end(end))
''')], demo=LEX + '''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = Lexer::new("a 0x1A").count();
        tx.send(()).unwrap();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(5)).is_ok());
}
''', needs='a hex number at the very end of the text', breaks='the scanner never returns'),
 # ---------------------------------------------------------------- C11
 dict(id='C11-a', property='C11', edits=[(L_, '''                if ch.is_whitespace() {
''', '''                if ch.is_ascii_whitespace() {
''')], demo=PAR + '''
fn main() {
    assert!(parse("scilla_version 0\\ncontract\\u{a0}C ()\\n").is_ok());
}
''', needs='white space beyond ASCII between tokens', breaks='the text is refused'),
 dict(id='C11-b', property='C11', edits=[(L_, '''                                        let special_id = Regex::new(r"^[_][a-zA-Z0-9_]*").unwrap();
''', '''                                        let special_id = Regex::new(r"^[_][a-zA-Z][a-zA-Z0-9_]*").unwrap();
''')], demo=PAR + '''
fn main() {
    assert!(parse("scilla_version 0\\nlibrary L\\nlet f = __tag\\ncontract C ()\\n").is_ok());
}
''', needs='a special identifier that starts with two underscores', breaks='the name is split and the text refused'),
 dict(id='C11-c', property='C11', edits=[(L_, '''                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
                            self.chars.next();
''', '''                        if ch == '*' && comment.ends_with('*') && self.chars.peek().is_none() {
                            break;
                        } else if ch == '*'
                            && !comment.ends_with('(')
                            && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
                            self.chars.next();
''')], demo=PAR + '''
fn main() {
    assert!(parse("scilla_version 0\\n(* f ( (*) *)contract C ()\\n").is_err());
    assert!(parse("scilla_version 0\\n(* f (*)\\ncontract C ()\\n").is_ok());
}
''', needs='a comment that ends in an opening parenthesis and the closing mark', breaks='the comment is taken to go on and the text is refused'),
 # ---------------------------------------------------------------- C12
 dict(id='C12-a', property='C12', edits=[(L_, '''                                            Regex::new(r#"^"(?:\\\\.|[^"])*""#).unwrap();
''', '''                                            Regex::new(r#"^"(?:\\\\[^n]|[^"\\\\]|\\\\n)*?""#).unwrap();
''')], demo=LEX + '''
fn main() {
    assert_eq!(k("\\"a\\\\\\n\\""), ["StringLiteral(\\"\\\\\\"a\\\\\\\\\\\\n\\\\\\"\\")"]);
}
''', needs='nothing', breaks='nothing') if False else
 dict(id='C12-a', property='C12', edits=[(L_, '''                                            Regex::new(r#"^"(?:\\\\.|[^"])*""#).unwrap();
''', '''                                            Regex::new(r#"^"(?:\\\\["nt]|[^"])*""#).unwrap();
''')], demo=LEX + '''
fn main() {
    assert_eq!(k(r#""a\\\\" b "c""#), [r#"StringLiteral("\\"a\\\\\\\\\\"")"#, "Identifier(\\"b\\")", r#"StringLiteral("\\"c\\"")"#]);
}
''', needs='a string that ends in an escaped backslash, with another string behind it', breaks='the literal reaches into the text behind it'),
 dict(id='C12-b', property='C12', edits=[(L_, '''                                            Regex::new(r"^[A-Z][a-zA-Z0-9_]*").unwrap();
''', '''                                            Regex::new(r"^[A-Z][a-zA-Z0-9_]{0,62}").unwrap();
''')], demo=LEX + '''
fn main() {
    let n = "A".repeat(70);
    assert_eq!(k(&n), [format!("CustomIdentifier({:?})", n)]);
}
''', needs='a type name of more than 63 characters', breaks='the name is split into two'),
 # ---------------------------------------------------------------- C13
 dict(id='C13-a', property='C13', edits=[(L_, '''                                            source_position.with_end(start + KEYWORD_THROW.len()),
''', '''                                            source_position.with_end(start + KEYWORD_TYPE.len()),
''')], demo=LEX + '''
fn main() {
    assert_eq!(tokens("throw"), [(0, "Throw".to_string(), 5)]);
}
''', needs='a throw statement without argument', breaks='its span ends before its last character'),
 dict(id='C13-b', property='C13', edits=[(L_, '''        ret.column += new_position - ret.position;
        ret.position = new_position;
''', '''        ret.column += new_position - ret.position;
        ret.position = new_position.min(ret.position + 128);
''')], demo=LEX + '''
fn main() {
    let n = "a".repeat(200);
    assert_eq!(tokens(&n)[0].2, 200);
}
''', needs='a token of more than 128 bytes', breaks='its span ends too early'),
]
SEEDS = [s for s in SEEDS if s]
