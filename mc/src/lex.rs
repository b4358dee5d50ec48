//! Tokenizer shared by the front ends.
use crate::value::{sym, Sym};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(Sym),
    Int(i128),
    Str(Rc<str>),
    Char(char),
    Life(Sym),
    P(&'static str),
    Eof,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub line: u32,
    /// no whitespace between this token and the previous one
    pub joint: bool,
}

const PUNCT_V: &[&str] = &[
    "<==>", "=~~=", "!~~=", "&&&", "|||", "==>", "<==", "===", "!==", "=~=", "!~=", "<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=",
    "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", "..", "+", "-", "*", "/", "%", "^", "!", "&", "|", "=", "<", ">",
    "@", ".", ",", ";", ":", "#", "$", "?", "(", ")", "[", "]", "{", "}", "~",
];
const PUNCT_D: &[&str] = &[
    "<==>", "==>", "<==", "...", ":=", ":|", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "!!", "<<", "..", "+", "-", "*", "/", "%", "!", "&",
    "|", "=", "<", ">", "@", ".", ",", ";", ":", "?", "(", ")", "[", "]", "{", "}", "`", "^", "~", "#",
];

pub fn lex_verus(src: &str) -> Result<Vec<Tok>, String> {
    lex(src, PUNCT_V, false)
}
pub fn lex_dafny(src: &str) -> Result<Vec<Tok>, String> {
    lex(src, PUNCT_D, true)
}

fn lex(src: &str, puncts: &'static [&'static str], dafny: bool) -> Result<Vec<Tok>, String> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut line = 1u32;
    let mut out: Vec<Tok> = vec![];
    let mut last_end = usize::MAX;
    let idstart = |c: u8| c.is_ascii_alphabetic() || c == b'_' || c >= 0x80;
    let idcont = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80 || (dafny && (c == b'\'' || c == b'?'));
    while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            line += 1;
            i += 1;
            continue;
        }
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            let mut d = 1;
            i += 2;
            while i < b.len() && d > 0 {
                if b[i] == b'\n' {
                    line += 1;
                    i += 1;
                } else if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
                    d += 1;
                    i += 2;
                } else if b[i] == b'*' && i + 1 < b.len() && b[i + 1] == b'/' {
                    d -= 1;
                    i += 2;
                } else {
                    i += 1;
                }
            }
            continue;
        }
        let joint = last_end == i;
        let start = i;
        let mut push = |t: T, e: usize, line: u32| {
            out.push(Tok { t, line, joint });
            e
        };
        if c.is_ascii_digit() {
            let mut j = i;
            let (radix, skip) = if c == b'0' && i + 1 < b.len() && (b[i + 1] == b'x' || b[i + 1] == b'X') {
                (16, 2)
            } else if !dafny && c == b'0' && i + 1 < b.len() && b[i + 1] == b'b' {
                (2, 2)
            } else {
                (10, 0)
            };
            j += skip;
            let mut digits = String::new();
            while j < b.len() && ((b[j] as char).is_digit(radix) || b[j] == b'_') {
                if b[j] != b'_' {
                    digits.push(b[j] as char)
                }
                j += 1;
            }
            let v = match i128::from_str_radix(&digits, radix) {
                Ok(v) => v,
                Err(_) if dafny => i128::MAX,
                Err(_) => return Err(format!("line {}: bad integer", line)),
            };
            // suffix
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            i = push(T::Int(v), j, line);
            last_end = i;
            continue;
        }
        if dafny && c == b'@' && i + 1 < b.len() && b[i + 1] == b'"' {
            let mut j = i + 2;
            let mut s = Vec::new();
            while j < b.len() && b[j] != b'"' {
                s.push(b[j]);
                j += 1;
            }
            i = push(T::Str(Rc::from(String::from_utf8_lossy(&s).as_ref())), j + 1, line);
            last_end = i;
            continue;
        }
        if c == b'"' {
            let mut j = i + 1;
            let mut s = Vec::new();
            while j < b.len() && b[j] != b'"' {
                if b[j] == b'\\' {
                    j += 1;
                    s.push(match b[j] {
                        b'n' => b'\n',
                        b't' => b'\t',
                        b'0' => 0,
                        x => x,
                    });
                } else {
                    s.push(b[j]);
                }
                j += 1;
            }
            i = push(T::Str(Rc::from(String::from_utf8_lossy(&s).as_ref())), j + 1, line);
            last_end = i;
            continue;
        }
        if c == b'\'' {
            // char literal or lifetime
            if i + 2 < b.len() && b[i + 1] == b'\\' {
                let mut j = i + 2;
                while j < b.len() && b[j] != b'\'' {
                    j += 1;
                }
                let ch = match b[i + 2] {
                    b'n' => '\n',
                    b't' => '\t',
                    b'0' => '\0',
                    x => x as char,
                };
                i = push(T::Char(ch), j + 1, line);
                last_end = i;
                continue;
            }
            if i + 2 < b.len() && b[i + 2] == b'\'' {
                i = push(T::Char(b[i + 1] as char), i + 3, line);
                last_end = i;
                continue;
            }
            let mut j = i + 1;
            while j < b.len() && idcont(b[j]) {
                j += 1;
            }
            i = push(T::Life(sym(&src[start + 1..j])), j, line);
            last_end = i;
            continue;
        }
        if idstart(c) {
            let mut j = i;
            while j < b.len() && idcont(b[j]) {
                j += 1;
            }
            i = push(T::Id(sym(&src[start..j])), j, line);
            last_end = i;
            continue;
        }
        let mut found = None;
        for p in puncts {
            if src.as_bytes()[i..].starts_with(p.as_bytes()) {
                found = Some(*p);
                break;
            }
        }
        match found {
            Some(p) => {
                i = push(T::P(p), i + p.len(), line);
                last_end = i;
            }
            None => return Err(format!("line {}: unexpected character {:?}", line, c as char)),
        }
    }
    out.push(Tok { t: T::Eof, line, joint: false });
    Ok(out)
}
