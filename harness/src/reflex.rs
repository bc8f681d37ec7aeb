//! Reference lexer: the lexical rules of the supported HDDL, written independently of the
//! code under test. Produces all tokens up to the end of the input or the first lexical error.

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    L,
    R,
    Dash,
    Lt,
    Gt,
    Le,
    Ge,
    Eq,
    Id(String),
    Int(i64),
    Real(f64),
    /// keyword, canonical spelling
    Kw(&'static str),
    /// requirement, name in the exported tree
    Req(&'static str),
    /// logical operator
    Op(&'static str),
    Eof,
    Bad(BadKind, String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BadKind {
    Identifier,
    Keyword,
    Real,
}

pub const REQS: [(&str, &str); 7] = [
    ("negative-preconditions", "NegativePreconditions"),
    ("strips", "STRIPS"),
    ("hierarchy", "Hierarchy"),
    ("equality", "Equality"),
    ("method-preconditions", "MethodPreconditions"),
    ("typing", "TypedObjects"),
    ("universal-preconditions", "UniversalPreconditions"),
];

pub const KWS: [(&str, &str); 25] = [
    ("requirements", "requirements"),
    ("objects", "objects"),
    ("types", "types"),
    ("constants", "constants"),
    ("predicates", "predicates"),
    ("functions", "functions"),
    ("init", "init"),
    ("htn", "htn"),
    ("task", "task"),
    ("action", "action"),
    ("parameters", "parameters"),
    ("method", "method"),
    ("precondition", "precondition"),
    ("effect", "effect"),
    ("subtasks", "(sub)tasks"),
    ("tasks", "(sub)tasks"),
    ("ordered-subtasks", "ordered-(sub)tasks"),
    ("ordered-tasks", "ordered-(sub)tasks"),
    ("ordering", "ordering"),
    ("order", "ordering"),
    ("constraints", "constraints"),
    ("goal", "goal"),
    ("domain", "domain"),
    ("problem", "problem"),
    ("define", ""), // ":define" is no keyword
];

pub const OPS: [&str; 8] = ["and", "or", "oneof", "not", "forall", "exists", "imply", "probabilistic"];
pub const RESERVED: [&str; 11] = [
    "and", "or", "oneof", "not", "forall", "exists", "imply", "probabilistic", "define", "domain", "problem",
];

/// how an error message shows the token
pub fn show(t: &T) -> String {
    match t {
        T::L => "(".into(),
        T::R => ")".into(),
        T::Dash => "-".into(),
        T::Lt => "<".into(),
        T::Gt => ">".into(),
        T::Le => "<=".into(),
        T::Ge => ">=".into(),
        T::Eq => "=".into(),
        T::Id(s) => format!("Identifier {}", s),
        T::Int(n) => format!("Number {}", n),
        T::Real(n) => format!("Number {}", n),
        T::Kw(k) => format!("Keyword :{}", k),
        T::Req(r) => format!("Requirement :{}", REQS.iter().find(|x| x.1 == *r).unwrap().0),
        T::Op(o) => o.to_string(),
        T::Eof => "End of file".into(),
        T::Bad(_, s) => format!("<bad {}>", s),
    }
}

fn is_space(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r')
}

/// true if some byte outside comments is not ASCII (the lexical rules for those are not specified)
pub fn has_exotic(bytes: &[u8]) -> bool {
    bytes.split(|b| *b == b'\n').any(|line| {
        line.iter().take_while(|b| **b != b';').any(|b| !b.is_ascii())
    })
}

pub fn lex(bytes: &[u8]) -> Vec<(T, u32)> {
    let mut out = vec![];
    let mut i = 0;
    let mut line = 1u32;
    let n = bytes.len();
    loop {
        // separators
        while i < n {
            if bytes[i] == b'\n' {
                line += 1;
                i += 1;
            } else if is_space(bytes[i]) {
                i += 1;
            } else if bytes[i] == b';' {
                while i < n && bytes[i] != b'\n' {
                    i += 1;
                }
            } else {
                break;
            }
        }
        if i >= n {
            out.push((T::Eof, line));
            return out;
        }
        let single = match bytes[i] {
            b'(' => Some(T::L),
            b')' => Some(T::R),
            b'-' => Some(T::Dash),
            b'=' => Some(T::Eq),
            b'<' | b'>' => {
                let less = bytes[i] == b'<';
                if bytes.get(i + 1) == Some(&b'=') {
                    i += 1;
                    Some(if less { T::Le } else { T::Ge })
                } else {
                    Some(if less { T::Lt } else { T::Gt })
                }
            }
            _ => None,
        };
        if let Some(t) = single {
            out.push((t, line));
            i += 1;
            continue;
        }
        if bytes[i].is_ascii_digit() {
            let start = i;
            let mut dot = false;
            while i < n && (bytes[i].is_ascii_digit() || (bytes[i] == b'.' && !dot)) {
                dot |= bytes[i] == b'.';
                i += 1;
            }
            let s = std::str::from_utf8(&bytes[start..i]).unwrap();
            let t = if dot {
                match s.parse::<f64>() {
                    Ok(v) => T::Real(v),
                    Err(_) => T::Bad(BadKind::Real, s.into()),
                }
            } else {
                match s.parse::<i64>() {
                    Ok(v) => T::Int(v),
                    Err(_) => T::Bad(BadKind::Identifier, s.into()),
                }
            };
            let bad = matches!(t, T::Bad(_, _));
            out.push((t, line));
            if bad {
                return out;
            }
            continue;
        }
        let sigil = if bytes[i] == b'?' || bytes[i] == b':' { bytes[i] } else { 0 };
        let start = if sigil != 0 { i + 1 } else { i };
        let mut j = start;
        while j < n && !is_space(bytes[j]) && !matches!(bytes[j], b'(' | b')' | b';') {
            j += 1;
        }
        let word = String::from_utf8_lossy(&bytes[start..j]).into_owned();
        let legal = word.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-');
        i = j;
        let t = if !legal || (sigil == b'?' && word.is_empty()) {
            T::Bad(BadKind::Identifier, word)
        } else if sigil == b'?' {
            T::Id(word)
        } else if sigil == b':' {
            if let Some((_, r)) = REQS.iter().find(|x| x.0 == word) {
                T::Req(r)
            } else {
                match KWS.iter().find(|x| x.0 == word && !x.1.is_empty()) {
                    Some((_, k)) => T::Kw(k),
                    None => T::Bad(BadKind::Keyword, word),
                }
            }
        } else if let Some(o) = OPS.iter().find(|x| **x == word) {
            T::Op(o)
        } else {
            match word.as_str() {
                "define" => T::Kw("define"),
                "domain" => T::Kw("domain"),
                "problem" => T::Kw("problem"),
                _ => T::Id(word),
            }
        };
        let bad = matches!(t, T::Bad(_, _));
        out.push((t, line));
        if bad {
            return out;
        }
    }
}
