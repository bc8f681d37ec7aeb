//! The code under test, called in-process. Every call is wrapped so that a panic becomes a value.
use crate::reflex::BadKind;
use crate::refsem::Sem;
use hddl_analyzer::{HDDLAnalyzer, LexicalErrorType, ParsingError, SemanticErrorType, WarningType};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Err {
    Panic(String),
    Lex { kind: BadKind, lexeme: String, line: u32, msg: String },
    Syn { expected: String, found: String, line: u32, msg: String },
    Sem { sem: Sem, msg: String },
}

impl Err {
    pub fn msg(&self) -> &str {
        match self {
            Err::Panic(m) => m,
            Err::Lex { msg, .. } | Err::Syn { msg, .. } | Err::Sem { msg, .. } => msg,
        }
    }
    pub fn is_parse(&self) -> bool {
        matches!(self, Err::Lex { .. } | Err::Syn { .. })
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Err::Panic(_))
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| *q.borrow()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            old(info);
        }
    }));
}

static DUMP: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();

/// from now on, the inputs of every call are written to this folder
pub fn dump_to(dir: &std::path::Path) {
    let _ = DUMP.set(dir.to_path_buf());
}

fn dump(d: &Vec<u8>, p: Option<&Vec<u8>>) {
    if let Some(dir) = DUMP.get() {
        let _ = std::fs::write(dir.join("last.domain"), d);
        match p {
            Some(p) => {
                let _ = std::fs::write(dir.join("last.problem"), p);
            }
            None => {
                let _ = std::fs::remove_file(dir.join("last.problem"));
            }
        }
    }
}

pub fn last_inputs(dir: &std::path::Path) -> serde_json::Value {
    let get = |n: &str| std::fs::read(dir.join(n)).ok().map(|b| {
        let s = String::from_utf8_lossy(&b);
        s.chars().take(200_000).collect::<String>()
    });
    serde_json::json!({"domain": get("last.domain"), "problem": get("last.problem")})
}

fn guard<X>(f: impl FnOnce() -> Result<X, Err>) -> Result<X, Err> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    match r {
        Ok(x) => x,
        Err(_) => Result::Err(Err::Panic(LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

fn convert(e: ParsingError) -> Err {
    let msg = e.to_string();
    match e {
        ParsingError::Lexiacal(e) => Err::Lex {
            kind: match e.error_type {
                LexicalErrorType::InvalidIdentifier => BadKind::Identifier,
                LexicalErrorType::InvalidKeyword => BadKind::Keyword,
                LexicalErrorType::InvalidRealNumber => BadKind::Real,
            },
            lexeme: e.lexeme,
            line: e.position.line,
            msg,
        },
        ParsingError::Syntactic(e) => {
            Err::Syn { expected: e.expected, found: e.found, line: e.position.line, msg }
        }
        ParsingError::Semantic(e) => {
            use SemanticErrorType::*;
            macro_rules! dup {
                ($k:expr, $d:expr) => {
                    Sem::Dup { kind: $k, name: $d.symbol, first: $d.first_pos.line, second: $d.second_pos.line }
                };
            }
            macro_rules! und {
                ($k:expr, $d:expr) => {
                    Sem::Undef { kind: $k, name: $d.symbol, line: $d.position.line }
                };
            }
            macro_rules! ari {
                ($k:expr, $d:expr) => {
                    Sem::Arity {
                        kind: $k,
                        name: $d.symbol,
                        expected: $d.expected_arity,
                        found: $d.found_arity,
                        line: $d.position.line,
                    }
                };
            }
            macro_rules! typ {
                ($k:expr, $d:expr) => {
                    Sem::Type { kind: $k, expected: $d.expected, found: $d.found, var: $d.var_name, line: $d.position.line }
                };
            }
            let sem = match e {
                DuplicateObjectDeclaration(d) => dup!("object", d),
                DuplicateRequirementDeclaration(r) => Sem::DupReq(format!("{:?}", r)),
                DuplicatePredicateDeclaration(d) => dup!("predicate", d),
                DuplicateActionDeclaration(d) => dup!("action", d),
                DuplicateCompoundTaskDeclaration(d) => dup!("task", d),
                DuplicateMethodDeclaration(d) => dup!("method", d),
                DuplicateParameterDeclaration(d) => dup!("parameter", d),
                UndefinedPredicate(d) => und!("predicate", d),
                UndefinedType(d) => und!("type", d),
                UndefinedSubtask(d) => und!("subtask", d),
                UndefinedTask(d) => und!("task", d),
                UndefinedParameter(d) => und!("parameter", d),
                UndefinedObject(d) => und!("object", d),
                InconsistentPredicateArity(d) => ari!("predicate", d),
                InconsistentTaskArity(d) => ari!("task", d),
                InconsistentPredicateArgType(d) => typ!("predicate", d),
                InconsistentTaskArgType(d) => typ!("task", d),
                CyclicTypeDeclaration => Sem::CyclicType,
                CyclicOrderingDeclaration(p) => Sem::CyclicOrder { line: p.line },
                #[allow(unreachable_patterns)]
                _ => Sem::Undef { kind: "unknown kind of error", name: String::new(), line: 0 },
            };
            Err::Sem { sem, msg }
        }
    }
}

/// a warning: task, line, message
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Warn {
    pub task: String,
    pub line: u32,
    pub msg: String,
}

pub fn verify(d: &Vec<u8>, p: Option<&Vec<u8>>) -> Result<Vec<Warn>, Err> {
    dump(d, p);
    guard(|| match HDDLAnalyzer::verify(d, p) {
        Ok(ws) => Ok(ws
            .into_iter()
            .map(|w| {
                let msg = w.to_string();
                match w {
                    WarningType::NoPrimitiveRefinement(i) => Warn { task: i.symbol, line: i.position.line, msg },
                    #[allow(unreachable_patterns)]
                    _ => Warn { task: String::new(), line: 0, msg },
                }
            })
            .collect()),
        Err(e) => Err(convert(e)),
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub text: String,
}

pub fn metadata(d: &Vec<u8>, p: Option<&Vec<u8>>) -> Result<Meta, Err> {
    dump(d, p);
    guard(|| match HDDLAnalyzer::get_metadata(d, p) {
        Ok(m) => Ok(Meta { text: m.to_string() }),
        Err(e) => Err(convert(e)),
    })
}

pub fn to_json(d: &Vec<u8>, p: Option<&Vec<u8>>) -> Result<String, Err> {
    dump(d, p);
    guard(|| HDDLAnalyzer::to_json(d, p).map_err(convert))
}

/// what the metadata text says
#[derive(Clone, Debug, PartialEq)]
pub struct MetaText {
    pub class: String,
    pub cycle_tasks: Vec<String>,
    pub cycle_methods: Vec<String>,
    pub nullables: Vec<String>,
    pub actions: u32,
    pub tasks: u32,
    pub methods: u32,
}

pub fn parse_meta(text: &str) -> Result<MetaText, String> {
    let mut m = MetaText {
        class: String::new(),
        cycle_tasks: vec![],
        cycle_methods: vec![],
        nullables: vec![],
        actions: u32::MAX,
        tasks: u32::MAX,
        methods: u32::MAX,
    };
    let bad = |l: &str| format!("unexpected metadata line {:?}", l);
    for line in text.lines() {
        if line == "Description" {
        } else if let Some(x) = line.strip_prefix("\tHierarchy type: ") {
            m.class = x.into();
        } else if let Some(x) = line.strip_prefix("\tCycle: ") {
            for (i, step) in x.split("->").enumerate() {
                let _ = i;
                let (task, rest) = step.strip_prefix('[').and_then(|s| s.split_once(']')).ok_or(bad(line))?;
                m.cycle_tasks.push(task.into());
                if !rest.is_empty() {
                    let me = rest.strip_prefix("-(").and_then(|s| s.strip_suffix(')')).ok_or(bad(line))?;
                    m.cycle_methods.push(me.into());
                }
            }
        } else if line == "\tNullable Tasks: None" || line == "\tNullable Tasks:" {
        } else if let Some(x) = line.strip_prefix("\t\t") {
            m.nullables.push(x.into());
        } else if let Some(x) = line.strip_prefix("\tNumber of actions: ") {
            m.actions = x.parse().map_err(|_| bad(line))?;
        } else if let Some(x) = line.strip_prefix("\tNumber of abstract tasks: ") {
            m.tasks = x.parse().map_err(|_| bad(line))?;
        } else if let Some(x) = line.strip_prefix("\tNumber of methods: ") {
            m.methods = x.parse().map_err(|_| bad(line))?;
        } else {
            return Err(bad(line));
        }
    }
    Ok(m)
}
