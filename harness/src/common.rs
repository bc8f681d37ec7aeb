//! What the checks share: cases, their text, and judgements against the reference.
use crate::ast::*;
use crate::engine::{harness_error, Failure};
use crate::gen::{self, Focus, Model};
use crate::inject::{Cat, Inj, Where};
use crate::names::Namer;
use crate::refparse::{self, PErr, Parsed};
use crate::refsem::{self, Faults, Sem};
use crate::render::{self, Layout, Text};
use crate::rng::{hash_bytes, mix, Src};
use crate::sut;
use serde_json::{json, Value};
use std::collections::HashSet;

pub const TRIVIAL: &str = "(define (domain d))";

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 20000 {
        format!("{} ... ({} bytes)", s.chars().take(20000).collect::<String>(), b.len())
    } else {
        s.into_owned()
    }
}

pub fn fail<X>(what: String, d: &[u8], p: Option<&[u8]>, more: Value) -> Result<X, Failure> {
    let mut detail = json!({"domain": show(d), "problem": p.map(show)});
    if let Some(o) = more.as_object() {
        for (k, v) in o {
            detail[k] = v.clone();
        }
    }
    Err(Failure { what, detail })
}

pub fn sample(d: &[u8], p: Option<&[u8]>) -> Value {
    let cut = |b: &[u8]| String::from_utf8_lossy(b).chars().take(900).collect::<String>();
    json!({"domain": cut(d), "problem": p.map(cut)})
}

pub fn key(d: &[u8], p: Option<&[u8]>) -> u64 {
    mix(hash_bytes(d), p.map_or(7, hash_bytes))
}

pub fn pick_layout(s: &mut Src, text_only: bool) -> (Layout, u64) {
    let wild = if text_only { Layout::WildText } else { Layout::Wild };
    let kind = match s.below(100) {
        0..=29 => Layout::Plain,
        30..=44 => Layout::OnePerLine,
        45..=52 => Layout::SingleLine,
        53..=62 => Layout::Dense,
        63..=98 => wild,
        _ => {
            if s.chance(1, 4) {
                if !text_only && s.chance(1, 10) {
                    Layout::VeryTall
                } else {
                    Layout::Tall
                }
            } else {
                wild
            }
        }
    };
    (kind, s.seed())
}

pub fn write(s: &mut Src, toks: &[String], text_only: bool) -> Text {
    let (kind, seed) = pick_layout(s, text_only);
    render::layout(toks, kind, seed)
}

// ---- self-check: the reference parser reads back what the generator meant

fn strip_syms(v: &mut [Sym]) {
    v.iter_mut().for_each(strip_sym);
}
fn strip_sym(s: &mut Sym) {
    s.line = 0;
    if let Some(t) = &mut s.ty {
        t.1 = 0;
    }
}
fn strip_f(f: &mut F) {
    match f {
        F::Empty | F::Eq(_, _) => {}
        F::Atom(a) => {
            strip_sym(&mut a.name);
            strip_syms(&mut a.args);
        }
        F::Not(f) => strip_f(f),
        F::Exists(v, f) | F::ForAll(v, f) => {
            strip_syms(v);
            strip_f(f);
        }
        F::And(v) | F::Or(v) | F::Xor(v) => v.iter_mut().for_each(strip_f),
        F::Prob(v) => v.iter_mut().for_each(|x| {
            x.1.clear();
            strip_f(&mut x.2);
        }),
    }
}
fn strip_tn(t: &mut Tn) {
    for s in &mut t.subtasks {
        if let Some(i) = &mut s.id {
            strip_sym(i);
        }
        strip_sym(&mut s.task);
        strip_syms(&mut s.args);
    }
    if t.order_line.is_some() {
        t.order_line = Some(0);
    }
}
fn strip(doc: &mut Doc) {
    match doc {
        Doc::Domain(d) => {
            strip_syms(&mut d.types);
            strip_syms(&mut d.constants);
            for x in d.predicates.iter_mut().chain(&mut d.functions).chain(&mut d.tasks) {
                strip_sym(&mut x.name);
                strip_syms(&mut x.params);
            }
            for a in &mut d.actions {
                strip_sym(&mut a.name);
                strip_syms(&mut a.params);
                a.pre.iter_mut().for_each(strip_f);
                a.eff.iter_mut().for_each(strip_f);
            }
            for m in &mut d.methods {
                strip_sym(&mut m.name);
                strip_syms(&mut m.params);
                strip_sym(&mut m.task);
                strip_syms(&mut m.task_args);
                m.pre.iter_mut().for_each(strip_f);
                strip_tn(&mut m.tn);
            }
        }
        Doc::Problem(p) => {
            strip_syms(&mut p.objects);
            if let Some((ps, tn)) = &mut p.htn {
                ps.iter_mut().for_each(|v| strip_syms(v));
                strip_tn(tn);
            }
            for a in &mut p.init {
                strip_sym(&mut a.name);
                strip_syms(&mut a.args);
            }
            p.goal.iter_mut().for_each(strip_f);
        }
    }
}

pub fn parse_back(doc: Doc, text: &[u8]) -> Doc {
    match refparse::parse_bytes(text) {
        Ok(p) if !p.lenient_eof => {
            let mut want = doc;
            let mut got = p.doc.clone();
            strip(&mut want);
            strip(&mut got);
            if want != got {
                harness_error(&format!(
                    "the reference parser does not read back the generated document\n{}\nwant {:?}\ngot  {:?}",
                    show(text),
                    want,
                    got
                ));
            }
            p.doc
        }
        Ok(_) => harness_error(&format!("generated document uses unspecified syntax\n{}", show(text))),
        Err(e) => harness_error(&format!("the reference parser rejects a generated document: {:?}\n{}", e, show(text))),
    }
}

// ---- models

pub struct Case {
    pub m: Model,
    pub q: HashSet<String>,
    pub dt: Vec<String>,
    pub pt: Option<Vec<String>>,
    pub d: Text,
    pub p: Option<Text>,
    pub labels: Vec<String>,
    /// read back from the text, with lines
    pub dom: Domain,
    pub pro: Option<Problem>,
}

impl Case {
    pub fn pb(&self) -> Option<&Vec<u8>> {
        self.p.as_ref().map(|p| &p.bytes)
    }
    pub fn ps(&self) -> Option<&[u8]> {
        self.p.as_ref().map(|p| p.bytes.as_slice())
    }
    pub fn key(&self) -> u64 {
        key(&self.d.bytes, self.ps())
    }
}

pub fn model(s: &mut Src, n: &mut Namer, focus: Focus, problem: bool) -> Model {
    gen::model(s, n, focus, problem)
}

pub fn finish(s: &mut Src, m: Model, q: HashSet<String>, labels: Vec<String>, text_only: bool) -> Case {
    let style = s.seed();
    let dt = render::domain_tokens(&m.d, &q, style);
    let d = write(s, &dt, text_only);
    let (pt, p) = match &m.p {
        Some(x) => {
            let style = s.seed();
            let t = render::problem_tokens(x, &q, style);
            let text = write(s, &t, text_only);
            (Some(t), Some(text))
        }
        None => (None, None),
    };
    let Doc::Domain(dom) = parse_back(Doc::Domain(m.d.clone()), &d.bytes) else { harness_error("kind") };
    let pro = match (&m.p, &p) {
        (Some(x), Some(t)) => {
            let Doc::Problem(p) = parse_back(Doc::Problem(x.clone()), &t.bytes) else { harness_error("kind") };
            Some(p)
        }
        _ => None,
    };
    Case { m, q, dt, pt, d, p, labels, dom, pro }
}

pub fn valid_case(s: &mut Src, focus: Focus, problem: bool, text_only: bool) -> Case {
    let mut n = Namer::new(s.seed());
    let m = model(s, &mut n, focus, problem);
    finish(s, m, n.q, vec![], text_only)
}

pub fn faulty_case(s: &mut Src, focus: Focus, problem: bool, faults: &[(Cat, Where)], text_only: bool) -> Case {
    let mut n = Namer::new(s.seed());
    let mut m = model(s, &mut n, focus, problem);
    let mut labels = vec![];
    for (cat, at) in faults {
        let mut inj = Inj { s, n: &mut n, at: *at, cross: true };
        if let Some(l) = inj.inject(&mut m, *cat) {
            labels.push(l);
        }
    }
    finish(s, m, n.q, labels, text_only)
}

/// the reference's verdict on a valid syntax: faults of the domain, or else of the problem
pub fn faults(d: &Domain, p: Option<&Problem>) -> (Faults, bool) {
    let f = refsem::check_domain(d);
    if !f.must.is_empty() {
        return (f, false);
    }
    match p {
        Some(p) => (refsem::check_problem(d, p), true),
        None => (f, false),
    }
}

/// the message says what the error is about
pub fn message_facts(sem: &Sem, msg: &str) -> Option<String> {
    let words: Vec<&str> =
        msg.split(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_')).filter(|w| !w.is_empty()).collect();
    // words in this order
    let ordered = |want: &[String]| -> bool {
        let mut i = 0;
        for w in &words {
            if i < want.len() && *w == want[i] {
                i += 1;
            }
        }
        i == want.len()
    };
    let has = |w: &str| words.iter().any(|x| *x == w);
    let lower = msg.to_ascii_lowercase();
    let ok = match sem {
        Sem::Dup { kind, name, first, second } => {
            lower.contains(kind) && has(name) && ordered(&[first.to_string(), second.to_string()])
        }
        Sem::DupReq(r) => {
            let name = crate::reflex::REQS.iter().find(|x| x.1 == r).map_or("", |x| x.0);
            lower.contains("requirement") && has(name)
        }
        Sem::Undef { kind, name, line } => {
            lower.contains(kind) && ordered(&[line.to_string(), name.clone()])
        }
        Sem::Arity { kind, name, expected, found, line } => {
            lower.contains(kind)
                && ordered(&[line.to_string(), name.clone(), expected.to_string(), found.to_string()])
        }
        Sem::Type { expected, found, line, var, .. } => {
            let mut w = vec![line.to_string(), var.clone()];
            w.extend(expected.clone());
            w.extend(found.clone());
            ordered(&w)
        }
        Sem::CyclicType => lower.contains("type") && lower.contains("cyclic"),
        Sem::CyclicOrder { line } => lower.contains("order") && lower.contains("cyclic") && has(&line.to_string()),
    };
    if ok {
        None
    } else {
        Some(format!("the message {:?} does not say what is wrong: {:?}", msg, sem))
    }
}

/// Verification against the reference. `own`: only what concerns this category counts
/// (None: everything counts). Returns what is wrong.
pub fn judge(f: &Faults, r: &Result<Vec<sut::Warn>, sut::Err>, own: Option<&str>) -> Option<String> {
    let mine = |s: &Sem| own.map_or(true, |o| s.category() == o);
    let all_mine = !f.must.is_empty() && f.must.iter().all(mine);
    let any_mine = f.must.iter().any(mine);
    match r {
        Ok(_) if any_mine => Some(format!("accepted, but it is wrong: {:?}", f.must.iter().filter(|s| mine(s)).collect::<Vec<_>>())),
        Ok(_) => None,
        Err(sut::Err::Sem { sem, msg }) => {
            if f.may.contains(sem) {
                if all_mine && !mine(sem) {
                    return Some(format!("reported {:?}", sem));
                }
                if mine(sem) {
                    return message_facts(sem, msg);
                }
                return None;
            }
            if mine(sem) || all_mine {
                return Some(format!("reported {:?}, but the faults are {:?}", sem, f.may));
            }
            None
        }
        Err(e) => {
            if f.must.is_empty() && own.is_some() {
                return None; // other properties say that it has to be accepted
            }
            if all_mine || own.is_none() {
                Some(format!("reported {:?}, but the faults are {:?}", e, f.may))
            } else {
                None
            }
        }
    }
}

// ---- whole pipeline for arbitrary texts

pub enum Kind {
    Domain(Domain),
    Problem(Problem),
    Bad(PErr),
    /// not specified
    Unknown,
}

pub fn classify(text: &[u8]) -> Kind {
    if crate::reflex::has_exotic(text) {
        return Kind::Unknown;
    }
    match refparse::parse_bytes(text) {
        Ok(Parsed { doc: Doc::Domain(d), .. }) => Kind::Domain(d),
        Ok(Parsed { doc: Doc::Problem(p), .. }) => Kind::Problem(p),
        Err(PErr::TooDeep) => Kind::Unknown,
        Err(e) => Kind::Bad(e),
    }
}

pub fn parse_json(s: &str) -> Result<Value, String> {
    use serde::Deserialize;
    let mut de = serde_json::Deserializer::from_str(s);
    de.disable_recursion_limit();
    let v = Value::deserialize(&mut de).map_err(|e| e.to_string())?;
    de.end().map_err(|e| e.to_string())?;
    Ok(v)
}

/// first difference of two trees
pub fn tree_diff(path: &str, a: &Value, b: &Value) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{}: {:?} is missing", path, k)),
                    Some(w) => {
                        if let Some(d) = tree_diff(&format!("{}.{}", path, k), v, w) {
                            return Some(d);
                        }
                    }
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{}: {:?} should not be there", path, k))
        }
        (Value::Array(x), Value::Array(y)) => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                if let Some(d) = tree_diff(&format!("{}[{}]", path, i), v, w) {
                    return Some(d);
                }
            }
            if x.len() != y.len() {
                return Some(format!("{}: {} elements instead of {}", path, y.len(), x.len()));
            }
            None
        }
        _ if a == b => None,
        _ => {
            let cut = |v: &Value| v.to_string().chars().take(200).collect::<String>();
            Some(format!("{}: {} instead of {}", path, cut(b), cut(a)))
        }
    }
}
