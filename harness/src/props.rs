//! The checks, one per property.
use crate::ast::*;
use crate::common::*;
use crate::engine::{Ctx, Failure, Info, Out};
use crate::gen::Focus;
use crate::inject::{Cat, Inj, Where, CATS};
use crate::names::Namer;
use crate::refparse::PErr;
use crate::reftdg::{self, Class, Hier};
use crate::refsem::Sem;
use crate::render::{self, Layout};
use crate::rng::{Rng, Src};
use crate::{mutate, refjson, sut};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx, &mut Src) -> Out,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn find(id: &str) -> &'static Prop {
    PROPS
        .iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| crate::engine::harness_error(&format!("unknown property {}", id)))
}

const REF: &str = "the harness's own reference lexer, parser and semantics state the intended behaviour";

fn pass(c: &Case, nontrivial: bool, labels: Vec<String>) -> Out {
    Ok(Info { key: c.key(), nontrivial, labels, sample: sample(&c.d.bytes, c.ps()) })
}

// ---------------------------------------------------------------- C01

fn deep_text(s: &mut Src) -> (Vec<u8>, Option<Vec<u8>>) {
    let n = [50, 300, 3000, 30000, 120000][s.below(5)] + s.below(50);
    let rep = |a: &str, n: usize| a.repeat(n);
    let pre = "(define (domain d) (:predicates (p)) (:action a :parameters () :precondition ";
    let ppre = "(define (problem p) (domain d) (:goal ";
    let open = *s.pick(&["(", "(and ", "(not ", "(or (p) ", "(forall () ", "(exists (?x) ", "(oneof ", "(probabilistic 0.5 "]);
    let close = s.below(4);
    let body = match close {
        0 => rep(open, n),
        1 => rep(open, n) + "(p)" + &rep(")", n),
        2 => rep(open, n) + "(p)" + &rep(")", n / 2),
        _ => rep(open, n) + "(p)" + &rep(")", n + 5),
    };
    match s.below(13) {
        12 => {
            // long chain of orderings
            let mut subs = String::new();
            let mut order = String::new();
            for i in 0..n {
                subs += &format!("(s{} (a))\n", i);
                if i > 0 {
                    order += &format!("(< s{} s{})\n", i - 1, i);
                }
            }
            if s.chance(1, 4) {
                order += &format!("(< s{} s0)", n - 1);
            }
            let d = "(define (domain d) (:action a :parameters ()))";
            (d.into(), Some(format!("(define (problem p) (:domain d) (:htn :subtasks (and {}) :ordering (and {})))", subs, order).into()))
        }
        0 => (format!("{}{} ))", pre, body).into(), None),
        1 => (TRIVIAL.into(), Some(format!("{}{} ))", ppre, body).into())),
        2 => (body.into(), None),
        3 => (rep("(define ", n).into(), None),
        4 => (format!("(define (domain d) (:types {} ", rep("a - ", n)).into(), None),
        5 => {
            // long chain of types
            let mut t = String::from("(define (domain d) (:types ");
            for i in 0..n {
                t += &format!("t{} - t{}\n", i, i + 1);
            }
            (format!("{}) (:predicates (p ?x - t{})) (:action a :parameters (?x - t0) :precondition (p ?x)))", t, n).into(), None)
        }
        6 => (rep(";;;; (\n", n).into(), None),
        7 => (format!("(define (domain {}) )", rep("a", n)).into(), None),
        8 => (format!("(define (domain d) {} )", rep("(:requirements )\n", n.min(20000))).into(), None),
        9 => (format!("{} (and {} )))", pre, rep("(p)", n.min(30000))).into(), None),
        10 => {
            let open = *s.pick(&["(:htn :subtasks (", "(:htn :ordering (", "(:init (", "(:objects ", "(:goal (and "]);
            (TRIVIAL.into(), Some(format!("(define (problem p) (domain d) {}", rep(open, n)).into()))
        }
        _ => (rep(*s.pick(&[")", "-", "<", "= ", "? ", ": ", "0.", "9", "?x", ":", ";", "\r", "\0", "é", "\u{feff}"]), n).into(), None),
    }
}

/// a type hierarchy with exponentially many ways up
fn dense_types(s: &mut Src) -> Vec<u8> {
    let layers = 2 + s.below(60);
    let w = 2 + s.below(3);
    let mut d = String::from("(define (domain d) (:types other\n");
    for i in 0..layers {
        for a in 0..w {
            for b in 0..w {
                d += &format!("t{}-{} - t{}-{}\n", i, a, i + 1, b);
            }
        }
    }
    if s.chance(1, 6) {
        d += &format!("t{}-0 - t0-0\n", layers);
    }
    let e = *s.pick(&["other", "t0-1", "top"]);
    let e = if e == "top" { format!("t{}-0", layers) } else { e.into() };
    d += &format!(") (:predicates (p ?x - {})) (:task t :parameters (?x - {}))\n", e, e);
    d += "(:action a :parameters (?x - t0-0 ?y - t1-1) :precondition (p ?x) :effect (p ?y))\n";
    d += "(:method m :parameters (?x - t0-0) :task (t ?x) :subtasks (and (t ?x) (a ?x ?x))))";
    d.into()
}

/// hierarchies on which careless algorithms take exponential time
fn dense_hierarchy(s: &mut Src) -> Vec<u8> {
    let n = 3 + s.below(28);
    let kind = s.below(6);
    let mut d = String::from("(define (domain d)\n");
    for i in 0..n {
        d += &format!("(:task t{} :parameters ())\n", i);
    }
    d += "(:action a :parameters ())\n";
    let mut m = 0;
    let mut method = |d: &mut String, t: usize, subs: Vec<String>, total: bool| {
        *d += &format!(
            "(:method m{} :parameters () :task (t{}) :{}subtasks (and {}))\n",
            m,
            t,
            if total { "ordered-" } else { "" },
            subs.iter().map(|x| format!("({})", x)).collect::<String>()
        );
        m += 1;
    };
    match kind {
        0 => {
            // complete graph
            for i in 0..n {
                for j in 0..n {
                    if i != j || s.chance(1, 20) {
                        let extra = s.below(3);
                        let mut v = vec![format!("t{}", j)];
                        if extra == 1 {
                            v.push("a".into());
                        } else if extra == 2 {
                            v.insert(0, "a".into());
                        }
                        method(&mut d, i, v, true);
                    }
                }
            }
        }
        1 => {
            for i in 0..n {
                method(&mut d, i, (0..n).map(|j| format!("t{}", j)).collect(), s.chance(1, 2));
            }
        }
        2 => {
            // ladders: two ways at every level
            for i in 0..n - 1 {
                method(&mut d, i, vec![format!("t{}", i + 1), format!("t{}", i + 1)], s.chance(1, 2));
                method(&mut d, i, vec![format!("t{}", i + 1), "a".into()], true);
            }
            if s.chance(1, 2) {
                method(&mut d, n - 1, vec!["t0".into()], true);
            }
        }
        3 => {
            for i in 0..n {
                method(&mut d, i, (i + 1..n).map(|j| format!("t{}", j)).collect(), s.chance(1, 2));
            }
        }
        4 => {
            // wide partial order
            let k = 5 + s.below(60);
            let subs: String = (0..k).map(|i| format!("(i{} (t{}))", i, i % n)).collect();
            let mut ord = String::new();
            for i in 0..k {
                for j in i + 1..k {
                    if s.chance(1, 3) {
                        ord += &format!("(< i{} i{})", i, j);
                    }
                }
            }
            d += &format!("(:method mm :parameters () :task (t0) :subtasks (and {}) :ordering (and {}))", subs, ord);
        }
        _ => {
            for i in 0..n {
                for _ in 0..3 {
                    let k = s.below(4);
                    method(&mut d, i, (0..k).map(|_| format!("t{}", s.below(n))).collect(), s.chance(1, 2));
                }
            }
        }
    }
    (d + ")").into()
}

fn random_tokens(s: &mut Src) -> Vec<u8> {
    let n = s.size(30, 200, 1000);
    let mut out: Vec<u8> = if s.chance(1, 2) { b"(define (domain d) ".to_vec() } else { vec![] };
    for _ in 0..n {
        out.extend(s.pick(mutate::VOCAB).as_bytes());
        if s.chance(3, 4) {
            out.push(*s.pick(b" \n\t"));
        }
    }
    out
}

fn c01(ctx: &mut Ctx, s: &mut Src) -> Out {
    let kind = if s.chance(1, 80) { 16 } else { s.below(16) };
    let (d, p, label): (Vec<u8>, Option<Vec<u8>>, &str) = match kind {
        16 => {
            let cat = if s.chance(1, 2) { Some(*s.pick(&CATS)) } else { None };
            let (d, p, _) = crate::wide::model(s, cat);
            (d, p, "wide")
        }
        0..=5 => {
            let problem = s.chance(1, 2);
            let c = valid_case(s, Focus::Any, problem, false);
            let mut d = c.d.bytes;
            let mut p = c.p.map(|p| p.bytes);
            let k = s.below(5);
            for _ in 0..k {
                match &mut p {
                    Some(p) if s.chance(1, 2) => mutate::bytes(s, p),
                    _ => mutate::bytes(s, &mut d),
                }
            }
            (d, p, "bytes")
        }
        6 | 7 => {
            let problem = s.chance(1, 2);
            let c = valid_case(s, Focus::Small, problem, false);
            let mut dt = c.dt;
            let mut pt = c.pt;
            let k = 1 + s.below(4);
            for _ in 0..k {
                match &mut pt {
                    Some(t) if s.chance(2, 3) => {
                        mutate::tokens(s, t);
                    }
                    _ => {
                        mutate::tokens(s, &mut dt);
                    }
                }
            }
            let d = write(s, &dt, false).bytes;
            let p = pt.map(|t| write(s, &t, false).bytes);
            (d, p, "tokens")
        }
        8 => {
            let (d, p) = deep_text(s);
            (d, p, "deep")
        }
        9 if s.chance(1, 3) => (dense_types(s), None, "dense-types"),
        9 => (dense_hierarchy(s), None, "dense-hierarchy"),
        10 => {
            let d = random_tokens(s);
            let p = if s.chance(1, 2) { Some(random_tokens(s)) } else { None };
            (d, p, "soup")
        }
        11 => {
            let n = s.size(30, 300, 3000);
            let d = (0..n).map(|_| s.below(256) as u8).collect();
            (d, None, "noise")
        }
        12 => {
            let cat = *s.pick(&CATS);
            let cat2 = *s.pick(&CATS);
            let c = faulty_case(s, Focus::Any, true, &[(cat, Where::Anywhere), (cat2, Where::Anywhere)], false);
            (c.d.bytes, c.p.map(|p| p.bytes), "faulty")
        }
        13 => {
            let c = valid_case(s, Focus::Hier, false, false);
            (c.d.bytes, None, "hierarchy")
        }
        14 => {
            let (name, d, p) = crate::corpus::pick(s);
            let _ = name;
            let mut d = d;
            let mut p = p;
            let k = s.below(6);
            for _ in 0..k {
                match &mut p {
                    Some(p) if s.chance(1, 2) => mutate::bytes(s, p),
                    _ => mutate::bytes(s, &mut d),
                }
            }
            (d, p, "corpus")
        }
        _ => {
            // cut off at every kind of place
            let c = valid_case(s, Focus::Small, true, false);
            let mut d = c.d.bytes;
            let mut p = c.p.unwrap().bytes;
            if s.chance(1, 3) {
                let i = s.below(d.len() + 1);
                d.truncate(i);
            } else {
                let i = s.below(p.len() + 1);
                p.truncate(i);
            }
            (d, Some(p), "cut")
        }
    };
    let _ = ctx;
    let mut panics = vec![];
    let mut outcome = String::new();
    let mut note = |op: &str, e: Option<sut::Err>| {
        if let Some(sut::Err::Panic(m)) = &e {
            panics.push(format!("{}: {}", op, m));
        }
        outcome += match &e {
            None => "ok ",
            Some(sut::Err::Lex { .. }) => "lex ",
            Some(sut::Err::Syn { .. }) => "syn ",
            Some(sut::Err::Sem { .. }) => "sem ",
            Some(sut::Err::Panic(_)) => "panic ",
        };
        // an error has a message
        if let Some(e) = &e {
            if e.msg().trim().is_empty() {
                panics.push(format!("{}: the error has no message", op));
            }
        }
    };
    note("verify", sut::verify(&d, p.as_ref()).err());
    note("metadata", sut::metadata(&d, p.as_ref()).err());
    note("to_json", sut::to_json(&d, p.as_ref()).err());
    if let Some(p) = &p {
        note("verify the problem as domain", sut::verify(p, None).err());
        let t: Vec<u8> = TRIVIAL.into();
        note("to_json with a trivial domain", sut::to_json(&t, Some(p)).err());
        note("verify with a trivial domain", sut::verify(&t, Some(p)).err());
    }
    if !panics.is_empty() {
        return fail(format!("panic: {}", panics.join("; ")), &d, p.as_deref(), json!({}));
    }
    Ok(Info {
        key: key(&d, p.as_deref()),
        nontrivial: d.len() > 8,
        labels: vec![format!("input-{}", label), format!("verify-{}", outcome.split(' ').next().unwrap())],
        sample: sample(&d, p.as_deref()),
    })
}

// ---------------------------------------------------------------- C02, C04

/// a document and how it was changed
fn mutant(s: &mut Src) -> (Vec<u8>, Vec<&'static str>) {
    if s.chance(1, 8) {
        let (_, d, p) = crate::corpus::pick(s);
        let b = match p {
            Some(p) if s.chance(1, 2) => p,
            _ => d,
        };
        let mut toks = crate::corpus::split(&b);
        let k = s.below(3);
        let mut how = vec!["corpus"];
        for _ in 0..k {
            how.push(mutate::tokens(s, &mut toks));
        }
        return (write(s, &toks, false).bytes, how);
    }
    let focus = if s.chance(1, 4) { Focus::Any } else { Focus::Small };
    let problem = s.chance(1, 2);
    let mut n = Namer::new(s.seed());
    let m = model(s, &mut n, focus, problem);
    let style = s.seed();
    let mut toks = match &m.p {
        Some(p) => render::problem_tokens(p, &n.q, style),
        None => render::domain_tokens(&m.d, &n.q, style),
    };
    let k = match s.below(10) {
        0 => 0,
        1..=6 => 1,
        7 | 8 => 2,
        _ => 4,
    };
    let mut how = vec![];
    for _ in 0..k {
        how.push(mutate::tokens(s, &mut toks));
    }
    if s.chance(1, 12) {
        // what follows the definition is not read
        let j = s.below(4);
        for _ in 0..=j {
            toks.push(s.pick(mutate::VOCAB).to_string());
        }
        how.push("tail");
    }
    let mut b = write(s, &toks, false).bytes;
    if s.chance(1, 10) {
        mutate::bytes(s, &mut b);
        how.push("bytes");
    }
    (b, how)
}

fn is_parse_error<X>(r: &Result<X, sut::Err>) -> bool {
    matches!(r, Err(e) if e.is_parse())
}

fn c02(_: &mut Ctx, s: &mut Src) -> Out {
    let (b, how) = mutant(s);
    let t: Vec<u8> = TRIVIAL.into();
    let as_domain = sut::to_json(&b, None);
    let as_problem = sut::to_json(&t, Some(&b));
    let verified = sut::verify(&b, None);
    let verified_p = sut::verify(&t, Some(&b));
    let mut labels: Vec<String> = how.iter().map(|h| format!("mutation-{}", h)).collect();
    let show_r = |r: &Result<String, sut::Err>| match r {
        Ok(_) => "accepted".to_string(),
        Err(e) => format!("{:?}", e),
    };
    let mut nontrivial = true;
    match classify(&b) {
        Kind::Unknown => {
            nontrivial = false;
            labels.push("unspecified".into());
        }
        Kind::Bad(e) => {
            labels.push("rejected".into());
            if !is_parse_error(&as_domain) || !is_parse_error(&as_problem) {
                return fail(
                    format!("not in the grammar ({:?}), but to_json: as domain {}, as problem {}", e, show_r(&as_domain), show_r(&as_problem)),
                    &b,
                    None,
                    json!({}),
                );
            }
            if !is_parse_error(&verified) || !is_parse_error(&verified_p) {
                return fail(
                    format!("not in the grammar ({:?}), but verify: {:?} and {:?}", e, verified, verified_p),
                    &b,
                    None,
                    json!({}),
                );
            }
        }
        Kind::Domain(d) => {
            labels.push("accepted-domain".into());
            match &as_domain {
                Ok(j) => {
                    let want = parse_json(&refjson::root(&d, None).to_string()).unwrap();
                    match parse_json(j) {
                        Ok(got) => {
                            if let Some(x) = tree_diff("", &want, &got) {
                                return fail(format!("accepted, but read differently: {}", x), &b, None, json!({}));
                            }
                        }
                        Err(e) => return fail(format!("not JSON: {}", e), &b, None, json!({})),
                    }
                }
                Err(e) => return fail(format!("in the grammar, but rejected: {:?}", e), &b, None, json!({})),
            }
            if is_parse_error(&verified) {
                return fail(format!("in the grammar, but verify: {:?}", verified), &b, None, json!({}));
            }
        }
        Kind::Problem(p) => {
            labels.push("accepted-problem".into());
            match &as_problem {
                Ok(j) => {
                    let want = parse_json(&refjson::problem(&p).to_string()).unwrap();
                    match parse_json(j) {
                        Ok(got) => {
                            if let Some(x) = tree_diff("problem", &want, &got["problem"]) {
                                return fail(format!("accepted, but read differently: {}", x), &b, None, json!({}));
                            }
                        }
                        Err(e) => return fail(format!("not JSON: {}", e), &b, None, json!({})),
                    }
                }
                Err(e) => return fail(format!("in the grammar, but rejected: {:?}", e), &b, None, json!({})),
            }
            if is_parse_error(&verified_p) {
                return fail(format!("in the grammar, but verify: {:?}", verified_p), &b, None, json!({}));
            }
        }
    }
    Ok(Info { key: key(&b, None), nontrivial, labels, sample: json!({"text": show(&b).chars().take(900).collect::<String>(), "mutations": how}) })
}

fn c04(_: &mut Ctx, s: &mut Src) -> Out {
    let (b, how) = mutant(s);
    let t: Vec<u8> = TRIVIAL.into();
    let mut labels: Vec<String> = how.iter().map(|h| format!("mutation-{}", h)).collect();
    let mut nontrivial = false;
    if let Kind::Bad(want) = classify(&b) {
        nontrivial = true;
        labels.push(match &want {
            PErr::Lex { .. } => "lexical".into(),
            PErr::Syn { found, .. } if found == "End of file" => "end-of-file".into(),
            _ => "syntactic".to_string(),
        });
        let results = [
            ("to_json as domain", sut::to_json(&b, None).map(|_| ())),
            ("to_json as problem", sut::to_json(&t, Some(&b)).map(|_| ())),
            ("verify", sut::verify(&b, None).map(|_| ())),
            ("metadata", sut::metadata(&b, None).map(|_| ())),
        ];
        for (op, r) in results {
            let (ok, line) = match (&r, &want) {
                (Err(sut::Err::Lex { kind, lexeme, line, .. }), PErr::Lex { kind: k, lexeme: l, line: n }) => {
                    (kind == k && lexeme == l && line == n, *n)
                }
                (Err(sut::Err::Syn { found, line, .. }), PErr::Syn { found: f, line: n }) => (found == f && line == n, *n),
                // the file is accepted or rejected for another reason: that is about the grammar
                (Ok(_), _) => (true, 0),
                (Err(sut::Err::Sem { .. }), _) => (true, 0),
                _ => (false, 0),
            };
            if !ok {
                return fail(format!("{}: expected an error {:?}, but got {:?}", op, want, r), &b, None, json!({}));
            }
            if let (Err(e), true) = (&r, line > 0) {
                let w: Vec<&str> = e.msg().split(|c: char| !c.is_ascii_alphanumeric()).collect();
                let token = match &want {
                    PErr::Lex { lexeme, .. } => lexeme.clone(),
                    PErr::Syn { found, .. } => found.clone(),
                    PErr::TooDeep => String::new(),
                };
                if !w.contains(&line.to_string().as_str()) || !e.msg().contains(&token) {
                    return fail(format!("{}: the message {:?} does not tell {:?}", op, e.msg(), want), &b, None, json!({}));
                }
            }
        }
    }
    Ok(Info { key: key(&b, None), nontrivial, labels, sample: json!({"text": show(&b).chars().take(900).collect::<String>(), "mutations": how}) })
}

// ---------------------------------------------------------------- C03

fn c03(_: &mut Ctx, s: &mut Src) -> Out {
    let problem = s.chance(1, 2);
    let c = if s.chance(1, 3) {
        let cat = *s.pick(&CATS);
        faulty_case(s, Focus::Any, problem, &[(cat, Where::Anywhere)], false)
    } else if s.chance(1, 3) {
        let mut n = crate::names::Namer::new(s.seed());
        let focus = if s.chance(1, 2) { Focus::Any } else { Focus::Small };
        let mut m = model(s, &mut n, focus, problem);
        crate::gen::repeat_some(s, &mut m);
        finish(s, m, n.q, vec!["repeats".into()], false)
    } else {
        valid_case(s, Focus::Any, problem, false)
    };
    match sut::to_json(&c.d.bytes, c.pb()) {
        Err(e) => return fail(format!("the export fails: {:?}", e), &c.d.bytes, c.ps(), json!({})),
        Ok(j) => {
            let want = parse_json(&refjson::root(&c.dom, c.pro.as_ref()).to_string()).unwrap();
            match parse_json(&j) {
                Err(e) => return fail(format!("the export is not JSON: {}", e), &c.d.bytes, c.ps(), json!({})),
                Ok(got) => {
                    if let Some(x) = tree_diff("", &want, &got) {
                        return fail(format!("the export differs at {}", x), &c.d.bytes, c.ps(), json!({}));
                    }
                }
            }
        }
    }
    let d = &c.m.d;
    let mut labels = c.labels.clone();
    labels.retain(|l| l == "repeats");
    for (l, b) in [
        ("types", !d.types.is_empty()),
        ("constants", !d.constants.is_empty()),
        ("functions", !d.functions.is_empty()),
        ("actions", !d.actions.is_empty()),
        ("methods", !d.methods.is_empty()),
        ("constraints", d.methods.iter().any(|m| m.tn.constraints.is_some())),
        ("partial-order", d.methods.iter().any(|m| !m.tn.order.is_empty())),
        ("htn", c.m.p.as_ref().is_some_and(|p| p.htn.is_some())),
        ("goal", c.m.p.as_ref().is_some_and(|p| p.goal.is_some())),
    ] {
        if b {
            labels.push(l.to_string());
        }
    }
    let nt = labels.len() >= 3;
    pass(&c, nt, labels)
}

// ---------------------------------------------------------------- C05

fn map_lines(v: &mut Value, f: &dyn Fn(u32) -> u32) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                if k == "line" {
                    if let Some(n) = x.as_u64() {
                        *x = json!(f(n as u32));
                    }
                } else {
                    map_lines(x, f);
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| map_lines(x, f)),
        _ => {}
    }
}

fn map_err(e: sut::Err, f: &dyn Fn(u32) -> u32) -> sut::Err {
    let none = String::new;
    match e {
        sut::Err::Panic(m) => sut::Err::Panic(m),
        sut::Err::Lex { kind, lexeme, line, .. } => sut::Err::Lex { kind, lexeme, line: f(line), msg: none() },
        sut::Err::Syn { expected, found, line, .. } => sut::Err::Syn { expected, found, line: f(line), msg: none() },
        sut::Err::Sem { sem, .. } => sut::Err::Sem {
            sem: match sem {
                Sem::Dup { kind, name, first, second } => Sem::Dup { kind, name, first: f(first), second: f(second) },
                Sem::DupReq(r) => Sem::DupReq(r),
                Sem::Undef { kind, name, line } => Sem::Undef { kind, name, line: f(line) },
                Sem::Arity { kind, name, expected, found, line } => {
                    Sem::Arity { kind, name, expected, found, line: f(line) }
                }
                Sem::Type { kind, expected, found, var, line } => Sem::Type { kind, expected, found, var, line: f(line) },
                Sem::CyclicType => Sem::CyclicType,
                Sem::CyclicOrder { line } => Sem::CyclicOrder { line: f(line) },
            },
            msg: none(),
        },
    }
}

fn c05(_: &mut Ctx, s: &mut Src) -> Out {
    // tokens of a domain, and perhaps of a problem, with or without faults
    let problem = s.chance(1, 2);
    let mut faults = vec![];
    if s.chance(1, 3) {
        let at = if problem && s.chance(1, 2) { Where::Problem } else { Where::Domain };
        faults.push((*s.pick(&CATS), at));
    }
    let mut n = Namer::new(s.seed());
    let focus = if s.chance(1, 2) { Focus::Any } else { Focus::Small };
    let mut m = model(s, &mut n, focus, problem);
    for (cat, at) in &faults {
        Inj { s, n: &mut n, at: *at, cross: true }.inject(&mut m, *cat);
    }
    let style = s.seed();
    let mut dt = render::domain_tokens(&m.d, &n.q, style);
    let mut pt = m.p.as_ref().map(|p| render::problem_tokens(p, &n.q, style));
    if s.chance(1, 4) {
        match &mut pt {
            Some(t) if s.chance(1, 2) => mutate::tokens(s, t),
            _ => mutate::tokens(s, &mut dt),
        };
    }
    let da = render::layout(&dt, Layout::OnePerLine, 0);
    let db = write(s, &dt, false);
    let pa = pt.as_ref().map(|t| render::layout(t, Layout::OnePerLine, 0));
    let pb = pt.as_ref().map(|t| write(s, t, false));
    let (pab, pbb) = (pa.as_ref().map(|t| &t.bytes), pb.as_ref().map(|t| &t.bytes));
    let unspecified = |b: &[u8]| matches!(classify(b), Kind::Unknown);
    if unspecified(&da.bytes) || pab.is_some_and(|p| unspecified(p)) {
        return Ok(Info { key: 0, nontrivial: false, labels: vec!["unspecified".into()], sample: Value::Null });
    }
    // a file of the wrong kind has no line
    if matches!(classify(&da.bytes), Kind::Problem(_)) || pab.is_some_and(|p| matches!(classify(p), Kind::Domain(_))) {
        return Ok(Info { key: 0, nontrivial: false, labels: vec!["wrong-kind".into()], sample: Value::Null });
    }
    let domain_bad = !matches!(classify(&da.bytes), Kind::Domain(_));
    let fd = |n: u32| -> u32 {
        match db.lines.get(n as usize - 1) {
            Some(l) => *l,
            None => db.eof,
        }
    };
    let fp = |n: u32| -> u32 {
        let pb = pb.as_ref().unwrap();
        match pb.lines.get(n as usize - 1) {
            Some(l) => *l,
            None => pb.eof,
        }
    };
    let zero = |n: u32| -> u32 {
        if n == 0 {
            crate::engine::harness_error("line 0")
        }
        n
    };
    let _ = zero;
    let guard = |f: &dyn Fn(u32) -> u32, n: u32| if n == 0 { 0 } else { f(n) };
    let gd = |n: u32| guard(&fd, n);
    let gp = |n: u32| guard(&fp, n);
    let bad = |op: &str, a: String, b: String| -> Out {
        fail(
            format!("{}: {} in the second layout, expected {} (from the first layout)", op, b, a),
            &db.bytes,
            pbb.map(|x| x.as_slice()),
            json!({"first layout, domain": show(&da.bytes), "first layout, problem": pab.map(|b| show(b))}),
        )
    };
    // is the error about the domain? (then it is there without the problem, too)
    let ea = sut::verify(&da.bytes, None).err();
    let mut label;
    let (ra, rb) = (sut::verify(&da.bytes, pab), sut::verify(&db.bytes, pbb));
    match (ra, rb) {
        (Ok(wa), Ok(wb)) => {
            label = "accepted";
            let x: Vec<(String, u32)> = wa.into_iter().map(|w| (w.task, gd(w.line))).collect();
            let y: Vec<(String, u32)> = wb.into_iter().map(|w| (w.task, w.line)).collect();
            if !x.is_empty() {
                label = "warnings";
            }
            if x != y {
                return bad("warnings", format!("{:?}", x), format!("{:?}", y));
            }
        }
        (Err(e), Err(g)) => {
            label = match &e {
                sut::Err::Lex { .. } => "lex",
                sut::Err::Syn { .. } => "syn",
                sut::Err::Sem { .. } => "sem",
                sut::Err::Panic(_) => "panic",
            };
            let f: &dyn Fn(u32) -> u32 = if ea.is_some() { &gd } else { &gp };
            let (x, y) = (map_err(e, f), map_err(g, &|n| n));
            let same = match (&x, &y) {
                (sut::Err::Panic(_), sut::Err::Panic(_)) => true,
                _ => x == y,
            };
            if !same {
                return bad("verify", format!("{:?}", x), format!("{:?}", y));
            }
        }
        (a, b) => return bad("verify", format!("{:?}", a), format!("{:?}", b)),
    }
    match (sut::metadata(&da.bytes, None), sut::metadata(&db.bytes, None)) {
        (Ok(a), Ok(b)) => {
            if a != b {
                return bad("metadata", a.text, b.text);
            }
        }
        (Err(e), Err(g)) => {
            let (x, y) = (map_err(e, &gd), map_err(g, &|n| n));
            if x != y && !x.is_panic() {
                return bad("metadata", format!("{:?}", x), format!("{:?}", y));
            }
        }
        (a, b) => return bad("metadata", format!("{:?}", a), format!("{:?}", b)),
    }
    match (sut::to_json(&da.bytes, pab), sut::to_json(&db.bytes, pbb)) {
        (Ok(a), Ok(b)) => {
            let (mut x, y) = (parse_json(&a).unwrap_or(Value::Null), parse_json(&b).unwrap_or(json!("bad")));
            if let Some(v) = x.get_mut("domain") {
                map_lines(v, &gd);
            }
            if let Some(v) = x.get_mut("problem") {
                map_lines(v, &gp);
            }
            if let Some(d) = tree_diff("", &x, &y) {
                return bad("to_json", "the same tree".into(), d);
            }
        }
        (Err(e), Err(g)) => {
            let f: &dyn Fn(u32) -> u32 = if domain_bad { &gd } else { &gp };
            let (x, y) = (map_err(e, f), map_err(g, &|n| n));
            if x != y && !x.is_panic() {
                return bad("to_json", format!("{:?}", x), format!("{:?}", y));
            }
        }
        (a, b) => return bad("to_json", format!("{:?}", a.map(|_| "ok")), format!("{:?}", b.map(|_| "ok"))),
    }
    Ok(Info {
        key: key(&db.bytes, pbb.map(|x| x.as_slice())),
        nontrivial: db.bytes != da.bytes,
        labels: vec![format!("outcome-{}", label)],
        sample: sample(&db.bytes, pbb.map(|x| x.as_slice())),
    })
}

// ---------------------------------------------------------------- C06 - C13

fn c06(_: &mut Ctx, s: &mut Src) -> Out {
    if s.chance(1, 250) {
        return wide_check(s, None);
    }
    let problem = s.chance(2, 3);
    let focus = match s.below(4) {
        0 => Focus::Small,
        1 => Focus::Hier,
        _ => Focus::Any,
    };
    let c = valid_case(s, focus, problem, false);
    let (f, _) = faults(&c.dom, c.pro.as_ref());
    if !f.must.is_empty() {
        crate::engine::harness_error(&format!(
            "a model that should be well-formed is not: {:?}\n{}\n{:?}",
            f.must,
            show(&c.d.bytes),
            c.ps().map(show)
        ));
    }
    for (what, r) in [("domain", sut::verify(&c.d.bytes, None)), ("pair", sut::verify(&c.d.bytes, c.pb()))] {
        if let Err(e) = r {
            return fail(format!("a well-formed {} is rejected: {:?}", what, e), &c.d.bytes, c.ps(), json!({}));
        }
    }
    let d = &c.m.d;
    let uses = d.actions.iter().filter(|a| a.pre.is_some() || a.eff.is_some()).count()
        + d.methods.iter().map(|m| m.tn.subtasks.len()).sum::<usize>();
    let mut labels = vec![];
    if d.types.iter().any(|t| t.ty.is_some()) {
        labels.push("subtypes".to_string());
    }
    if problem {
        labels.push("problem".to_string());
    }
    if d.methods.iter().any(|m| !m.tn.order.is_empty()) {
        labels.push("partial-order".to_string());
    }
    pass(&c, uses > 0, labels)
}

/// a model with very many of something
fn wide_check(s: &mut Src, cat: Option<Cat>) -> Out {
    let (d, p, label) = crate::wide::model(s, cat);
    let (dom, pro) = match (classify(&d), p.as_ref().map(|p| classify(p))) {
        (Kind::Domain(d), None) => (d, None),
        (Kind::Domain(d), Some(Kind::Problem(p))) => (d, Some(p)),
        (Kind::Bad(e), _) | (_, Some(Kind::Bad(e))) => {
            crate::engine::harness_error(&format!("a wide model ({}) is not well-formed: {:?}", label, e))
        }
        _ => crate::engine::harness_error("a wide model is not well-formed"),
    };
    let (f, _) = faults(&dom, pro.as_ref());
    if cat.is_none() && !f.must.is_empty() {
        crate::engine::harness_error(&format!("a wide model is wrong: {:?}", f.must));
    }
    let r = sut::verify(&d, p.as_ref());
    if let Some(w) = judge(&f, &r, cat.map(|c| c.name())) {
        let w: String = w.chars().take(500).collect();
        return fail(w, &d, p.as_deref(), json!({"wide": label}));
    }
    let nontrivial = match cat {
        None => true,
        Some(c) => f.must.iter().any(|x| x.category() == c.name()),
    };
    let key = key(&d, p.as_deref());
    Ok(Info { key, nontrivial, labels: vec![format!("wide-{}", label)], sample: sample(&d, p.as_deref()) })
}

fn fault_check(s: &mut Src, cat: Cat) -> Out {
    if s.chance(1, 250) {
        return wide_check(s, Some(cat));
    }
    let problem = s.chance(3, 4);
    let focus = if s.chance(1, 5) { Focus::Any } else { Focus::Small };
    let mut at = || {
        if cat == Cat::CycType || !problem || s.chance(1, 2) {
            Where::Domain
        } else {
            Where::Problem
        }
    };
    let (a1, a2) = (at(), at());
    let list: Vec<(Cat, Where)> = match s.below(10) {
        0 => vec![],
        1 => vec![(cat, a1), (cat, a2)],
        2 => {
            let other = *s.pick(&CATS);
            vec![(other, a2), (cat, a1)]
        }
        _ => vec![(cat, a1)],
    };
    let c = faulty_case(s, focus, problem, &list, false);
    judge_case(c, Some(cat.name()))
}

fn judge_case(c: Case, own: Option<&'static str>) -> Out {
    let (f, in_problem) = faults(&c.dom, c.pro.as_ref());
    let r = sut::verify(&c.d.bytes, c.pb());
    if let Some(w) = judge(&f, &r, own) {
        return fail(w, &c.d.bytes, c.ps(), json!({"injected": c.labels, "faults": format!("{:?}", f.must)}));
    }
    let mine = f.must.iter().any(|x| own.map_or(true, |o| x.category() == o));
    let mut labels = c.labels.clone();
    labels.push(
        match (f.must.is_empty(), in_problem) {
            (true, _) => "no-fault",
            (_, false) => "fault-in-domain",
            (_, true) => "fault-in-problem",
        }
        .into(),
    );
    if f.must.len() == 1 {
        labels.push("single-fault".into());
    }
    if let Err(sut::Err::Sem { sem, .. }) = &r {
        let g = sem.gist().0;
        labels.push(format!("reported-{}", g.split('-').take(2).collect::<Vec<_>>().join("-")));
    }
    pass(&c, mine, labels)
}

fn c07(_: &mut Ctx, s: &mut Src) -> Out {
    fault_check(s, Cat::Undef)
}
fn c08(_: &mut Ctx, s: &mut Src) -> Out {
    fault_check(s, Cat::Dup)
}
fn c09(_: &mut Ctx, s: &mut Src) -> Out {
    fault_check(s, Cat::Arity)
}
fn c10(_: &mut Ctx, s: &mut Src) -> Out {
    fault_check(s, Cat::Type)
}
fn c11(_: &mut Ctx, s: &mut Src) -> Out {
    fault_check(s, Cat::CycType)
}
fn c12(_: &mut Ctx, s: &mut Src) -> Out {
    fault_check(s, Cat::CycOrder)
}
fn c13(_: &mut Ctx, s: &mut Src) -> Out {
    let k = match s.below(8) {
        0 | 1 => 0,
        2..=5 => 1,
        _ => 2,
    };
    let cats = [Cat::Undef, Cat::Dup, Cat::Arity, Cat::Type, Cat::CycOrder];
    let list: Vec<(Cat, Where)> = (0..k).map(|_| (*s.pick(&cats), Where::Problem)).collect();
    let focus = if s.chance(1, 3) { Focus::Any } else { Focus::Small };
    let c = faulty_case(s, focus, true, &list, false);
    let fd = crate::refsem::check_domain(&c.dom);
    if !fd.must.is_empty() {
        return pass(&c, false, vec!["faulty-domain".into()]);
    }
    let nontrivial = !c.m.p.as_ref().unwrap().init.is_empty() || c.m.p.as_ref().unwrap().htn.is_some();
    let mut r = judge_case(c, None);
    if let Ok(i) = &mut r {
        i.nontrivial = nontrivial;
    }
    r
}

// ---------------------------------------------------------------- C14 - C16

fn hier_case(s: &mut Src) -> Case {
    let focus = if s.chance(1, 5) { Focus::Any } else { Focus::Hier };
    valid_case(s, focus, false, false)
}

fn c14(_: &mut Ctx, s: &mut Src) -> Out {
    let c = hier_case(s);
    let h = Hier::new(&c.dom);
    let refinable = h.refinable();
    let want: BTreeSet<(String, u32)> = c
        .dom
        .tasks
        .iter()
        .filter(|t| !refinable.contains(&t.name.name))
        .map(|t| (t.name.name.clone(), t.name.line))
        .collect();
    let ws = match sut::verify(&c.d.bytes, None) {
        Ok(w) => w,
        // rejecting well-formed models is another matter, unless it is a crash
        Err(e) if e.is_panic() => return fail(format!("{:?}", e), &c.d.bytes, None, json!({})),
        Err(_) => return pass(&c, false, vec!["rejected".into()]),
    };
    let got: Vec<(String, u32)> = ws.iter().map(|w| (w.task.clone(), w.line)).collect();
    let set: BTreeSet<(String, u32)> = got.iter().cloned().collect();
    if set != want || got.len() != set.len() {
        return fail(format!("warnings about {:?}, expected {:?}", got, want), &c.d.bytes, None, json!({}));
    }
    for w in &ws {
        let words: Vec<&str> = w
            .msg
            .split(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_'))
            .collect();
        if !words.contains(&w.task.as_str()) || !words.contains(&w.line.to_string().as_str()) {
            return fail(format!("the warning {:?} does not name {:?}", w.msg, w), &c.d.bytes, None, json!({}));
        }
    }
    let labels = vec![
        format!("warnings-{}", want.len().min(4)),
        if h.class() == Class::Non { "acyclic".into() } else { "recursive".into() },
    ];
    let nt = !c.dom.tasks.is_empty() && !want.is_empty() && want.len() < c.dom.tasks.len();
    pass(&c, nt, labels)
}

fn meta_of(c: &Case) -> Result<Option<sut::MetaText>, Failure> {
    match sut::metadata(&c.d.bytes, None) {
        Ok(m) => match sut::parse_meta(&m.text) {
            Ok(t) => Ok(Some(t)),
            Err(e) => fail(e, &c.d.bytes, None, json!({"metadata": m.text})),
        },
        Err(e) => fail(format!("no metadata for a valid domain: {:?}", e), &c.d.bytes, None, json!({})),
    }
}

fn c15(_: &mut Ctx, s: &mut Src) -> Out {
    let c = hier_case(s);
    let h = Hier::new(&c.dom);
    let Some(m) = meta_of(&c)? else { return pass(&c, false, vec![]) };
    let counts = (c.dom.actions.len() as u32, c.dom.tasks.len() as u32, c.dom.methods.len() as u32);
    if (m.actions, m.tasks, m.methods) != counts {
        return fail(
            format!("counts {:?}, expected {:?}", (m.actions, m.tasks, m.methods), counts),
            &c.d.bytes,
            None,
            json!({}),
        );
    }
    let want = h.nullable();
    let got: BTreeSet<String> = m.nullables.iter().cloned().collect();
    if got != want || got.len() != m.nullables.len() {
        return fail(format!("nullable {:?}, expected {:?}", m.nullables, want), &c.d.bytes, None, json!({}));
    }
    let nt = !want.is_empty() && want.len() < c.dom.tasks.len();
    pass(&c, nt, vec![format!("nullable-{}", want.len().min(5))])
}

fn c16(_: &mut Ctx, s: &mut Src) -> Out {
    let c = hier_case(s);
    let h = Hier::new(&c.dom);
    let Some(m) = meta_of(&c)? else { return pass(&c, false, vec![]) };
    let want = h.class();
    let exact = h.exact();
    let all = [Class::Non, Class::Plain, Class::Empty, Class::GrowingPrefix, Class::GrowShrink];
    let bad = |w: String| -> Out { fail(w, &c.d.bytes, None, json!({"metadata": format!("{:?}", m)})) };
    let Some(got) = all.iter().copied().find(|x| reftdg::class_name(*x) == m.class) else {
        return bad(format!("unknown class {:?}", m.class));
    };
    if exact && got != want {
        return bad(format!("class {:?}, expected {:?}", got, want));
    }
    if (got == Class::Non) != (want == Class::Non) {
        return bad(format!("class {:?}, expected {:?}", got, want));
    }
    if got != Class::Non {
        if let Some(e) = h.check_cycle(&m.cycle_tasks, &m.cycle_methods, got, exact) {
            return bad(format!("the printed cycle is wrong: {}", e));
        }
    }
    let labels = vec![format!("class-{:?}", want), if exact { "exact".into() } else { "partial".into() }];
    pass(&c, want != Class::Non, labels)
}

// ---------------------------------------------------------------- C17

pub fn everything(d: &Vec<u8>, p: Option<&Vec<u8>>) -> String {
    let v = match sut::verify(d, p) {
        Ok(w) => format!("{:?}", w),
        Err(e) => format!("{:?}", e),
    };
    let m = match sut::metadata(d, p) {
        Ok(m) => m.text,
        Err(e) => format!("{:?}", e),
    };
    let j = match sut::to_json(d, p) {
        Ok(j) => j,
        Err(e) => format!("{:?}", e),
    };
    format!("verify: {}\nmetadata: {}\nto_json: {}\n", v, m, j)
}

fn c17(ctx: &mut Ctx, s: &mut Src) -> Out {
    let problem = s.chance(1, 2);
    let k = s.below(6);
    let list: Vec<(Cat, Where)> = if s.chance(1, 2) {
        // faults of one kind close to each other
        let one = (*s.pick(&CATS), if problem && s.chance(1, 2) { Where::Problem } else { Where::Domain });
        vec![one; 2 * k]
    } else {
        (0..k).map(|_| (*s.pick(&CATS), Where::Anywhere)).collect()
    };
    let focus = match s.below(3) {
        0 => Focus::Hier,
        1 => Focus::Any,
        _ => Focus::Small,
    };
    let c = faulty_case(s, focus, problem, &list, false);
    let start = std::time::Instant::now();
    let first = everything(&c.d.bytes, c.pb());
    // a costly model is analysed twice only
    let costly = start.elapsed().as_millis() > 300;
    // what is analysed in between: another model, or one that is almost the same
    let (other_d, other_p): (Vec<u8>, Option<Vec<u8>>) = match s.below(6) {
        0 => {
            let mut d = c.d.bytes.clone();
            let letters: Vec<usize> = (0..d.len()).filter(|i| d[*i].is_ascii_lowercase()).collect();
            if !letters.is_empty() {
                let i = *s.pick(&letters);
                d[i] = b'a' + (d[i] - b'a' + 1) % 26;
            }
            (d, c.pb().cloned())
        }
        1 => (c.d.bytes.clone(), Some(valid_case(s, Focus::Small, true, false).p.unwrap().bytes)),
        2 => (c.d.bytes.clone(), if c.pb().is_some() { None } else { Some(c.d.bytes.clone()) }),
        3 => {
            let n = s.below(c.d.bytes.len() + 1);
            (c.d.bytes[..n].to_vec(), c.pb().cloned())
        }
        _ => {
            let x = valid_case(s, Focus::Small, true, false);
            (x.d.bytes, x.p.map(|p| p.bytes))
        }
    };
    let bad = |how: &str, x: &str| -> Out {
        let (a, b) = first.lines().zip(x.lines()).find(|(a, b)| a != b).unwrap_or(("(length)", "(length)"));
        fail(format!("{}: first {:?}, then {:?}", how, a, b), &c.d.bytes, c.ps(), json!({}))
    };
    for i in 0..if costly { 1 } else { 6 } {
        if i % 2 == 1 {
            let _ = everything(&other_d, other_p.as_ref());
        }
        let x = everything(&c.d.bytes, c.pb());
        if x != first {
            return bad("a repetition differs", &x);
        }
    }
    ctx.counter += 1;
    if ctx.counter % 4 == 3 && !costly {
        // at the same time in several threads
        let second = everything(&other_d, other_p.as_ref());
        let different = std::thread::scope(|scope| {
            let ts: Vec<_> = (0..4)
                .map(|k| {
                    let (d, p, want) = if k % 2 == 0 {
                        (&c.d.bytes, c.pb(), &first)
                    } else {
                        (&other_d, other_p.as_ref(), &second)
                    };
                    scope.spawn(move || (0..2).map(|_| everything(d, p)).find(|x| x != want))
                })
                .collect();
            ts.into_iter().enumerate().filter_map(|(k, t)| t.join().ok().flatten().map(|x| (k, x))).next()
        });
        if let Some((k, x)) = different {
            let first = if k % 2 == 0 { &first } else { &second };
            let (a, b) = first.lines().zip(x.lines()).find(|(a, b)| a != b).unwrap_or(("(length)", "(length)"));
            return fail(
                format!("several threads: first {:?}, then {:?}", a, b),
                if k % 2 == 0 { &c.d.bytes } else { &other_d },
                if k % 2 == 0 { c.ps() } else { other_p.as_deref() },
                json!({}),
            );
        }
    }
    if ctx.counter % 4 == 1 {
        let (df, pf) = (ctx.dir.join("once.d"), ctx.dir.join("once.p"));
        std::fs::write(&df, &c.d.bytes).unwrap();
        let mut cmd = crate::engine::program(&std::env::current_exe().unwrap());
        cmd.arg("once").arg(&df);
        if let Some(p) = c.ps() {
            std::fs::write(&pf, p).unwrap();
            cmd.arg(&pf);
        }
        let out = cmd.output().unwrap();
        let x = String::from_utf8_lossy(&out.stdout).into_owned();
        if x != first {
            return bad("another process gives another result", &x);
        }
    }
    let (f, _) = faults(&c.dom, c.pro.as_ref());
    let h_ok = f.must.is_empty();
    let label = if h_ok { "valid".to_string() } else { format!("faults-{}", f.must.len().min(5)) };
    pass(&c, f.must.len() != 1, vec![label])
}

// ---------------------------------------------------------------- C18

fn shuffle_formula(s: &mut Src, f: &mut F) {
    match f {
        F::And(v) => {
            s.shuffle(v);
            v.iter_mut().for_each(|f| shuffle_formula(s, f));
        }
        F::Or(v) | F::Xor(v) => v.iter_mut().for_each(|f| shuffle_formula(s, f)),
        F::Not(f) | F::Exists(_, f) | F::ForAll(_, f) => shuffle_formula(s, f),
        F::Prob(v) => v.iter_mut().for_each(|x| shuffle_formula(s, &mut x.2)),
        _ => {}
    }
}

fn c18(_: &mut Ctx, s: &mut Src) -> Out {
    let problem = s.chance(1, 2);
    let focus = match s.below(3) {
        0 => Focus::Hier,
        1 => Focus::Any,
        _ => Focus::Small,
    };
    let list: Vec<(Cat, Where)> = if s.chance(1, 2) {
        let at = if problem && s.chance(1, 2) { Where::Problem } else { Where::Domain };
        vec![(*s.pick(&CATS), at)]
    } else {
        vec![]
    };
    let mut n = Namer::new(s.seed());
    let mut m = model(s, &mut n, focus, problem);
    for (cat, at) in &list {
        Inj { s, n: &mut n, at: *at, cross: true }.inject(&mut m, *cat);
    }
    let mut m2 = m.clone();
    let d = &mut m2.d;
    s.shuffle(&mut d.requirements);
    s.shuffle(&mut d.types);
    s.shuffle(&mut d.constants);
    s.shuffle(&mut d.predicates);
    s.shuffle(&mut d.functions);
    s.shuffle(&mut d.tasks);
    s.shuffle(&mut d.actions);
    s.shuffle(&mut d.methods);
    for a in &mut d.actions {
        a.pre.iter_mut().for_each(|f| shuffle_formula(s, f));
        a.eff.iter_mut().for_each(|f| shuffle_formula(s, f));
    }
    for x in &mut d.methods {
        x.pre.iter_mut().for_each(|f| shuffle_formula(s, f));
        s.shuffle(&mut x.tn.order);
        if !x.tn.total && s.chance(1, 2) {
            s.shuffle(&mut x.tn.subtasks);
        }
    }
    if let Some(p) = &mut m2.p {
        s.shuffle(&mut p.objects);
        s.shuffle(&mut p.init);
        p.goal.iter_mut().for_each(|f| shuffle_formula(s, f));
        if let Some((_, tn)) = &mut p.htn {
            s.shuffle(&mut tn.order);
            if !tn.total && s.chance(1, 2) {
                s.shuffle(&mut tn.subtasks);
            }
        }
    }
    let a = finish(s, m, n.q.clone(), vec![], false);
    let b = finish(s, m2, n.q, vec![], false);
    let (ra, rb) = (sut::verify(&a.d.bytes, a.pb()), sut::verify(&b.d.bytes, b.pb()));
    let bad = |w: String| -> Out {
        fail(
            w,
            &a.d.bytes,
            a.ps(),
            json!({"reordered domain": show(&b.d.bytes), "reordered problem": b.ps().map(show)}),
        )
    };
    let (fa, _) = faults(&a.dom, a.pro.as_ref());
    let (fb, _) = faults(&b.dom, b.pro.as_ref());
    let single = fa.must.len() == 1 && fb.must.len() == 1;
    match (&ra, &rb) {
        (Ok(x), Ok(y)) => {
            let set = |w: &Vec<sut::Warn>| -> Vec<String> {
                let mut v: Vec<String> = w.iter().map(|w| w.task.clone()).collect();
                v.sort();
                v
            };
            if set(x) != set(y) {
                return bad(format!("warnings {:?} and {:?}", set(x), set(y)));
            }
        }
        (Err(x), Err(y)) => {
            if let (true, sut::Err::Sem { sem: x, .. }, sut::Err::Sem { sem: y, .. }) = (single, x, y) {
                if x.gist() != y.gist() {
                    return bad(format!("reported {:?}, and after reordering {:?}", x, y));
                }
            }
        }
        _ => return bad(format!("verdict {:?}, and after reordering {:?}", ra, rb)),
    }
    match (sut::metadata(&a.d.bytes, None), sut::metadata(&b.d.bytes, None)) {
        (Ok(x), Ok(y)) => {
            let (Ok(x), Ok(y)) = (sut::parse_meta(&x.text), sut::parse_meta(&y.text)) else {
                return bad("unreadable metadata".into());
            };
            let sorted = |v: &Vec<String>| {
                let mut v = v.clone();
                v.sort();
                v
            };
            let counts = |m: &sut::MetaText| (m.actions, m.tasks, m.methods);
            // the class of recursion is only specified for these
            let exact = Hier::new(&a.dom).exact();
            let class_same = if exact {
                x.class == y.class
            } else {
                (x.class == "Non-recursive") == (y.class == "Non-recursive")
            };
            if counts(&x) != counts(&y) || sorted(&x.nullables) != sorted(&y.nullables) || !class_same {
                return bad(format!("metadata {:?}, and after reordering {:?}", x, y));
            }
        }
        (Err(_), Err(_)) => {}
        (x, y) => return bad(format!("metadata {:?}, and after reordering {:?}", x, y)),
    }
    let label = match &ra {
        Ok(w) if w.is_empty() => "accepted",
        Ok(_) => "warnings",
        Err(_) if single => "single-fault",
        Err(_) => "several-faults",
    };
    pass(&a, a.dom.tasks.len() + a.dom.actions.len() + a.dom.predicates.len() > 2, vec![label.into()])
}

// ---------------------------------------------------------------- C19

fn c19(_: &mut Ctx, s: &mut Src) -> Out {
    let problem = s.chance(1, 2);
    let focus = match s.below(4) {
        0 => Focus::Hier,
        1 => Focus::Any,
        _ => Focus::Small,
    };
    let fault = if s.chance(1, 2) { Some(*s.pick(&CATS)) } else { None };
    let at = if problem && s.chance(1, 2) { Where::Problem } else { Where::Domain };
    let (na, nb) = (s.seed(), s.seed());
    let style = s.seed();
    let start = s.pos;
    let build = |s: &mut Src, seed: u64| {
        let mut n = Namer::new(seed);
        let mut m = model(s, &mut n, focus, problem);
        if let Some(cat) = fault {
            Inj { s, n: &mut n, at, cross: false }.inject(&mut m, cat);
        }
        (m, n)
    };
    let (ma, a) = build(s, na);
    let mut again = Src::replay(s.tape[start..s.pos].to_vec());
    let (mb, b) = build(&mut again, nb);
    if a.log.len() != b.log.len() {
        crate::engine::harness_error("the structure depends on the names");
    }
    let mut rel: HashSet<(String, String)> = a.log.iter().cloned().zip(b.log.iter().cloned()).collect();
    for x in ["anything"] {
        rel.insert((x.into(), x.into()));
    }
    let (ta, tb) = (render::domain_tokens(&ma.d, &a.q, style), render::domain_tokens(&mb.d, &b.q, style));
    let (layout, lseed) = pick_layout(s, false);
    // the same lines for both
    let layout = if matches!(layout, Layout::Plain | Layout::Tall | Layout::VeryTall) { Layout::Wild } else { layout };
    let (da, db) = (render::layout(&ta, layout, lseed), render::layout(&tb, layout, lseed));
    let tp = |m: &crate::gen::Model, n: &Namer| m.p.as_ref().map(|p| render::problem_tokens(p, &n.q, style));
    let (pa, pb) = (
        tp(&ma, &a).map(|t| render::layout(&t, layout, lseed).bytes),
        tp(&mb, &b).map(|t| render::layout(&t, layout, lseed).bytes),
    );
    if ta.len() != tb.len() || da.lines != db.lines {
        crate::engine::harness_error("the layout depends on the names");
    }
    let bad = |w: String| -> Out {
        fail(
            w,
            &da.bytes,
            pa.as_deref(),
            json!({"renamed domain": show(&db.bytes), "renamed problem": pb.as_deref().map(show)}),
        )
    };
    let pair = |x: &str, y: &str| rel.contains(&(x.to_string(), y.to_string()));
    let opt = |x: &Option<String>, y: &Option<String>| match (x, y) {
        (None, None) => true,
        (Some(x), Some(y)) => pair(x, y),
        _ => false,
    };
    let label;
    match (sut::verify(&da.bytes, pa.as_ref()), sut::verify(&db.bytes, pb.as_ref())) {
        (Ok(x), Ok(y)) => {
            label = if x.is_empty() { "accepted" } else { "warnings" };
            let same = x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| x.line == y.line && pair(&x.task, &y.task));
            if !same {
                return bad(format!("warnings {:?} and {:?}", x, y));
            }
        }
        (Err(sut::Err::Sem { sem: x, .. }), Err(sut::Err::Sem { sem: y, .. })) => {
            label = "rejected";
            let same = match (&x, &y) {
                (Sem::Dup { kind, name, first, second }, Sem::Dup { kind: k, name: n, first: f, second: g }) => {
                    kind == k && pair(name, n) && first == f && second == g
                }
                (Sem::DupReq(x), Sem::DupReq(y)) => x == y,
                (Sem::Undef { kind, name, line }, Sem::Undef { kind: k, name: n, line: l }) => {
                    kind == k && pair(name, n) && line == l
                }
                (
                    Sem::Arity { kind, name, expected, found, line },
                    Sem::Arity { kind: k, name: n, expected: e, found: f, line: l },
                ) => kind == k && pair(name, n) && expected == e && found == f && line == l,
                (
                    Sem::Type { kind, expected, found, var, line },
                    Sem::Type { kind: k, expected: e, found: f, var: v, line: l },
                ) => kind == k && opt(expected, e) && opt(found, f) && pair(var, v) && line == l,
                (Sem::CyclicType, Sem::CyclicType) => true,
                (Sem::CyclicOrder { line: x }, Sem::CyclicOrder { line: y }) => x == y,
                _ => false,
            };
            if !same {
                return bad(format!("reported {:?}, with other names {:?}", x, y));
            }
        }
        (x, y) => return bad(format!("verdict {:?}, with other names {:?}", x, y)),
    }
    match (sut::metadata(&da.bytes, None), sut::metadata(&db.bytes, None)) {
        (Ok(x), Ok(y)) => {
            let (Ok(x), Ok(y)) = (sut::parse_meta(&x.text), sut::parse_meta(&y.text)) else {
                return bad("unreadable metadata".into());
            };
            let list = |x: &Vec<String>, y: &Vec<String>| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| pair(x, y));
            if x.class != y.class
                || (x.actions, x.tasks, x.methods) != (y.actions, y.tasks, y.methods)
                || !list(&x.nullables, &y.nullables)
                || !list(&x.cycle_tasks, &y.cycle_tasks)
                || !list(&x.cycle_methods, &y.cycle_methods)
            {
                return bad(format!("metadata {:?}, with other names {:?}", x, y));
            }
        }
        (Err(sut::Err::Sem { sem: x, .. }), Err(sut::Err::Sem { sem: y, .. })) => {
            if x.gist().0 != y.gist().0 {
                return bad(format!("metadata {:?}, with other names {:?}", x, y));
            }
        }
        (x, y) => return bad(format!("metadata {:?}, with other names {:?}", x, y)),
    }
    fn walk(path: String, x: &Value, y: &Value, pair: &dyn Fn(&str, &str) -> bool) -> Option<String> {
        match (x, y) {
            (Value::Object(a), Value::Object(b)) => {
                if a.keys().collect::<Vec<_>>() != b.keys().collect::<Vec<_>>() {
                    return Some(format!("{}: other fields", path));
                }
                a.iter().find_map(|(k, v)| walk(format!("{}.{}", path, k), v, &b[k], pair))
            }
            (Value::Array(a), Value::Array(b)) => {
                if a.len() != b.len() {
                    return Some(format!("{}: {} and {} elements", path, a.len(), b.len()));
                }
                a.iter().zip(b).enumerate().find_map(|(i, (v, w))| walk(format!("{}[{}]", path, i), v, w, pair))
            }
            (Value::String(a), Value::String(b)) => {
                if pair(a, b) || (a == b && (a == "Empty" || a == "Total" || path.contains("requirements"))) {
                    None
                } else {
                    Some(format!("{}: {:?} and {:?}", path, a, b))
                }
            }
            _ if x == y => None,
            _ => Some(format!("{}: {} and {}", path, x, y)),
        }
    }
    match (sut::to_json(&da.bytes, pa.as_ref()), sut::to_json(&db.bytes, pb.as_ref())) {
        (Ok(x), Ok(y)) => match (parse_json(&x), parse_json(&y)) {
            (Ok(x), Ok(y)) => {
                if let Some(w) = walk(String::new(), &x, &y, &pair) {
                    return bad(format!("the exported trees differ: {}", w));
                }
            }
            _ => return bad("the export is not JSON".into()),
        },
        (x, y) => return bad(format!("export {:?}, with other names {:?}", x.err(), y.err())),
    }
    Ok(Info {
        key: key(&da.bytes, pa.as_deref()) ^ key(&db.bytes, pb.as_deref()),
        nontrivial: na != nb && rel.iter().any(|(x, y)| x != y) && ma.d.tasks.len() + ma.d.actions.len() > 0,
        labels: vec![label.into()],
        sample: json!({"domain": show(&da.bytes).chars().take(600).collect::<String>(), "renamed": show(&db.bytes).chars().take(600).collect::<String>()}),
    })
}

// ---------------------------------------------------------------- C22

/// without sequences that set a colour
fn strip_ansi(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\x1b' && c.get(i + 1) == Some(&'[') {
            let mut j = i + 2;
            while j < c.len() && (c[j].is_ascii_digit() || c[j] == ';') {
                j += 1;
            }
            if c.get(j) == Some(&'m') {
                i = j + 1;
                continue;
            }
        }
        out.push(c[i]);
        i += 1;
    }
    out
}

fn c22(ctx: &mut Ctx, s: &mut Src) -> Out {
    let problem = s.chance(1, 2);
    let k = s.below(3);
    let list: Vec<(Cat, Where)> = (0..k).map(|_| (*s.pick(&CATS), Where::Anywhere)).collect();
    let focus = if s.chance(1, 2) { Focus::Small } else { Focus::Hier };
    let c = faulty_case(s, focus, problem, &list, false);
    let mut d = c.d.bytes.clone();
    let mut p = c.ps().map(|p| p.to_vec());
    if s.chance(1, 4) {
        match &mut p {
            Some(p) if s.chance(1, 2) => mutate::bytes(s, p),
            _ => mutate::bytes(s, &mut d),
        }
    }
    ctx.counter += 1;
    let dir = ctx.dir.join(format!("cli{}", ctx.counter));
    std::fs::create_dir_all(&dir).unwrap();
    let clean = |r: Out| -> Out {
        let _ = std::fs::remove_dir_all(&dir);
        r
    };
    let dname = *s.pick(&["d.hddl", "domain file.hddl", "d", "sub.d.pddl"]);
    let pname = *s.pick(&["p.hddl", "problem file.hddl", "p"]);
    std::fs::write(dir.join(dname), &d).unwrap();
    if let Some(p) = &p {
        std::fs::write(dir.join(pname), p).unwrap();
    }
    let cmd = *s.pick(&["verify", "metadata", "to_json", "to_json"]);
    // sometimes a file cannot be read
    let missing = match s.below(16) {
        0 => 1,
        1 if p.is_some() => 2,
        2 => 3,
        _ => 0,
    };
    let out_file = if s.chance(1, 2) { Some(*s.pick(&["out.json", "out put.json", ".out", "sub/out.json", "out", "o", "o=u-t..json"])) } else { None };
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let existing = s.chance(1, 2);
    // sometimes longer than what is written
    let old_text = if s.chance(1, 2) { b"old content".to_vec() } else { b"old content\n".repeat(20000) };
    let out_bad = out_file.is_some() && s.chance(1, 12);
    let folder = dir.file_name().unwrap().to_string_lossy().to_string();
    let spell = |s: &mut Src, name: &str| match s.below(12) {
        0 => dir.join(name).display().to_string(),
        1 => format!("./{}", name),
        2 => format!("../{}/{}", folder, name),
        3 => format!("sub/../{}", name),
        _ => name.to_string(),
    };
    let mut args: Vec<String> = vec![cmd.into()];
    args.push(match missing {
        1 => "no-such-file".into(),
        3 => ".".into(),
        _ => spell(s, dname),
    });
    // options in both spellings, attached or not, before or after the domain
    let mut option = |s: &mut Src, short: &str, long: &str, value: String| {
        let v = match s.below(4) {
            0 => vec![format!("{}={}", long, value)],
            1 => vec![long.to_string(), value],
            2 => vec![format!("{}{}", short, value)],
            _ => vec![short.to_string(), value],
        };
        let at = if s.chance(1, 3) { 1 } else { args.len() };
        args.splice(at..at, v);
    };
    if p.is_some() {
        let v = match missing {
            2 => if s.chance(1, 2) { "no-such-problem".into() } else { ".".into() },
            _ => spell(s, pname),
        };
        option(s, "-p", "--problem-path", v);
    }
    if let Some(o) = out_file {
        let v = if out_bad {
            format!("no-such-folder/{}", o)
        } else {
            spell(s, o)
        };
        option(s, "-o", "--output-file", v);
        if existing {
            std::fs::write(dir.join(o), &old_text).unwrap();
        }
    }
    let out = crate::engine::program(&crate::engine::exe_dir().join("sut_cli"))
        .args(&args)
        .current_dir(&dir)
        .output()
        .unwrap_or_else(|e| crate::engine::harness_error(&format!("cannot start the tool: {}", e)));
    let stdout = strip_ansi(&String::from_utf8_lossy(&out.stdout));
    let stderr = strip_ansi(&String::from_utf8_lossy(&out.stderr));
    let bad = |w: String| -> Out {
        fail(
            w,
            &d,
            p.as_deref(),
            json!({"arguments": args, "stdout": stdout.chars().take(3000).collect::<String>(), "stderr": stderr.chars().take(3000).collect::<String>()}),
        )
    };
    if matches!(out.status.code(), Some(126) | Some(127)) {
        crate::engine::harness_error("cannot start the tool");
    }
    if out.status.code().is_none() || out.status.code() == Some(101) || stderr.contains("panicked at") {
        return clean(bad(format!("the tool crashed: {:?}", out.status)));
    }
    if out.status.code() == Some(2) {
        return clean(bad("the tool does not understand its arguments".into()));
    }
    // what the library says
    enum Want {
        Out(String),
        Json(String),
        Error(Option<String>),
    }
    let unreadable = missing == 1 || missing == 3 || (missing == 2 && cmd != "metadata");
    let want = if unreadable {
        Want::Error(None)
    } else {
        match cmd {
            "verify" => match sut::verify(&d, p.as_ref()) {
                Ok(w) => Want::Out(
                    w.iter().map(|w| format!("[Warning] {}\n", w.msg)).collect::<String>() + "[Ok]\n",
                ),
                Err(e) => Want::Error(Some(e.msg().to_string())),
            },
            "metadata" => match sut::metadata(&d, None) {
                Ok(m) => Want::Out(m.text),
                Err(e) => Want::Error(Some(e.msg().to_string())),
            },
            _ => match sut::to_json(&d, p.as_ref()) {
                Ok(j) => Want::Json(j),
                Err(e) => Want::Error(Some(e.msg().to_string())),
            },
        }
    };
    let writes = cmd == "to_json" && out_file.is_some();
    // nothing else is written
    for f in [dir.clone(), dir.join("sub")].iter().flat_map(|f| std::fs::read_dir(f).unwrap().flatten()) {
        let path = f.path();
        let known = [Some(dname), Some(pname), out_file, Some("sub")];
        if !known.iter().flatten().any(|n| path == dir.join(n)) {
            return clean(bad(format!("a file appears: {:?}", f.file_name())));
        }
    }
    if std::fs::read(dir.join(dname)).ok().as_ref() != Some(&d) || (p.is_some() && std::fs::read(dir.join(pname)).ok() != p) {
        return clean(bad("an input file is changed".into()));
    }
    let file = out_file.map(|o| std::fs::read(dir.join(o)).ok());
    let old = if existing { Some(old_text.clone()) } else { None };
    let label;
    match &want {
        Want::Out(t) => {
            label = "ok";
            if stdout.trim_end() != strip_ansi(t).trim_end() || !stderr.is_empty() {
                return clean(bad(format!("expected the output {:?}", t)));
            }
        }
        Want::Json(j) => {
            label = if writes { "json-file" } else { "json" };
            if writes && out_bad {
                if stderr.trim().is_empty() || stdout.contains("uccess") {
                    return clean(bad("the file cannot be written, but there is no error".into()));
                }
            } else if writes {
                if file.clone().flatten().as_deref() != Some(j.as_bytes()) {
                    return clean(bad("the written file is not the exported JSON".into()));
                }
                if !stderr.is_empty() {
                    return clean(bad("an error is printed although the file is written".into()));
                }
            } else {
                let want = strip_ansi(&format!("[Ok]\n{}\n", j));
                if stdout != want || !stderr.is_empty() {
                    return clean(bad("the output is not the exported JSON".into()));
                }
            }
        }
        Want::Error(m) => {
            label = if m.is_none() { "unreadable" } else { "error" };
            if !stdout.is_empty() {
                return clean(bad("there is an error, but something is printed on standard output".into()));
            }
            match m {
                Some(m) => {
                    if stderr.trim_end() != strip_ansi(&format!("[Error] {}", m)).trim_end() {
                        return clean(bad(format!("expected the error {:?}", m)));
                    }
                }
                None => {
                    if !stderr.starts_with("[Error]") || stderr.trim().len() <= 8 {
                        return clean(bad("an unreadable file is not reported".into()));
                    }
                }
            }
        }
    }
    let expect_written = matches!(want, Want::Json(_)) && writes && !out_bad;
    if out_file.is_some() && !expect_written && file.flatten() != old {
        return clean(bad("the output file is touched".into()));
    }
    let k = key(&d, p.as_deref()) ^ crate::rng::hash_bytes(args.join(" ").as_bytes());
    clean(Ok(Info {
        key: k,
        nontrivial: true,
        labels: vec![format!("{}-{}", cmd, label)],
        sample: json!({"arguments": args, "domain": show(&d).chars().take(500).collect::<String>()}),
    }))
}

// ---------------------------------------------------------------- C23

fn c23(_: &mut Ctx, s: &mut Src) -> Out {
    let nf = s.below(3);
    let mut list: Vec<(Cat, Where)> = vec![];
    for _ in 0..nf {
        let at = if s.chance(1, 2) { Where::Domain } else { Where::Problem };
        list.push((*s.pick(&CATS), at));
    }
    let focus = if s.chance(1, 3) { Focus::Any } else { Focus::Small };
    let c = faulty_case(s, focus, true, &list, false);
    let mut d = c.d.bytes.clone();
    let mut p = c.ps().unwrap().to_vec();
    let mut label = "pair";
    let spoilt = s.chance(1, 6);
    if spoilt {
        let mut t = c.dt.clone();
        mutate::tokens(s, &mut t);
        d = write(s, &t, false).bytes;
        label = "mutated-domain";
    }
    match s.below(10) {
        0 | 1 => {
            let mut t = c.pt.clone().unwrap();
            mutate::tokens(s, &mut t);
            p = write(s, &t, false).bytes;
            label = if spoilt { "mutated-domain-mutated-problem" } else { "mutated-problem" };
        }
        2 => {
            mutate::bytes(s, &mut p);
            label = if spoilt { "mutated-domain-byte-problem" } else { "byte-problem" };
        }
        3 => {
            p = d.clone();
            label = if spoilt { "mutated-domain-domain-as-problem" } else { "domain-as-problem" };
        }
        4 => {
            d = p.clone();
            label = "problem-as-domain";
        }
        5 => {
            // the problem of another domain
            p = valid_case(s, Focus::Small, true, false).ps().unwrap().to_vec();
            label = if spoilt { "mutated-domain-other-problem" } else { "other-problem" };
        }
        6 => {
            p = vec![];
            label = if spoilt { "mutated-domain-empty-problem" } else { "empty-problem" };
        }
        _ => {}
    }
    let bad = |w: String| -> Out { fail(w, &d, Some(&p), json!({})) };
    let alone = sut::verify(&d, None);
    let pair = sut::verify(&d, Some(&p));
    match (&alone, &pair) {
        (Err(a), Err(b)) => {
            if a.msg() != b.msg() {
                return bad(format!("the domain alone: {:?}, with the problem: {:?}", a, b));
            }
        }
        (Err(a), Ok(_)) => return bad(format!("the domain is rejected ({:?}), but not with the problem", a)),
        (Ok(w), Ok(x)) => {
            if w != x {
                return bad(format!("warnings {:?}, with the problem {:?}", w, x));
            }
        }
        (Ok(_), Err(e)) => {
            if e.is_panic() {
                return bad(format!("{:?}", e));
            }
        }
    }
    let (ma, mp) = (sut::metadata(&d, None), sut::metadata(&d, Some(&p)));
    match (&ma, &mp) {
        (Ok(a), Ok(b)) if a == b => {}
        (Err(a), Err(b)) if a.msg() == b.msg() => {}
        _ => return bad(format!("metadata {:?}, with the problem {:?}", ma, mp)),
    }
    let (ja, jp) = (sut::to_json(&d, None), sut::to_json(&d, Some(&p)));
    let mut both = false;
    match (&ja, &jp) {
        (Ok(a), Ok(b)) => {
            both = true;
            let (a, b) = (parse_json(a).unwrap_or(Value::Null), parse_json(b).unwrap_or(Value::Null));
            if a.is_null() || b.is_null() {
                return bad("the export is not JSON".into());
            }
            if let Some(x) = tree_diff("domain", &a["domain"], &b["domain"]) {
                return bad(format!("the exported domain depends on the problem: {}", x));
            }
            if a.get("problem").is_some() || b.get("problem").is_none() {
                return bad("the export does not have the parts that were given".into());
            }
        }
        (Err(a), Err(b)) => {
            if a.msg() != b.msg() {
                return bad(format!("export: the domain alone {:?}, with the problem {:?}", a, b));
            }
        }
        (Err(a), Ok(_)) => return bad(format!("the domain is not exported ({:?}), but with the problem it is", a)),
        (Ok(_), Err(e)) => {
            // the problem does not parse: verification says the same, if the domain is fine
            if e.is_panic() {
                return bad(format!("{:?}", e));
            }
            if alone.is_ok() {
                match &pair {
                    Err(v) if v.msg() == e.msg() => {}
                    _ => return bad(format!("export {:?}, but verification {:?}", e, pair)),
                }
            }
        }
    }
    // wrong kinds
    let (kd, kp) = (classify(&d), classify(&p));
    if matches!(kd, Kind::Problem(_)) {
        if alone.is_ok() || ma.is_ok() || ja.is_ok() {
            return bad("a problem is accepted as domain".into());
        }
        if [alone.as_ref().err(), ma.as_ref().err(), ja.as_ref().err()].iter().any(|e| e.unwrap().is_panic()) {
            return bad("a problem as domain: panic".into());
        }
    }
    if matches!(kd, Kind::Domain(_)) && matches!(kp, Kind::Domain(_)) && (pair.is_ok() || jp.is_ok()) {
        return bad("a domain is accepted as problem".into());
    }
    // the problem's errors are found, too
    if alone.is_ok() && matches!(kp, Kind::Bad(_)) && pair.is_ok() {
        return bad("a problem that does not parse is accepted".into());
    }
    let outcome = match (&alone, &pair) {
        (Ok(_), Ok(_)) => "both-accepted",
        (Ok(_), Err(_)) => "problem-rejected",
        _ => "domain-rejected",
    };
    Ok(Info {
        key: key(&d, Some(&p)),
        nontrivial: both || outcome != "both-accepted",
        labels: vec![label.into(), outcome.into()],
        sample: sample(&d, Some(&p)),
    })
}

#[allow(dead_code)]
fn unused(_: &Rng) {}

macro_rules! prop {
    ($id:expr, $f:path, $q:expr, $t:expr, $rule:expr) => {
        Prop { id: $id, run: $f, quick: $q, thorough: $t, rule: $rule, assumptions: &[REF] }
    };
}

pub static PROPS: [Prop; 23] = [
    prop!("C01", c01, 87500, 1400000, "inputs: generated models with byte and token mutations, cut-off texts, deep or wide nesting, dense task hierarchies, token soup, noise, mutated corpus files; all operations on each; non-trivial: domain longer than 8 bytes"),
    prop!("C02", c02, 150000, 2400000, "generated or corpus documents with 0-4 token or byte mutations in random layouts; accepted iff the reference grammar accepts; non-trivial: the text is specified by the grammar (ASCII outside comments, bounded nesting)"),
    prop!("C03", c03, 40000, 640000, "generated domains and problems (also semantically wrong ones) in random layouts; the exported tree equals the reference tree; non-trivial: at least three kinds of content"),
    prop!("C04", c04, 200000, 3200000, "generated or corpus documents with 0-4 token or byte mutations; non-trivial: the reference grammar rejects the text, so there is an error to locate"),
    prop!("C05", c05, 55000, 880000, "one token sequence (valid, semantically wrong or mutated) in two layouts; all results equal after mapping lines through token positions; non-trivial: the two texts differ"),
    prop!("C06", c06, 100000, 1600000, "generated well-formed domains and problems; non-trivial: at least one formula or subtask"),
    prop!("C07", c07, 150000, 2400000, "models with undefined names injected at random sites (and none, several, or mixed with other faults); non-trivial: the reference finds an undefined name"),
    prop!("C08", c08, 200000, 3200000, "models with duplicate declarations injected (and none, several, or mixed with other faults); non-trivial: the reference finds a duplicate"),
    prop!("C09", c09, 125000, 2000000, "models with wrong numbers of arguments injected (and none, several, or mixed with other faults); non-trivial: the reference finds a wrong arity"),
    prop!("C10", c10, 200000, 3200000, "models with arguments of wrong types injected (and none, several, or mixed with other faults); non-trivial: the reference finds a type error"),
    prop!("C11", c11, 175000, 2800000, "models with cyclic type declarations injected (and none, several, or mixed with other faults); non-trivial: the reference finds a cycle"),
    prop!("C12", c12, 175000, 2800000, "models with cyclic orderings injected (and none, several, or mixed with other faults); non-trivial: the reference finds a cycle"),
    prop!("C13", c13, 150000, 2400000, "valid domains with problems that have 0-2 faults of any kind; non-trivial: the problem has an initial state or task network and the domain is valid"),
    prop!("C14", c14, 300000, 4800000, "generated task hierarchies; non-trivial: some but not all compound tasks cannot be refined"),
    prop!("C15", c15, 150000, 4800000, "generated task hierarchies; non-trivial: some but not all compound tasks are nullable"),
    prop!("C16", c16, 180000, 6000000, "generated task hierarchies; non-trivial: recursive"),
    prop!("C17", c17, 30000, 480000, "models with 0-5 faults; every operation seven times in one process with other inputs in between, every fourth case also in another process; non-trivial: not exactly one fault (so there is a choice of what to report)"),
    prop!("C18", c18, 112500, 1800000, "models with 0 or 1 injected faults and a random reordering of them; non-trivial: more than two declarations"),
    prop!("C19", c19, 50000, 800000, "one structure generated with two sets of names; non-trivial: names differ and there is a task or action"),
    prop!("C20", crate::lspprops::c20, 60000, 960000, "documents in a folder, opened in the language server and diagnosed, compared with the library's verdict on the same text; non-trivial: a diagnostic is expected or the document is a model"),
    prop!("C21", crate::lspprops::c21, 20000, 320000, "histories of open, change, save, close, disk writes and diagnostic requests (also pipelined) on several documents; non-trivial: at least one diagnostic after a change or close"),
    prop!("C22", c22, 70000, 1120000, "input files, sub-command and options for the command line tool; non-trivial: every distinct combination"),
    prop!("C23", c23, 70000, 1120000, "pairs of domain and problem, valid, wrong, malformed or exchanged; non-trivial: something is rejected or both are exported"),
];
