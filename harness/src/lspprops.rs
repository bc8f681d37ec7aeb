//! The checks of the language server.
use crate::common::*;
use crate::engine::{Ctx, Failure, Info, Out};
use crate::gen::Focus;
use crate::inject::{Where, CATS};
use crate::lsp::{self, Server};
use crate::reflex::{lex, T};
use crate::refsem::Sem;
use crate::rng::{hash_bytes, mix, Src};
use crate::{mutate, sut};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Header {
    Domain,
    Problem,
    Other,
}

fn header(text: &[u8]) -> Header {
    let t = lex(text);
    let at = |i: usize| t.get(i).map(|x| &x.0);
    if at(0) == Some(&T::L) && at(1) == Some(&T::Kw("define")) && at(2) == Some(&T::L) {
        match at(3) {
            Some(T::Kw("domain")) => return Header::Domain,
            Some(T::Kw("problem")) => return Header::Problem,
            _ => {}
        }
    }
    Header::Other
}

#[derive(Debug, Clone)]
struct Want {
    message: String,
    severity: u64,
    line: Option<u32>,
    /// the other declaration
    first: Option<u32>,
    /// it is in the domain of a problem
    in_domain: bool,
}

fn want(e: &sut::Err) -> Want {
    let (severity, line) = match e {
        sut::Err::Panic(_) => (1, None),
        sut::Err::Lex { line, .. } | sut::Err::Syn { line, .. } => (1, Some(*line)),
        sut::Err::Sem { sem, .. } => match sem {
            Sem::Dup { second, .. } => (1, Some(*second)),
            Sem::DupReq(_) => (3, None),
            Sem::Undef { line, .. } | Sem::Arity { line, .. } | Sem::Type { line, .. } | Sem::CyclicOrder { line } => {
                (1, Some(*line))
            }
            Sem::CyclicType => (1, None),
        },
    };
    let first = match e {
        sut::Err::Sem { sem: Sem::Dup { first, .. }, .. } => Some(*first),
        _ => None,
    };
    Want { message: e.msg().to_string(), severity, line, first, in_domain: false }
}

/// what the library says about a document, given the domain in its folder
fn expected(doc: &[u8], domain: Option<&[u8]>) -> Vec<Want> {
    let mut out = vec![];
    let doc = doc.to_vec();
    match header(&doc) {
        Header::Other => {}
        Header::Domain => {
            if let Err(e) = sut::verify(&doc, None) {
                out.push(want(&e));
            }
        }
        Header::Problem => {
            let mut ok = false;
            if let Some(d) = domain {
                match sut::verify(&d.to_vec(), None) {
                    Ok(_) => ok = true,
                    Err(e) => out.push(Want { in_domain: true, ..want(&e) }),
                }
            }
            let t: Vec<u8> = TRIVIAL.into();
            match sut::to_json(&t, Some(&doc)) {
                Err(e) => out.push(want(&e)),
                Ok(_) if ok => {
                    if let Err(e) = sut::verify(&domain.unwrap().to_vec(), Some(&doc)) {
                        out.push(want(&e));
                    }
                }
                Ok(_) => {}
            }
        }
    }
    out
}

/// a duplicate refers to the first declaration, in the document that has it
fn related(w: &Want, i: &Value, uris: Option<(&str, &str)>) -> bool {
    let none = vec![];
    let r = i["relatedInformation"].as_array().unwrap_or(&none);
    let Some(n) = w.first else { return r.is_empty() };
    let place = |l: &Value| {
        l["range"]["start"]["line"].as_u64() == Some(n as u64 - 1)
            && uris.map_or(true, |(doc, dom)| {
                let u = if w.in_domain { dom } else { doc };
                l["uri"].as_str().map(lsp::decode) == Some(lsp::decode(u))
            })
    };
    r.len() == 1 && place(&r[0]["location"])
}

/// uris: of the document and of its domain
fn compare(want: &[Want], v: &Value, uris: Option<(&str, &str)>) -> Option<String> {
    let Some(items) = lsp::items(v) else { return Some(format!("no report: {}", v)) };
    if items.len() != want.len() {
        return Some(format!("{} diagnostics instead of {}: {:?} instead of {:?}", items.len(), want.len(), items, want));
    }
    // in any order
    let mut left: Vec<&Value> = items.iter().collect();
    for w in want {
        let pos = left.iter().position(|i| {
            let line = i["range"]["start"]["line"].as_u64();
            let end = i["range"]["end"]["line"].as_u64();
            let ch = i["range"]["start"]["character"].as_u64();
            i["message"].as_str().map(|m| m.trim()) == Some(w.message.trim())
                && i["severity"].as_u64() == Some(w.severity)
                && end >= line
                && related(w, i, uris)
                && w.line.map_or(true, |n| {
                    line == Some(n as u64 - 1) && ch == Some(0) && end <= Some(n as u64)
                })
        });
        match pos {
            Some(p) => {
                left.remove(p);
            }
            None => return Some(format!("expected {:?} among {:?}", w, items)),
        }
    }
    None
}

/// a domain and a problem for it, in one of many states
fn texts(s: &mut Src) -> (String, String, Vec<String>) {
    let k = match s.below(4) {
        0 => 0,
        1 | 2 => 1,
        _ => 2,
    };
    let mut list = vec![];
    for _ in 0..k {
        let at = if s.chance(1, 2) { Where::Domain } else { Where::Problem };
        list.push((*s.pick(&CATS), at));
    }
    let focus = if s.chance(1, 6) { Focus::Any } else { Focus::Small };
    let c = faulty_case(s, focus, true, &list, true);
    let mut labels = c.labels.clone();
    let mut d = String::from_utf8(c.d.bytes).unwrap();
    let mut p = String::from_utf8(c.p.unwrap().bytes).unwrap();
    for (toks, text) in [(&c.dt, &mut d), (c.pt.as_ref().unwrap(), &mut p)] {
        if s.chance(1, 6) {
            let mut t = toks.clone();
            labels.push(format!("mutation-{}", mutate::tokens(s, &mut t)));
            *text = String::from_utf8_lossy(&write(s, &t, true).bytes).into_owned();
        }
    }
    (d, p, labels)
}

fn garbage(s: &mut Src) -> String {
    match s.below(7) {
        0 => String::new(),
        1 => "hello world".into(),
        2 => "(define".into(),
        3 => "(define (planning x))".into(),
        4 => "; only a comment".into(),
        5 => "(define )(domain d)".into(),
        _ => "(:define (domain d))".into(),
    }
}

fn bad<X>(what: String, log: Vec<Value>) -> Result<X, Failure> {
    Err(Failure { what, detail: json!({ "history": log }) })
}

/// folders and files can have any name
const FOLDERS: [&str; 12] = [
    "my models", "100%", "a#b", "caf\u{e9}", "q?x", "a+b", "[x]", "a%20b", "domain.hddl", "x;y", "\u{4e2d}\u{6587}", "A&B=(1)",
];

pub fn c20(ctx: &mut Ctx, s: &mut Src) -> Out {
    let (mut d, mut p, mut labels) = texts(s);
    match s.below(20) {
        0 => d = garbage(s),
        1 => p = garbage(s),
        _ => {}
    }
    // the server keeps running, for a while
    if ctx.lsp.as_ref().is_some_and(|l| l.served > 300) {
        ctx.lsp = None;
    }
    if ctx.lsp.is_none() {
        match Server::start() {
            Ok(x) => ctx.lsp = Some(x),
            Err(e) => return bad(format!("the server does not start: {}", e), vec![]),
        }
    }
    ctx.counter += 1;
    let top = ctx.dir.join(format!("l{}-{}", std::process::id(), ctx.counter));
    let dir = if s.chance(1, 2) { top.join(s.pick(&FOLDERS)) } else { top.clone() };
    std::fs::create_dir_all(&dir).unwrap();
    let r = c20_inner(ctx, s, &dir, &d, &p, &mut labels);
    let _ = std::fs::remove_dir_all(&top);
    if r.is_err() {
        ctx.lsp = None;
    }
    r
}

fn c20_inner(ctx: &mut Ctx, s: &mut Src, dir: &Path, d: &str, p: &str, labels: &mut Vec<String>) -> Out {
    let (dn, pn) = (
        *s.pick(&["domain.hddl", "dom.pddl", "the domain.hddl", "d.v1.hddl", "d%41.pddl", "\u{e9}#.hddl", "Domain(1).pddl"]),
        *s.pick(&["p1.hddl", "a-problem.pddl", "p 1.hddl", "p01", "p.txt", "p#1.hddl", "domain.hddl.pddl"]),
    );
    // how the domain is there
    let place = s.below(6);
    let clutter = s.chance(1, 3);
    let server = ctx.lsp.as_mut().unwrap();
    server.served += 1;
    let du = lsp::uri(&dir.join(dn));
    let pu = lsp::uri(&dir.join(pn));
    let mut history: Vec<Value> = vec![];
    let w = |n: &str, t: &str| std::fs::write(dir.join(n), t).unwrap();
    if clutter {
        // none of these is the domain
        w("notes.txt", TRIVIAL);
        w("other.hddl", "(define (problem q) (domain d))");
        w("readme.pddl", "not a domain");
        w("bad.hddl", "(define (domain");
        std::fs::remove_file(dir.join("bad.hddl")).unwrap();
        std::fs::create_dir_all(dir.join("folder.hddl")).unwrap();
        std::fs::write(dir.join("image.hddl"), [0xff, 0xfe, 0x00, 0x28]).unwrap();
    }
    let mut domain: Option<&str> = Some(d);
    match place {
        0 | 1 => w(dn, d),
        2 => {
            // newer in the editor than on the disk
            w(dn, if s.chance(1, 2) { TRIVIAL } else { "(define (domain x) (:oops" });
        }
        3 => w(dn, d),
        4 => domain = None,
        _ => w(dn, d),
    }
    let open_domain = place == 2 || place == 3;
    if s.chance(1, 2) {
        w(pn, "; old content");
    }
    let run = |server: &mut Server, history: &mut Vec<Value>| -> Result<(Value, Option<Value>), String> {
        let mut dr = None;
        if open_domain {
            server.open(&du, d, 1)?;
            history.push(json!({"open": dn, "text": d}));
            let v = server.diagnostic(&du)?;
            history.push(json!({"diagnostic": dn, "answer": v}));
            dr = Some(v);
        } else {
            history.push(json!({"on disk": domain.map(|_| dn), "text": domain}));
        }
        server.open(&pu, p, 0)?;
        history.push(json!({"open": pn, "text": p}));
        let v = server.diagnostic(&pu)?;
        history.push(json!({"diagnostic": pn, "answer": v}));
        server.close(&pu)?;
        if open_domain {
            server.close(&du)?;
        }
        server.alive()?;
        Ok((v, dr))
    };
    let (pv, dv) = match run(server, &mut history) {
        Ok(x) => x,
        Err(e) => return bad(e, history),
    };
    if let Some(dv) = &dv {
        if let Some(x) = compare(&expected(d.as_bytes(), None), dv, Some((&du, &du))) {
            return bad(format!("domain: {}", x), history);
        }
    }
    // a document that is no domain does not count as one
    let dom = domain.filter(|d| header(d.as_bytes()) == Header::Domain);
    let want = expected(p.as_bytes(), dom.map(|d| d.as_bytes()));
    if let Some(x) = compare(&want, &pv, Some((&pu, &du))) {
        return bad(format!("problem: {}", x), history);
    }
    labels.push(format!("diagnostics-{}", want.len()));
    labels.push(if open_domain { "domain-open".into() } else { "domain-on-disk".into() });
    Ok(Info {
        key: mix(mix(hash_bytes(d.as_bytes()), hash_bytes(p.as_bytes())), place as u64),
        nontrivial: header(p.as_bytes()) == Header::Problem,
        labels: labels.clone(),
        sample: json!({"domain": d.chars().take(500).collect::<String>(), "problem": p.chars().take(500).collect::<String>(), "diagnostics": want.iter().map(|w| w.message.clone()).collect::<Vec<_>>()}),
    })
}

pub fn c21(ctx: &mut Ctx, s: &mut Src) -> Out {
    ctx.counter += 1;
    let dir = ctx.dir.join(format!("h{}-{}", std::process::id(), ctx.counter));
    for f in ["a/sub", "b/sub"] {
        std::fs::create_dir_all(dir.join(f)).unwrap();
    }
    let r = history(s, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// a document that is never open: the answer to a request about it comes after everything before it is done
const BARRIER: &str = "file:///barrier/none.hddl";

struct Doc {
    uri: String,
    path: Option<PathBuf>,
    /// which texts it can have
    domain: bool,
    open: Option<String>,
    version: i64,
}

fn history(s: &mut Src, dir: &Path) -> Out {
    // a pool of texts
    let mut ds: Vec<String> = vec![];
    let mut ps: Vec<String> = vec![];
    let n = 1 + s.below(3);
    for _ in 0..n {
        let (d, p, _) = texts(s);
        // the file of the domain stays a domain (or nothing at all), that of the problem a problem
        if header(d.as_bytes()) == Header::Domain {
            ds.push(d);
        }
        if header(p.as_bytes()) == Header::Problem {
            ps.push(p);
        }
    }
    ds.push(TRIVIAL.into());
    ds.push("(define (domain d) (:types a - a))".into());
    ps.push("(define (problem p) (domain d) (:objects a a))".into());
    ps.push("(define (problem p) (domain d) (:init".into());
    if s.chance(1, 2) {
        ds.push(String::new());
        ps.push(String::new());
    }
    let g = garbage(s);
    if header(g.as_bytes()) == Header::Other {
        ds.push(g.clone());
        ps.push(g);
    }
    let mut docs: Vec<Doc> = vec![];
    for f in ["a", "b"] {
        // files with similar names
        let names = s.pick(&[
            ["p1.hddl", "p 2.pddl", "sub/p1.hddl"],
            ["p.hddl", "p.hddl.pddl", "P.hddl"],
            ["p1.hddl", "p1", "p10.hddl"],
            ["p 1.hddl", "p%201.hddl", "p+1.hddl"],
            ["domain.hddl.pddl", "sub/domain.hddl", "Domain.txt"],
            ["p#1.hddl", "p", "\u{e9}.hddl"],
        ]);
        for (n, domain) in [("domain.hddl", true), (names[0], false), (names[1], false), (names[2], false)] {
            let path = dir.join(f).join(n);
            let uri = lsp::uri(&path);
            docs.push(Doc { uri, path: Some(path), domain, open: None, version: 1 });
        }
    }
    let many = s.chance(1, 25);
    if many {
        for k in 0..70 {
            let path = dir.join("a").join(format!("q{}.hddl", k));
            let uri = lsp::uri(&path);
            docs.push(Doc { uri, path: Some(path), domain: false, open: None, version: 1 });
        }
    }
    docs.push(Doc { uri: "untitled:Untitled-1".into(), path: None, domain: false, open: None, version: 1 });
    docs.push(Doc { uri: "file:///no/such/folder/p.hddl".into(), path: None, domain: false, open: None, version: 1 });
    let mut disk: BTreeMap<PathBuf, String> = BTreeMap::new();
    let mut log: Vec<Value> = vec![];
    // clients introduce themselves in many ways
    let mut init = json!({"processId": null, "rootUri": null, "capabilities": {}});
    if s.chance(1, 3) {
        init["processId"] = json!(std::process::id());
        init["clientInfo"] = json!({"name": "client", "version": "1"});
    }
    if s.chance(1, 3) {
        let u = lsp::uri(dir);
        init["rootUri"] = json!(u);
        init["workspaceFolders"] = json!([{"uri": u, "name": "w"}]);
        init["trace"] = json!("off");
    }
    if s.chance(1, 3) {
        init["capabilities"] = json!({
            "textDocument": {
                "synchronization": {"dynamicRegistration": true, "didSave": true, "willSave": true},
                "diagnostic": {"dynamicRegistration": false, "relatedDocumentSupport": true},
                "publishDiagnostics": {"relatedInformation": true, "versionSupport": true}
            },
            "workspace": {"workspaceFolders": true, "diagnostics": {"refreshSupport": true}},
            "general": {"positionEncodings": ["utf-8", "utf-16"]}
        });
    }
    let mut server = match Server::start_as(init) {
        Ok(x) => x,
        Err(e) => return bad(format!("the server does not start: {}", e), vec![]),
    };
    // requests that are not answered yet, and what the answer should be (None: an error)
    let mut waiting: Vec<(u64, Option<Vec<Want>>)> = vec![];
    let ops = if s.chance(1, 12) { 40 + s.below(60) } else { 4 + s.below(24) };
    let ndocs = if many { docs.len() } else { [2, 3, 4, 8, 10][s.below(5)] };
    let ops = if many { 60 + s.below(200) } else { ops };
    let pipelined = s.chance(1, 2);
    let mut interesting = 0;
    let mut changed = false;
    let mut kinds: BTreeMap<&'static str, u64> = BTreeMap::new();
    macro_rules! io {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return bad(e, log),
            }
        };
    }
    for step in 0..=ops {
        let i = if many && step < 70 { step % ndocs } else { s.below(ndocs) };
        let last = step == ops;
        let op = if last {
            99
        } else if many && step < 70 {
            0
        } else {
            s.below(12)
        };
        let text = if docs[i].domain { s.pick(&ds).clone() } else { s.pick(&ps).clone() };
        let name = docs[i].uri.rsplit('/').take(2).collect::<Vec<_>>().join("<");
        // the disk is only changed when nothing is under way
        let quiet = waiting.is_empty();
        match op {
            0..=2 => {
                if docs[i].open.is_some() && !s.chance(1, 5) {
                    io!(server.close(&docs[i].uri));
                    docs[i].open = None;
                    log.push(json!({"close": name}));
                    *kinds.entry("close").or_default() += 1;
                    changed = true;
                } else {
                    docs[i].version = if s.chance(1, 3) { s.below(1 << 20) as i64 - 5 } else { s.below(3) as i64 };
                    io!(server.open(&docs[i].uri, &text, docs[i].version));
                    log.push(json!({"open": name, "text": text}));
                    changed |= docs[i].open.is_some();
                    docs[i].open = Some(text);
                    *kinds.entry("open").or_default() += 1;
                }
            }
            3..=5 => {
                if docs[i].open.is_some() {
                    let k = 1 + s.below(3);
                    let mut ts = vec![];
                    for _ in 0..k {
                        ts.push(if docs[i].domain { s.pick(&ds).clone() } else { s.pick(&ps).clone() });
                    }
                    docs[i].version += if s.chance(1, 4) { 1 + s.below(40) as i64 } else { 1 };
                    io!(server.change(&docs[i].uri, &ts, docs[i].version));
                    log.push(json!({"change": name, "texts": ts}));
                    docs[i].open = ts.pop();
                    *kinds.entry("change").or_default() += 1;
                    changed = true;
                }
            }
            6 => {
                if docs[i].open.is_some() && s.chance(1, 4) {
                    // the saved text is another one (say, formatted)
                    io!(server.save(&docs[i].uri, Some(&text)));
                    log.push(json!({"save": name, "text": text}));
                    docs[i].open = Some(text);
                    *kinds.entry("save-other").or_default() += 1;
                    changed = true;
                } else if let (Some(t), Some(path), true) = (&docs[i].open, &docs[i].path, quiet) {
                    io!(server.diagnostic(BARRIER));
                    let with = s.chance(1, 2);
                    if !with && s.chance(1, 8) {
                        // the saved file is gone before the server sees it
                        let _ = std::fs::remove_file(path);
                        disk.remove(path);
                        log.push(json!({"removed": name}));
                    } else {
                        std::fs::write(path, t).unwrap();
                        disk.insert(path.clone(), t.clone());
                    }
                    io!(server.save(&docs[i].uri, if with { Some(t) } else { None }));
                    log.push(json!({"save": name, "with text": with}));
                    *kinds.entry("save").or_default() += 1;
                } else if let (Some(t), None) = (&docs[i].open, &docs[i].path) {
                    let with = s.chance(1, 2);
                    io!(server.save(&docs[i].uri, if with { Some(t) } else { None }));
                    log.push(json!({"save": name, "with text": with}));
                }
            }
            7 => {
                // someone else writes or removes the file
                if let (Some(path), true) = (&docs[i].path, quiet) {
                    io!(server.diagnostic(BARRIER));
                    if s.chance(1, 4) {
                        let _ = std::fs::remove_file(path);
                        disk.remove(path);
                        log.push(json!({"removed from disk": name}));
                    } else {
                        std::fs::write(path, &text).unwrap();
                        disk.insert(path.clone(), text.clone());
                        log.push(json!({"written to disk": name, "text": text}));
                    }
                    *kinds.entry("disk").or_default() += 1;
                }
            }
            _ => {
                // diagnostics of this document, in the end of all
                let which: Vec<usize> = if last { (0..ndocs).collect() } else { vec![i] };
                for j in which {
                    let name = docs[j].uri.rsplit('/').take(2).collect::<Vec<_>>().join("<");
                    let want = match &docs[j].open {
                        None => None,
                        Some(t) => {
                            // the domain in the same folder: what is open, or else what is on the disk
                            let dom = docs[j].path.as_ref().and_then(|p| {
                                let f = p.parent().unwrap().join("domain.hddl");
                                if !disk.contains_key(&f) {
                                    return None; // the server looks at the folder
                                }
                                let open = docs.iter().find(|d| d.path.as_ref() == Some(&f)).and_then(|d| d.open.clone());
                                open.or(disk.get(&f).cloned())
                            });
                            let dom = dom.filter(|d| header(d.as_bytes()) == Header::Domain);
                            Some(expected(t.as_bytes(), dom.as_deref().map(|d| d.as_bytes())))
                        }
                    };
                    if changed {
                        interesting += 1;
                    }
                    let id = io!(server.post_diagnostic(&docs[j].uri, *s.pick(&[None, None, None, Some(""), Some("1")])));
                    log.push(json!({"diagnostic": name, "request": id}));
                    *kinds.entry(if want.is_some() { "diagnostic" } else { "diagnostic-closed" }).or_default() += 1;
                    waiting.push((id, want));
                }
            }
        }
        if !pipelined || last || waiting.len() > 3 || s.chance(1, 3) {
            while !waiting.is_empty() {
                let (id, v) = io!(server.receive());
                log.push(json!({"answer": id, "content": v}));
                let Some(k) = waiting.iter().position(|w| w.0 == id) else {
                    return bad(format!("answer {} twice", id), log);
                };
                let (_, want) = waiting.remove(k);
                match want {
                    None => {
                        if v.get("error").is_none() {
                            return bad("a document that is not open is diagnosed".into(), log);
                        }
                    }
                    Some(w) => {
                        if let Some(x) = compare(&w, &v, None) {
                            return bad(x, log);
                        }
                    }
                }
            }
        }
    }
    io!(server.alive());
    io!(server.shutdown());
    let mut labels: Vec<String> = kinds.keys().map(|k| format!("with-{}", k)).collect();
    labels.push(if pipelined { "pipelined".into() } else { "step-by-step".into() });
    let k = hash_bytes(serde_json::to_string(&log).unwrap().as_bytes());
    Ok(Info {
        key: k,
        nontrivial: interesting > 0,
        labels,
        sample: json!(log
            .iter()
            .take(14)
            .map(|v| v.to_string().chars().take(160).collect::<String>())
            .collect::<Vec<_>>()),
    })
}
