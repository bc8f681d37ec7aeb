//! Reference semantics: all faults that a parsed model really has.
use crate::ast::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// A semantic error as it is reported
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sem {
    Dup { kind: &'static str, name: String, first: u32, second: u32 },
    DupReq(String),
    Undef { kind: &'static str, name: String, line: u32 },
    Arity { kind: &'static str, name: String, expected: u32, found: u32, line: u32 },
    /// kind, expected, found, what the message names, line
    Type { kind: &'static str, expected: Option<String>, found: Option<String>, var: String, line: u32 },
    CyclicType,
    CyclicOrder { line: u32 },
}

impl Sem {
    /// kind of error and the name it is about (no lines)
    pub fn gist(&self) -> (String, String) {
        match self {
            Sem::Dup { kind, name, .. } => (format!("dup-{}", kind), name.clone()),
            Sem::DupReq(r) => ("dup-requirement".into(), r.clone()),
            Sem::Undef { kind, name, .. } => (format!("undef-{}", kind), name.clone()),
            Sem::Arity { kind, name, expected, found, .. } => {
                (format!("arity-{}-{}-{}", kind, expected, found), name.clone())
            }
            Sem::Type { kind, expected, found, .. } => {
                (format!("type-{}-{:?}-{:?}", kind, expected, found), String::new())
            }
            Sem::CyclicType => ("cyclic-type".into(), String::new()),
            Sem::CyclicOrder { .. } => ("cyclic-order".into(), String::new()),
        }
    }
    pub fn category(&self) -> &'static str {
        match self {
            Sem::Dup { .. } | Sem::DupReq(_) => "dup",
            Sem::Undef { .. } => "undef",
            Sem::Arity { .. } => "arity",
            Sem::Type { .. } => "type",
            Sem::CyclicType => "cyclic-type",
            Sem::CyclicOrder { .. } => "cyclic-order",
        }
    }
}

/// `must`: faults, each of which alone makes the model wrong. `may`: all descriptions of them that are right.
#[derive(Default, Debug, Clone)]
pub struct Faults {
    pub must: Vec<Sem>,
    pub may: HashSet<Sem>,
}

impl Faults {
    fn add(&mut self, s: Sem) {
        self.may.insert(s.clone());
        self.must.push(s);
    }
}

pub struct Types {
    parents: HashMap<String, Vec<String>>,
    cache: std::cell::RefCell<HashMap<String, HashSet<String>>>,
}

impl Types {
    pub fn new(types: &[Sym]) -> Types {
        let mut parents: HashMap<String, Vec<String>> = HashMap::new();
        for t in types {
            let e = parents.entry(t.name.clone()).or_default();
            if let Some((p, _)) = &t.ty {
                e.push(p.clone());
                parents.entry(p.clone()).or_default();
            }
        }
        Types { parents, cache: Default::default() }
    }
    pub fn declared(&self, t: &str) -> bool {
        self.parents.contains_key(t)
    }
    fn below(&self, t: &str, e: &str) -> bool {
        if let Some(x) = self.cache.borrow().get(t) {
            return x.contains(e);
        }
        let mut seen: HashSet<String> = HashSet::new();
        let mut todo = vec![t.to_string()];
        while let Some(x) = todo.pop() {
            if seen.insert(x.clone()) {
                todo.extend(self.parents.get(&x).cloned().unwrap_or_default());
            }
        }
        let r = seen.contains(e);
        self.cache.borrow_mut().insert(t.into(), seen);
        r
    }
    pub fn fits(&self, found: Option<&str>, expected: Option<&str>) -> bool {
        match (found, expected) {
            (None, None) => true,
            (Some(f), Some(e)) => f == e || self.below(f, e),
            _ => false,
        }
    }
    pub fn cyclic(&self) -> bool {
        // repeatedly remove types all of whose parents are removed
        has_cycle(self.parents.iter().flat_map(|(c, ps)| ps.iter().map(move |p| (c.as_str(), p.as_str()))))
    }
}

/// Kahn's algorithm
pub fn has_cycle<'a>(edges: impl Iterator<Item = (&'a str, &'a str)>) -> bool {
    let mut succ: HashMap<&str, Vec<&str>> = HashMap::new();
    let mut indeg: HashMap<&str, usize> = HashMap::new();
    for (a, b) in edges {
        succ.entry(a).or_default().push(b);
        *indeg.entry(b).or_default() += 1;
        indeg.entry(a).or_default();
    }
    let total = indeg.len();
    let mut ready: Vec<&str> = indeg.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
    let mut removed = 0;
    while let Some(x) = ready.pop() {
        removed += 1;
        for y in succ.get(x).into_iter().flatten() {
            let d = indeg.get_mut(y).unwrap();
            *d -= 1;
            if *d == 0 {
                ready.push(y);
            }
        }
    }
    removed < total
}

fn duplicates<'a>(f: &mut Faults, kind: &'static str, names: impl Iterator<Item = &'a Sym>) {
    let mut lines: BTreeMap<&str, Vec<u32>> = BTreeMap::new();
    for s in names {
        lines.entry(&s.name).or_default().push(s.line);
    }
    for (name, ls) in lines {
        if ls.len() < 2 {
            continue;
        }
        f.must.push(Sem::Dup { kind, name: name.into(), first: ls[0], second: ls[1] });
        for i in 0..ls.len() {
            for j in i + 1..ls.len() {
                f.may.insert(Sem::Dup { kind, name: name.into(), first: ls[i], second: ls[j] });
            }
        }
    }
}

fn type_names(f: &mut Faults, types: &Types, list: &[Sym]) {
    for s in list {
        if let Some((t, line)) = &s.ty {
            if !types.declared(t) {
                f.add(Sem::Undef { kind: "type", name: t.clone(), line: *line });
            }
        }
    }
}

struct Scope<'a> {
    /// candidates, in order of precedence
    levels: Vec<&'a [Sym]>,
    undef_kind: &'static str,
    /// the message for a type error may name the predicate or task instead of the argument
    by_owner: bool,
}

impl<'a> Scope<'a> {
    fn find(&self, name: &str) -> Vec<&'a Sym> {
        for l in &self.levels {
            let v: Vec<&Sym> = l.iter().filter(|s| s.name == name).collect();
            if !v.is_empty() {
                return v;
            }
        }
        vec![]
    }
}

fn check_args(f: &mut Faults, types: &Types, scope: &Scope, args: &[Sym], decls: &[&[Sym]], kind: &'static str, owner: &str) {
    for (i, a) in args.iter().enumerate() {
        let found = scope.find(&a.name);
        if found.is_empty() {
            f.add(Sem::Undef { kind: scope.undef_kind, name: a.name.clone(), line: a.line });
        }
        for s in found {
            for d in decls {
                if let Some(e) = d.get(i) {
                    if !types.fits(s.tyname(), e.tyname()) {
                        let mut mk = |var: &str, add: bool| {
                            let t = Sem::Type {
                                kind,
                                expected: e.tyname().map(String::from),
                                found: s.tyname().map(String::from),
                                var: var.into(),
                                line: a.line,
                            };
                            f.may.insert(t.clone());
                            if add {
                                f.must.push(t);
                            }
                        };
                        mk(&a.name, true);
                        if scope.by_owner {
                            mk(owner, false);
                        }
                    }
                }
            }
        }
    }
}

fn check_formula(f: &mut Faults, types: &Types, d: &Domain, scope: &Scope, formula: &F) {
    let mut atoms = vec![];
    formula.atoms(&mut atoms, false);
    for (a, quantified) in atoms {
        check_atom(f, types, d, scope, a, quantified);
    }
}

fn check_atom(f: &mut Faults, types: &Types, d: &Domain, scope: &Scope, a: &Atom, quantified: bool) {
    let decls: Vec<&[Sym]> =
        d.predicates.iter().filter(|p| p.name.name == a.name.name).map(|p| p.params.as_slice()).collect();
    if decls.is_empty() {
        f.add(Sem::Undef { kind: "predicate", name: a.name.name.clone(), line: a.name.line });
    }
    arity(f, "predicate", &a.name, a.args.len(), &decls);
    if !quantified {
        check_args(f, types, scope, &a.args, &decls, "predicate", &a.name.name);
    }
}

fn arity(f: &mut Faults, kind: &'static str, name: &Sym, n: usize, decls: &[&[Sym]]) {
    for d in decls {
        if d.len() != n {
            f.add(Sem::Arity {
                kind,
                name: name.name.clone(),
                expected: d.len() as u32,
                found: n as u32,
                line: name.line,
            });
        }
    }
}

fn check_subtasks(f: &mut Faults, types: &Types, d: &Domain, scope: &Scope, tn: &Tn) {
    for s in &tn.subtasks {
        let mut decls: Vec<&[Sym]> = d
            .actions
            .iter()
            .filter(|x| x.name.name == s.task.name)
            .map(|x| x.params.as_slice())
            .collect();
        decls.extend(d.tasks.iter().filter(|x| x.name.name == s.task.name).map(|x| x.params.as_slice()));
        if decls.is_empty() {
            f.add(Sem::Undef { kind: "subtask", name: s.task.name.clone(), line: s.task.line });
        }
        arity(f, "task", &s.task, s.args.len(), &decls);
        check_args(f, types, scope, &s.args, &decls, "task", &s.task.name);
    }
    if !tn.total && has_cycle(tn.pairs().into_iter()) {
        f.add(Sem::CyclicOrder { line: tn.order_line.unwrap() });
    }
}

pub fn check_domain(d: &Domain) -> Faults {
    let mut f = Faults::default();
    let types = Types::new(&d.types);
    let mut seen = BTreeSet::new();
    for r in &d.requirements {
        if !seen.insert(r) {
            f.add(Sem::DupReq(r.to_string()));
        }
    }
    if types.cyclic() {
        f.add(Sem::CyclicType);
    }
    duplicates(&mut f, "predicate", d.predicates.iter().map(|x| &x.name));
    duplicates(&mut f, "task", d.tasks.iter().map(|x| &x.name));
    duplicates(&mut f, "action", d.actions.iter().map(|x| &x.name));
    duplicates(&mut f, "method", d.methods.iter().map(|x| &x.name));
    duplicates(&mut f, "object", d.constants.iter());
    type_names(&mut f, &types, &d.constants);
    for p in &d.predicates {
        type_names(&mut f, &types, &p.params);
    }
    for t in &d.tasks {
        type_names(&mut f, &types, &t.params);
    }
    for a in &d.actions {
        duplicates(&mut f, "parameter", a.params.iter());
        type_names(&mut f, &types, &a.params);
        let scope = Scope { levels: vec![&a.params, &d.constants], undef_kind: "parameter", by_owner: false };
        for x in a.pre.iter().chain(a.eff.iter()) {
            check_formula(&mut f, &types, d, &scope, x);
        }
    }
    for m in &d.methods {
        duplicates(&mut f, "parameter", m.params.iter());
        type_names(&mut f, &types, &m.params);
        let scope = Scope { levels: vec![&m.params, &d.constants], undef_kind: "parameter", by_owner: false };
        for x in m.pre.iter() {
            check_formula(&mut f, &types, d, &scope, x);
        }
        let decls: Vec<&[Sym]> =
            d.tasks.iter().filter(|x| x.name.name == m.task.name).map(|x| x.params.as_slice()).collect();
        if decls.is_empty() {
            f.add(Sem::Undef { kind: "task", name: m.task.name.clone(), line: m.task.line });
        }
        arity(&mut f, "task", &m.task, m.task_args.len(), &decls);
        check_args(&mut f, &types, &scope, &m.task_args, &decls, "task", &m.task.name);
        check_subtasks(&mut f, &types, d, &scope, &m.tn);
    }
    f
}

pub fn check_problem(d: &Domain, p: &Problem) -> Faults {
    let mut f = Faults::default();
    let types = Types::new(&d.types);
    type_names(&mut f, &types, &p.objects);
    duplicates(&mut f, "object", p.objects.iter());
    let scope = Scope { levels: vec![&p.objects, &d.constants], undef_kind: "object", by_owner: true };
    for a in &p.init {
        check_atom(&mut f, &types, d, &scope, a, false);
    }
    if let Some(g) = &p.goal {
        check_formula(&mut f, &types, d, &scope, g);
    }
    if let Some((params, tn)) = &p.htn {
        let empty = vec![];
        let params = params.as_ref().unwrap_or(&empty);
        type_names(&mut f, &types, params);
        let scope =
            Scope { levels: vec![&p.objects, params, &d.constants], undef_kind: "object", by_owner: true };
        check_subtasks(&mut f, &types, d, &scope, tn);
    }
    f
}
