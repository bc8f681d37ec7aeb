//! Reference analyses of the task hierarchy, for domains without undefined tasks.
use crate::ast::*;
use std::collections::{BTreeSet, HashMap, HashSet};

pub struct Hier {
    pub compound: Vec<String>,
    /// task, method name, subtask names in order
    pub methods: Vec<(String, String, Vec<String>)>,
    /// per method and subtask: positions ordered before it
    pub before: Vec<Vec<HashSet<usize>>>,
    /// the method's order is total
    pub chain: Vec<bool>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Non,
    Plain,
    Empty,
    GrowingPrefix,
    GrowShrink,
}

pub fn class_name(c: Class) -> &'static str {
    match c {
        Class::Non => "Non-recursive",
        Class::Plain => "Recursive",
        Class::Empty => "Empty recursion",
        Class::GrowingPrefix => "Growing empty prefix recursion",
        Class::GrowShrink => "Grow and shrink recursion",
    }
}

/// one way to go from a task to a subtask
struct Edge {
    from: usize,
    to: usize,
    method: usize,
    prefix_nullable: bool,
    suffix_nullable: bool,
    suffix_empty: bool,
}

impl Hier {
    pub fn new(d: &Domain) -> Hier {
        let compound: Vec<String> = d.tasks.iter().map(|t| t.name.name.clone()).collect();
        let mut methods = vec![];
        let mut before = vec![];
        let mut chain = vec![];
        for m in &d.methods {
            let subs: Vec<String> = m.tn.subtasks.iter().map(|s| s.task.name.clone()).collect();
            let n = subs.len();
            let mut b: Vec<HashSet<usize>> = vec![HashSet::new(); n];
            if m.tn.total {
                for i in 0..n {
                    b[i] = (0..i).collect();
                }
            } else {
                // transitive closure
                let ids: HashMap<&str, usize> = m
                    .tn
                    .subtasks
                    .iter()
                    .enumerate()
                    .filter_map(|(i, s)| s.id.as_ref().map(|x| (x.name.as_str(), i)))
                    .collect();
                for (a, c) in m.tn.pairs() {
                    if let (Some(a), Some(c)) = (ids.get(a), ids.get(c)) {
                        b[*c].insert(*a);
                    }
                }
                loop {
                    let mut grown = false;
                    for i in 0..n {
                        let more: HashSet<usize> = b[i].iter().flat_map(|j| b[*j].iter().copied()).collect();
                        for x in more {
                            grown |= b[i].insert(x);
                        }
                    }
                    if !grown {
                        break;
                    }
                }
            }
            chain.push((0..n).map(|i| b[i].len()).sum::<usize>() * 2 == n * n.saturating_sub(1));
            before.push(b);
            methods.push((m.task.name.clone(), m.name.name.clone(), subs));
        }
        Hier { compound, methods, before, chain }
    }
    fn closure(&self, base: impl Fn(&str) -> bool) -> HashSet<String> {
        let mut ok: HashSet<String> = HashSet::new();
        loop {
            let n = ok.len();
            for (t, _, subs) in &self.methods {
                if subs.iter().all(|s| base(s) || ok.contains(s)) {
                    ok.insert(t.clone());
                }
            }
            if ok.len() == n {
                return ok;
            }
        }
    }
    /// can become the empty sequence
    pub fn nullable(&self) -> BTreeSet<String> {
        self.closure(|_| false).into_iter().collect()
    }
    /// can become a sequence of actions
    pub fn refinable(&self) -> HashSet<String> {
        let c: HashSet<&String> = self.compound.iter().collect();
        self.closure(|s| !c.contains(&s.to_string()))
    }
    /// whether the class of recursion is specified for this domain
    pub fn exact(&self) -> bool {
        let c: HashSet<&String> = self.compound.iter().collect();
        self.methods.iter().zip(&self.chain).all(|((_, _, subs), chain)| {
            let mut seen = HashSet::new();
            *chain || subs.iter().filter(|s| c.contains(s)).all(|s| seen.insert(s))
        })
    }
    fn edges(&self) -> Vec<Edge> {
        let idx: HashMap<&str, usize> = self.compound.iter().enumerate().map(|(i, s)| (s.as_str(), i)).collect();
        let nullable = self.nullable();
        let mut out = vec![];
        for (mi, (t, _, subs)) in self.methods.iter().enumerate() {
            for (i, s) in subs.iter().enumerate() {
                let (Some(from), Some(to)) = (idx.get(t.as_str()), idx.get(s.as_str())) else { continue };
                let b = &self.before[mi][i];
                let rest: Vec<usize> = (0..subs.len()).filter(|j| *j != i && !b.contains(j)).collect();
                out.push(Edge {
                    from: *from,
                    to: *to,
                    method: mi,
                    prefix_nullable: b.iter().all(|j| nullable.contains(&subs[*j])),
                    suffix_nullable: rest.iter().all(|j| nullable.contains(&subs[*j])),
                    suffix_empty: rest.is_empty(),
                });
            }
        }
        out
    }
    /// is there a cycle of edges that satisfy `all`, one of which satisfies `one`?
    fn cycle(&self, edges: &[Edge], all: impl Fn(&Edge) -> bool, one: impl Fn(&Edge) -> bool) -> bool {
        let n = self.compound.len();
        let mut reach = vec![vec![false; n]; n];
        for (i, r) in reach.iter_mut().enumerate() {
            r[i] = true;
        }
        for e in edges.iter().filter(|e| all(e)) {
            reach[e.from][e.to] = true;
        }
        for k in 0..n {
            for i in 0..n {
                if reach[i][k] {
                    for j in 0..n {
                        if reach[k][j] {
                            reach[i][j] = true;
                        }
                    }
                }
            }
        }
        edges.iter().any(|e| all(e) && one(e) && reach[e.to][e.from])
    }
    pub fn class(&self) -> Class {
        let e = self.edges();
        if self.cycle(&e, |e| e.prefix_nullable && e.suffix_nullable, |e| !e.suffix_empty) {
            Class::GrowShrink
        } else if self.cycle(&e, |e| e.prefix_nullable && e.suffix_empty, |_| true) {
            Class::Empty
        } else if self.cycle(&e, |e| e.prefix_nullable, |_| true) {
            Class::GrowingPrefix
        } else if self.cycle(&e, |_| true, |_| true) {
            Class::Plain
        } else {
            Class::Non
        }
    }
    /// checks a printed cycle: tasks t0, m0, t1, m1, ..., t0. Returns what is wrong with it.
    pub fn check_cycle(&self, tasks: &[String], methods: &[String], class: Class, exact: bool) -> Option<String> {
        if tasks.len() < 2 || methods.len() + 1 != tasks.len() {
            return Some("the cycle has no steps".into());
        }
        if tasks[0] != tasks[tasks.len() - 1] {
            return Some("the cycle does not return to its start".into());
        }
        let edges = self.edges();
        let mut grows = false;
        for i in 0..methods.len() {
            let step: Vec<&Edge> = edges
                .iter()
                .filter(|e| {
                    self.compound[e.from] == tasks[i]
                        && self.compound[e.to] == tasks[i + 1]
                        && self.methods[e.method].1 == methods[i]
                })
                .collect();
            if step.is_empty() {
                return Some(format!("{} -({})-> {} is no decomposition", tasks[i], methods[i], tasks[i + 1]));
            }
            let ok = |e: &&&Edge| match class {
                Class::Non => false,
                Class::Plain => true,
                Class::GrowingPrefix => e.prefix_nullable,
                Class::Empty => e.prefix_nullable && e.suffix_empty,
                Class::GrowShrink => e.prefix_nullable && e.suffix_nullable,
            };
            let fitting: Vec<&&Edge> = step.iter().filter(ok).collect();
            if exact && fitting.is_empty() {
                return Some(format!("step {} -({})-> {} does not fit the class", tasks[i], methods[i], tasks[i + 1]));
            }
            grows |= fitting.iter().any(|e| match class {
                Class::GrowShrink => !e.suffix_empty,
                _ => true,
            });
        }
        if exact && !grows {
            return Some("nothing follows the recursive subtask on the cycle".into());
        }
        None
    }
}
