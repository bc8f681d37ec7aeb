//! Names for generated models. Naming has its own randomness, so that one structure can be
//! generated with different names.
use crate::reflex::RESERVED;
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ns {
    Type,
    /// constants and objects
    Obj,
    Pred,
    /// compound tasks and actions
    Task,
    Method,
    Param,
    /// subtask ids
    Id,
    Func,
    Def,
}

pub struct Namer {
    plain: bool,
    rng: Rng,
    used: HashMap<Ns, HashSet<String>>,
    pool: Vec<String>,
    params: Vec<String>,
    /// parameters that are written with '?'
    pub q: HashSet<String>,
    /// all names given out, in order
    pub log: Vec<String>,
    counter: usize,
}

const WORDS: [&str; 46] = [
    "types", "task", "init", "goal", "object", "objects", "when", "action", "method", "effect", "number", "either",
    "predicates", "precondition", "parameters", "strips", "typing", "htn", "domains", "problems", "defined",
    "android", "nothing", "order", "orx", "not-x", "and-", "forall2", "requirements", "constants", "subtasks",
    "ordered-subtasks", "ordering", "constraints", "AND", "Not", "Domain", "DEFINE", "equality", "hierarchy", "total",
    "Empty", "do_main", "probabilisticx", "oneof-", "tasks",
];

impl Namer {
    pub fn new(seed: u64) -> Namer {
        Namer {
            plain: seed == 0,
            rng: Rng::new(seed),
            used: HashMap::new(),
            pool: vec![],
            params: vec![],
            q: HashSet::new(),
            log: vec![],
            counter: 0,
        }
    }

    fn candidate(&mut self, ns: Ns) -> String {
        let r = &mut self.rng;
        match r.below(12) {
            // a name that is used for something else
            0 | 1 if !self.pool.is_empty() => self.pool[r.below(self.pool.len())].clone(),
            2 => WORDS[r.below(WORDS.len())].to_string(),
            // one that differs only in case, or by a suffix or prefix
            3 if !self.pool.is_empty() => {
                let mut s = self.pool[r.below(self.pool.len())].clone();
                match r.below(6) {
                    0 => s.to_ascii_uppercase(),
                    1 => s.to_ascii_lowercase(),
                    2 => {
                        s.push(['0', '1', 'a', '-', '_'][r.below(5)]);
                        s
                    }
                    3 => format!("{}-{}", s, s),
                    4 if s.len() > 1 => s[..s.len() - 1].to_string(),
                    _ => format!("a{}", s),
                }
            }
            4 => {
                let n = if r.chance(1, 10) {
                    1 + r.below(300)
                } else if r.chance(1, 300) {
                    [1000, 4090, 65530][r.below(3)] + r.below(20)
                } else {
                    1 + r.below(20)
                };
                let abc = b"abcxyzABZ019_-";
                (0..n).map(|_| abc[r.below(abc.len())] as char).collect()
            }
            5 => format!("{}{}", ["a", "b", "x", "t", "p"][r.below(5)], r.below(30)),
            6 | 7 => ["a", "b", "c", "d", "e", "f", "x", "y", "z", "A", "B", "X"][r.below(12)].to_string(),
            8 if ns == Ns::Param => {
                let mut all: Vec<&str> = RESERVED.to_vec();
                all.extend(["1", "-x", "3a", "-", "_", "0"]);
                all[r.below(all.len())].to_string()
            }
            _ => {
                self.counter += 1;
                format!("{}{}", ["truck", "at", "move", "loc", "deliver", "n", "m-", "t_"][r.below(8)], self.counter)
            }
        }
    }

    fn legal_bare(s: &str) -> bool {
        let b = s.as_bytes();
        !s.is_empty()
            && !RESERVED.contains(&s)
            && (b[0].is_ascii_alphabetic() || b[0] == b'_')
            && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-')
    }

    fn legal_q(s: &str) -> bool {
        !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'-')
    }

    fn taken(&self, ns: Ns, s: &str) -> bool {
        let has = |n: Ns| self.used.get(&n).is_some_and(|x| x.contains(s));
        match ns {
            // parameters and objects appear in the same places
            Ns::Param | Ns::Obj => has(Ns::Param) || has(Ns::Obj),
            n => has(n),
        }
    }

    /// a name that is not used in the namespace
    pub fn fresh(&mut self, ns: Ns) -> String {
        self.fresh_except(ns, &HashSet::new())
    }

    pub fn fresh_except(&mut self, ns: Ns, except: &HashSet<String>) -> String {
        let mut tries = 0;
        let name = loop {
            tries += 1;
            let mut s = if self.plain {
                self.counter += 1;
                format!(
                    "{}{}",
                    match ns {
                        Ns::Type => "type",
                        Ns::Obj => "o",
                        Ns::Pred => "p",
                        Ns::Task => "t",
                        Ns::Method => "m",
                        Ns::Param => "x",
                        Ns::Id => "i",
                        Ns::Func => "f",
                        Ns::Def => "d",
                    },
                    self.counter
                )
            } else {
                self.candidate(ns)
            };
            if tries > 4 {
                self.counter += 1;
                s = format!("{}{}", if tries > 8 { "n" } else { &s }, self.counter);
            }
            if self.taken(ns, &s) || except.contains(&s) {
                continue;
            }
            if ns == Ns::Param {
                let want_q = self.plain || self.rng.chance(9, 10) || !Namer::legal_bare(&s);
                if want_q && Namer::legal_q(&s) {
                    self.q.insert(s.clone());
                    break s;
                } else if Namer::legal_bare(&s) {
                    break s;
                }
            } else if Namer::legal_bare(&s) {
                break s;
            }
        };
        self.used.entry(ns).or_default().insert(name.clone());
        self.pool.push(name.clone());
        if ns == Ns::Param {
            self.params.push(name.clone());
        }
        self.log.push(name.clone());
        name
    }

    /// a parameter that is not in scope; the same names are used again in other scopes
    pub fn param(&mut self, scope: &HashSet<String>) -> String {
        if !self.params.is_empty() && (self.plain || self.rng.chance(7, 10)) {
            let start = if self.plain { 0 } else { self.rng.below(self.params.len()) };
            for i in 0..self.params.len().min(if self.plain { 1000 } else { 6 }) {
                let s = self.params[(start + i) % self.params.len()].clone();
                if !scope.contains(&s) {
                    self.log.push(s.clone());
                    return s;
                }
            }
        }
        self.fresh_except(Ns::Param, scope)
    }

    /// for ids, which are local to a task network
    pub fn local_ids(&mut self, n: usize) -> Vec<String> {
        self.used.remove(&Ns::Id);
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            // often similar to another one
            if !self.plain && !v.is_empty() && self.rng.chance(1, 5) {
                let o = v[self.rng.below(v.len())].clone();
                let s = match self.rng.below(4) {
                    0 => o.to_ascii_uppercase(),
                    1 => o.to_ascii_lowercase(),
                    2 => format!("{}{}", o, ["0", "1", "-", "a"][self.rng.below(4)]),
                    _ => o.trim_end_matches(|c: char| c.is_ascii_digit()).to_string(),
                };
                if Namer::legal_bare(&s) && !v.contains(&s) {
                    self.used.entry(Ns::Id).or_default().insert(s.clone());
                    self.pool.push(s.clone());
                    self.log.push(s.clone());
                    v.push(s);
                    continue;
                }
            }
            v.push(self.fresh(Ns::Id));
        }
        v
    }
}
