//! Generator of well-formed models. The structure comes from the tape of choices, the names from
//! the `Namer`: the same tape gives the same structure whatever the names are.
use crate::ast::*;
use crate::names::{Namer, Ns};
use crate::reflex::REQS;
use crate::refsem::Types;
use crate::rng::Src;
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub d: Domain,
    pub p: Option<Problem>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    /// everything
    Any,
    /// task hierarchy, hardly anything else
    Hier,
    /// small models with many names in scope (for injected faults)
    Small,
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub n: &'a mut Namer,
    types: Vec<String>,
    tt: Types,
    d: Domain,
    objects: Vec<Sym>,
    in_problem: bool,
    budget: usize,
    /// in some models one kind of formula, or something of a task network, is everywhere
    fond: usize,
}

/// names that can be used as arguments
struct Sc {
    params: Vec<Sym>,
    /// parameters may be added
    grow: bool,
    quant: Vec<Sym>,
    /// names of all quantified variables so far
    used: HashSet<String>,
}

impl Sc {
    fn new(params: Vec<Sym>, grow: bool) -> Sc {
        Sc { params, grow, quant: vec![], used: HashSet::new() }
    }
    fn names(&self) -> HashSet<String> {
        let mut v: HashSet<String> = self.params.iter().chain(&self.quant).map(|s| s.name.clone()).collect();
        v.extend(self.used.iter().cloned());
        v
    }
}

fn typed_first(v: &mut [Sym]) {
    v.sort_by_key(|s| s.ty.is_none());
}

pub fn model(s: &mut Src, n: &mut Namer, focus: Focus, problem: bool) -> Model {
    let mut g = Gen {
        s,
        n,
        types: vec![],
        tt: Types::new(&[]),
        d: Domain::default(),
        objects: vec![],
        in_problem: false,
        budget: 0,
        fond: 0,
    };
    g.domain(focus);
    let p = if problem { Some(g.problem()) } else { None };
    let mut m = Model { d: g.d, p };
    if s.chance(1, 8) {
        shadow(s, &mut m);
    }
    m
}

/// some parameters get the name of a constant (which means nothing outside of its declaration)
fn shadow(s: &mut Src, m: &mut Model) {
    let d = &mut m.d;
    if d.constants.is_empty() {
        return;
    }
    let rename = |v: &mut Vec<Sym>, from: &str, to: &str| {
        v.iter_mut().filter(|x| x.name == from).for_each(|x| x.name = to.to_string());
    };
    for _ in 0..1 + s.below(3) {
        let c = d.constants[s.below(d.constants.len())].name.clone();
        let kind = s.below(4);
        let len = [d.predicates.len(), d.tasks.len(), d.actions.len(), d.methods.len()][kind];
        if len == 0 {
            continue;
        }
        let i = s.below(len);
        // every list of names in the scope; the first one is that of the parameters
        let mut lists: Vec<&mut Vec<Sym>> = vec![];
        let mut fs: Vec<&mut Option<F>> = vec![];
        match kind {
            0 => lists.push(&mut d.predicates[i].params),
            1 => lists.push(&mut d.tasks[i].params),
            2 => {
                let a = &mut d.actions[i];
                lists.push(&mut a.params);
                fs = vec![&mut a.pre, &mut a.eff];
            }
            _ => {
                let x = &mut d.methods[i];
                lists.push(&mut x.params);
                lists.push(&mut x.task_args);
                lists.extend(x.tn.subtasks.iter_mut().map(|y| &mut y.args));
                fs = vec![&mut x.pre];
            }
        }
        let mut atoms = vec![];
        fs.into_iter().flatten().for_each(|f| f.atoms_mut(&mut atoms, false));
        lists.extend(atoms.into_iter().map(|(a, _)| &mut a.args));
        if lists[0].is_empty() || lists.iter().any(|l| l.iter().any(|x| x.name == c)) {
            continue;
        }
        let p = lists[0][s.below(lists[0].len())].name.clone();
        lists.into_iter().for_each(|l| rename(l, &p, &c));
    }
}

impl<'a> Gen<'a> {
    fn some_type(&mut self) -> Option<String> {
        if self.types.is_empty() || self.s.chance(1, 7) {
            None
        } else {
            Some(self.s.pick(&self.types).clone())
        }
    }

    fn subtype(&mut self, ty: &Option<String>) -> Option<String> {
        match ty {
            None => None,
            Some(t) => {
                if self.s.chance(1, 2) {
                    return ty.clone();
                }
                let below: Vec<String> =
                    self.types.iter().filter(|x| self.tt.fits(Some(x), Some(t))).cloned().collect();
                if below.is_empty() {
                    ty.clone()
                } else {
                    Some(self.s.pick(&below).clone())
                }
            }
        }
    }

    fn requirements(&mut self) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = vec![];
        let many = self.s.chance(1, 16);
        for r in REQS {
            if self.s.chance(if many { 5 } else { 2 }, 6) {
                v.push(r.1);
            }
        }
        self.s.shuffle(&mut v);
        v
    }

    fn gen_types(&mut self, huge: usize) {
        let kind = self.s.below(6);
        let n = if huge > 0 { huge } else { 1 + self.s.size(5, 9, 20) };
        let kind = if huge > 0 { 1 + kind % 4 } else { kind };
        if kind == 0 {
            return;
        }
        let names: Vec<String> = (0..n).map(|_| self.n.fresh(Ns::Type)).collect();
        let mut list: Vec<Sym> = vec![];
        let mut mentioned: HashSet<usize> = HashSet::new();
        for i in 0..n {
            let parents: Vec<usize> = match kind {
                1 if i > 0 => vec![i - 1],
                2 | 5 if i > 0 => vec![self.s.below(i)],
                3 if i > 0 => {
                    let k = if self.s.chance(1, 12) { 3 + self.s.below(20) } else { self.s.range(0, 3) };
                    (0..k).map(|_| self.s.below(i)).collect()
                }
                _ => vec![],
            };
            if parents.is_empty() {
                // a root; it may be implied by its children
                if i > 0 || n == 1 || self.s.chance(1, 2) {
                    list.push(Sym::new(&names[i]));
                    mentioned.insert(i);
                }
            }
            for p in parents {
                list.push(Sym::typed(&names[i], &Some(names[p].clone())));
                mentioned.insert(i);
                mentioned.insert(p);
            }
        }
        if self.s.chance(1, 12) && !list.is_empty() {
            // declared again, or also as a root
            let i = self.s.below(list.len());
            let mut x = list[i].clone();
            if self.s.chance(1, 2) {
                x.ty = None;
            }
            list.push(x);
        }
        if self.s.chance(1, 2) {
            self.s.shuffle(&mut list);
        }
        self.types = (0..n).filter(|i| mentioned.contains(i)).map(|i| names[i].clone()).collect();
        self.tt = Types::new(&list);
        self.d.types = list;
    }

    fn params(&mut self, k: usize) -> Vec<Sym> {
        let mut scope = HashSet::new();
        let mut v = vec![];
        let mut last = None;
        for _ in 0..k {
            let name = self.n.param(&scope);
            scope.insert(name.clone());
            let ty = if self.s.chance(1, 3) { last.clone() } else { self.some_type() };
            last = ty.clone();
            v.push(Sym::typed(&name, &ty));
        }
        typed_first(&mut v);
        v
    }

    fn domain(&mut self, focus: Focus) {
        self.d.name = self.n.fresh(Ns::Def);
        if focus == Focus::Hier {
            return self.hierarchy();
        }
        let small = focus == Focus::Small;
        if self.s.chance(1, 8) {
            self.fond = 1 + self.s.below(22);
        }
        // rarely, one dimension is large
        let huge = if !small && self.s.chance(1, 50) { 1 + self.s.below(12) } else { 0 };
        // less rarely, one is rather large
        let mid = if huge == 0 && self.s.chance(1, if small { 30 } else { 12 }) { 1 + self.s.below(8) } else { 0 };
        let some = 8 + self.s.below(16);
        self.d.requirements = self.requirements();
        let nt = if huge == 1 { 100 + self.s.below(300) } else if mid == 1 { some } else { 0 };
        self.gen_types(nt);
        let (a, b, c) = if small { (3, 3, 4) } else { (3, 5, 9) };
        let k = if mid == 2 { some } else if huge == 9 { 20 + self.s.below(60) } else { self.s.size(a, b, c) };
        for _ in 0..k {
            let ty = self.some_type();
            let name = self.n.fresh(Ns::Obj);
            self.d.constants.push(Sym::typed(&name, &ty));
        }
        let k = if mid == 3 { some } else if huge == 2 { 300 } else { 1 + self.s.size(3, 6, 12) };
        for i in 0..k {
            let name = self.n.fresh(Ns::Pred);
            let ar = if huge == 3 && i == 0 { 255 + self.s.below(10) } else if mid == 4 && i == 0 { some } else { self.s.size(2, 4, 9) };
            let params = self.params(ar);
            self.d.predicates.push(Decl { name: Sym::new(&name), params });
        }
        let k = if huge == 10 { 10 + self.s.below(60) } else { self.s.size(0, 2, 5) };
        for _ in 0..k {
            let name = self.n.fresh(Ns::Func);
            let ar = self.s.below(4);
            let params = self.params(ar);
            self.d.functions.push(Decl { name: Sym::new(&name), params });
        }
        let k = if mid == 5 { some } else if huge == 11 { 20 + self.s.below(60) } else { self.s.size(3, 6, 12) };
        for i in 0..k {
            let name = self.n.fresh(Ns::Task);
            let ar = if huge == 4 && i == 0 { 255 + self.s.below(10) } else if mid == 4 && i == 1 { some } else { self.s.size(2, 4, 9) };
            let params = self.params(ar);
            self.d.tasks.push(Decl { name: Sym::new(&name), params });
        }
        let k = if mid == 6 { some } else if huge == 5 { 260 + self.s.below(60) } else { self.s.size(3, 5, 9) };
        for i in 0..k {
            self.budget = if huge == 5 { 1 } else if mid == 6 { 3 } else { 12 };
            let name = self.n.fresh(Ns::Task);
            let ar = if huge == 6 && i == 0 { 255 + self.s.below(10) } else if mid == 7 && i == 0 { some } else { self.s.size(3, 5, 9) };
            let params = self.params(ar);
            let mut sc = Sc::new(params, true);
            let pre = if self.s.chance(4, 5) { Some(self.formula(&mut sc, huge == 7 && i == 0)) } else { None };
            self.budget = if huge == 5 { 1 } else if mid == 6 { 3 } else { 12 };
            let eff = if self.s.chance(4, 5) { Some(self.formula(&mut sc, huge == 7 && i == 1)) } else { None };
            typed_first(&mut sc.params);
            self.d.actions.push(Action { name: Sym::new(&name), params: sc.params, pre, eff });
        }
        let k = if self.d.tasks.is_empty() { 0 } else if mid == 8 { some } else if huge == 12 { 20 + self.s.below(60) } else { self.s.size(4, 7, 12) };
        for i in 0..k {
            self.budget = if huge == 12 || mid == 8 { 2 } else { 10 };
            let name = self.n.fresh(Ns::Method);
            let ar = self.s.size(2, 4, 9);
            let params = self.params(ar);
            let mut sc = Sc::new(params, true);
            let t = self.s.below(self.d.tasks.len());
            let (task, want) = (self.d.tasks[t].name.clone(), self.d.tasks[t].params.clone());
            let task_args = want.iter().map(|w| self.arg(&mut sc, &w.tyname().map(String::from))).collect();
            let mut pre = if self.s.chance(1, 2) { Some(self.formula(&mut sc, false)) } else { None };
            let tn = self.tn(&mut sc, huge == 8 && i == 0);
            if !tn.present && pre.is_none() {
                pre = Some(F::Empty);
            }
            typed_first(&mut sc.params);
            self.d.methods.push(Method { name: Sym::new(&name), params: sc.params, task, task_args, pre, tn });
        }
    }

    /// an argument that fits the type
    fn arg(&mut self, sc: &mut Sc, ty: &Option<String>) -> Sym {
        let t = ty.as_deref();
        let pools: [&[Sym]; 4] = [&sc.quant, &sc.params, &self.d.constants, &self.objects];
        let total: usize = pools.iter().map(|p| p.len()).sum();
        // of very many only some are looked at
        let some: Vec<usize> =
            if total > 600 { (0..300).map(|_| self.s.below(total)).collect() } else { (0..total).collect() };
        let nth = |mut i: usize| {
            for p in pools {
                if i < p.len() {
                    return &p[i];
                }
                i -= p.len();
            }
            unreachable!()
        };
        let c: Vec<&str> =
            some.into_iter().map(nth).filter(|x| self.tt.fits(x.tyname(), t)).map(|x| x.name.as_str()).collect();
        // many arguments of many subtasks do not all get names of their own
        if !c.is_empty() && (total > 600 || !self.s.chance(1, 6)) {
            return Sym::new(self.s.pick(&c));
        }
        let ty = self.subtype(ty);
        if self.in_problem {
            if sc.grow && self.s.chance(1, 2) {
                return self.new_param(sc, &ty);
            }
            let name = self.n.fresh(Ns::Obj);
            self.objects.push(Sym::typed(&name, &ty));
            return Sym::new(&name);
        }
        if !sc.grow || self.s.chance(1, 6) {
            let name = self.n.fresh(Ns::Obj);
            self.d.constants.push(Sym::typed(&name, &ty));
            return Sym::new(&name);
        }
        self.new_param(sc, &ty)
    }

    fn new_param(&mut self, sc: &mut Sc, ty: &Option<String>) -> Sym {
        let name = self.n.param(&sc.names());
        sc.params.push(Sym::typed(&name, ty));
        Sym::new(&name)
    }

    fn atom(&mut self, sc: &mut Sc) -> Atom {
        let i = self.s.below(self.d.predicates.len());
        let d = self.d.predicates[i].clone();
        Atom {
            name: Sym::new(&d.name.name),
            args: d.params.iter().map(|p| self.arg(sc, &p.tyname().map(String::from))).collect(),
        }
    }

    fn any_name(&mut self, sc: &mut Sc) -> String {
        let ty = self.some_type();
        self.arg(sc, &ty).name
    }

    fn formula(&mut self, sc: &mut Sc, huge: bool) -> F {
        if huge || self.s.chance(1, 60) {
            // deep
            let depth = 40 + self.s.below(60);
            let mut f = F::Atom(self.atom(sc));
            let style = self.s.below(5);
            for _ in 0..depth {
                f = match if style == 4 { self.s.below(4) } else { style } {
                    0 => F::Not(Box::new(f)),
                    1 => F::And(vec![f]),
                    2 => F::Or(vec![F::Atom(self.atom(sc)), f]),
                    _ => F::ForAll(vec![], Box::new(f)),
                };
            }
            return f;
        }
        if self.s.chance(1, 60) {
            // wide
            let n = 60 + self.s.below(240);
            return F::And((0..n).map(|_| F::Atom(self.atom(sc))).collect());
        }
        if self.s.chance(1, 12) {
            return F::Empty;
        }
        self.sub_formula(sc, 5)
    }

    fn list(&mut self, sc: &mut Sc, depth: usize) -> Vec<F> {
        let n = match self.s.below(8) {
            0 => 0,
            1 => 1,
            2..=4 => 2,
            5 | 6 => 3,
            _ => 5,
        };
        let n = if self.s.chance(1, 60) { 6 + self.s.below(30) } else { n };
        (0..n).map(|_| self.sub_formula(sc, depth)).collect()
    }

    fn sub_formula(&mut self, sc: &mut Sc, depth: usize) -> F {
        if depth == 0 || self.budget == 0 {
            return F::Atom(self.atom(sc));
        }
        self.budget -= 1;
        let fond = (1..=20).contains(&self.fond) && self.s.chance(1, 2);
        match if fond { self.fond - 1 } else { self.s.below(20) } {
            0..=5 => F::Atom(self.atom(sc)),
            6..=8 => F::Not(Box::new(self.sub_formula(sc, depth - 1))),
            9..=12 => F::And(self.list(sc, depth - 1)),
            13 => F::Or(self.list(sc, depth - 1)),
            14 => F::Xor(self.list(sc, depth - 1)),
            15 | 16 => {
                let k = if self.s.chance(1, 16) { 3 + self.s.below(12) } else { self.s.below(3) };
                let before = sc.quant.len();
                let mut vars = vec![];
                for _ in 0..k {
                    let name = self.n.param(&sc.params.iter().chain(&sc.quant).map(|s| s.name.clone()).collect());
                    sc.used.insert(name.clone());
                    let ty = self.some_type();
                    vars.push(Sym::typed(&name, &ty));
                    sc.quant.push(Sym::typed(&name, &ty));
                }
                typed_first(&mut vars);
                let f = Box::new(self.sub_formula(sc, depth - 1));
                sc.quant.truncate(before);
                if self.s.chance(1, 2) {
                    F::ForAll(vars, f)
                } else {
                    F::Exists(vars, f)
                }
            }
            17 => F::Eq(self.any_name(sc), self.any_name(sc)),
            18 => {
                let n = if self.s.chance(1, 16) { 4 + self.s.below(16) } else { self.s.below(4) };
                let mut v = vec![];
                for _ in 0..n {
                    let f = self.sub_formula(sc, depth - 1);
                    if f == F::Empty {
                        continue;
                    }
                    let (num, text) = self.number();
                    v.push((num, text, f));
                }
                F::Prob(v)
            }
            _ => F::Empty,
        }
    }

    fn number(&mut self) -> (Num, String) {
        let text = match self.s.below(13) {
            9 => format!("{}", (1u64 << 53) + self.s.below(1 << 62) as u64),
            10 => format!("{}.{:09}{:08}", self.s.below(1 << 30), self.s.below(1_000_000_000), self.s.below(100_000_000)),
            11 => format!("{}", self.s.below(1 << 33)),
            12 => format!("{}{}.{}", "0".repeat(self.s.below(4)), self.s.below(1 << 54), self.s.below(10)),
            0 => "0.5".into(),
            1 => "1".into(),
            2 => "0".into(),
            3 => format!("0.{}", self.s.below(100000)),
            4 => format!("{}.{:03}", self.s.below(1000), self.s.below(1000)),
            5 => format!("{}", self.s.below(1 << 40)),
            6 => "00012.500".into(),
            7 => "9223372036854775807".into(),
            _ => "123456789012345678901234567890.5".into(),
        };
        let num = if text.contains('.') { Num::Real(text.parse().unwrap()) } else { Num::Int(text.parse().unwrap()) };
        (num, text)
    }

    fn tn(&mut self, sc: &mut Sc, huge: bool) -> Tn {
        let mut callable: Vec<(String, Vec<Sym>)> = vec![];
        for t in &self.d.tasks {
            callable.push((t.name.name.clone(), t.params.clone()));
        }
        for a in &self.d.actions {
            callable.push((a.name.name.clone(), a.params.clone()));
        }
        if callable.is_empty() {
            return Tn { present: self.s.chance(1, 2), ..Default::default() };
        }
        let n = if huge { 120 } else { self.s.size(3, 6, 14) };
        let picks: Vec<usize> = (0..n).map(|_| self.s.below(callable.len())).collect();
        let mut subtasks = vec![];
        for i in picks {
            let (name, params) = callable[i].clone();
            let args = params.iter().map(|w| self.arg(sc, &w.tyname().map(String::from))).collect();
            subtasks.push(Subtask { id: None, task: Sym::new(&name), args });
        }
        let mut tn = self.order(subtasks);
        if tn.present && (self.s.chance(1, 5) || (21..=22).contains(&self.fond)) {
            let k = if self.fond == 21 { 1 } else { self.s.size(3, 6, 14) };
            let mut c = vec![];
            for _ in 0..k {
                let eq = self.s.chance(1, 2);
                let a = self.any_name(sc);
                let b = self.any_name(sc);
                c.push((eq, a, b));
            }
            tn.constraints = Some(c);
        }
        tn
    }

    fn order(&mut self, mut subtasks: Vec<Subtask>) -> Tn {
        let n = subtasks.len();
        let kind = self.s.below(5);
        if n == 0 && kind == 0 {
            return Tn::default();
        }
        let mut tn = Tn { present: true, total: kind <= 1, ..Default::default() };
        let with_ids = kind >= 3 || self.s.chance(1, 4);
        if with_ids {
            let ids = self.n.local_ids(n);
            for (x, id) in subtasks.iter_mut().zip(&ids) {
                x.id = Some(Sym::new(id));
            }
        }
        if kind >= 3 && n > 0 {
            let mut perm: Vec<usize> = (0..n).collect();
            if self.s.chance(2, 3) {
                self.s.shuffle(&mut perm);
            }
            let name = |i: usize, st: &Vec<Subtask>| st[i].id.as_ref().unwrap().name.clone();
            match self.s.below(6) {
                4 | 5 => {
                    // clauses with several successors, in any order
                    let k = 1 + self.s.below(n + 1);
                    for _ in 0..k {
                        let i = self.s.below(n);
                        let mut after: Vec<usize> = vec![];
                        for j in i + 1..n {
                            if self.s.chance(1, 2) {
                                after.push(j);
                            }
                        }
                        if after.is_empty() {
                            continue;
                        }
                        self.s.shuffle(&mut after);
                        let after = after.iter().map(|j| name(perm[*j], &subtasks)).collect();
                        tn.order.push((name(perm[i], &subtasks), after));
                    }
                }
                0 => {
                    // a chain
                    for i in 1..n {
                        tn.order.push((name(perm[i - 1], &subtasks), vec![name(perm[i], &subtasks)]));
                    }
                }
                1 => {
                    // one clause with several successors
                    let all: Vec<String> = perm[1..].iter().map(|i| name(*i, &subtasks)).collect();
                    tn.order.push((name(perm[0], &subtasks), all));
                }
                _ => {
                    let k = self.s.below(n * 2 + 1);
                    for _ in 0..k {
                        let i = self.s.below(n);
                        if i + 1 >= n {
                            continue;
                        }
                        let j = i + 1 + self.s.below(n - i - 1);
                        tn.order.push((name(perm[i], &subtasks), vec![name(perm[j], &subtasks)]));
                    }
                }
            }
            if self.s.chance(1, 2) {
                self.s.shuffle(&mut tn.order);
            }
            if !tn.order.is_empty() || self.s.chance(1, 3) {
                tn.order_line = Some(0);
            }
        }
        tn.subtasks = subtasks;
        tn
    }

    fn hierarchy(&mut self) {
        self.d.requirements = vec![];
        let big = self.s.chance(1, 40);
        let nt = if big { 20 + self.s.below(60) } else { self.s.size(5, 8, 16) };
        let na = self.s.size(2, 3, 5);
        for _ in 0..nt {
            let name = self.n.fresh(Ns::Task);
            self.d.tasks.push(Decl { name: Sym::new(&name), params: vec![] });
        }
        for _ in 0..na {
            let name = self.n.fresh(Ns::Task);
            self.d.actions.push(Action { name: Sym::new(&name), params: vec![], pre: None, eff: None });
        }
        if self.s.chance(1, 2) {
            // positions of declarations are independent of the hierarchy
            self.s.shuffle(&mut self.d.tasks);
        }
        if nt == 0 {
            return;
        }
        if self.s.chance(1, 60) {
            return self.long_hierarchy();
        }
        let nm = if big { nt + self.s.below(nt) } else { self.s.size(8, 12, 20) };
        // how often there are compound subtasks, empty methods; whether tasks mostly call later ones
        let compound = 1 + self.s.below(6);
        let empty = self.s.below(4);
        let layered = self.s.below(3);
        let max = if self.s.chance(1, 6) { 5 + self.s.below(6) } else { 1 + self.s.below(4) };
        for i in 0..nm {
            let name = self.n.fresh(Ns::Method);
            let t = if i < nt && self.s.chance(3, 4) { i } else { self.s.below(nt) };
            let n = if self.s.chance(empty, 6) { 0 } else { 1 + self.s.below(max) };
            let mut subs = vec![];
            for _ in 0..n {
                let c = if na == 0 || self.s.chance(compound, 7) {
                    let j = match layered {
                        // mostly acyclic
                        0 => {
                            if t + 1 < nt && !self.s.chance(1, 12) {
                                t + 1 + self.s.below(nt - t - 1)
                            } else if self.s.chance(1, 3) || na == 0 {
                                self.s.below(nt)
                            } else {
                                let a = self.s.below(na);
                                subs.push(self.d.actions[a].name.name.clone());
                                continue;
                            }
                        }
                        // the next one, often
                        1 if self.s.chance(1, 2) => (t + 1) % nt,
                        _ => self.s.below(nt),
                    };
                    self.d.tasks[j].name.name.clone()
                } else {
                    let a = self.s.below(na);
                    self.d.actions[a].name.name.clone()
                };
                subs.push(c);
            }
            let subs = subs.iter().map(|s| Subtask { id: None, task: Sym::new(s), args: vec![] }).collect();
            let tn = self.order(subs);
            let task = Sym::new(&self.d.tasks[t].name.name);
            let pre = if tn.present { None } else { Some(F::Empty) };
            self.d.methods.push(Method { name: Sym::new(&name), params: vec![], task, task_args: vec![], pre, tn });
        }
        if self.s.chance(1, 2) {
            self.s.shuffle(&mut self.d.methods);
        }
    }

    /// a long chain of tasks, a task with very many methods, or a method with very many subtasks
    fn long_hierarchy(&mut self) {
        let n = if self.s.chance(1, 3) { 100 + self.s.below(180) } else { 20 + self.s.below(80) };
        if self.d.actions.is_empty() {
            let name = self.n.fresh(Ns::Task);
            self.d.actions.push(Action { name: Sym::new(&name), params: vec![], pre: None, eff: None });
        }
        let kind = self.s.below(5);
        while kind != 2 && self.d.tasks.len() < n {
            let name = self.n.fresh(Ns::Task);
            self.d.tasks.push(Decl { name: Sym::new(&name), params: vec![] });
        }
        let action = self.d.actions[0].name.name.clone();
        let name = |g: &Gen, i: usize| g.d.tasks[i].name.name.clone();
        let nt = self.d.tasks.len();
        let mut methods: Vec<(String, Vec<String>)> = vec![];
        match kind {
            0 | 3 => {
                // the end of the chain: nothing, an action, no method at all, or back to somewhere
                let around = self.s.below(4);
                for i in 0..nt {
                    let mut subs = vec![];
                    if i + 1 < nt {
                        subs.push(name(self, i + 1));
                        match around {
                            1 if self.s.chance(1, 30) => subs.push(action.clone()),
                            2 if self.s.chance(1, 30) => subs.insert(0, action.clone()),
                            3 => {
                                let j = if self.s.chance(1, 10) { self.s.below(nt) } else { i + 1 + self.s.below(nt - i - 1) };
                                let t = name(self, j);
                                let at = self.s.below(2);
                                subs.insert(at, t);
                            }
                            _ => {}
                        }
                    } else {
                        match self.s.below(4) {
                            0 => {}
                            1 => subs.push(action.clone()),
                            2 => continue,
                            _ => {
                                let j = self.s.below(nt);
                                subs.push(name(self, j));
                                // and a way out
                                if self.s.chance(1, 2) {
                                    methods.push((name(self, i), if self.s.chance(1, 2) { vec![] } else { vec![action.clone()] }));
                                }
                            }
                        }
                    }
                    methods.push((name(self, i), subs));
                }
            }
            1 => {
                // many methods of one task, only one of which is of use
                let t = name(self, 0);
                let good = self.s.below(n);
                for i in 0..n {
                    let j = if nt > 1 { 1 + self.s.below(nt - 1) } else { 0 };
                    let subs = if i == good {
                        match self.s.below(3) {
                            0 => vec![],
                            1 => vec![action.clone()],
                            _ => vec![t.clone()],
                        }
                    } else {
                        vec![name(self, j)]
                    };
                    methods.push((t.clone(), subs));
                }
                if nt > 1 && self.s.chance(1, 2) {
                    methods.push((name(self, nt - 1), vec![]));
                }
            }
            4 => {
                // many different subtasks, one of which differs
                let odd = self.s.below(nt);
                let what = self.s.below(4);
                let mut subs: Vec<String> = (1..nt).map(|i| name(self, i)).collect();
                if self.s.chance(1, 3) {
                    self.s.shuffle(&mut subs);
                }
                if what == 3 {
                    subs.push(action.clone());
                }
                methods.push((name(self, 0), subs));
                for i in 1..nt {
                    if i != odd {
                        methods.push((name(self, i), vec![]));
                    } else {
                        match what {
                            0 => {}
                            1 => methods.push((name(self, i), vec![action.clone()])),
                            2 => methods.push((name(self, i), vec![name(self, 0)])),
                            _ => methods.push((name(self, i), vec![])),
                        }
                    }
                }
            }
            _ => {
                // many subtasks, one of which differs
                let n = n.min(70);
                let t = name(self, 0);
                let u = name(self, nt - 1);
                let mut subs = vec![u.clone(); n];
                let i = self.s.below(n);
                subs[i] = match self.s.below(3) {
                    0 => action.clone(),
                    1 => t.clone(),
                    _ => name(self, nt / 2),
                };
                methods.push((t, subs));
                if u != methods[0].0 {
                    methods.push((u, vec![]));
                }
            }
        }
        for (task, subs) in methods {
            let name = self.n.fresh(Ns::Method);
            let subs = subs.iter().map(|s| Subtask { id: None, task: Sym::new(s), args: vec![] }).collect();
            let tn = self.order(subs);
            let pre = if tn.present { None } else { Some(F::Empty) };
            self.d.methods.push(Method { name: Sym::new(&name), params: vec![], task: Sym::new(&task), task_args: vec![], pre, tn });
        }
        match self.s.below(3) {
            0 => self.s.shuffle(&mut self.d.methods),
            1 => self.d.methods.reverse(),
            _ => {}
        }
    }

    fn problem(&mut self) -> Problem {
        self.in_problem = true;
        let mut p = Problem { name: self.n.fresh(Ns::Def), domain: self.d.name.clone(), ..Default::default() };
        if self.s.chance(1, 3) {
            p.requirements = self.requirements();
        }
        let huge = if self.s.chance(1, 50) { 1 + self.s.below(5) } else { 0 };
        let mid = if huge == 0 && self.s.chance(1, 24) { 1 + self.s.below(2) } else { 0 };
        let some = 8 + self.s.below(16);
        let k = if huge == 1 { 300 } else if mid == 1 { some } else { self.s.size(4, 7, 12) };
        for _ in 0..k {
            let ty = self.some_type();
            let name = self.n.fresh(Ns::Obj);
            self.objects.push(Sym::typed(&name, &ty));
        }
        if !self.d.predicates.is_empty() {
            let k = if huge == 2 { 400 } else if mid == 2 { some } else { self.s.size(4, 7, 12) };
            for _ in 0..k {
                let mut sc = Sc::new(vec![], false);
                let a = self.atom(&mut sc);
                p.init.push(a);
            }
            if self.s.chance(3, 5) {
                let mut sc = Sc::new(vec![], false);
                self.budget = 12;
                p.goal = Some(self.formula(&mut sc, huge == 4));
            }
        } else if self.s.chance(1, 3) {
            p.goal = Some(F::Empty);
        }
        if self.s.chance(4, 5) {
            let ar = if huge == 5 { 10 + self.s.below(40) } else { self.s.size(2, 3, 6) };
            let params = self.params(ar);
            let has = !params.is_empty() || self.s.chance(1, 2);
            let mut sc = Sc::new(params, has);
            let tn = self.tn(&mut sc, huge == 3);
            typed_first(&mut sc.params);
            p.htn = Some((if has { Some(sc.params) } else { None }, tn));
        }
        p.objects = std::mem::take(&mut self.objects);
        if self.s.chance(1, 4) {
            self.s.shuffle(&mut p.objects);
        }
        p
    }
}

/// repeats entries of lists, next to each other or apart (most of the results are not well-formed)
pub fn repeat_some(s: &mut Src, m: &mut Model) {
    fn list<X: Clone>(s: &mut Src, v: &mut Vec<X>, often: usize) {
        if !v.is_empty() && s.chance(1, often) {
            for _ in 0..1 + s.below(2) {
                let i = s.below(v.len());
                let x = v[i].clone();
                let at = if s.chance(1, 2) { i } else { s.below(v.len() + 1) };
                v.insert(at, x);
            }
        }
    }
    // what has no type comes last: before others it would share their type
    fn typed(s: &mut Src, v: &mut Vec<Sym>, often: usize) {
        list(s, v, often);
        v.sort_by_key(|x| x.ty.is_none());
    }
    fn formula(s: &mut Src, f: &mut F) {
        if f.depth() > 8 {
            return;
        }
        match f {
            F::And(v) | F::Or(v) | F::Xor(v) => {
                list(s, v, 3);
                v.iter_mut().for_each(|f| formula(s, f));
            }
            F::Not(f) => formula(s, f),
            F::Exists(q, f) | F::ForAll(q, f) => {
                typed(s, q, 4);
                formula(s, f)
            }
            F::Prob(v) => {
                list(s, v, 3);
                v.iter_mut().for_each(|x| formula(s, &mut x.2))
            }
            F::Atom(a) => list(s, &mut a.args, 6),
            F::Empty | F::Eq(_, _) => {}
        }
    }
    fn tn(s: &mut Src, t: &mut Tn) {
        list(s, &mut t.subtasks, 3);
        for x in &mut t.subtasks {
            list(s, &mut x.args, 6);
        }
        list(s, &mut t.order, 3);
        for x in &mut t.order {
            list(s, &mut x.1, 4);
        }
        if let Some(c) = &mut t.constraints {
            list(s, c, 3);
        }
    }
    let d = &mut m.d;
    list(s, &mut d.requirements, 3);
    typed(s, &mut d.types, 3);
    typed(s, &mut d.constants, 3);
    list(s, &mut d.predicates, 3);
    list(s, &mut d.functions, 3);
    list(s, &mut d.tasks, 3);
    list(s, &mut d.actions, 3);
    list(s, &mut d.methods, 3);
    for x in d.predicates.iter_mut().chain(&mut d.functions).chain(&mut d.tasks) {
        typed(s, &mut x.params, 6);
    }
    for a in &mut d.actions {
        typed(s, &mut a.params, 6);
        for f in a.pre.iter_mut().chain(&mut a.eff) {
            formula(s, f);
        }
    }
    for x in &mut d.methods {
        typed(s, &mut x.params, 6);
        list(s, &mut x.task_args, 6);
        x.pre.iter_mut().for_each(|f| formula(s, f));
        tn(s, &mut x.tn);
    }
    if let Some(p) = &mut m.p {
        list(s, &mut p.requirements, 3);
        typed(s, &mut p.objects, 3);
        list(s, &mut p.init, 3);
        for a in &mut p.init {
            list(s, &mut a.args, 8);
        }
        p.goal.iter_mut().for_each(|f| formula(s, f));
        if let Some((params, t)) = &mut p.htn {
            params.iter_mut().for_each(|v| typed(s, v, 3));
            tn(s, t);
        }
    }
}
