//! Puts faults into models. What the model's faults then are is computed by the reference
//! semantics from the text, not assumed here.
use crate::ast::*;
use crate::gen::Model;
use crate::names::{Namer, Ns};
use crate::refsem::Types;
use crate::rng::Src;
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat {
    Undef,
    Dup,
    Arity,
    Type,
    CycType,
    CycOrder,
}
pub const CATS: [Cat; 6] = [Cat::Undef, Cat::Dup, Cat::Arity, Cat::Type, Cat::CycType, Cat::CycOrder];

impl Cat {
    pub fn name(self) -> &'static str {
        match self {
            Cat::Undef => "undef",
            Cat::Dup => "dup",
            Cat::Arity => "arity",
            Cat::Type => "type",
            Cat::CycType => "cyclic-type",
            Cat::CycOrder => "cyclic-order",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Where {
    Anywhere,
    Domain,
    Problem,
}

pub struct Inj<'a> {
    pub s: &'a mut Src,
    pub n: &'a mut Namer,
    pub at: Where,
    /// names of other kinds, and variations of names, may be used as undeclared names
    pub cross: bool,
}

/// all formulas with a flag: in the problem
fn formulas(m: &mut Model) -> Vec<(&mut F, bool)> {
    let mut v: Vec<(&mut F, bool)> = vec![];
    for a in &mut m.d.actions {
        v.extend(a.pre.as_mut().map(|f| (f, false)));
        v.extend(a.eff.as_mut().map(|f| (f, false)));
    }
    for x in &mut m.d.methods {
        v.extend(x.pre.as_mut().map(|f| (f, false)));
    }
    if let Some(p) = &mut m.p {
        v.extend(p.goal.as_mut().map(|f| (f, true)));
    }
    v
}

impl<'a> Inj<'a> {
    fn ok(&self, in_problem: bool) -> bool {
        match self.at {
            Where::Anywhere => true,
            Where::Domain => !in_problem,
            Where::Problem => in_problem,
        }
    }

    /// label of what was done
    pub fn inject(&mut self, m: &mut Model, cat: Cat) -> Option<String> {
        for _ in 0..6 {
            let r = match cat {
                Cat::Undef => self.undef(m),
                Cat::Dup => self.dup(m),
                Cat::Arity => self.arity(m),
                Cat::Type => self.types(m),
                Cat::CycType => self.cyc_type(m),
                Cat::CycOrder => self.cyc_order(m),
            };
            if r.is_some() {
                return r;
            }
        }
        None
    }

    fn bad_name(&mut self, m: &Model, ns: Ns, old: &str) -> String {
        if !self.cross || self.s.chance(1, 3) {
            return self.n.fresh(ns);
        }
        let mut v: Vec<String> = vec![];
        for t in &m.d.types {
            v.push(t.name.clone());
        }
        for c in &m.d.constants {
            v.push(c.name.clone());
        }
        for x in &m.d.predicates {
            v.push(x.name.name.clone());
        }
        for x in &m.d.functions {
            v.push(x.name.name.clone());
        }
        for x in &m.d.tasks {
            v.push(x.name.name.clone());
            v.extend(x.params.iter().map(|p| p.name.clone()));
        }
        for x in &m.d.actions {
            v.push(x.name.name.clone());
            v.extend(x.params.iter().map(|p| p.name.clone()));
        }
        for x in &m.d.methods {
            v.push(x.name.name.clone());
            v.extend(x.params.iter().map(|p| p.name.clone()));
        }
        if let Some(p) = &m.p {
            v.extend(p.objects.iter().map(|x| x.name.clone()));
        }
        v.push(m.d.name.clone());
        v.push(old.to_uppercase());
        v.push(format!("{}x", old));
        v.push(format!("{}-", old));
        if old.len() > 1 {
            v.push(old[..old.len() - 1].to_string());
        }
        v.push("object".into());
        v.push("number".into());
        let c = self.s.pick(&v).clone();
        // names that are only legal with '?' cannot be used for everything
        let legal = c.as_bytes()[0].is_ascii_alphabetic() && !crate::reflex::RESERVED.contains(&c.as_str());
        if legal && (ns == Ns::Param || ns == Ns::Obj || !self.n.q.contains(&c) || true) {
            c
        } else {
            self.n.fresh(ns)
        }
    }

    fn undef(&mut self, m: &mut Model) -> Option<String> {
        let snapshot = m.clone();
        match self.s.below(8) {
            0 | 1 => {
                // predicate
                let mut sites: Vec<(&mut Sym, &'static str)> = vec![];
                let (at, ok) = (self.at, |p: bool, at: Where| match at {
                    Where::Anywhere => true,
                    Where::Domain => !p,
                    Where::Problem => p,
                });
                let mut inits: Vec<&mut Atom> = vec![];
                let (d, p) = (&mut m.d, &mut m.p);
                let mut fs: Vec<(&mut F, bool)> = vec![];
                for a in &mut d.actions {
                    fs.extend(a.pre.as_mut().map(|f| (f, false)));
                    fs.extend(a.eff.as_mut().map(|f| (f, false)));
                }
                for x in &mut d.methods {
                    fs.extend(x.pre.as_mut().map(|f| (f, false)));
                }
                if let Some(p) = p {
                    fs.extend(p.goal.as_mut().map(|f| (f, true)));
                    inits.extend(p.init.iter_mut());
                }
                for (f, p) in fs {
                    if ok(p, at) {
                        let mut v = vec![];
                        f.atoms_mut(&mut v, false);
                        sites.extend(v.into_iter().map(|(a, q)| {
                            (&mut a.name, if q { "undef-pred-quantified" } else { "undef-pred" })
                        }));
                    }
                }
                if ok(true, at) {
                    sites.extend(inits.into_iter().map(|a| (&mut a.name, "undef-pred-init")));
                }
                if sites.is_empty() {
                    return None;
                }
                let i = self.s.below(sites.len());
                let old = sites[i].0.name.clone();
                let new = self.bad_name(&snapshot, Ns::Pred, &old);
                sites[i].0.name = new;
                Some(sites[i].1.into())
            }
            2 | 3 => {
                // type
                let mut sites: Vec<(&mut Sym, bool, &'static str)> = vec![];
                sites.extend(m.d.constants.iter_mut().map(|s| (s, false, "undef-type-constant")));
                for x in &mut m.d.predicates {
                    sites.extend(x.params.iter_mut().map(|s| (s, false, "undef-type-predicate")));
                }
                for x in &mut m.d.tasks {
                    sites.extend(x.params.iter_mut().map(|s| (s, false, "undef-type-task")));
                }
                for x in &mut m.d.actions {
                    sites.extend(x.params.iter_mut().map(|s| (s, false, "undef-type-action")));
                }
                for x in &mut m.d.methods {
                    sites.extend(x.params.iter_mut().map(|s| (s, false, "undef-type-method")));
                }
                if let Some(p) = &mut m.p {
                    sites.extend(p.objects.iter_mut().map(|s| (s, true, "undef-type-object")));
                    if let Some((Some(ps), _)) = &mut p.htn {
                        sites.extend(ps.iter_mut().map(|s| (s, true, "undef-type-htn")));
                    }
                }
                let at = self.at;
                let mut sites: Vec<_> = sites
                    .into_iter()
                    .filter(|s| {
                        s.0.ty.is_some()
                            && match at {
                                Where::Anywhere => true,
                                Where::Domain => !s.1,
                                Where::Problem => s.1,
                            }
                    })
                    .collect();
                if sites.is_empty() {
                    return None;
                }
                // choose a kind of site first
                let mut kinds: Vec<&'static str> = vec![];
                for s in &sites {
                    if !kinds.contains(&s.2) {
                        kinds.push(s.2);
                    }
                }
                let kind = *self.s.pick(&kinds);
                sites.retain(|s| s.2 == kind);
                let i = self.s.below(sites.len());
                let old = sites[i].0.ty.clone().unwrap().0;
                let new = self.bad_name(&snapshot, Ns::Type, &old);
                sites[i].0.ty = Some((new, 0));
                Some(kind.into())
            }
            4 => {
                // refined task
                if m.d.methods.is_empty() || !self.ok(false) {
                    return None;
                }
                let i = self.s.below(m.d.methods.len());
                let old = m.d.methods[i].task.name.clone();
                let new = self.bad_name(&snapshot, Ns::Task, &old);
                m.d.methods[i].task.name = new;
                Some("undef-task".into())
            }
            5 => {
                let mut tns = self.tns(m);
                tns.retain(|t| !t.0.subtasks.is_empty());
                if tns.is_empty() {
                    return None;
                }
                let i = self.s.below(tns.len());
                let j = self.s.below(tns[i].0.subtasks.len());
                let old = tns[i].0.subtasks[j].task.name.clone();
                let new = self.bad_name(&snapshot, Ns::Task, &old);
                let label = if tns[i].1 { "undef-subtask-htn" } else { "undef-subtask-method" };
                tns[i].0.subtasks[j].task.name = new;
                Some(label.into())
            }
            6 => {
                let mut sites = self.args(m);
                if sites.is_empty() {
                    return None;
                }
                let mut kinds: Vec<&'static str> = vec![];
                for s in &sites {
                    if !kinds.contains(&s.1) {
                        kinds.push(s.1);
                    }
                }
                let kind = *self.s.pick(&kinds);
                sites.retain(|s| s.1 == kind);
                let i = self.s.below(sites.len());
                let old = sites[i].0.name.clone();
                let new = self.bad_name(&snapshot, Ns::Param, &old);
                sites[i].0.name = new;
                Some(format!("undef-arg-{}", kind))
            }
            _ => {
                // a declaration is missing
                let k = self.s.below(6);
                let d = &mut m.d;
                let n = match k {
                    0 => d.predicates.len(),
                    1 => d.tasks.len(),
                    2 => d.actions.len(),
                    3 => d.constants.len(),
                    4 => d.types.len(),
                    _ => m.p.as_ref().map_or(0, |p| p.objects.len()),
                };
                if n == 0 || !self.ok(k == 5) {
                    return None;
                }
                let i = self.s.below(n);
                let d = &mut m.d;
                match k {
                    0 => {
                        d.predicates.remove(i);
                    }
                    1 => {
                        d.tasks.remove(i);
                    }
                    2 => {
                        d.actions.remove(i);
                    }
                    3 => {
                        d.constants.remove(i);
                    }
                    4 => {
                        d.types.remove(i);
                    }
                    _ => {
                        m.p.as_mut().unwrap().objects.remove(i);
                    }
                }
                Some("undef-missing-declaration".into())
            }
        }
    }

    /// task networks with a flag: in the problem
    fn tns<'m>(&self, m: &'m mut Model) -> Vec<(&'m mut Tn, bool)> {
        let mut v: Vec<(&mut Tn, bool)> = vec![];
        if self.ok(false) {
            v.extend(m.d.methods.iter_mut().map(|x| (&mut x.tn, false)));
        }
        if self.ok(true) {
            if let Some(Problem { htn: Some((_, tn)), .. }) = &mut m.p {
                v.push((tn, true));
            }
        }
        v
    }

    /// argument lists with the place they are in
    fn arg_lists<'m>(&self, m: &'m mut Model) -> Vec<(&'m mut Vec<Sym>, &'static str)> {
        let mut v: Vec<(&mut Vec<Sym>, &'static str)> = vec![];
        let (d, p) = (&mut m.d, &mut m.p);
        if self.ok(false) {
            for a in &mut d.actions {
                for (f, k, kq) in [
                    (&mut a.pre, "action-pre", "action-pre-quantified"),
                    (&mut a.eff, "action-eff", "action-eff-quantified"),
                ] {
                    if let Some(f) = f {
                        let mut atoms = vec![];
                        f.atoms_mut(&mut atoms, false);
                        v.extend(atoms.into_iter().map(|(a, q)| (&mut a.args, if q { kq } else { k })));
                    }
                }
            }
            for x in &mut d.methods {
                if let Some(f) = &mut x.pre {
                    let mut atoms = vec![];
                    f.atoms_mut(&mut atoms, false);
                    v.extend(
                        atoms
                            .into_iter()
                            .map(|(a, q)| (&mut a.args, if q { "method-pre-quantified" } else { "method-pre" })),
                    );
                }
                v.push((&mut x.task_args, "method-task"));
                v.extend(x.tn.subtasks.iter_mut().map(|s| (&mut s.args, "method-subtask")));
            }
        }
        if self.ok(true) {
            if let Some(p) = p {
                v.extend(p.init.iter_mut().map(|a| (&mut a.args, "init")));
                if let Some(f) = &mut p.goal {
                    let mut atoms = vec![];
                    f.atoms_mut(&mut atoms, false);
                    v.extend(
                        atoms.into_iter().map(|(a, q)| (&mut a.args, if q { "goal-quantified" } else { "goal" })),
                    );
                }
                if let Some((_, tn)) = &mut p.htn {
                    v.extend(tn.subtasks.iter_mut().map(|s| (&mut s.args, "htn-subtask")));
                }
            }
        }
        v
    }

    fn args<'m>(&self, m: &'m mut Model) -> Vec<(&'m mut Sym, &'static str)> {
        let mut v = vec![];
        for (l, k) in self.arg_lists(m) {
            v.extend(l.iter_mut().map(|s| (s, k)));
        }
        v
    }

    fn dup(&mut self, m: &mut Model) -> Option<String> {
        // what is duplicated is changed or not, and put anywhere
        let kind = self.s.below(9);
        if !self.ok(kind == 8) {
            return None;
        }
        let n = match kind {
            0 => m.d.requirements.len(),
            1 => m.d.constants.len(),
            2 => m.d.predicates.len(),
            3 => m.d.tasks.len(),
            4 => m.d.actions.len(),
            5 => m.d.methods.len(),
            6 => m.d.actions.len(),
            7 => m.d.methods.len(),
            _ => m.p.as_ref().map_or(0, |p| p.objects.len()),
        };
        if n == 0 && kind != 0 {
            return None;
        }
        let i = self.s.below(n);
        let at = self.s.below(n + 1);
        let change = self.s.chance(1, 2);
        let types: Vec<Option<String>> = m.d.types.iter().map(|t| Some(t.name.clone())).chain([None]).collect();
        let other = self.s.pick(&types).clone();
        match kind {
            0 => {
                if n == 0 {
                    m.d.requirements = vec!["STRIPS", "STRIPS"];
                } else {
                    let x = m.d.requirements[i];
                    m.d.requirements.insert(at, x);
                }
                Some("dup-requirement".into())
            }
            1 => {
                let mut x = m.d.constants[i].clone();
                if change {
                    x.ty = other.map(|t| (t, 0));
                }
                m.d.constants.insert(at, x);
                Some("dup-constant".into())
            }
            2 => {
                let mut x = m.d.predicates[i].clone();
                if change {
                    x.params.pop();
                }
                m.d.predicates.insert(at, x);
                Some("dup-predicate".into())
            }
            3 => {
                let mut x = m.d.tasks[i].clone();
                if change {
                    x.params.pop();
                }
                m.d.tasks.insert(at, x);
                Some("dup-task".into())
            }
            4 => {
                let mut x = m.d.actions[i].clone();
                if change {
                    x.pre = x.eff.clone();
                    x.eff = None;
                }
                m.d.actions.insert(at, x);
                Some("dup-action".into())
            }
            5 => {
                let mut x = m.d.methods[i].clone();
                if change {
                    // another method with the same name
                    let j = self.s.below(n);
                    x = m.d.methods[j].clone();
                    x.name = m.d.methods[i].name.clone();
                }
                m.d.methods.insert(at, x);
                Some("dup-method".into())
            }
            6 | 7 => {
                let (params, used) = if kind == 6 {
                    let a = &mut m.d.actions[i];
                    let name = a.name.name.clone();
                    let used = m.d.methods.iter().any(|x| x.tn.subtasks.iter().any(|s| s.task.name == name))
                        || m.p.iter().any(|p| {
                            p.htn.iter().any(|(_, tn)| tn.subtasks.iter().any(|s| s.task.name == name))
                        });
                    (&mut m.d.actions[i].params, used)
                } else {
                    (&mut m.d.methods[i].params, false)
                };
                if params.is_empty() {
                    return None;
                }
                let label = if kind == 6 { "dup-action-param" } else { "dup-method-param" };
                let a = self.s.below(params.len());
                if used || (params.len() >= 2 && self.s.chance(1, 2)) {
                    // two parameters become one name
                    if params.len() < 2 {
                        return None;
                    }
                    let b = (a + 1 + self.s.below(params.len() - 1)) % params.len();
                    let (new, old) = (params[a].name.clone(), params[b].name.clone());
                    params[b].name = new.clone();
                    let fix = |s: &mut Sym| {
                        if s.name == old {
                            s.name = new.clone();
                        }
                    };
                    let fixf = |f: &mut Option<F>| {
                        if let Some(f) = f {
                            let mut v = vec![];
                            f.atoms_mut(&mut v, false);
                            v.into_iter().for_each(|(a, _)| a.args.iter_mut().for_each(fix));
                        }
                    };
                    if kind == 6 {
                        fixf(&mut m.d.actions[i].pre);
                        fixf(&mut m.d.actions[i].eff);
                    } else {
                        fixf(&mut m.d.methods[i].pre);
                        m.d.methods[i].task_args.iter_mut().for_each(fix);
                        m.d.methods[i].tn.subtasks.iter_mut().for_each(|s| s.args.iter_mut().for_each(fix));
                    }
                } else {
                    let mut x = params[a].clone();
                    if change {
                        x.ty = other.map(|t| (t, 0));
                    }
                    let b = self.s.below(params.len() + 1);
                    params.insert(b, x);
                    params.sort_by_key(|s| s.ty.is_none());
                }
                Some(label.into())
            }
            _ => {
                let p = m.p.as_mut().unwrap();
                let mut x = p.objects[i].clone();
                if change {
                    x.ty = other.map(|t| (t, 0));
                }
                p.objects.insert(at, x);
                Some("dup-object".into())
            }
        }
    }

    fn arity(&mut self, m: &mut Model) -> Option<String> {
        if self.s.chance(1, 6) && self.ok(false) {
            // the declaration changes
            let k = self.s.below(3);
            let n = [m.d.predicates.len(), m.d.tasks.len(), m.d.actions.len()][k];
            if n == 0 {
                return None;
            }
            let i = self.s.below(n);
            let new = self.n.fresh(Ns::Param);
            let params = match k {
                0 => &mut m.d.predicates[i].params,
                1 => &mut m.d.tasks[i].params,
                _ => &mut m.d.actions[i].params,
            };
            if k < 2 && !params.is_empty() && self.s.chance(1, 2) {
                let j = self.s.below(params.len());
                params.remove(j);
            } else {
                params.push(Sym::new(&new));
            }
            return Some("arity-declaration".into());
        }
        let constants: Vec<String> = m.d.constants.iter().map(|c| c.name.clone()).collect();
        let mut lists = self.arg_lists(m);
        if lists.is_empty() {
            return None;
        }
        let mut kinds: Vec<&'static str> = vec![];
        for s in &lists {
            if !kinds.contains(&s.1) {
                kinds.push(s.1);
            }
        }
        let kind = *self.s.pick(&kinds);
        lists.retain(|s| s.1 == kind);
        let i = self.s.below(lists.len());
        let list = &mut lists[i].0;
        let k = if self.s.chance(1, 20) { 256 } else { 1 + self.s.size(1, 3, 5) };
        if !list.is_empty() && self.s.chance(1, 2) {
            for _ in 0..k {
                if !list.is_empty() {
                    let j = self.s.below(list.len());
                    list.remove(j);
                }
            }
        } else {
            let have = list.clone();
            if have.is_empty() && constants.is_empty() {
                if kind.ends_with("quantified") {
                    list.push(Sym::new("anything"));
                } else {
                    return None;
                }
            }
            for _ in 0..k {
                let a = if !have.is_empty() {
                    have[self.s.below(have.len())].clone()
                } else if !constants.is_empty() {
                    Sym::new(&constants[self.s.below(constants.len())])
                } else {
                    break;
                };
                list.push(a);
            }
        }
        Some(format!("arity-{}", kind))
    }

    fn types(&mut self, m: &mut Model) -> Option<String> {
        let tt = Types::new(&m.d.types);
        let names: Vec<String> = {
            let mut v: Vec<String> = vec![];
            for t in &m.d.types {
                for x in [Some(&t.name), t.ty.as_ref().map(|p| &p.0)].into_iter().flatten() {
                    if !v.contains(x) {
                        v.push(x.clone());
                    }
                }
            }
            v
        };
        if self.s.chance(1, 8) && self.ok(false) && !m.d.types.is_empty() {
            // the hierarchy changes
            let i = self.s.below(m.d.types.len());
            if m.d.types[i].ty.is_some() {
                let t = m.d.types[i].clone();
                let (child, parent) = (t.name.clone(), t.ty.clone().unwrap().0);
                match self.s.below(3) {
                    0 => m.d.types[i].ty = None,
                    // turned around
                    1 => m.d.types[i] = Sym::typed(&parent, &Some(child)),
                    _ => {
                        let j = self.s.below(names.len());
                        m.d.types[i].ty = Some((names[j].clone(), 0));
                    }
                }
                if Types::new(&m.d.types).cyclic() {
                    m.d.types[i] = t;
                    return None;
                }
                return Some("type-hierarchy".into());
            }
            return None;
        }
        if self.s.chance(1, 8) && self.ok(false) {
            // a declared parameter changes its type
            let k = self.s.below(2);
            let n = [m.d.predicates.len(), m.d.tasks.len()][k];
            if n == 0 {
                return None;
            }
            let i = self.s.below(n);
            let params = if k == 0 { &mut m.d.predicates[i].params } else { &mut m.d.tasks[i].params };
            if params.is_empty() {
                return None;
            }
            let j = self.s.below(params.len());
            let t = self.s.below(names.len() + 1);
            params[j].ty = names.get(t).map(|x| (x.clone(), 0));
            // keeps positions: an untyped parameter cannot stand before a typed one
            let bad = params.windows(2).any(|w| w[0].ty.is_none() && w[1].ty.is_some());
            if bad {
                let ty = params[j].ty.clone();
                params.iter_mut().for_each(|p| p.ty = ty.clone());
            }
            return Some("type-declaration".into());
        }
        // an argument of a type that does not fit
        struct Site {
            list: usize,
            arg: usize,
            want: Option<String>,
        }
        let snapshot = m.clone();
        let mut sites: Vec<(Site, &'static str)> = vec![];
        // the declarations, in the order of arg_lists
        let decl = |name: &str, pred: bool| -> Option<Vec<Sym>> {
            if pred {
                snapshot.d.predicates.iter().find(|x| x.name.name == name).map(|x| x.params.clone())
            } else {
                snapshot
                    .d
                    .actions
                    .iter()
                    .find(|x| x.name.name == name)
                    .map(|x| x.params.clone())
                    .or(snapshot.d.tasks.iter().find(|x| x.name.name == name).map(|x| x.params.clone()))
            }
        };
        let owners = self.owners(&snapshot);
        for (i, (name, pred, kind)) in owners.iter().enumerate() {
            if kind.ends_with("quantified") {
                continue;
            }
            if let Some(ps) = decl(name, *pred) {
                for (j, p) in ps.iter().enumerate() {
                    sites.push((Site { list: i, arg: j, want: p.tyname().map(String::from) }, kind));
                }
            }
        }
        if sites.is_empty() {
            return None;
        }
        let mut kinds: Vec<&'static str> = vec![];
        for s in &sites {
            if !kinds.contains(&s.1) {
                kinds.push(s.1);
            }
        }
        let kind = *self.s.pick(&kinds);
        sites.retain(|s| s.1 == kind);
        let site = sites.swap_remove(self.s.below(sites.len())).0;
        // types that do not fit, preferably related ones
        let mut bad: Vec<Option<String>> = names
            .iter()
            .cloned()
            .map(Some)
            .chain([None])
            .filter(|t| !tt.fits(t.as_deref(), site.want.as_deref()))
            .collect();
        let above: Vec<Option<String>> = bad
            .iter()
            .filter(|t| t.is_some() && tt.fits(site.want.as_deref(), t.as_deref()))
            .cloned()
            .collect();
        if !above.is_empty() && self.s.chance(1, 2) {
            bad = above;
        }
        if bad.is_empty() || self.s.chance(1, 10) {
            // a new type
            let t = self.n.fresh(Ns::Type);
            if let (Some(w), true) = (&site.want, self.s.chance(1, 2)) {
                m.d.types.push(Sym::typed(w, &Some(t.clone())));
            } else {
                m.d.types.push(Sym::new(&t));
            }
            bad = vec![Some(t)];
        }
        let ty = self.s.pick(&bad).clone();
        // something in scope that has this type, or something new
        let mut cands: Vec<String> = vec![];
        let (mi, scope) = self.scope(m, site.list);
        for s in &scope {
            if s.tyname() == ty.as_deref() {
                cands.push(s.name.clone());
            }
        }
        let mut how = "existing";
        let name = if !cands.is_empty() && self.s.chance(2, 3) {
            self.s.pick(&cands).clone()
        } else {
            let in_problem = matches!(kind, "init" | "goal" | "htn-subtask");
            let param = (kind.starts_with("method") || kind == "htn-subtask") && self.s.chance(1, 2);
            if param {
                how = "param";
                let used: HashSet<String> = scope.iter().map(|s| s.name.clone()).collect();
                let name = self.n.param(&used);
                let sym = Sym::typed(&name, &ty);
                if kind == "htn-subtask" {
                    let (ps, _) = m.p.as_mut().unwrap().htn.as_mut().unwrap();
                    let ps = ps.get_or_insert(vec![]);
                    ps.push(sym);
                    ps.sort_by_key(|s| s.ty.is_none());
                } else {
                    let ps = &mut m.d.methods[mi].params;
                    ps.push(sym);
                    ps.sort_by_key(|s| s.ty.is_none());
                }
                name
            } else {
                let name = self.n.fresh(Ns::Obj);
                let sym = Sym::typed(&name, &ty);
                if in_problem && self.s.chance(2, 3) {
                    how = "object";
                    m.p.as_mut().unwrap().objects.push(sym);
                } else {
                    how = "constant";
                    m.d.constants.push(sym);
                }
                name
            }
        };
        let mut lists = self.arg_lists(m);
        let list = &mut lists[site.list].0;
        if site.arg < list.len() {
            list[site.arg].name = name;
        }
        Some(format!("type-{}-{}", kind, how))
    }

    /// for every argument list (in the order of arg_lists): the name of the predicate or task
    fn owners(&self, m: &Model) -> Vec<(String, bool, &'static str)> {
        let mut v: Vec<(String, bool, &'static str)> = vec![];
        let fo = |f: &F, k: &'static str, kq: &'static str, v: &mut Vec<(String, bool, &'static str)>| {
            let mut atoms = vec![];
            f.atoms(&mut atoms, false);
            v.extend(atoms.into_iter().map(|(a, q)| (a.name.name.clone(), true, if q { kq } else { k })));
        };
        if self.ok(false) {
            for a in &m.d.actions {
                if let Some(f) = &a.pre {
                    fo(f, "action-pre", "action-pre-quantified", &mut v);
                }
                if let Some(f) = &a.eff {
                    fo(f, "action-eff", "action-eff-quantified", &mut v);
                }
            }
            for x in &m.d.methods {
                if let Some(f) = &x.pre {
                    fo(f, "method-pre", "method-pre-quantified", &mut v);
                }
                v.push((x.task.name.clone(), false, "method-task"));
                v.extend(x.tn.subtasks.iter().map(|s| (s.task.name.clone(), false, "method-subtask")));
            }
        }
        if self.ok(true) {
            if let Some(p) = &m.p {
                v.extend(p.init.iter().map(|a| (a.name.name.clone(), true, "init")));
                if let Some(f) = &p.goal {
                    fo(f, "goal", "goal-quantified", &mut v);
                }
                if let Some((_, tn)) = &p.htn {
                    v.extend(tn.subtasks.iter().map(|s| (s.task.name.clone(), false, "htn-subtask")));
                }
            }
        }
        v
    }

    /// the names in scope of the n-th argument list, and the method it is in
    fn scope(&self, m: &Model, n: usize) -> (usize, Vec<Sym>) {
        let count = |f: &Option<F>| {
            f.as_ref().map_or(0, |f| {
                let mut v = vec![];
                f.atoms(&mut v, false);
                v.len()
            })
        };
        let mut i = 0;
        if self.ok(false) {
            for a in &m.d.actions {
                i += count(&a.pre) + count(&a.eff);
                if n < i {
                    return (0, a.params.iter().chain(&m.d.constants).cloned().collect());
                }
            }
            for (k, x) in m.d.methods.iter().enumerate() {
                i += count(&x.pre) + 1 + x.tn.subtasks.len();
                if n < i {
                    return (k, x.params.iter().chain(&m.d.constants).cloned().collect());
                }
            }
        }
        let mut v = m.d.constants.clone();
        if let Some(p) = &m.p {
            v.extend(p.objects.clone());
            i += p.init.len() + count(&p.goal);
            if n >= i {
                if let Some((Some(ps), _)) = &p.htn {
                    v.extend(ps.clone());
                }
            }
        }
        (0, v)
    }

    fn cyc_type(&mut self, m: &mut Model) -> Option<String> {
        if !self.ok(false) {
            return None;
        }
        let mut names: Vec<String> = vec![];
        for t in &m.d.types {
            for x in [Some(&t.name), t.ty.as_ref().map(|p| &p.0)].into_iter().flatten() {
                if !names.contains(x) {
                    names.push(x.clone());
                }
            }
        }
        let put = |s: &mut Src, m: &mut Model, a: &str, b: &str| {
            let i = s.below(m.d.types.len() + 1);
            m.d.types.insert(i, Sym::typed(a, &Some(b.to_string())));
        };
        match self.s.below(4) {
            0 => {
                let a = if names.is_empty() || self.s.chance(1, 4) {
                    self.n.fresh(Ns::Type)
                } else {
                    self.s.pick(&names).clone()
                };
                put(self.s, m, &a, &a);
                Some("cyc-type-self".into())
            }
            1 | 2 if !names.is_empty() => {
                // close a path (or not)
                let tt = Types::new(&m.d.types);
                let a = self.s.pick(&names).clone();
                let below: Vec<String> = names.iter().filter(|b| tt.fits(Some(b), Some(&a))).cloned().collect();
                let b = self.s.pick(&below).clone();
                put(self.s, m, &a, &b);
                Some("cyc-type-path".into())
            }
            _ => {
                let n = 2 + self.s.size(3, 30, 300);
                let fresh: Vec<String> = (0..n).map(|_| self.n.fresh(Ns::Type)).collect();
                for i in 0..n {
                    put(self.s, m, &fresh[i], &fresh[(i + 1) % n]);
                }
                // connected to the others
                if !names.is_empty() {
                    if self.s.chance(1, 3) {
                        let a = self.s.pick(&names).clone();
                        put(self.s, m, &a, &fresh[0]);
                    } else if self.s.chance(1, 2) {
                        let a = self.s.pick(&names).clone();
                        put(self.s, m, &fresh[0], &a);
                    }
                }
                Some("cyc-type-new".into())
            }
        }
    }

    fn cyc_order(&mut self, m: &mut Model) -> Option<String> {
        let pick = {
            let tns = self.tns(m);
            let v: Vec<usize> = (0..tns.len()).filter(|i| !tns[*i].0.subtasks.is_empty()).collect();
            if v.is_empty() {
                return None;
            }
            *self.s.pick(&v)
        };
        let k = {
            let mut tns = self.tns(m);
            tns.swap_remove(pick).0.subtasks.len()
        };
        let ids = self.n.local_ids(k);
        let mut tns = self.tns(m);
        let (tn, in_problem) = &mut tns[pick];
        tn.total = false;
        let missing = tn.subtasks.iter().any(|s| s.id.is_none());
        if missing {
            tn.order.clear();
            for (x, id) in tn.subtasks.iter_mut().zip(&ids) {
                x.id = Some(Sym::new(id));
            }
        }
        tn.order_line = Some(0);
        let ids: Vec<String> = tn.subtasks.iter().map(|s| s.id.clone().unwrap().name).collect();
        let mut add: Vec<(String, String)> = vec![];
        let label;
        match self.s.below(4) {
            0 => {
                label = "self";
                let a = self.s.pick(&ids).clone();
                add.push((a.clone(), a));
            }
            1 => {
                label = "closing";
                // reverse of an existing path
                let pairs: Vec<(String, String)> =
                    tn.pairs().into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                if pairs.is_empty() {
                    return None;
                }
                let (a, mut b) = self.s.pick(&pairs).clone();
                for _ in 0..self.s.below(4) {
                    let next: Vec<&(String, String)> = pairs.iter().filter(|p| p.0 == b).collect();
                    if !next.is_empty() {
                        b = next[self.s.below(next.len())].1.clone();
                    }
                }
                add.push((b, a));
            }
            _ => {
                label = "ring";
                let mut perm = ids.clone();
                self.s.shuffle(&mut perm);
                let n = 1 + self.s.below(perm.len());
                for i in 0..n {
                    add.push((perm[i].clone(), perm[(i + 1) % n].clone()));
                }
            }
        }
        for (a, b) in add {
            let i = self.s.below(tn.order.len() + 1);
            if self.s.chance(1, 4) && i < tn.order.len() && tn.order[i].0 == a {
                tn.order[i].1.push(b);
            } else {
                tn.order.insert(i, (a, vec![b]));
            }
        }
        Some(format!("cyc-order-{}-{}", if *in_problem { "htn" } else { "method" }, label))
    }
}

#[allow(dead_code)]
pub fn all_formulas(m: &mut Model) -> Vec<(&mut F, bool)> {
    formulas(m)
}
