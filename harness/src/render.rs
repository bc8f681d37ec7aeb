//! Syntax tree -> tokens (in one of many spellings) -> text (in one of many layouts).
use crate::ast::*;
use crate::reflex::REQS;
use crate::rng::Rng;
use std::collections::HashSet;

pub struct Render<'a> {
    r: Rng,
    plain: bool,
    coins: usize,
    q: &'a HashSet<String>,
    out: Vec<String>,
}

/// tokens of a document; style 0 is the canonical one
pub fn tokens(doc: &Doc, q: &HashSet<String>, style: u64) -> Vec<String> {
    let mut r = Render::new(style, q);
    match doc {
        Doc::Domain(d) => r.domain(d),
        Doc::Problem(p) => r.problem(p),
    }
    r.out
}

pub fn domain_tokens(d: &Domain, q: &HashSet<String>, style: u64) -> Vec<String> {
    tokens(&Doc::Domain(d.clone()), q, style)
}
pub fn problem_tokens(p: &Problem, q: &HashSet<String>, style: u64) -> Vec<String> {
    tokens(&Doc::Problem(p.clone()), q, style)
}

impl<'a> Render<'a> {
    fn p(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn new(style: u64, q: &'a HashSet<String>) -> Render<'a> {
        let mut r = Rng::new(style);
        // some files are written in one way throughout
        let coins = [2, 2, 2, 2, 1, 9][r.below(6)];
        Render { r, plain: style == 0, coins, q, out: vec![] }
    }
    fn coin(&mut self) -> bool {
        let n = self.coins;
        !self.plain && self.r.below(n) == 0
    }
    fn rare(&mut self) -> bool {
        !self.plain && self.r.below(6) == 0
    }
    fn name(&mut self, s: &str) {
        if self.q.contains(s) {
            self.out.push(format!("?{}", s));
        } else {
            self.p(s);
        }
    }
    /// without the closing parenthesis
    fn typed_list(&mut self, v: &[Sym]) {
        let mut i = 0;
        while i < v.len() {
            let mut j = i + 1;
            while j < v.len() && v[j].ty == v[i].ty && !self.rare() {
                j += 1;
            }
            for s in &v[i..j] {
                self.name(&s.name);
            }
            if let Some((t, _)) = &v[i].ty {
                self.p("-");
                self.p(t);
            }
            i = j;
        }
    }
    /// sections of declarations: an untyped name cannot stand before a typed one in one list
    fn chunks<'b>(&mut self, v: &'b [Sym]) -> Vec<&'b [Sym]> {
        let mut out = vec![];
        let mut start = 0;
        for i in 1..v.len() {
            if (v[i - 1].ty.is_none() && v[i].ty.is_some()) || self.rare() {
                out.push(&v[start..i]);
                start = i;
            }
        }
        if start < v.len() || self.rare() {
            out.push(&v[start..]);
        }
        out
    }
    fn split<'b, X>(&mut self, v: &'b [X]) -> Vec<&'b [X]> {
        let mut out = vec![];
        let mut start = 0;
        for i in 1..v.len() {
            if self.rare() {
                out.push(&v[start..i]);
                start = i;
            }
        }
        if start < v.len() || self.rare() {
            out.push(&v[start..]);
        }
        out
    }
    fn take(&mut self) -> Vec<String> {
        std::mem::take(&mut self.out)
    }
    fn list_sections(&mut self, kw: &str, v: &[Sym]) -> Vec<Vec<String>> {
        let mut out = vec![];
        for c in self.chunks(v) {
            self.p("(");
            self.p(kw);
            self.typed_list(c);
            self.p(")");
            out.push(self.take());
        }
        out
    }
    fn req_sections(&mut self, v: &[&'static str]) -> Vec<Vec<String>> {
        let mut out = vec![];
        for c in self.split(v) {
            self.p("(");
            self.p(":requirements");
            for r in c {
                let n = REQS.iter().find(|x| x.1 == *r).unwrap().0;
                self.p(&format!(":{}", n));
            }
            self.p(")");
            out.push(self.take());
        }
        out
    }
    fn decl_sections(&mut self, kw: &str, v: &[Decl]) -> Vec<Vec<String>> {
        let mut out = vec![];
        for c in self.split(v) {
            self.p("(");
            self.p(kw);
            for d in c {
                self.p("(");
                self.p(&d.name.name);
                self.typed_list(&d.params);
                self.p(")");
            }
            self.p(")");
            out.push(self.take());
        }
        out
    }
    /// puts the sections together: in order, or interleaved (keeping the order within one kind)
    fn assemble(&mut self, head: Vec<String>, mut kinds: Vec<Vec<Vec<String>>>) {
        self.out = head;
        let interleave = self.coin();
        if interleave {
            kinds.iter_mut().for_each(|k| k.reverse());
            loop {
                let total: usize = kinds.iter().map(|k| k.len()).sum();
                if total == 0 {
                    break;
                }
                let mut i = self.r.below(total);
                for k in kinds.iter_mut() {
                    if i < k.len() {
                        self.out.extend(k.pop().unwrap());
                        break;
                    }
                    i -= k.len();
                }
            }
        } else {
            for k in kinds {
                for s in k {
                    self.out.extend(s);
                }
            }
        }
        self.p(")");
    }
    fn domain(&mut self, d: &Domain) {
        for t in ["(", "define", "(", "domain"] {
            self.p(t);
        }
        self.p(&d.name);
        self.p(")");
        let head = self.take();
        let mut kinds = vec![
            self.req_sections(&d.requirements),
            self.list_sections(":types", &d.types),
            self.list_sections(":constants", &d.constants),
            self.decl_sections(":predicates", &d.predicates),
            self.decl_sections(":functions", &d.functions),
        ];
        let mut v = vec![];
        for t in &d.tasks {
            self.header(":task", &t.name.name, &t.params);
            self.p(")");
            v.push(self.take());
        }
        kinds.push(v);
        let mut v = vec![];
        for m in &d.methods {
            self.header(":method", &m.name.name, &m.params);
            self.p(":task");
            self.p("(");
            self.p(&m.task.name);
            self.typed_list(&m.task_args);
            self.p(")");
            if let Some(f) = &m.pre {
                self.p(":precondition");
                self.formula(f);
            }
            self.tn(&m.tn);
            v.push(self.take());
        }
        kinds.push(v);
        let mut v = vec![];
        for a in &d.actions {
            self.header(":action", &a.name.name, &a.params);
            if let Some(f) = &a.pre {
                self.p(":precondition");
                self.formula(f);
            }
            if let Some(f) = &a.eff {
                self.p(":effect");
                self.formula(f);
            }
            self.p(")");
            v.push(self.take());
        }
        kinds.push(v);
        self.assemble(head, kinds);
    }
    fn header(&mut self, kw: &str, name: &str, params: &[Sym]) {
        self.p("(");
        self.p(kw);
        self.p(name);
        self.p(":parameters");
        self.p("(");
        self.typed_list(params);
        self.p(")");
    }
    fn problem(&mut self, p: &Problem) {
        for t in ["(", "define", "(", "problem"] {
            self.p(t);
        }
        self.p(&p.name);
        self.p(")");
        self.p("(");
        if self.coin() {
            self.p(":domain");
        } else {
            self.p("domain");
        }
        self.p(&p.domain);
        self.p(")");
        let head = self.take();
        let mut kinds =
            vec![self.req_sections(&p.requirements), self.list_sections(":objects", &p.objects)];
        if let Some((params, tn)) = &p.htn {
            self.p("(");
            self.p(":htn");
            if let Some(params) = params {
                self.p(":parameters");
                self.p("(");
                self.typed_list(params);
                self.p(")");
            }
            self.tn(tn);
            let s = self.take();
            kinds.push(vec![s]);
        }
        let mut v = vec![];
        for c in self.split(&p.init) {
            self.p("(");
            self.p(":init");
            for a in c {
                self.atom(a);
            }
            self.p(")");
            v.push(self.take());
        }
        kinds.push(v);
        if let Some(g) = &p.goal {
            self.p("(");
            self.p(":goal");
            if *g != F::Empty || !self.coin() {
                self.formula(g);
            }
            self.p(")");
            let s = self.take();
            kinds.push(vec![s]);
        }
        self.assemble(head, kinds);
    }
    fn atom(&mut self, a: &Atom) {
        self.p("(");
        self.p(&a.name.name);
        self.typed_list(&a.args);
        self.p(")");
    }
    fn formula(&mut self, f: &F) {
        if let F::Atom(a) = f {
            return self.atom(a);
        }
        self.p("(");
        match f {
            F::Empty => {}
            F::Atom(_) => unreachable!(),
            F::Not(f) => {
                self.p("not");
                self.formula(f);
            }
            F::And(v) => {
                self.p("and");
                v.iter().for_each(|f| self.formula(f));
            }
            F::Or(v) => {
                self.p("or");
                v.iter().for_each(|f| self.formula(f));
            }
            F::Xor(v) => {
                self.p("oneof");
                v.iter().for_each(|f| self.formula(f));
            }
            F::Exists(s, f) => {
                self.p("exists");
                self.p("(");
                self.typed_list(s);
                self.p(")");
                self.formula(f);
            }
            F::ForAll(s, f) => {
                self.p("forall");
                self.p("(");
                self.typed_list(s);
                self.p(")");
                self.formula(f);
            }
            F::Prob(v) => {
                self.p("probabilistic");
                for (_, text, f) in v {
                    self.p(text);
                    self.formula(f);
                }
            }
            F::Eq(a, b) => {
                self.p("=");
                self.name(a);
                self.name(b);
            }
        }
        self.p(")");
    }
    /// a conjunction that may be written without "and" if there is one element
    fn conj<X>(&mut self, v: &[X], f: impl Fn(&mut Self, &X)) {
        self.p("(");
        if v.len() == 1 && self.coin() {
            f(self, &v[0]);
            self.p(")");
            return;
        }
        if !v.is_empty() || self.coin() {
            self.p("and");
        }
        for x in v {
            self.p("(");
            f(self, x);
            self.p(")");
        }
        self.p(")");
    }
    fn tn(&mut self, t: &Tn) {
        if t.present {
            let kw = match (t.total, self.coin()) {
                (true, false) => ":ordered-subtasks",
                (true, true) => ":ordered-tasks",
                (false, false) => ":subtasks",
                (false, true) => ":tasks",
            };
            self.p(kw);
            self.conj(&t.subtasks, |r, s| {
                if let Some(id) = &s.id {
                    r.p(&id.name);
                    r.p("(");
                }
                r.p(&s.task.name);
                for a in &s.args {
                    r.name(&a.name);
                }
                if s.id.is_some() {
                    r.p(")");
                }
            });
            // the sections that may follow: ordering (if any) and constraints, possibly in parts
            let mut order: Vec<&[(String, Vec<String>)]> = vec![];
            let mut cons: Vec<&[(bool, String, String)]> = vec![];
            if t.order_line.is_some() {
                order.push(&t.order);
            }
            if let Some(c) = &t.constraints {
                cons.push(c);
            }
            if !t.total && self.rare() {
                order = order.iter().flat_map(|v| self.parts(v)).collect();
                cons = cons.iter().flat_map(|v| self.parts(v)).collect();
            }
            while !order.is_empty() || !cons.is_empty() {
                let c = order.is_empty() || (!cons.is_empty() && self.rare());
                if c {
                    let v = cons.remove(0);
                    self.constraints(v);
                } else {
                    let v = order.remove(0);
                    let kw = if self.coin() { ":order" } else { ":ordering" };
                    self.p(kw);
                    self.conj(v, |r, (a, bs)| {
                        r.p("<");
                        r.p(a);
                        for b in bs {
                            r.p(b);
                        }
                    });
                }
            }
        }
        self.p(")");
    }
    /// one or two parts
    fn parts<'b, X>(&mut self, v: &'b [X]) -> Vec<&'b [X]> {
        if self.coin() {
            let i = self.r.below(v.len() + 1);
            vec![&v[..i], &v[i..]]
        } else {
            vec![v]
        }
    }
    fn constraints(&mut self, c: &[(bool, String, String)]) {
        self.p(":constraints");
        self.conj(c, |r, (eq, a, b)| {
            if !eq {
                r.p("not");
                r.p("(");
            }
            r.p("=");
            r.name(a);
            r.name(b);
            if !eq {
                r.p(")");
            }
        });
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    /// a line per section
    Plain,
    OnePerLine,
    SingleLine,
    /// as few separators as possible
    Dense,
    /// random separators and comments
    Wild,
    /// as Wild, with valid UTF-8
    WildText,
    /// very many lines
    Tall,
    VeryTall,
}

pub struct Text {
    pub bytes: Vec<u8>,
    /// line of every token
    pub lines: Vec<u32>,
    pub eof: u32,
}

fn glue(a: &str, b: &str) -> bool {
    let paren = |s: &str| s == "(" || s == ")";
    paren(a) || paren(b) || a == "-" || a == "=" || (a == "<" && !b.starts_with('='))
}

fn comment(r: &mut Rng, text_only: bool, out: &mut Vec<u8>) {
    out.push(b';');
    let n = match r.below(6) {
        0 => 0,
        1..=4 => r.below(12),
        _ if r.below(150) == 0 => [200, 1000, 16000][r.below(3)] + r.below(400),
        _ => r.below(200),
    };
    for _ in 0..n {
        match r.below(6) {
            0 => out.extend(b"()"),
            1 => out.extend([&b"(:action "[..], &b";; \"'|# "[..], &b":types \t "[..], &b"- object )"[..]][r.below(4)]),
            2 if !text_only => {
                let b = (r.next() & 0xff) as u8;
                if b != b'\n' {
                    out.push(b);
                }
            }
            2 => out.extend("äß→😀".as_bytes()),
            3 => out.push(b'\r'),
            _ => out.push(b" abcXYZ019_-?:;<>=()"[r.below(20)]),
        }
    }
}

pub fn layout(toks: &[String], kind: Layout, seed: u64) -> Text {
    let mut r = Rng::new(seed);
    let mut t = Text { bytes: vec![], lines: vec![], eof: 1 };
    let tall_at = r.below(toks.len().max(1));
    let nl: &[u8] = if kind != Layout::OnePerLine && r.below(3) == 0 { b"\r\n" } else { b"\n" };
    let wild = matches!(kind, Layout::Wild | Layout::WildText);
    // how often there is more than the least separator
    let density = 1 + r.below(20);
    let comments = r.below(8);
    let mut counted = 0usize;
    let mut line = 1u32;
    for i in 0..=toks.len() {
        let last = i == toks.len();
        let needed = i > 0 && !last && !glue(&toks[i - 1], &toks[i]);
        match kind {
            Layout::Plain => {
                if i > 0 && !last {
                    if toks[i] == "(" && i + 1 < toks.len() && toks[i + 1].starts_with(':') {
                        t.bytes.extend(b"\n  ");
                    } else if needed || toks[i] == "(" {
                        t.bytes.push(b' ');
                    }
                } else if last {
                    t.bytes.push(b'\n');
                }
            }
            Layout::OnePerLine => {
                if i > 0 {
                    t.bytes.push(b'\n');
                }
            }
            Layout::SingleLine => {
                if i > 0 && !last {
                    t.bytes.push(b' ');
                }
            }
            Layout::Dense => {
                if needed {
                    t.bytes.push(b" \n\t"[r.below(3)]);
                }
            }
            Layout::Tall | Layout::VeryTall => {
                if needed || i == tall_at {
                    t.bytes.push(b' ');
                }
                if i == tall_at {
                    let n = match kind {
                        Layout::Tall => 70_000,
                        _ => [1_050_000, 1_050_000, 1_050_000, 16_800_000][r.below(4)],
                    };
                    let comment: &[u8] = if n < 10_000_000 && r.below(4) == 0 { b";(" } else { b"" };
                    for _ in 0..n {
                        t.bytes.extend(comment);
                        t.bytes.extend(nl);
                    }
                }
            }
            Layout::Wild | Layout::WildText => {
                let before = t.bytes.len();
                let mut n = if r.below(20) < density { 1 + r.below(3) } else { 0 };
                if last && n == 0 && r.below(3) == 0 {
                    n = 1;
                }
                for _ in 0..n {
                    match r.below(9) {
                        0..=2 => t.bytes.push(b' '),
                        3 => t.bytes.push(b'\t'),
                        4 | 5 => t.bytes.extend(nl),
                        6 if r.below(3) == 0 => t.bytes.push(b'\r'),
                        _ => {
                            if r.below(8) < comments {
                                comment(&mut r, kind == Layout::WildText, &mut t.bytes);
                                if !last || r.below(2) == 0 {
                                    t.bytes.extend(nl);
                                } else {
                                    break; // ends at the end of the file
                                }
                            } else {
                                t.bytes.push(b' ');
                            }
                        }
                    }
                }
                if needed && t.bytes.len() == before {
                    t.bytes.push(b' ');
                }
            }
        }
        let _ = wild;
        line += t.bytes[counted..].iter().filter(|b| **b == b'\n').count() as u32;
        counted = t.bytes.len();
        if last {
            t.eof = line;
        } else {
            t.lines.push(line);
            t.bytes.extend(toks[i].as_bytes());
        }
    }
    t
}
