//! Reference parser: the grammar of the supported HDDL as an LL(1) recursive descent over the
//! reference lexer's tokens, written independently of the code under test.
//!
//! document  ::= '(' define '(' domain ID ')' { dsection } ')'
//!             | '(' define '(' problem ID ')' '(' domain ID ')' { psection } ( ')' | EOF )
//! (whatever follows the closing parenthesis is not read)
use crate::ast::*;
use crate::reflex::*;

#[derive(Clone, Debug, PartialEq)]
pub enum PErr {
    Lex { kind: BadKind, lexeme: String, line: u32 },
    Syn { found: String, line: u32 },
    /// nested deeper than what is specified
    TooDeep,
}

pub const MAX_DEPTH: usize = 100;

pub struct Parsed {
    pub doc: Doc,
    /// the problem ends at the end of the file without ')' (accepted)
    pub lenient_eof: bool,
    /// number of tokens that were used
    pub used: usize,
}

struct P<'a> {
    toks: &'a [(T, u32)],
    pos: usize,
    depth: usize,
    lenient_eof: bool,
}

type R<X> = Result<X, PErr>;

pub fn parse_bytes(bytes: &[u8]) -> Result<Parsed, PErr> {
    let toks = lex(bytes);
    parse_tokens(&toks)
}

pub fn parse_tokens(toks: &[(T, u32)]) -> Result<Parsed, PErr> {
    let mut p = P { toks, pos: 0, depth: 0, lenient_eof: false };
    let doc = p.document()?;
    Ok(Parsed { doc, lenient_eof: p.lenient_eof, used: p.pos })
}

impl<'a> P<'a> {
    fn peek(&self) -> (&'a T, u32) {
        let (t, l) = &self.toks[self.pos.min(self.toks.len() - 1)];
        (t, *l)
    }
    fn next(&mut self) -> (&'a T, u32) {
        let r = self.peek();
        self.pos += 1;
        r
    }
    /// error at the next token
    fn bad<X>(&self) -> R<X> {
        let (t, line) = self.peek();
        Err(match t {
            T::Bad(kind, lexeme) => PErr::Lex { kind: *kind, lexeme: lexeme.clone(), line },
            t => PErr::Syn { found: show(t), line },
        })
    }
    fn eat(&mut self, t: T) -> R<u32> {
        if *self.peek().0 == t {
            Ok(self.next().1)
        } else {
            self.bad()
        }
    }
    fn is(&self, t: T) -> bool {
        *self.peek().0 == t
    }
    fn id(&mut self) -> R<Sym> {
        match self.peek() {
            (T::Id(s), line) => {
                self.pos += 1;
                Ok(Sym { name: s.clone(), line, ty: None })
            }
            _ => self.bad(),
        }
    }
    fn document(&mut self) -> R<Doc> {
        self.eat(T::L)?;
        self.eat(T::Kw("define"))?;
        self.eat(T::L)?;
        match self.peek().0 {
            T::Kw("domain") => {
                self.next();
                let name = self.id()?.name;
                self.eat(T::R)?;
                Ok(Doc::Domain(self.domain(name)?))
            }
            T::Kw("problem") => {
                self.next();
                let name = self.id()?.name;
                self.eat(T::R)?;
                self.eat(T::L)?;
                self.eat(T::Kw("domain"))?;
                let domain = self.id()?.name;
                self.eat(T::R)?;
                Ok(Doc::Problem(self.problem(name, domain)?))
            }
            _ => self.bad(),
        }
    }
    fn domain(&mut self, name: String) -> R<Domain> {
        let mut d = Domain { name, ..Default::default() };
        loop {
            if self.is(T::R) {
                self.next();
                return Ok(d);
            }
            self.eat(T::L)?;
            match self.peek().0 {
                T::Kw("requirements") => {
                    self.next();
                    d.requirements.extend(self.requirements()?)
                }
                T::Kw("types") => {
                    self.next();
                    d.types.extend(self.typed_list()?)
                }
                T::Kw("constants") => {
                    self.next();
                    d.constants.extend(self.typed_list()?)
                }
                T::Kw("predicates") => {
                    self.next();
                    d.predicates.extend(self.signatures()?)
                }
                T::Kw("functions") => {
                    self.next();
                    d.functions.extend(self.signatures()?)
                }
                T::Kw("task") => {
                    self.next();
                    let (name, params) = self.header()?;
                    self.eat(T::R)?;
                    d.tasks.push(Decl { name, params });
                }
                T::Kw("action") => {
                    self.next();
                    let (name, params) = self.header()?;
                    let mut pre = None;
                    let mut eff = None;
                    if self.is(T::Kw("precondition")) {
                        self.next();
                        pre = Some(self.formula()?);
                    }
                    if self.is(T::Kw("effect")) {
                        self.next();
                        eff = Some(self.formula()?);
                    }
                    self.eat(T::R)?;
                    d.actions.push(Action { name, params, pre, eff });
                }
                T::Kw("method") => {
                    self.next();
                    let (name, params) = self.header()?;
                    self.eat(T::Kw("task"))?;
                    self.eat(T::L)?;
                    let task = self.id()?;
                    let task_args = self.typed_list()?;
                    let mut pre = None;
                    if self.is(T::Kw("precondition")) {
                        self.next();
                        pre = Some(self.formula()?);
                    } else if !self.is(T::Kw("(sub)tasks")) && !self.is(T::Kw("ordered-(sub)tasks")) {
                        return self.bad();
                    }
                    let tn = self.tn()?;
                    d.methods.push(Method { name, params, task, task_args, pre, tn });
                }
                _ => return self.bad(),
            }
        }
    }
    fn problem(&mut self, name: String, domain: String) -> R<Problem> {
        let mut p = Problem { name, domain, ..Default::default() };
        loop {
            if self.is(T::R) {
                self.next();
                return Ok(p);
            }
            if self.is(T::Eof) {
                self.lenient_eof = true;
                return Ok(p);
            }
            self.eat(T::L)?;
            match self.peek().0 {
                T::Kw("requirements") => {
                    self.next();
                    p.requirements.extend(self.requirements()?)
                }
                T::Kw("objects") => {
                    self.next();
                    p.objects.extend(self.typed_list()?)
                }
                T::Kw("init") => {
                    self.next();
                    let facts = self.signatures()?;
                    p.init.extend(facts.into_iter().map(|d| Atom { name: d.name, args: d.params }));
                }
                T::Kw("goal") if p.goal.is_none() => {
                    self.next();
                    p.goal = Some(if self.is(T::R) { F::Empty } else { self.formula()? });
                    self.eat(T::R)?;
                }
                T::Kw("htn") if p.htn.is_none() => {
                    self.next();
                    let params = if self.is(T::Kw("parameters")) {
                        self.next();
                        self.eat(T::L)?;
                        Some(self.typed_list()?)
                    } else {
                        None
                    };
                    p.htn = Some((params, self.tn()?));
                }
                _ => return self.bad(),
            }
        }
    }
    fn requirements(&mut self) -> R<Vec<&'static str>> {
        let mut v = vec![];
        loop {
            match self.peek().0 {
                T::Req(r) => {
                    self.next();
                    v.push(*r);
                }
                _ => {
                    self.eat(T::R)?;
                    return Ok(v);
                }
            }
        }
    }
    /// { ID } [ '-' ID ] ... ')'
    fn typed_list(&mut self) -> R<Vec<Sym>> {
        let mut done = vec![];
        let mut open: Vec<Sym> = vec![];
        loop {
            match self.peek().0 {
                T::Id(_) => open.push(self.id()?),
                T::Dash if !open.is_empty() => {
                    self.next();
                    let t = self.id()?;
                    for mut s in open.drain(..) {
                        s.ty = Some((t.name.clone(), t.line));
                        done.push(s);
                    }
                }
                _ => {
                    self.eat(T::R)?;
                    done.extend(open);
                    return Ok(done);
                }
            }
        }
    }
    fn signatures(&mut self) -> R<Vec<Decl>> {
        let mut v = vec![];
        while self.is(T::L) {
            self.next();
            let name = self.id()?;
            let params = self.typed_list()?;
            v.push(Decl { name, params });
        }
        self.eat(T::R)?;
        Ok(v)
    }
    fn header(&mut self) -> R<(Sym, Vec<Sym>)> {
        let name = self.id()?;
        self.eat(T::Kw("parameters"))?;
        self.eat(T::L)?;
        Ok((name, self.typed_list()?))
    }
    fn formula(&mut self) -> R<F> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            return Err(PErr::TooDeep);
        }
        self.eat(T::L)?;
        let f = match self.peek().0 {
            T::R => {
                self.next();
                F::Empty
            }
            T::Id(_) => {
                let name = self.id()?;
                F::Atom(Atom { name, args: self.typed_list()? })
            }
            T::Eq => {
                self.next();
                let a = self.id()?.name;
                let b = self.id()?.name;
                self.eat(T::R)?;
                F::Eq(a, b)
            }
            T::Op("not") => {
                self.next();
                let f = self.formula()?;
                self.eat(T::R)?;
                F::Not(Box::new(f))
            }
            T::Op(o @ ("and" | "or" | "oneof")) => {
                self.next();
                let mut v = vec![];
                while !self.is(T::R) {
                    v.push(self.formula()?);
                }
                self.next();
                match *o {
                    "and" => F::And(v),
                    "or" => F::Or(v),
                    _ => F::Xor(v),
                }
            }
            T::Op(o @ ("forall" | "exists")) => {
                self.next();
                self.eat(T::L)?;
                let vars = self.typed_list()?;
                let f = Box::new(self.formula()?);
                self.eat(T::R)?;
                if *o == "forall" {
                    F::ForAll(vars, f)
                } else {
                    F::Exists(vars, f)
                }
            }
            T::Op("probabilistic") => {
                self.next();
                let mut v = vec![];
                loop {
                    let num = match self.peek().0 {
                        T::Int(i) => Num::Int(*i),
                        T::Real(r) => Num::Real(*r),
                        _ => {
                            self.eat(T::R)?;
                            break;
                        }
                    };
                    self.next();
                    let f = self.formula()?;
                    if f == F::Empty {
                        // an effect is required: the ')' is not acceptable
                        self.pos -= 1;
                        return self.bad();
                    }
                    v.push((num, String::new(), f));
                }
                F::Prob(v)
            }
            _ => return self.bad(),
        };
        self.depth -= 1;
        Ok(f)
    }
    /// [ subtasks ... ] ')'
    fn tn(&mut self) -> R<Tn> {
        let mut tn = Tn::default();
        match self.peek().0 {
            T::R => {
                self.next();
                return Ok(tn);
            }
            T::Kw("(sub)tasks") => {
                self.next();
                tn.present = true;
                tn.subtasks = self.subtasks()?;
                loop {
                    match self.peek() {
                        (T::Kw("ordering"), line) => {
                            self.next();
                            tn.order_line = Some(line);
                            self.orderings(&mut tn.order)?;
                        }
                        (T::Kw("constraints"), _) => {
                            self.next();
                            let c = self.constraints()?;
                            tn.constraints.get_or_insert_with(Vec::new).extend(c);
                        }
                        _ => {
                            self.eat(T::R)?;
                            return Ok(tn);
                        }
                    }
                }
            }
            T::Kw("ordered-(sub)tasks") => {
                self.next();
                tn.present = true;
                tn.total = true;
                tn.subtasks = self.subtasks()?;
                if self.is(T::Kw("constraints")) {
                    self.next();
                    tn.constraints = Some(self.constraints()?);
                }
                self.eat(T::R)?;
                Ok(tn)
            }
            _ => self.bad(),
        }
    }
    fn subtasks(&mut self) -> R<Vec<Subtask>> {
        self.eat(T::L)?;
        match self.peek().0 {
            T::R => {
                self.next();
                Ok(vec![])
            }
            T::Op("and") => {
                self.next();
                let mut v = vec![];
                while self.is(T::L) {
                    self.next();
                    v.push(self.subtask()?);
                }
                self.eat(T::R)?;
                Ok(v)
            }
            _ => Ok(vec![self.subtask()?]),
        }
    }
    /// after '('
    fn subtask(&mut self) -> R<Subtask> {
        let first = self.id()?;
        if self.is(T::L) {
            self.next();
            let task = self.id()?;
            let args = self.names()?;
            self.eat(T::R)?;
            Ok(Subtask { id: Some(first), task, args })
        } else {
            Ok(Subtask { id: None, task: first, args: self.names()? })
        }
    }
    fn names(&mut self) -> R<Vec<Sym>> {
        let mut v = vec![];
        while let T::Id(_) = self.peek().0 {
            v.push(self.id()?);
        }
        self.eat(T::R)?;
        Ok(v)
    }
    fn orderings(&mut self, out: &mut Vec<(String, Vec<String>)>) -> R<()> {
        self.eat(T::L)?;
        match self.peek().0 {
            T::R => {
                self.next();
            }
            T::Op("and") => {
                self.next();
                while self.is(T::L) {
                    self.next();
                    self.ordering(out)?;
                }
                self.eat(T::R)?;
            }
            _ => self.ordering(out)?,
        }
        Ok(())
    }
    fn ordering(&mut self, out: &mut Vec<(String, Vec<String>)>) -> R<()> {
        self.eat(T::Lt)?;
        let a = self.id()?.name;
        let bs = self.names()?.into_iter().map(|s| s.name).collect();
        out.push((a, bs));
        Ok(())
    }
    fn constraints(&mut self) -> R<Vec<(bool, String, String)>> {
        self.eat(T::L)?;
        let mut v = vec![];
        match self.peek().0 {
            T::R => {
                self.next();
            }
            T::Op("and") => {
                self.next();
                while self.is(T::L) {
                    self.next();
                    v.push(self.constraint()?);
                }
                self.eat(T::R)?;
            }
            _ => v.push(self.constraint()?),
        }
        Ok(v)
    }
    fn constraint(&mut self) -> R<(bool, String, String)> {
        let neg = self.is(T::Op("not"));
        if neg {
            self.next();
            self.eat(T::L)?;
        }
        self.eat(T::Eq)?;
        let a = self.id()?.name;
        let b = self.id()?.name;
        self.eat(T::R)?;
        if neg {
            self.eat(T::R)?;
        }
        Ok((!neg, a, b))
    }
}
