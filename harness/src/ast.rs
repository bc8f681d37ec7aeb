//! Syntax trees of the reference model. The generator builds them (lines are 0), and the
//! reference parser reads them back from text (with lines).

#[derive(Clone, Debug, PartialEq)]
pub struct Sym {
    pub name: String,
    pub line: u32,
    pub ty: Option<(String, u32)>,
}

impl Sym {
    pub fn new(name: &str) -> Sym {
        Sym { name: name.to_string(), line: 0, ty: None }
    }
    pub fn typed(name: &str, ty: &Option<String>) -> Sym {
        Sym { name: name.to_string(), line: 0, ty: ty.clone().map(|t| (t, 0)) }
    }
    pub fn tyname(&self) -> Option<&str> {
        self.ty.as_ref().map(|t| t.0.as_str())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Atom {
    pub name: Sym,
    pub args: Vec<Sym>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    Int(i64),
    Real(f64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Empty,
    Atom(Atom),
    Not(Box<F>),
    And(Vec<F>),
    Or(Vec<F>),
    Xor(Vec<F>),
    Exists(Vec<Sym>, Box<F>),
    ForAll(Vec<Sym>, Box<F>),
    /// probability (and how it is written), effect
    Prob(Vec<(Num, String, F)>),
    Eq(String, String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub name: Sym,
    pub params: Vec<Sym>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Action {
    pub name: Sym,
    pub params: Vec<Sym>,
    pub pre: Option<F>,
    pub eff: Option<F>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Subtask {
    pub id: Option<Sym>,
    pub task: Sym,
    pub args: Vec<Sym>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Tn {
    /// whether there is a (sub)tasks keyword at all
    pub present: bool,
    pub total: bool,
    pub subtasks: Vec<Subtask>,
    /// one entry per "(< a b c)"
    pub order: Vec<(String, Vec<String>)>,
    pub order_line: Option<u32>,
    pub constraints: Option<Vec<(bool, String, String)>>,
}

impl Tn {
    pub fn pairs(&self) -> Vec<(&str, &str)> {
        let mut v = vec![];
        for (a, bs) in &self.order {
            for b in bs {
                v.push((a.as_str(), b.as_str()));
            }
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Method {
    pub name: Sym,
    pub params: Vec<Sym>,
    pub task: Sym,
    pub task_args: Vec<Sym>,
    pub pre: Option<F>,
    pub tn: Tn,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Domain {
    pub name: String,
    pub requirements: Vec<&'static str>,
    pub types: Vec<Sym>,
    pub constants: Vec<Sym>,
    pub predicates: Vec<Decl>,
    pub functions: Vec<Decl>,
    pub tasks: Vec<Decl>,
    pub actions: Vec<Action>,
    pub methods: Vec<Method>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Problem {
    pub name: String,
    pub domain: String,
    pub requirements: Vec<&'static str>,
    pub objects: Vec<Sym>,
    pub htn: Option<(Option<Vec<Sym>>, Tn)>,
    pub init: Vec<Atom>,
    pub goal: Option<F>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    Domain(Domain),
    Problem(Problem),
}

impl F {
    pub fn depth(&self) -> usize {
        1 + match self {
            F::Empty | F::Atom(_) | F::Eq(_, _) => 0,
            F::Not(f) | F::Exists(_, f) | F::ForAll(_, f) => f.depth(),
            F::And(v) | F::Or(v) | F::Xor(v) => v.iter().map(|f| f.depth()).max().unwrap_or(0),
            F::Prob(v) => v.iter().map(|x| x.2.depth()).max().unwrap_or(0),
        }
    }
    /// all atoms; the flag says whether the atom is inside a quantifier
    pub fn atoms<'a>(&'a self, out: &mut Vec<(&'a Atom, bool)>, quant: bool) {
        match self {
            F::Empty | F::Eq(_, _) => {}
            F::Atom(a) => out.push((a, quant)),
            F::Not(f) => f.atoms(out, quant),
            F::Exists(_, f) | F::ForAll(_, f) => f.atoms(out, true),
            F::And(v) | F::Or(v) | F::Xor(v) => v.iter().for_each(|f| f.atoms(out, quant)),
            F::Prob(v) => v.iter().for_each(|x| x.2.atoms(out, quant)),
        }
    }
    pub fn atoms_mut<'a>(&'a mut self, out: &mut Vec<(&'a mut Atom, bool)>, quant: bool) {
        match self {
            F::Empty | F::Eq(_, _) => {}
            F::Atom(a) => out.push((a, quant)),
            F::Not(f) => f.atoms_mut(out, quant),
            F::Exists(_, f) | F::ForAll(_, f) => f.atoms_mut(out, true),
            F::And(v) | F::Or(v) | F::Xor(v) => v.iter_mut().for_each(|f| f.atoms_mut(out, quant)),
            F::Prob(v) => v.iter_mut().for_each(|x| x.2.atoms_mut(out, quant)),
        }
    }
}
