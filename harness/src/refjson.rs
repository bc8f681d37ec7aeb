//! The exported tree that the reference model expects for a document.
use crate::ast::*;
use serde_json::{json, Map, Value};

fn pos(line: u32) -> Value {
    json!({ "line": line })
}
fn sym(s: &Sym) -> Value {
    let mut m = Map::new();
    m.insert("name".into(), json!(s.name));
    m.insert("name_pos".into(), pos(s.line));
    if let Some((t, l)) = &s.ty {
        m.insert("symbol_type".into(), json!(t));
        m.insert("type_pos".into(), pos(*l));
    }
    Value::Object(m)
}
fn syms(v: &[Sym]) -> Value {
    Value::Array(v.iter().map(sym).collect())
}
fn atom(a: &Atom) -> Value {
    json!({"name": a.name.name, "name_pos": pos(a.name.line), "variables": syms(&a.args)})
}
fn decl(d: &Decl, key: &str) -> Value {
    json!({"name": d.name.name, "name_pos": pos(d.name.line), key: syms(&d.params)})
}
pub fn formula(f: &F) -> Value {
    let list = |v: &Vec<F>| Value::Array(v.iter().map(formula).collect());
    match f {
        F::Empty => json!("Empty"),
        F::Atom(a) => json!({ "Atom": atom(a) }),
        F::Not(f) => json!({ "Not": formula(f) }),
        F::And(v) => json!({ "And": list(v) }),
        F::Or(v) => json!({ "Or": list(v) }),
        F::Xor(v) => json!({ "Xor": list(v) }),
        F::Exists(s, f) => json!({"Exists": [syms(s), formula(f)]}),
        F::ForAll(s, f) => json!({"ForAll": [syms(s), formula(f)]}),
        F::Prob(v) => {
            let branches: Vec<Value> = v
                .iter()
                .map(|(n, _, f)| {
                    let n = match n {
                        Num::Int(i) => json!({ "Integer": i }),
                        Num::Real(r) => json!({ "Real": r }),
                    };
                    json!({"Weighted": [n, formula(f)]})
                })
                .collect();
            json!({ "And": branches })
        }
        F::Eq(a, b) => json!({"Equals": [a, b]}),
    }
}
fn opt(f: &Option<F>) -> Value {
    f.as_ref().map(formula).unwrap_or(Value::Null)
}
fn tn(t: &Tn) -> Value {
    let subtasks: Vec<Value> = t
        .subtasks
        .iter()
        .map(|s| json!({"id": s.id.as_ref().map(sym), "task": sym(&s.task), "terms": syms(&s.args)}))
        .collect();
    let constraints = t.constraints.as_ref().map(|c| {
        c.iter()
            .map(|(eq, a, b)| if *eq { json!({"Equal": [a, b]}) } else { json!({"NotEqual": [a, b]}) })
            .collect::<Vec<_>>()
    });
    json!({
        "subtasks": subtasks,
        "ordering_pos": t.order_line.map(pos),
        "orderings": if t.total { json!("Total") } else { json!({"Partial": t.pairs()}) },
        "constraints": constraints,
    })
}
pub fn domain(d: &Domain) -> Value {
    let list = |v: &Vec<Sym>| if v.is_empty() { Value::Null } else { syms(v) };
    json!({
        "name": d.name,
        "types": list(&d.types),
        "constants": list(&d.constants),
        "requirements": d.requirements,
        "predicates": d.predicates.iter().map(|x| decl(x, "variables")).collect::<Vec<_>>(),
        "compound_tasks": d.tasks.iter().map(|x| decl(x, "parameters")).collect::<Vec<_>>(),
        "methods": d.methods.iter().map(|m| json!({
            "name": sym(&m.name),
            "task": sym(&m.task),
            "task_terms": syms(&m.task_args),
            "params": syms(&m.params),
            "precondition": opt(&m.pre),
            "tn": tn(&m.tn),
        })).collect::<Vec<_>>(),
        "actions": d.actions.iter().map(|a| json!({
            "name": a.name.name,
            "name_pos": pos(a.name.line),
            "parameters": syms(&a.params),
            "preconditions": opt(&a.pre),
            "effects": opt(&a.eff),
        })).collect::<Vec<_>>(),
        "functions": d.functions.iter().map(|x| decl(x, "variables")).collect::<Vec<_>>(),
    })
}
pub fn problem(p: &Problem) -> Value {
    json!({
        "requirements": p.requirements,
        "init_tn": p.htn.as_ref().map(|(params, t)| json!({
            "parameters": params.as_ref().map(|x| syms(x)),
            "tn": tn(t),
        })),
        "init_state": p.init.iter().map(atom).collect::<Vec<_>>(),
        "goal": opt(&p.goal),
        "objects": syms(&p.objects),
    })
}
pub fn root(d: &Domain, p: Option<&Problem>) -> Value {
    let mut m = Map::new();
    m.insert("domain".into(), domain(d));
    if let Some(p) = p {
        m.insert("problem".into(), problem(p));
    }
    Value::Object(m)
}
