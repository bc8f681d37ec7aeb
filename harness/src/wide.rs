//! Models that have very many of something: more than fit into one or two bytes.
use crate::inject::Cat;
use crate::rng::Src;

fn each(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut o = String::new();
    for i in 0..n {
        o += &f(i);
        o.push('\n');
    }
    o
}

/// a domain and perhaps a problem; well-formed unless a kind of fault is asked for (and there is a place for it)
pub fn model(s: &mut Src, fault: Option<Cat>) -> (Vec<u8>, Option<Vec<u8>>, &'static str) {
    let n = if s.chance(1, 7) { 65533 + s.below(12) } else { 250 + s.below(20) };
    let late = s.below(3);
    let at = match late {
        0 => n - 1,
        1 => s.below(n),
        _ => 0,
    };
    let i = at;
    let other = s.below(n);
    let j = if other == i { (i + 1) % n } else { other };
    let in_problem = s.chance(1, 2);
    let k = [0, 0, 0, 1, 2, 3, 5, 6, 7, 8, 9, 10][s.below(12)];
    // 256 and 65536 too many, too few: the counts differ only where a narrow number does not show it
    let delta = *s.pick(&[1usize, 256, 65536]);
    let mut d = String::from("(define (domain d)\n");
    let mut p = String::from("(define (problem p) (:domain d)\n");
    let label = match k {
        0 => {
            // parameters and arguments
            let m = if fault == Some(Cat::Arity) {
                if s.chance(1, 2) || n <= delta {
                    n + delta
                } else {
                    n - delta
                }
            } else {
                n
            };
            let ty = if fault == Some(Cat::Type) { " - u" } else { " - t" };
            d += "(:types t u)\n(:constants c - t)\n";
            let vars = each(n, |x| format!("?x{} - t", if fault == Some(Cat::Dup) && x == i { j } else { x }));
            let what = [0, 0, 0, 1, 2, 3][s.below(6)];
            let arg = |a: &str| {
                each(m, |x| {
                    if x != i {
                        return a.to_string();
                    }
                    match fault {
                        Some(Cat::Undef) => "?z".into(),
                        Some(Cat::Type) => "?u".into(),
                        _ => a.to_string(),
                    }
                })
            };
            match what {
                0 => d += &format!("(:predicates (p {}))\n", vars),
                1 => d += &format!("(:task q :parameters ({}))\n(:predicates (p))\n", vars),
                2 => d += &format!("(:action q :parameters ({}))\n(:predicates (p))\n", vars),
                _ => d += &format!("(:predicates (p))\n(:action q :parameters ({}) :effect (and {}))\n", vars, each(n, |_| "(p)".into())),
            }
            match what {
                0 => d += &format!("(:action a :parameters (?x - t ?u{}) :precondition (p {}))\n", ty, arg("?x")),
                _ => {
                    d += &format!(
                        "(:task g :parameters ())\n(:method m :parameters (?x - t ?u{}) :task (g) :subtasks (q {}))\n",
                        ty,
                        arg("?x")
                    )
                }
            }
            p += "(:init)";
            "arguments"
        }
        1 => {
            // types, one below another
            let chain = s.chance(1, 2);
            d += "(:types\n";
            d += &each(n, |x| {
                let x2 = match fault {
                    Some(Cat::CycType) if x == n - 1 => i,
                    _ => x + 1,
                };
                if chain || fault == Some(Cat::CycType) {
                    format!("t{} - t{}", x, x2)
                } else {
                    format!("t{} - t{}", x, n)
                }
            });
            if fault == Some(Cat::Dup) {
                d += &format!("t{} - t{}\n", i, n);
            }
            d += ")\n";
            let u = if fault == Some(Cat::Undef) { format!("t{}", n + delta) } else { format!("t{}", n) };
            d += &format!("(:predicates (p ?x - t{}) (q ?x - {}))\n", if fault == Some(Cat::Type) { i } else { n }, u);
            d += &format!("(:action a :parameters (?x - t{}) :precondition (p ?x))\n", if fault == Some(Cat::Type) { n } else { i });
            p += "(:init)";
            "types"
        }
        2 => {
            // constants or objects
            let list = each(n, |x| format!("c{}", if fault == Some(Cat::Dup) && x == i { j } else { x }));
            let used = if fault == Some(Cat::Undef) { n + delta } else { i };
            d += "(:predicates (p ?x))\n";
            if in_problem {
                p += &format!("(:objects {})\n", list);
            } else {
                d += &format!("(:constants {})\n", list);
            }
            p += &format!("(:init (p c{}) (p c{}))", if fault == Some(Cat::Dup) { j } else { i }, used);
            "objects"
        }
        3 | 4 => {
            // subtasks in a chain
            let n = n.min(280);
            let (i, j) = (i % n, j % n);
            let mut tn = format!(
                ":subtasks (and {})\n",
                each(n, |x| format!("(s{} ({}))", x, if fault == Some(Cat::Undef) && x == i { "b" } else { "a" }))
            );
            tn += &format!(
                ":ordering (and {} {})\n",
                each(n - 1, |x| format!("(< s{} s{})", x, x + 1)),
                if fault == Some(Cat::CycOrder) { format!("(< s{} s{})", i.max(j), i.min(j)) } else { String::new() }
            );
            d += "(:predicates (p))\n(:task t :parameters ())\n(:action a :parameters ())\n";
            if in_problem {
                p += &format!("(:htn :parameters () {})(:init)", tn);
            } else {
                d += &format!("(:method m :parameters () :task (t) {})\n", tn);
                p += "(:init)";
            }
            "subtasks"
        }
        5 | 6 => {
            // declarations (the analysis of the hierarchy takes more than linear time)
            let which = s.below(4);
            let n = if which == 0 { n } else { n.min(2000) };
            let (i, j) = (i % n, j % n);
            let j = if i == j { (i + 1) % n } else { j };
            let name = |x: usize| if fault == Some(Cat::Dup) && x == i { j } else { x };
            let used = if fault == Some(Cat::Undef) { n + delta } else if fault == Some(Cat::Dup) { j } else { i };
            match which {
                0 => {
                    d += &format!("(:predicates {})\n", each(n, |x| format!("(p{})", name(x))));
                    d += &format!("(:action a :parameters () :precondition (p{}))\n", used);
                }
                1 => {
                    d += &each(n, |x| format!("(:action a{} :parameters ())", name(x)));
                    d += &format!("(:task t :parameters ())\n(:method m :parameters () :task (t) :subtasks (a{}))\n", used);
                }
                2 => {
                    d += &each(n, |x| format!("(:task t{} :parameters ())", name(x)));
                    d += &format!("(:method m :parameters () :task (t{}) :subtasks ())\n", used);
                }
                _ => {
                    d += "(:task t :parameters ())\n";
                    d += &each(n, |x| {
                        let u = if fault == Some(Cat::Undef) && x == i { "u" } else { "t" };
                        format!("(:method m{} :parameters () :task ({}) :subtasks ())", name(x), u)
                    });
                }
            }
            p += "(:init)";
            "declarations"
        }
        _ => {
            // conjuncts, facts
            let mut one = |s: &mut Src, x: usize| -> String {
                if x == i {
                    match fault {
                        Some(Cat::Undef) => return (*s.pick(&["(r c)", "(p z)"])).into(),
                        Some(Cat::Arity) => return (*s.pick(&["(p)", "(p c c)"])).into(),
                        Some(Cat::Type) => return "(p o)".into(),
                        _ => {}
                    }
                }
                "(p c)".into()
            };
            let mut list = String::new();
            for x in 0..n {
                list += &one(s, x);
                list.push('\n');
            }
            d += "(:types t u)\n(:constants c - t o - u)\n(:predicates (p ?x - t))\n(:task g :parameters ())\n";
            match k {
                7 => p += &format!("(:init {})", list),
                8 => p += &format!("(:init) (:goal (and {}))", list),
                9 => d += &format!("(:action a :parameters () :precondition (and {}))", list),
                _ => d += &format!("(:method m :parameters () :task (g) :precondition (and {}) :subtasks ())", list),
            }
            if k >= 9 {
                p += "(:init)";
            }
            "conjuncts"
        }
    };
    d.push(')');
    p.push(')');
    let with = in_problem || k == 2 || k == 7 || k == 8;
    (d.into(), if with { Some(p.into()) } else { None }, label)
}
