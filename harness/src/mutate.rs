//! Mutations of token sequences and of bytes.
use crate::rng::Src;

pub const VOCAB: &[&str] = &[
    "(", ")", "(", ")", "-", "<", ">", "<=", ">=", "=", "and", "or", "oneof", "not", "forall", "exists", "imply",
    "when", "probabilistic", "define", "domain", "problem", ":domain", ":problem", ":define", ":requirements",
    ":objects", ":types", ":constants", ":predicates", ":functions", ":init", ":htn", ":task", ":action",
    ":parameters", ":method", ":precondition", ":effect", ":subtasks", ":tasks", ":ordered-subtasks",
    ":ordered-tasks", ":ordering", ":order", ":constraints", ":goal", ":typing", ":strips", ":hierarchy",
    ":equality", ":negative-preconditions", ":method-preconditions", ":universal-preconditions", ":htn-method",
    ":Action", ":conditional-effects", ":foo", ":", "?", "?x", "?and", "?3", "??", "?:x", "x", "y", "x1", "_", "_a",
    "a-b", "1", "0", "0.5", "1.", "1.2.3", "3x", "0.5x", "99999999999999999999", "9223372036854775807",
    "9223372036854775808", ".5", "-1", "-x", "x-", "--", "a.b", "a+b", "a,b", "[x]", "\"x\"", "#", "'", "<x", "=x",
    ">x", "x=y", "x<y", "x:", "a?b", "*", "/", "+", "AND", "Define", "action", "types", "task", "subtasks", "\u{7f}",
    "\u{0}", "\u{b}", "\u{c}", "=<", "<<", "<>", "==", ">=<", "()", "(x)", ")(",
];

/// words that are easily taken for one another
const KINDS: &[&[&str]] = &[
    &["<", ">", "<=", ">=", "=", "-"],
    &["and", "or", "oneof", "not", "imply", "when", "forall", "exists", "probabilistic"],
    &[":subtasks", ":tasks", ":ordered-subtasks", ":ordered-tasks", ":task", ":ordering", ":order", ":constraints"],
    &[":precondition", ":effect", ":parameters", ":subtasks", ":constraints", ":goal"],
    &["domain", "problem", "define", ":domain", ":problem"],
    &[":action", ":method", ":task", ":htn", ":init", ":goal"],
    &[":types", ":objects", ":constants", ":predicates", ":functions", ":requirements", ":constraints"],
];

/// what other planning languages have in such places; '_' is a word of the text
const SNIPPETS: &[&str] = &[
    "( either _ _ )", "( either _ )", "- ( either _ _ )", "- ( _ )", "( _ _ )", "( when ( _ ) ( _ ) )", "( when _ _ )",
    "( increase ( _ ) 1 )", "( = ( _ ) 1 )", "( = ( _ _ ) 0.5 )", "( > ( _ ) 1 )", "( at 5 ( _ ) )", "( at start ( _ ) )",
    "( preference _ ( _ ) )", "( imply ( _ ) ( _ ) )", "( :metric minimize ( _ ) )", "( :derived ( _ ) ( _ ) )",
    "( :durative-action _ :parameters ( ) )", "( :constraints ( _ ) )", "( :goal-tasks ( _ ) )", "- number", "- object",
    ": vars ( _ )", ":vars ( ?x )", ":duration ( = ?d 5 )", ":cost 5", ":cost ( _ )", ":conditions ( _ )",
    ":causal-links ( and )", ":causal-links ( )", ":expansion ( _ )", ":before ( _ )", ":after ( _ )", ":id _", ":tag _",
    ":parameters ( )", ":parameters ( ?x - _ )", ":precondition ( )", ":effect ( )", ":ordering ( )", ":ordering ( < _ _ )",
    ":constraints ( )", ":constraints ( = _ _ )", ":constraints ( not ( = _ _ ) )", ":constraints ( sort ?x - _ )",
    "( sort ?x - _ )", ":subtasks ( )", ":ordered-subtasks ( )", ":task ( _ )", "( > _ _ )", "( < _ _ _ )", "( <= _ _ )",
    "( = _ _ )", "( != _ _ )", "( not ( = _ _ ) )", "( not _ )", "( and _ _ )", "( or )", "( oneof ( _ ) )", "( forall ?x ( _ ) )",
    "( forall ( ?x - _ ) ( _ ) ( _ ) )", "( exists ( ?x ) )", "( probabilistic 1/2 ( _ ) )", "( probabilistic ( _ ) 0.5 )",
    "( 0.5 ( _ ) )", "0.5 ( _ )", "( )", "( ( _ ) )", "( ( ) )", "( _ ( _ ) )", "( _ ( _ _ ) )", "( _ )", "- 5", "-5", "1e5", "+1",
    "1/2", "0x1f", "#t", "#| x |#", "\"a b\"", "@ _", ", _", "| x |", "[ _ ]", "{ _ }", "` _", "' _", "<- _", "-> _", "== _",
    "( define ( domain _ ) )", "( define ( problem _ ) ( :domain _ ) )", "( :domain _ )", "( :requirements :typing )",
    "( :requirements :adl )", "( :types )", "( :init ( not ( _ ) ) )", "( not ( _ ) )", "( :include _ )", "( :extends _ )",
    "( :task _ :parameters ( ) :precondition ( ) )", "( :task _ )", "( :action _ )", "( :method _ :task ( _ ) )",
];

fn group(t: &[String], i: usize) -> usize {
    // end (exclusive) of the group that starts at i
    let mut depth = 0i64;
    for (j, x) in t.iter().enumerate().skip(i) {
        if x == "(" {
            depth += 1;
        } else if x == ")" {
            depth -= 1;
        }
        if depth <= 0 {
            return j + 1;
        }
    }
    t.len()
}

const NUMBERS: &[&str] = &[
    "0", "00", "007", "1.", "1.0", "0.50", "00.5", ".5", "0.5e5", "0.5e-5", "0.5E5", "1e5", "1.e3", "1.5f", "0x1F", "1_000",
    "1,5", "1/2", "1..2", "1.2.3", "5%", "1.5.", "9223372036854775807", "9223372036854775808", "18446744073709551616",
    "340282366920938463463374607431768211456", "9007199254740993", "0.1000000000000000055511151231257827", "1.7976931348623157",
    "4.9", "12345678901234567890.5", "0.00000000000000000000000001", "0b1", "1a", "1-2", "-1", "+1", "1?x", "inf", "nan",
];

pub fn tokens(s: &mut Src, t: &mut Vec<String>) -> &'static str {
    if t.is_empty() {
        t.push("(".into());
        return "insert";
    }
    let n = t.len();
    // errors near the beginning hide the rest: choose positions uniformly
    let i = s.below(n);
    let groups: Vec<usize> = (0..n).filter(|i| t[*i] == "(").collect();
    let at_group = |s: &mut Src| if groups.is_empty() { 0 } else { groups[s.below(groups.len())] };
    match s.below(23) {
        22 => {
            // another spelling of a number, or something like it
            let nums: Vec<usize> = (0..n).filter(|i| t[*i].starts_with(|c: char| c.is_ascii_digit())).collect();
            let w = s.pick(NUMBERS).to_string();
            match nums.is_empty() {
                true => t.insert(i, w),
                false => t[nums[s.below(nums.len())]] = w,
            }
            "number"
        }
        20 | 21 => {
            let mut w: Vec<String> = s.pick(SNIPPETS).split(' ').map(String::from).collect();
            let words: Vec<usize> =
                (0..n).filter(|i| t[*i].starts_with(|c: char| c.is_ascii_alphabetic() || c == '?')).collect();
            for x in w.iter_mut().filter(|x| *x == "_") {
                *x = if words.is_empty() { "x".into() } else { t[words[s.below(words.len())]].clone() };
            }
            // before a token, instead of one, instead of a group, after a dash
            let dashes: Vec<usize> = (0..n).filter(|i| t[*i] == "-").collect();
            let (a, b) = match s.below(5) {
                0 if !dashes.is_empty() => {
                    let d = dashes[s.below(dashes.len())];
                    (d + 1, (d + 2).min(n))
                }
                1 => (i, i + 1),
                2 => {
                    let g = at_group(s);
                    (g, group(t, g))
                }
                3 => {
                    let g = at_group(s);
                    (g, g)
                }
                _ => (i, i),
            };
            t.splice(a..b, w);
            "snippet"
        }
        18 | 19 => {
            // a word or an operator for one of the same kind
            let class = |w: &str| KINDS.iter().position(|k| k.contains(&w));
            let special: Vec<usize> = (0..n).filter(|i| class(&t[*i]).is_some()).collect();
            if special.is_empty() {
                t.push(")".into());
                return "append";
            }
            // the rare ones as often as the frequent ones
            let mut words: Vec<&String> = special.iter().map(|i| &t[*i]).collect();
            words.sort();
            words.dedup();
            let w = words[s.below(words.len())].clone();
            let with: Vec<usize> = special.into_iter().filter(|i| t[*i] == w).collect();
            let i = with[s.below(with.len())];
            let ks: Vec<&&[&str]> = KINDS.iter().filter(|k| k.contains(&w.as_str())).collect();
            let k = ks[s.below(ks.len())];
            t[i] = k[s.below(k.len())].to_string();
            "kindred"
        }
        16 | 17 => {
            // a character at the end, the beginning or within a token
            let nums: Vec<usize> = (0..n).filter(|i| t[*i].starts_with(|c: char| c.is_ascii_digit())).collect();
            let i = if !nums.is_empty() && s.chance(1, 3) { nums[s.below(nums.len())] } else { i };
            let c = if s.chance(1, 12) { s.below(128) as u8 as char } else { (33 + s.below(94)) as u8 as char };
            let len = t[i].len();
            let at = match s.below(5) {
                0 | 1 => len,
                2 => 0,
                _ => s.below(len + 1),
            };
            // (separators and comments would make the layout matter)
            if t[i].is_char_boundary(at) && c != ';' && !c.is_ascii_whitespace() {
                t[i].insert(at, c);
            }
            "attach"
        }
        0 | 1 => {
            t.remove(i);
            "delete"
        }
        2 | 3 => {
            let w = s.pick(VOCAB).to_string();
            t.insert(i, w);
            "insert"
        }
        4 | 5 => {
            t[i] = s.pick(VOCAB).to_string();
            "replace"
        }
        6 => {
            let x = t[i].clone();
            t.insert(i, x);
            "double"
        }
        7 => {
            if i + 1 < n {
                t.swap(i, i + 1);
            }
            "swap"
        }
        8 => {
            t.truncate(i);
            "truncate"
        }
        9 => {
            let g = at_group(s);
            let e = group(t, g);
            t.drain(g..e);
            "delete-group"
        }
        10 => {
            let g = at_group(s);
            let e = group(t, g);
            let x: Vec<String> = t[g..e].to_vec();
            let at = s.below(n + 1);
            t.splice(at..at, x);
            "copy-group"
        }
        11 => {
            let g = at_group(s);
            let e = group(t, g);
            let x: Vec<String> = t.drain(g..e).collect();
            let at = at_group(s).min(t.len());
            t.splice(at..at, x);
            "move-group"
        }
        12 => {
            let g = at_group(s);
            let e = group(t, g);
            if e <= t.len() {
                t.insert(e, ")".into());
            }
            let k = s.below(3);
            if k > 0 {
                t.insert(g, ["and", "not"][k - 1].into());
            }
            t.insert(g, "(".into());
            "wrap-group"
        }
        13 => {
            // a token of this text somewhere else
            let j = s.below(n);
            t[i] = t[j].clone();
            "replace-own"
        }
        14 => {
            let j = s.below(n);
            let x = t[j].clone();
            t.insert(i, x);
            "insert-own"
        }
        _ => {
            // keyword inside or a keyword for another one
            let kws: Vec<usize> = (0..n).filter(|i| t[*i].starts_with(':')).collect();
            if kws.is_empty() {
                t.push(")".into());
                return "append";
            }
            let k = kws[s.below(kws.len())];
            match s.below(3) {
                0 => t[k] = t[k][1..].to_string(),
                1 => t[k] = t[kws[s.below(kws.len())]].clone(),
                _ => {
                    t.remove(k);
                }
            }
            "keyword"
        }
    }
}

pub fn bytes(s: &mut Src, b: &mut Vec<u8>) {
    let n = b.len();
    if n == 0 {
        b.push(s.below(256) as u8);
        return;
    }
    let i = s.below(n);
    match s.below(10) {
        0 => b[i] = s.below(256) as u8,
        1 if s.chance(1, 3) => b[i] = 33 + s.below(94) as u8,
        2 if s.chance(1, 3) => {
            let x = 33 + s.below(94) as u8;
            b.insert(i, x);
        }
        1 => b[i] = *s.pick(b"()-<>=;:?. \n\r\t0123456789aZ_\0\xff\x80\xc3"),
        2 => {
            let x = *s.pick(b"()-<>=;:?. \n\r\t0123456789aZ_\0\xff\x80\xc3");
            b.insert(i, x);
        }
        3 => {
            b.remove(i);
        }
        4 => b.truncate(i),
        5 => {
            let len = 1 + s.below(40).min(n - i - 1);
            b.drain(i..i + len);
        }
        6 => {
            let len = 1 + s.below(60).min(n - i - 1);
            let x: Vec<u8> = b[i..i + len].to_vec();
            let at = s.below(n);
            b.splice(at..at, x);
        }
        7 => {
            let w = s.pick(VOCAB).as_bytes().to_vec();
            b.splice(i..i, w);
        }
        8 => {
            b.drain(..i);
        }
        _ => b[i] ^= 1 << s.below(8),
    }
}
