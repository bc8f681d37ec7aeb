//! Real files, as seeds for mutation.
use crate::rng::Src;
use std::sync::OnceLock;

type Entry = (String, Vec<u8>, Option<Vec<u8>>);

fn all() -> &'static Vec<Entry> {
    static ALL: OnceLock<Vec<Entry>> = OnceLock::new();
    ALL.get_or_init(|| {
        let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../corpus");
        let mut v: Vec<Entry> = vec![];
        let mut names: Vec<_> = std::fs::read_dir(&dir)
            .map(|r| r.map(|e| e.unwrap().path()).collect::<Vec<_>>())
            .unwrap_or_default();
        names.sort();
        for n in &names {
            let s = n.file_name().unwrap().to_string_lossy().into_owned();
            if let Some(base) = s.strip_suffix(".domain.hddl") {
                let p = std::fs::read(dir.join(format!("{}.problem.hddl", base))).ok();
                v.push((base.into(), std::fs::read(n).unwrap(), p));
            }
        }
        if v.is_empty() {
            crate::engine::harness_error("the corpus is missing");
        }
        v
    })
}

pub fn pick(s: &mut Src) -> Entry {
    let v = all();
    v[s.below(v.len())].clone()
}

/// words and parentheses, without comments
pub fn split(b: &[u8]) -> Vec<String> {
    let mut out = vec![];
    for line in String::from_utf8_lossy(b).lines() {
        let line = line.split(';').next().unwrap();
        let mut word = String::new();
        for c in line.chars() {
            if c == '(' || c == ')' || c.is_whitespace() {
                if !word.is_empty() {
                    out.push(std::mem::take(&mut word));
                }
                if !c.is_whitespace() {
                    out.push(c.to_string());
                }
            } else {
                word.push(c);
            }
        }
        if !word.is_empty() {
            out.push(word);
        }
    }
    out
}
