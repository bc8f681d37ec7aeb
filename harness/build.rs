// the run-time part of the coverage instrumentation (see tools/rustc-cov.sh), for all programs
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{}/cov.o", out);
    let st = std::process::Command::new("cc").args(["-O2", "-c", "cov.c", "-o", &o]).status().unwrap();
    assert!(st.success());
    println!("cargo:rustc-link-arg-bins={}", o);
    println!("cargo:rerun-if-changed=cov.c");
}
