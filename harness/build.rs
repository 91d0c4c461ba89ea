use std::fmt::Write;
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{}/rt.o", out);
    let st = Command::new("gcc").args(["-O1", "-g", "-c", "rt.c", "-o", &o]).status().expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg={}", o);
    println!("cargo:rerun-if-changed=rt.c");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=src");
    // entry points: every exported function of the enabled property modules
    let mut mods = String::new();
    let mut t = String::from("fn run(name: &str, tier: u32) -> bool {\n    match name {\n");
    for m in 1..=30 {
        let m = format!("c{:02}", m);
        if std::env::var(format!("CARGO_FEATURE_{}", m.to_uppercase())).is_err() {
            continue;
        }
        let Ok(s) = std::fs::read_to_string(format!("src/{}.rs", m)) else { continue };
        let _ = writeln!(mods, "#[path = {:?}] mod {};", format!("{}/src/{}.rs", std::env::var("CARGO_MANIFEST_DIR").unwrap(), m), m);
        let mut cfg = String::new();
        for l in s.lines() {
            if l.starts_with("#[cfg(") {
                cfg = l.to_string();
            } else if let Some(r) = l.strip_prefix("pub extern \"C\" fn ") {
                let n = r.split('(').next().unwrap();
                let _ = writeln!(t, "        {}\n        \"{}\" => {}::{}(tier),", cfg, n, m, n);
                cfg.clear();
            } else if !l.starts_with("#[") {
                cfg.clear();
            }
        }
    }
    t.push_str("        _ => { let _ = tier; return false },\n    }\n    #[allow(unreachable_code)]\n    true\n}\n");
    std::fs::write(format!("{}/entries.rs", out), mods + &t).unwrap();
}
