// The service crate is a wasm binary: its modules are taken as they stand from the repository, with main.rs as crate root.
use std::{env, fs};
fn main() {
    let repo = env::var("VX_REPO").unwrap_or_else(|_| "/repo".into());
    let src = format!("{repo}/service/src");
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-env-changed=VX_REPO");
    let text = fs::read_to_string(format!("{src}/main.rs")).unwrap();
    let mut out = String::new();
    let mut skip_attr = false;
    for l in text.lines() {
        let t = l.trim();
        if t.starts_with("#![") { continue }
        if t.starts_with("mod tests") || (t.starts_with("#[cfg(test)]")) { skip_attr = t.starts_with("#["); continue }
        if skip_attr { skip_attr = false }
        let decl = t.strip_prefix("pub ").unwrap_or(t);
        if let Some(m) = decl.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            let m = m.trim();
            let p = if fs::metadata(format!("{src}/{m}.rs")).is_ok() { format!("{src}/{m}.rs") } else { format!("{src}/{m}/mod.rs") };
            out += &format!("#[path = \"{p}\"]\npub mod {m};\n");
        } else {
            out += &l.replace("pub fn main()", "pub fn vx_service_main()");
            out.push('\n');
        }
    }
    fs::write(format!("{}/svc_root.rs", env::var("OUT_DIR").unwrap()), out).unwrap();
}
