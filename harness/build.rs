//! Extracts the memory functions and the allocator of /repo, on every build. See DESIGN.md.
use std::{env, fs, path::Path};

const SOURCE: &str = "/repo/shogi_core_c/src/no_std.rs";
/// Attributes that claim a name or a role in the final program. The text below them stays.
const DROPPED: [&str; 6] = [
    "#[no_mangle]",
    "#[unsafe(no_mangle)]",
    "#[panic_handler]",
    "#[alloc_error_handler]",
    "#[global_allocator]",
    "#[cfg(feature = \"alloc\")]",
];

fn word(s: &str) -> String {
    s.trim().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed={SOURCE}");
    let out = env::var("OUT_DIR").unwrap();
    if env::var("CARGO_FEATURE_C22").is_err() && env::var("CARGO_FEATURE_C25").is_err() {
        return;
    }
    let source = fs::read_to_string(SOURCE).unwrap();
    let (mut text, mut module, mut path) = (String::new(), String::new(), None);
    let mut allocator_next = false;
    for line in source.lines() {
        let code = line.trim();
        if let Some(rest) = code.strip_prefix("pub mod ").or_else(|| code.strip_prefix("mod ")) {
            module = word(rest);
        }
        if DROPPED.contains(&code) {
            allocator_next |= code == "#[global_allocator]";
            continue;
        }
        let mut line = line.to_string();
        if let Some(rest) = code.strip_prefix("mod ") {
            line = format!("pub mod {rest}");
        }
        if allocator_next && code.contains("static ") {
            // A way to reach the allocator, whatever it is called.
            let name = word(code.split("static ").nth(1).unwrap());
            text += &format!("pub fn the_allocator() -> &'static impl core::alloc::GlobalAlloc {{ &{name} }}\n");
            path = Some(module.clone());
            allocator_next = false;
        } else if let Some(rest) = code.split("static ").nth(1).filter(|_| code.contains("static ") && !code.starts_with("//") && !code.contains("'static")) {
            // The alignment of whatever the memory is taken from.
            let rest = rest.strip_prefix("mut ").unwrap_or(rest);
            if let Some((name, rest)) = rest.split_once(':') {
                let ty = rest.split('=').next().unwrap();
                text += &format!("pub const ALIGN_OF_{}: usize = core::mem::align_of::<{}>();\n", word(name), ty.trim());
                fs::write(Path::new(&out).join("align.rs"), format!("no_std::{module}::ALIGN_OF_{}", word(name))).unwrap();
            }
        }
        if env::var("CARGO_FEATURE_C25").is_ok() {
            line = line.replace("core::sync::atomic", "crate::shared").replace("std::sync::atomic", "crate::shared");
        }
        text += &line;
        text.push('\n');
    }
    let path = path.expect("no global allocator in /repo/shogi_core_c/src/no_std.rs");
    let path = if path.is_empty() { String::new() } else { format!("{path}::") };
    fs::write(Path::new(&out).join("no_std.rs"), text).unwrap();
    fs::write(Path::new(&out).join("allocator.rs"), format!("no_std::{path}the_allocator()")).unwrap();
}
