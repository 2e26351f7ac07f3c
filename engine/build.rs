// Links the engine against the libLLVM that ships with the Rust toolchain
// building it (so that its bitcode reader always matches rustc) and libz3.
use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{sysroot}/lib");
    let mut found = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let p = e.unwrap().path();
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if n.starts_with("libLLVM.so.") {
            found = Some(p);
        }
    }
    let p = found.expect("libLLVM.so.* in the toolchain's lib directory");
    println!("cargo:rustc-link-arg={}", p.display());
    println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
