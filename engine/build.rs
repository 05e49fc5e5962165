use std::process::Command;
fn main() {
    // Link the engine with the libLLVM that belongs to the compiler building it, so that it reads the bitcode
    // that very compiler emits.
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sys = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{sys}/lib");
    let mut found = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let p = e.unwrap().path();
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if n.starts_with("libLLVM.so") || (n.starts_with("libLLVM-") && found.is_none()) {
            found = Some(p);
        }
    }
    let found = found.expect("libLLVM not found in the sysroot");
    println!("cargo:rustc-link-arg={}", found.display());
    println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
    println!("cargo:rustc-link-lib=z3");
}
