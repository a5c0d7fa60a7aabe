use std::{env, fs, path::Path};
fn main() {
    // header.rs is what bindgen would make of the header; the functions are foreign, or made up.
    let other = if env::var("VP_MIRI").is_ok() { "made_up.rs" } else { "extern.rs" };
    let text = fs::read_to_string("header.rs").unwrap() + &fs::read_to_string(other).unwrap();
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("watcher_c.rs"), text).unwrap();
    println!("cargo:rerun-if-changed=header.rs");
    println!("cargo:rerun-if-changed={other}");
    println!("cargo:rerun-if-env-changed=VP_MIRI");
    if let Ok(d) = env::var("VP_TEE") {
        println!("cargo:rustc-link-arg-bins={d}/libtee.so");
        println!("cargo:rustc-link-arg-bins=-Wl,-rpath,{d}");
    }
    println!("cargo:rerun-if-env-changed=VP_TEE");
}
