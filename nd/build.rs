use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=src/nd.c");
    let o = format!("{out}/nd.o");
    assert!(Command::new("gcc").args(["-O1", "-c", "-fPIC", "src/nd.c", "-o", &o]).status().unwrap().success());
    assert!(Command::new("ar").args(["rcs", &format!("{out}/libndnative.a"), &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:-bundle=ndnative");
}
