use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/simrt.o");
    let st = Command::new("gcc")
        .args(["-O2", "-g0", "-fno-strict-aliasing", "-fPIC", "-c", "csrc/simrt.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success(), "gcc failed on csrc/simrt.c");
    println!("cargo:rustc-link-arg-bins={obj}");
    println!("cargo:rerun-if-changed=csrc/simrt.c");
    println!("cargo:rerun-if-changed=csrc/simrt.h");
}
