use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    for f in &["sim", "vfs"] {
        let obj = format!("{}/{}.o", out, f);
        let st = Command::new("gcc")
            .args(&["-O2", "-fno-delete-null-pointer-checks", "-g", "-fPIC", "-Wno-nonnull-compare", "-Wno-deprecated-declarations", "-c", &format!("csrc/{}.c", f), "-o", &obj])
            .status().expect("gcc");
        assert!(st.success());
        println!("cargo:rustc-link-arg-bins={}", obj);
        println!("cargo:rerun-if-changed=csrc/{}.c", f);
    }
    println!("cargo:objs={}", out);
    println!("cargo:rerun-if-changed=csrc/sim.h");
    println!("cargo:rerun-if-changed=csrc/core.h");
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rustc-link-arg-bins=-ldl");
    println!("cargo:rustc-link-arg-bins=-lpthread");
}
