//! With the feature "header": a shim compiled against libimagequant.h, through which the C API is called.
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_HEADER").is_none() {
        return;
    }
    let inc = std::env::var("DEP_IMAGEQUANT_INCLUDE").expect("include directory of imagequant-sys");
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=shim.c");
    println!("cargo:rerun-if-changed={inc}/libimagequant.h");
    let run = |c: &mut Command| assert!(c.status().expect("compiler").success(), "{c:?} failed");
    run(Command::new("gcc").args(["-O1", "-w", "-fPIC", "-fno-delete-null-pointer-checks", "-c", "shim.c", "-o"]).arg(format!("{out}/shim.o")).arg("-I").arg(&inc));
    let _ = std::fs::remove_file(format!("{out}/libshim.a"));
    run(Command::new("ar").arg("crs").arg(format!("{out}/libshim.a")).arg(format!("{out}/shim.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=shim");
}
