use std::{env, path::Path, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=cpp");
    println!("cargo:rerun-if-changed=build.rs");
    let mut objs = vec![];
    for (name, def) in [("ref", "-DVH_PLAIN=1"), ("refdiv", "-DVH_DIV=1")] {
        let obj = Path::new(&out).join(format!("{name}.o"));
        let ok = Command::new("g++")
            .args(["-std=c++14", "-O2", "-fwrapv", "-fno-strict-aliasing", "-fPIC", "-w", "-c", def, "cpp/oracle.cpp", "-o"])
            .arg(&obj)
            .status()
            .expect("g++")
            .success();
        assert!(ok, "g++ failed");
        objs.push(obj);
    }
    let lib = Path::new(&out).join("libgfwxref.a");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).args(&objs).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=gfwxref");
    println!("cargo:rustc-link-lib=dylib=stdc++");
}
