use std::path::PathBuf;
use std::process::Command;

// Compiles the C++ front end of /repo together with the script interpreter that drives it.
fn main() {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let repo = "/repo";
    let mut objs = vec![];
    let mut srcs = vec![];
    let mut entries: Vec<_> = std::fs::read_dir(format!("{}/src/cxx", repo)).unwrap().map(|e| e.unwrap().path()).collect();
    entries.sort();
    for p in entries {
        println!("cargo:rerun-if-changed={}", p.display());
        if p.extension().map_or(false, |e| e == "cpp") {
            srcs.push(p);
        }
    }
    srcs.push(PathBuf::from("cxx/glue.cpp"));
    srcs.push(PathBuf::from("cxx/mem.cpp"));
    println!("cargo:rerun-if-changed=cxx");
    println!("cargo:rerun-if-changed={}/include", repo);
    println!("cargo:rerun-if-changed=build.rs");
    let children: Vec<_> = srcs
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let o = out.join(format!("cxx{}.o", i));
            objs.push(o.clone());
            Command::new("g++")
                .args(["-std=c++14", "-O1", "-g", "-fPIC", "-Wall", "-c"])
                .arg(format!("-I{}/include", repo))
                .arg(format!("-I{}/src/cxx", repo))
                .args(if s.ends_with("mem.cpp") { None } else { Some("-fsanitize=thread") })
                .arg("-o")
                .arg(&o)
                .arg(s)
                .spawn()
                .expect("g++")
        })
        .collect();
    for mut c in children {
        assert!(c.wait().unwrap().success(), "g++ failed");
    }
    // the front end's calls that create objects go through the glue, which notes them
    let mut cmd = vec![];
    for n in [
        "acontext_new", "acontext_new_independent", "adouble_default", "adouble_copy", "adouble_from_value", "op_add", "op_sub",
        "op_mul", "op_div", "max", "min", "sin", "cos", "tan", "abs", "exp", "ln",
    ] {
        cmd.push(format!("--redefine-sym=adv_{}=advsim_t_adv_{}", n, n));
    }
    // what it may wait for
    for n in ["pthread_mutex_lock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock"] {
        cmd.push(format!("--redefine-sym={}=advsim_{}", n, n));
    }
    for n in ["acquire", "release", "abort"] {
        cmd.push(format!("--redefine-sym=__cxa_guard_{}=advsim_cxa_guard_{}", n, n));
    }
    for o in &objs[..objs.len() - 2] {
        assert!(Command::new("objcopy").args(&cmd).arg(o).status().expect("objcopy").success());
    }
    let lib = out.join("libadvcxx.a");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).args(&objs).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=advcxx");
    println!("cargo:rustc-link-lib=dylib=stdc++");
}
