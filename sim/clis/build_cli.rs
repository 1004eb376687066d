// The command line programs are binaries, so their source is compiled here as a module. The text
// is used as it is, except that inner attributes and doc comments at its start cannot stay and an
// asynchronous main is left to the simulated runtime to drive.
use std::{
    env, fs,
    path::{Path, PathBuf},
};

/// Paths from the root of the program lead to the module it is compiled as.
fn rooted(text: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(at) = rest.find("crate::") {
        let before = rest[..at].chars().last();
        out.push_str(&rest[..at + 7]);
        if !before.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '$') {
            out.push_str("program::");
        }
        rest = &rest[at + 7..];
    }
    out.push_str(rest);
    out
}

fn copy_modules(from: &Path, to: &Path, top: bool) {
    for e in fs::read_dir(from).into_iter().flatten().flatten() {
        let (path, name) = (e.path(), e.file_name());
        if path.is_dir() {
            fs::create_dir_all(to.join(&name)).expect("mkdir");
            copy_modules(&path, &to.join(&name), false);
        } else if path.extension().is_some_and(|x| x == "rs") && !(top && name == "main.rs") {
            println!("cargo:rerun-if-changed={}", path.display());
            let text = fs::read_to_string(&path).expect("module");
            fs::write(to.join(&name), rooted(&text)).expect("write");
        }
    }
}

pub fn prepare(source: &str) {
    println!("cargo:rerun-if-changed={source}");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=../build_cli.rs");
    let text = fs::read_to_string(source).expect("source of the program");
    let text = rooted(&text);
    let mut out = String::new();
    let mut is_async = false;
    for line in text.lines() {
        let t = line.trim_start();
        if t.starts_with("//!") || t.starts_with("#![") {
            out.push('\n');
            continue;
        }
        if t.starts_with("#[tokio::main") || t.starts_with("#[bip157::tokio::main") {
            is_async = true;
            out.push('\n');
            continue;
        }
        out.push_str(line);
        out.push('\n');
    }
    if is_async {
        out.push_str("\n#[allow(dead_code)]\npub async fn sim_main() -> anyhow::Result<()> {\n    main().await\n}\n");
    } else {
        out.push_str("\n#[allow(dead_code)]\npub fn sim_main() -> anyhow::Result<()> {\n    main()\n}\n");
    }
    let dest = PathBuf::from(env::var("OUT_DIR").expect("OUT_DIR"));
    if let Some(dir) = Path::new(source).parent() {
        copy_modules(dir, &dest, true);
    }
    fs::write(dest.join("program.rs"), out).expect("write");
}
