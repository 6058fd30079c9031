use std::path::PathBuf;
/// The real `main` of the command-line tool becomes a module of the simulator.
fn main() {
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=SIM_NO_CLI");
    println!("cargo:rustc-check-cfg=cfg(no_cli)");
    let dir = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let toml = std::fs::read_to_string(dir.join("Cargo.toml")).unwrap();
    let repo = toml.lines().find(|l| l.starts_with("ppt-rs = ")).unwrap().split('"').nth(1).unwrap().to_string();
    let src = format!("{}/src/bin/pptcli.rs", repo);
    println!("cargo:rerun-if-changed={}", src);
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("pptcli.rs");
    let text = match std::fs::read_to_string(&src) {
        Ok(t) if std::env::var("SIM_NO_CLI").is_err() && t.contains("fn main()") => t,
        _ => {
            // the commands are then only run through the library
            println!("cargo:rustc-cfg=no_cli");
            std::fs::write(out, "pub fn main() {}\n").unwrap();
            return;
        }
    };
    let text: String = text
        .lines()
        .map(|l| if l.starts_with("//!") || l.starts_with("#![") { "" } else { l })
        .collect::<Vec<_>>()
        .join("\n");
    let text = text.replace("pub fn main()", "fn main()").replacen("fn main()", "pub fn main()", 1);
    std::fs::write(out, text).unwrap();
}
