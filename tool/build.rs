// Makes the command-line tool callable as a library function: its main.rs, verbatim except that
// crate-level attributes are dropped, followed by one public function that calls `main`.
fn main() {
    let src = "/repo/src/main.rs";
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-changed=build.rs");
    let text: String = std::fs::read_to_string(src)
        .expect("main.rs")
        .lines()
        .filter(|l| !l.trim_start().starts_with("#!["))
        .map(|l| format!("{l}\n"))
        .collect();
    let tail = "\npub fn sim_main() -> bool {\n    let r = main();\n    let c = ::std::process::Termination::report(r);\n    format!(\"{:?}\", c) == format!(\"{:?}\", ::std::process::ExitCode::SUCCESS)\n}\n";
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/tool.rs"), text + tail).unwrap();
}
