fn main() {
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join("built.rs"), "#[allow(dead_code)]\npub const PKG_VERSION: &str = \"0\";\n").unwrap();
}
