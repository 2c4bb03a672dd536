// Turns the hooks on and generates the metadata types from the schema in the
// working tree, as /repo/build.rs does, but without writing into /repo.
fn main() {
    println!("cargo:rustc-cfg=meerkat_verif");
    // a way to observe the block index that does not depend on its fields
    println!("cargo:rerun-if-env-changed=VH_NOTED");
    if std::env::var("VH_NOTED").is_ok() {
        println!("cargo:rustc-cfg=meerkat_verif_noted");
    }
    // hash of the sources: a changed tree is rebuilt whatever its time stamps
    println!("cargo:rerun-if-env-changed=VH_STAMP");
    println!(
        "cargo:rustc-env=VH_BUILT_FROM={}",
        std::env::var("VH_STAMP").unwrap_or_default()
    );
    println!("cargo:rerun-if-changed=/repo/src");
    println!("cargo:rerun-if-changed=build.rs");
    // modules of /repo's crate root besides the store, for a store that uses them
    let root = std::fs::read_to_string("/repo/src/main.rs").unwrap_or_default();
    let mut more = String::new();
    for line in root.lines() {
        let line = line.trim_start_matches("pub ");
        let name = match line.strip_prefix("mod ").and_then(|l| l.strip_suffix(";")) {
            Some(n) => n.trim(),
            None => continue,
        };
        let own = ["build", "server", "store", "buffers", "codec", "column", "content", "decode", "reader", "segment", "sys"];
        if own.contains(&name) {
            continue;
        }
        for f in [format!("/repo/src/{}.rs", name), format!("/repo/src/{}/mod.rs", name)].iter() {
            if std::path::Path::new(f).is_file() {
                more += &format!("#[allow(dead_code, unused_imports, unused_macros)]\n#[path = {:?}]\n#[macro_use]\nmod {};\n", f, name);
            }
        }
    }
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("more.rs"), more).unwrap();
    tonic_build::configure()
        .format(false)
        .compile(
            &["/repo/src/store/segment_metadata.proto"],
            &["/repo/src/store/"],
        )
        .expect("protobuf compilation failed");
}
