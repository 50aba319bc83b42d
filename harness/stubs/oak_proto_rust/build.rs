fn main() {
    println!("cargo:rerun-if-changed=proto");
    prost_build::Config::new()
        .btree_map(["."])
        .compile_protos(&["proto/attestation.proto", "proto/session.proto"], &["proto"])
        .unwrap();
}
