fn main() {
    println!("cargo:rerun-if-changed=proto/eraftpb.proto");
    prost_build::Config::new()
        .compile_protos(&["proto/eraftpb.proto"], &["proto"])
        .unwrap();
}
