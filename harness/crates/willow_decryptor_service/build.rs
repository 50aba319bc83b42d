//! As the service's own build.rs, with prost-build instead of micro_rpc_build.
fn main() {
    let proto = "/repo/apps/willow/decryptor/actor/proto/willow_decryptor.proto";
    println!("cargo:rerun-if-changed={proto}");
    println!("cargo:rerun-if-changed=build.rs");
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.bytes([".apps.willow.decryptor.service.SnapshotKeyPair"]);
    config.compile_protos(&[proto], &[std::path::Path::new(proto).parent().unwrap()]).unwrap();
}
