//! As the service's own build.rs, with prost-build instead of micro_rpc_build.
fn main() {
    let proto = "/repo/apps/tablet_store/service/proto/tablet_store.proto";
    println!("cargo:rerun-if-changed={proto}");
    println!("cargo:rerun-if-changed=build.rs");
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.bytes([
        ".apps.tablet_store.service.TabletMetadata",
    ]);
    config.compile_protos(&[proto], &[std::path::Path::new(proto).parent().unwrap()]).unwrap();
}
