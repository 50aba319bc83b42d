//! Generates the messages of /repo/proto/src/endpoint.proto as /repo/proto/build.rs
//! does, with prost-build instead of Oak's micro_rpc_build and with the stand-in
//! Oak messages of stubs/oak_proto_rust.
use std::{env, fs, path::Path};

fn main() {
    let dir = "/repo/proto/src";
    println!("cargo:rerun-if-changed={dir}/endpoint.proto");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=../../stubs/oak_proto_rust/proto");
    let out = env::var("OUT_DIR").unwrap();
    let inc = Path::new(&out).join("inc");
    let stub = Path::new("../../stubs/oak_proto_rust/proto");
    for d in ["proto/attestation", "proto/session"] {
        fs::create_dir_all(inc.join(d)).unwrap();
    }
    let att = fs::read_to_string(stub.join("attestation.proto")).unwrap();
    let ses = fs::read_to_string(stub.join("session.proto"))
        .unwrap()
        .replace("\"attestation.proto\"", "\"proto/attestation/endorsement.proto\"");
    fs::write(inc.join("proto/attestation/endorsement.proto"), att).unwrap();
    fs::write(
        inc.join("proto/attestation/reference_value.proto"),
        "syntax = \"proto3\";\npackage oak.attestation.v1;\nimport public \"proto/attestation/endorsement.proto\";\n",
    )
    .unwrap();
    fs::write(inc.join("proto/session/session.proto"), ses).unwrap();
    fs::copy(Path::new(dir).join("endpoint.proto"), inc.join("endpoint.proto")).unwrap();

    let p = "trustedcompute.runtime.endpoint";
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.extern_path(".oak", "::oak_proto_rust::oak");
    config.bytes(
        [
            "StartReplicaRequest",
            "DeliverSystemMessage",
            "DeliverSnapshotRequest",
            "DeliverSnapshotResponse",
            "ExecuteProposalRequest",
            "ExecuteProposalResponse",
            "DeliverAppMessage",
            "Entry",
            "Payload",
        ]
        .map(|m| format!(".{p}.{m}")),
    );
    config.compile_protos(&[inc.join("endpoint.proto")], &[&inc]).unwrap();
    let tonic = Path::new(&out).join("tonic");
    fs::create_dir_all(&tonic).unwrap();
    // The micro_rpc server trait, and the server trait tonic would generate.
    let mut server = String::from(
        "pub trait EndpointService {\n    fn receive_message(&mut self, request: ReceiveMessageRequest) -> ::core::result::Result<ReceiveMessageResponse, ::micro_rpc::Status>;\n}\n",
    );
    if env::var("CARGO_FEATURE_TONIC").is_ok() {
        server.push_str(
            "pub mod endpoint_service_server {
                #[::tonic::async_trait]
                pub trait EndpointService: Send + Sync + 'static {
                    async fn receive_message(&self, request: ::tonic::Request<super::ReceiveMessageRequest>) -> ::core::result::Result<::tonic::Response<super::ReceiveMessageResponse>, ::tonic::Status>;
                }
            }",
        );
    }
    fs::write(tonic.join("trustedcompute.runtime.endpoint.rs"), server).unwrap();
}
