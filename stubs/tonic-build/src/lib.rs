//! Stand-in for `tonic-build`: there is no protobuf compiler here (and the `.proto` submodule
//! is empty), so the message types are the hand-written ones in `ecdar_proto_buf.in`.
use std::path::Path;

pub fn compile_protos(_proto: impl AsRef<Path>) -> std::io::Result<()> {
    let out = std::env::var_os("OUT_DIR").expect("OUT_DIR is set for build scripts");
    std::fs::write(
        Path::new(&out).join("ecdar_proto_buf.rs"),
        include_str!("ecdar_proto_buf.in"),
    )
}
