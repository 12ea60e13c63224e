//! The programs r-proxy and s-proxy.  `vh` becomes one of them when VH_PROXY says so: what they are
//! given on the command line is the same.
pub mod r {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/ws/mqtt_grpc_duality/src/bin/r-proxy.rs"));
    pub fn entry() -> i32 {
        main().is_err() as i32
    }
}
pub mod s {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/ws/mqtt_grpc_duality/src/bin/s-proxy.rs"));
    pub fn entry() -> i32 {
        main().is_err() as i32
    }
}
