pub mod sym;
#[cfg(feature = "spec")]
pub mod spec;
#[cfg(feature = "common")]
pub mod common;
#[cfg(feature = "common")]
pub mod json;
#[cfg(feature = "nm")]
pub mod reg;
#[cfg(feature = "nm")]
pub mod nm;
#[cfg(feature = "nm")]
pub mod ver;
#[cfg(feature = "nm")]
pub mod lock;
#[cfg(feature = "fs")]
pub mod fsx;
#[cfg(feature = "fs")]
pub mod tar;
#[cfg(feature = "fs")]
pub mod scripts;
#[cfg(feature = "cli")]
pub mod cli;
#[cfg(feature = "net")]
pub mod net;
#[cfg(feature = "net")]
pub mod acct;

pub fn harnesses() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = Vec::new();
    #[cfg(feature = "spec")]
    v.extend_from_slice(spec::HARNESSES);
    #[cfg(feature = "common")]
    v.extend_from_slice(common::HARNESSES);
    #[cfg(feature = "common")]
    v.extend_from_slice(json::HARNESSES);
    #[cfg(feature = "nm")]
    v.extend_from_slice(nm::HARNESSES);
    #[cfg(feature = "nm")]
    v.extend_from_slice(ver::HARNESSES);
    #[cfg(feature = "nm")]
    v.extend_from_slice(lock::HARNESSES);
    #[cfg(feature = "fs")]
    v.extend_from_slice(fsx::HARNESSES);
    #[cfg(feature = "fs")]
    v.extend_from_slice(tar::HARNESSES);
    #[cfg(feature = "fs")]
    v.extend_from_slice(scripts::HARNESSES);
    #[cfg(feature = "cli")]
    v.extend_from_slice(cli::HARNESSES);
    #[cfg(feature = "net")]
    v.extend_from_slice(net::HARNESSES);
    #[cfg(feature = "net")]
    v.extend_from_slice(acct::HARNESSES);
    v
}

/// Declares harness entry points and the table used for native replay.
#[macro_export]
macro_rules! harnesses {
    ($($n:ident $b:block)*) => {
        $(#[no_mangle] pub fn $n() $b)*
        pub static HARNESSES: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
    };
}
