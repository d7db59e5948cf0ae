#![allow(static_mut_refs)]
pub mod api;
pub mod common;
pub mod h_kernel;
pub mod h_log;
pub mod h_solve;
pub mod h_util;
pub mod rt;
#[cfg(feature = "native")]
pub mod native;

macro_rules! harnesses {
    ($($name:ident = $f:path;)*) => {
        pub mod entry {
            $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        }
        pub const HARNESSES: &[(&str, fn())] = &[$((stringify!($name), $f)),*];
    };
}
harnesses! {
    hx_c01 = crate::h_solve::h_c01;
    hx_c03 = crate::h_solve::h_c03;
    hx_course = crate::h_solve::h_course;
    hx_c13 = crate::h_solve::h_c13;
    hx_c14 = crate::h_solve::h_c14;
    hx_c18 = crate::h_solve::h_c18;
    hx_c22 = crate::h_log::h_c22;
    hx_c22t = crate::h_log::h_c22t;
    hx_c23 = crate::h_log::h_c23;
    hx_c05 = crate::h_kernel::h_c05;
    hx_c06p = crate::h_kernel::h_c06p;
    hx_c06j = crate::h_kernel::h_c06j;
    hx_c07 = crate::h_kernel::h_c07;
    hx_c07d = crate::h_kernel::h_c07d;
    hx_c08 = crate::h_kernel::h_c08;
    hx_c08v = crate::h_kernel::h_c08v;
    hx_c10 = crate::h_kernel::h_c10;
    hx_c10f = crate::h_kernel::h_c10f;
    hx_c15 = crate::h_kernel::h_c15;
    hx_c17 = crate::h_kernel::h_c17;
    hx_c19 = crate::h_kernel::h_c19;
    hx_c20 = crate::h_util::h_c20;
    hx_c21 = crate::h_util::h_c21;
}
