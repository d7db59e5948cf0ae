#![allow(static_mut_refs, dead_code)]
#[path = "../../harness/src/api.rs"]
pub mod api;
pub mod doc;
pub mod h_xml;
#[path = "../../harness/src/rt.rs"]
pub mod rt;
#[cfg(feature = "native")]
#[path = "../../harness/src/native.rs"]
pub mod native;
#[cfg(feature = "native")]
pub mod write;

pub mod entry {
    #[no_mangle]
    pub extern "C" fn hx_c16() {
        crate::h_xml::h_c16()
    }
}
pub const HARNESSES: &[(&str, fn())] = &[("hx_c16", crate::h_xml::h_c16)];
