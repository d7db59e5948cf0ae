//! Native side: the document as a file.
use crate::doc::{self, Text};

fn node(e: usize, out: &mut String) {
    let name = doc::name(e);
    out.push('<');
    out.push_str(name);
    let all = [
        "id", "problem_size", "max_iter", "tolerance", "resolution_method", "damping", "max_step_abs", "max_step_rel",
        "min_value", "max_value", "dx_abs", "dx_rel", "perturbation_method", "stopping_criteria", "update_method",
    ];
    for a in all {
        let t = if e == 0 { Text::Absent } else { doc::attr(e, a) };
        match t {
            Text::Absent => (),
            Text::Number(k) => out.push_str(&format!(" {}=\"{:?}\"", a, crate::api::sym(k))),
            Text::Int(k) => out.push_str(&format!(" {}=\"{}\"", a, k)),
            Text::Word(w) => out.push_str(&format!(" {}=\"{}\"", a, w)),
        }
    }
    out.push_str(" var_name=\"anything\">\n");
    for k in 0..doc::children(e) {
        node(doc::child(e, k), out);
    }
    out.push_str(&format!("</{}>\n", name));
}
#[no_mangle]
extern "C" fn __document() {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>\n");
    node(0, &mut s);
    // a private folder: several of these run at once
    let d = std::env::temp_dir().join(format!("nrf-xml-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    std::fs::write(crate::h_xml::FILE, s).unwrap();
}
#[no_mangle]
extern "C" fn __try(f: extern "C-unwind" fn() -> u32) -> u32 {
    let r = std::panic::catch_unwind(|| f()).is_err() as u32;
    let d = std::env::current_dir().unwrap();
    if d.file_name().unwrap().to_string_lossy().starts_with("nrf-xml-") {
        let _ = std::fs::remove_file(d.join(crate::h_xml::FILE));
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir(&d);
    }
    r
}
