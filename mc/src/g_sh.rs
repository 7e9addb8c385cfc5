#![allow(dead_code)]
include!("common.rs");

fn dispatch(id: &str, cx: &'static Cx) -> bool {
    match id {
        "C08" => sh::index_property(cx, sh::P::C08),
        "C09" => sh::index_property(cx, sh::P::C09),
        _ => return false,
    }
    true
}
