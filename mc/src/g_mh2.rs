#![allow(dead_code)]
include!("common.rs");

fn dispatch(id: &str, cx: &'static Cx) -> bool {
    match id {
        "C05" => mh::c05(cx),
        "C13" => mh::c13(cx),
        "C21" => mh::c21(cx),
        _ => return false,
    }
    true
}
