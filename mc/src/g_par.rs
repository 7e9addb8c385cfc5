#![allow(dead_code)]
include!("common.rs");

fn dispatch(id: &str, cx: &'static Cx) -> bool {
    match id {
        "C04" => par::c04(cx),
        _ => return false,
    }
    true
}
