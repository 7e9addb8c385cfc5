#![allow(dead_code)]
include!("common.rs");

fn dispatch(id: &str, cx: &'static Cx) -> bool {
    match id {
        "C18" => strindex::c18(cx),
        _ => return false,
    }
    true
}
