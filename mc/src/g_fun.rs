#![allow(dead_code)]
include!("common.rs");

fn dispatch(id: &str, cx: &'static Cx) -> bool {
    match id {
        "C06" => hashing::c06(cx),
        "C07" => hashing::c07(cx),
        "C10" => sh::c10(cx),
        "C11" => measures::c11(cx),
        "C12" => measures::c12(cx),
        "C14" => text::c14(cx),
        _ => return false,
    }
    true
}
