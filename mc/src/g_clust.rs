#![allow(dead_code)]
include!("common.rs");

fn dispatch(id: &str, cx: &'static Cx) -> bool {
    match id {
        "C15" => clust::c15(cx),
        "C16" => clust::c16(cx),
        "C17" => clust::c17(cx),
        "selftest" => clust::selftest(cx),
        _ => return false,
    }
    true
}
