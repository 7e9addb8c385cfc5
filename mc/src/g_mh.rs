#![allow(dead_code)]
include!("common.rs");

fn dispatch(id: &str, cx: &'static Cx) -> bool {
    match id {
        "C01" => mh::index_property(cx, mh::Prop::C01),
        "C02" => mh::index_property(cx, mh::Prop::C02),
        "C03" => mh::index_property(cx, mh::Prop::C03),
        _ => return false,
    }
    true
}
