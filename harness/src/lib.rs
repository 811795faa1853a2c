#![allow(dead_code)]
#[macro_use]
pub mod sx;
pub mod common;

macro_rules! modules {
    ($($f:literal $m:ident)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn table() -> Vec<(&'static str, extern "C" fn())> {
            #[allow(unused_mut)]
            let mut t: Vec<(&'static str, extern "C" fn())> = vec![];
            $(#[cfg(feature = $f)] t.extend_from_slice($m::TABLE);)*
            t
        }
    };
}
modules! {
    "frame" frame
    "codec" codec
    "play" play
    "lossy" lossy
    "format" format
    "io" io
    "robust" robust
    "quant" quant
    "bits" bits
    "headers" headers
    "coll" coll
    "math" math
    "wav" wav
    "cli" cli
}
