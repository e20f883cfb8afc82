//! Verification harnesses: each `h_*` function is executed symbolically from
//! the LLVM IR rustc produces for this crate together with /repo's crates and
//! xml-rs, and natively to replay single inputs.
#![allow(dead_code)]

pub mod sym;
pub mod util;

pub type Entry = (&'static str, extern "C" fn());

/// Declares harness entry points and the module's table of them.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() {
                $body
            }
        )*
        pub const TABLE: &[$crate::Entry] = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}

macro_rules! modules {
    ($($feat:literal $m:ident),* $(,)?) => {
        $(
            #[cfg(feature = $feat)]
            pub mod $m;
        )*
        pub fn find(name: &str) -> Option<extern "C" fn()> {
            let _ = name;
            $(
                #[cfg(feature = $feat)]
                for (n, f) in $m::TABLE {
                    if *n == name {
                        return Some(*f);
                    }
                }
            )*
            None
        }
    };
}

modules! {
    "p_total" total,
    "p_names" names,
    "p_card" card,
    "p_choice" choice,
    "p_skip" skip,
    "p_text" text,
    "p_ws" ws,
    "p_prim" prim,
    "p_enums" enums,
    "p_errors" errors,
    "p_serns" serns,
    "p_escape" escape,
    "p_round" round,
    "p_writer" writer,
    "p_stream" stream,
    "p_envelope" envelope,
    "p_opts" opts,
    "p_dupattr" dupattr,
    "p_drop" drop_once,
    "p_visitor" visitor,
    "p_zoo" zoo,
}
