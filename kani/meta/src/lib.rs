#![allow(static_mut_refs, dead_code, unused, clippy::all)]
#[path = "@REPO@/opsqueue/src/consumer/dispatcher/metastate.rs"] pub mod metastate;
#[path = "@REPO@/opsqueue/src/tracing.rs"] pub mod tracing;
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* $name:ident($u:literal) $body:block)*) => {
        $( #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($u))] pub fn $name() $body )*
        pub fn dispatch(n: &str) -> bool { match n { $( stringify!($name) => { $name(); true } )* _ => false } }
    };
}
pub mod h_meta;
pub mod h_trace;
