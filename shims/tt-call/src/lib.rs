#![no_std]
//! `tt_call!` hands `{helper}` to a macro; `tt_return!` calls the helper back.
#[macro_export]
macro_rules! tt_call {
    (macro = [{ $m:ident }] ~~> $h:ident) => { $m! { { $h } } };
}
#[macro_export]
macro_rules! tt_return {
    ({ $h:ident } $($rest:tt)*) => { $h! { $($rest)* } };
}
