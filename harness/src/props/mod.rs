//! One oracle per property.

pub mod byhand;
pub mod calls;
pub mod errors;
pub mod format;
pub mod log;
pub mod macros;
pub mod mem;
pub mod serde_;
pub mod stream;
pub mod types;

use crate::run::Prop;

pub fn all() -> Vec<Prop> {
    vec![
        format::c01(),
        format::c02(),
        format::c03(),
        calls::c04(),
        calls::c05(),
        calls::c06(),
        calls::c07(),
        calls::c08(),
        calls::c09(),
        mem::c10(),
        mem::c11(),
        serde_::c12(),
        serde_::c14(),
        serde_::c15(),
        format::c16(),
        format::c17(),
        log::c18(),
        log::c19(),
        serde_::c20(),
        calls::c21(),
        serde_::c22(),
        format::c23(),
        mem::c24(),
        types::c25(),
        errors::c27(),
        stream::c28(),
        errors::c29(),
    ]
}
