//! The properties and their checks.

use crate::runner::Check;

#[cfg(feature = "in-process")]
pub mod chars;
#[cfg(feature = "in-process")]
pub mod core;
#[cfg(feature = "in-process")]
pub mod errors;
#[cfg(feature = "in-process")]
pub mod large;
#[cfg(feature = "in-process")]
pub mod laws;
#[cfg(feature = "in-process")]
pub mod memory;
#[cfg(feature = "in-process")]
pub mod nums;
pub mod progs;
#[cfg(feature = "in-process")]
pub mod protocol;
#[cfg(feature = "in-process")]
pub mod regexes;
pub mod reject;
#[cfg(feature = "in-process")]
pub mod regions;
#[cfg(feature = "in-process")]
pub mod rules;
#[cfg(feature = "in-process")]
pub mod sizes;
#[cfg(feature = "in-process")]
pub mod work;
#[cfg(feature = "in-process")]
pub mod wrap;

type Make = fn() -> Check;

const ALL: &[(&str, Make)] = &[
    #[cfg(feature = "in-process")]
    ("C01", core::c01),
    #[cfg(feature = "in-process")]
    ("C02", regexes::c02),
    #[cfg(feature = "in-process")]
    ("C03", nums::c03),
    #[cfg(feature = "in-process")]
    ("C04", nums::c04),
    #[cfg(feature = "in-process")]
    ("C05", chars::c05),
    #[cfg(feature = "in-process")]
    ("C06", regions::c06),
    #[cfg(feature = "in-process")]
    ("C07", regions::c07),
    #[cfg(feature = "in-process")]
    ("C08", core::c08),
    #[cfg(feature = "in-process")]
    ("C09", core::c09),
    #[cfg(feature = "in-process")]
    ("C10", errors::c10),
    #[cfg(feature = "in-process")]
    ("C11", core::c11),
    #[cfg(feature = "in-process")]
    ("C12", rules::c12),
    ("C13", progs::c13),
    ("C14", reject::c14),
    #[cfg(feature = "in-process")]
    ("C15", wrap::c15),
    #[cfg(feature = "in-process")]
    ("C16", wrap::c16),
    #[cfg(feature = "in-process")]
    ("C17", protocol::c17),
    #[cfg(feature = "in-process")]
    ("C18", wrap::c18),
    #[cfg(feature = "in-process")]
    ("C19", protocol::c19),
    #[cfg(feature = "in-process")]
    ("C20", errors::c20),
    #[cfg(feature = "in-process")]
    ("C21", laws::c21),
    #[cfg(feature = "in-process")]
    ("C22", work::c22),
    #[cfg(feature = "in-process")]
    ("C23", work::c23),
    #[cfg(feature = "in-process")]
    ("C24", memory::c24),
];

pub fn find(id: &str) -> Option<Check> {
    ALL.iter().find(|(i, _)| *i == id).map(|(_, f)| f())
}

pub fn ids() -> impl Iterator<Item = &'static str> {
    ALL.iter().map(|(i, _)| *i)
}
