//! The checks, by part of the crate; a build contains the modules its features name.
#[cfg(feature = "bm")]
pub mod bm;
#[cfg(feature = "daitch")]
pub mod daitch;
#[cfg(feature = "dm")]
pub mod dm;
#[cfg(feature = "laws")]
pub mod laws;
#[cfg(feature = "simple")]
pub mod simple;
#[cfg(feature = "soundex")]
pub mod soundex;
#[cfg(feature = "values")]
pub mod values;
#[cfg(feature = "native")]
pub fn table() -> Vec<(&'static str, extern "C-unwind" fn())> {
    let mut v = Vec::new();
    #[cfg(feature = "bm")]
    v.extend_from_slice(bm::TABLE);
    #[cfg(feature = "daitch")]
    v.extend_from_slice(daitch::TABLE);
    #[cfg(feature = "dm")]
    v.extend_from_slice(dm::TABLE);
    #[cfg(feature = "laws")]
    v.extend_from_slice(laws::TABLE);
    #[cfg(feature = "simple")]
    v.extend_from_slice(simple::TABLE);
    #[cfg(feature = "soundex")]
    v.extend_from_slice(soundex::TABLE);
    #[cfg(feature = "values")]
    v.extend_from_slice(values::TABLE);
    v
}
