#[macro_use]
pub mod sym;
pub mod checks;
pub mod dir;
#[cfg(feature = "native")]
pub mod native;
pub mod refs;
pub mod saved;

#[cfg(feature = "native")]
pub fn table() -> Vec<(&'static str, extern "C-unwind" fn())> {
    checks::table()
}
