//! A stand-in for the regex crate in the symbolic build: the same patterns and answers, computed
//! without state machines and caches. Native runs (of counterexamples, of samples) use the real
//! crate. A pattern beyond what rx.rs knows ends the exploration as "not supported", not as an answer.
use std::fmt;
#[path = "../../harness/src/refs/rx.rs"]
mod rx;

#[derive(Clone, Debug, PartialEq)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Clone)]
pub struct Regex {
    text: String,
    root: rx::Node,
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}
impl fmt::Debug for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("Regex").field(&self.text).finish()
    }
}
impl Regex {
    pub fn new(text: &str) -> Result<Regex, Error> {
        match rx::parse(text) {
            Ok(root) => Ok(Regex { text: text.to_string(), root }),
            Err(e) => Err(Error(e)),
        }
    }
    pub fn is_match(&self, s: &str) -> bool {
        let c: Vec<u32> = s.chars().map(|c| c as u32).collect();
        rx::found(&self.root, &c)
    }
    pub fn as_str(&self) -> &str {
        &self.text
    }
}
