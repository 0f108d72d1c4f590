//! Stand-in for the uuid crate in generated modules: accepts one to four hexadecimal digits.
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Uuid(pub String);

#[derive(Debug)]
pub struct ParseError;

impl std::str::FromStr for Uuid {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Uuid, ParseError> {
        let b = s.as_bytes();
        if b.is_empty() || b.len() > 4 {
            return Err(ParseError);
        }
        for c in b {
            let d = c.wrapping_sub(b'0') < 10;
            let h = c.wrapping_sub(b'a') < 6;
            if !(d | h) {
                return Err(ParseError);
            }
        }
        Ok(Uuid(s.to_string()))
    }
}

impl fmt::Display for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
