//! Parameter types used in the corpus besides the standard ones.
use std::fmt;
pub use uuid::Uuid;

/// Any text except one containing '!' or beginning with 'x'.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tok(pub String);

#[derive(Debug)]
pub struct BadTok;

impl std::str::FromStr for Tok {
    type Err = BadTok;
    fn from_str(s: &str) -> Result<Tok, BadTok> {
        let b = s.as_bytes();
        if !b.is_empty() && b[0] == b'x' {
            return Err(BadTok);
        }
        for c in b {
            if *c == b'!' {
                return Err(BadTok);
            }
        }
        Ok(Tok(s.to_string()))
    }
}

impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

/// A parameter type whose text form is not the text it was read from: one letter a-z, stored as a number.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Letter(pub u8);

impl std::str::FromStr for Letter {
    type Err = BadTok;
    fn from_str(s: &str) -> Result<Letter, BadTok> {
        let b = s.as_bytes();
        if b.len() != 1 || b[0].wrapping_sub(b'a') >= 26 {
            return Err(BadTok);
        }
        Ok(Letter(b[0] - b'a'))
    }
}

impl fmt::Display for Letter {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let c = [b'a' + self.0];
        f.write_str(unsafe { std::str::from_utf8_unchecked(&c) })
    }
}
