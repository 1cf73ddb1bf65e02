use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Marker {
    index: usize,
    line: usize,
    col: usize,
}

impl Marker {
    pub fn new(index: usize, line: usize, col: usize) -> Self {
        Marker { index, line, col }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn line(&self) -> usize {
        self.line
    }
    pub fn col(&self) -> usize {
        self.col
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum TScalarStyle {
    Any,
    Plain,
    SingleQuoted,
    DoubleQuoted,
    Literal,
    Foled,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum TokenType {
    NoToken,
    /// handle, suffix
    Tag(String, String),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ScanError {
    mark: Marker,
    info: String,
}

impl ScanError {
    pub fn new(mark: Marker, info: &str) -> Self {
        ScanError {
            mark,
            info: info.to_owned(),
        }
    }
    pub fn marker(&self) -> &Marker {
        &self.mark
    }
}

impl std::error::Error for ScanError {}

impl fmt::Display for ScanError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "{} at line {} column {}",
            self.info,
            self.mark.line,
            self.mark.col + 1
        )
    }
}
