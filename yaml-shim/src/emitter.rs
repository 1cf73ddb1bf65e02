use crate::yaml::{Hash, Tag, Yaml};
use std::fmt;

#[derive(Copy, Clone, Debug)]
pub enum EmitError {
    FmtError(fmt::Error),
    BadHashmapKey,
}

impl std::error::Error for EmitError {}

impl fmt::Display for EmitError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            EmitError::FmtError(e) => fmt::Display::fmt(e, f),
            EmitError::BadHashmapKey => f.write_str("bad hashmap key"),
        }
    }
}

impl From<fmt::Error> for EmitError {
    fn from(f: fmt::Error) -> Self {
        EmitError::FmtError(f)
    }
}

pub type EmitResult = Result<(), EmitError>;

pub struct YamlEmitter<'a> {
    w: &'a mut dyn fmt::Write,
}

fn escape(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (0x80..0xa0).contains(&(c as u32))
                || c == '\u{2028}' || c == '\u{2029}' || c == '\u{feff}' =>
            {
                out.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn need_quotes(s: &str) -> bool {
    if s.is_empty() {
        return true;
    }
    let bytes_special = |c: char| {
        matches!(
            c,
            ':' | '{' | '}' | '[' | ']' | ',' | '#' | '`' | '"' | '\'' | '\\' | '\0'..='\x1f' | '\x7f'
                | '\u{80}'..='\u{9f}' | '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{a0}' | '\u{3000}'
        )
    };
    s.starts_with(|c: char| {
        matches!(c, '&' | '*' | '?' | '|' | '-' | '<' | '>' | '=' | '!' | '%' | '@' | '.' | '~' | '+')
            || c.is_ascii_digit()
            || c.is_whitespace()
    }) || s.ends_with(|c: char| c.is_whitespace())
        || s.contains(bytes_special)
        || matches!(
            s.to_ascii_lowercase().as_str(),
            "yes" | "no" | "true" | "false" | "on" | "off" | "null" | "nil" | "y" | "n" | "~"
        )
}

impl<'a> YamlEmitter<'a> {
    pub fn new(w: &'a mut dyn fmt::Write) -> Self {
        YamlEmitter { w }
    }

    pub fn dump(&mut self, doc: &Yaml) -> EmitResult {
        let mut out = String::from("---");
        node(doc, 0, false, &mut out);
        self.w.write_str(&out)?;
        Ok(())
    }
}

fn tag(t: &Option<Tag>, out: &mut String) {
    if let Some(Tag(h, s)) = t {
        out.push(' ');
        out.push_str(h);
        out.push_str(s);
    }
}

fn scalar(y: &Yaml) -> Option<(&Option<Tag>, String)> {
    Some(match y {
        Yaml::Real(t, s) => (t, s.clone()),
        Yaml::Integer(t, i) => (t, i.to_string()),
        Yaml::Boolean(t, b) => (t, b.to_string()),
        Yaml::Null(t) => (t, "~".to_string()),
        Yaml::String(t, s) => {
            let mut o = String::new();
            if need_quotes(s) {
                escape(s, &mut o);
            } else {
                o.push_str(s);
            }
            (t, o)
        }
        _ => return None,
    })
}

fn pad(n: usize, out: &mut String) {
    out.push('\n');
    for _ in 0..n {
        out.push_str("  ");
    }
}

/// Emit a node after an indicator (`---`, `key:` or `-`).
fn node(y: &Yaml, level: usize, compact: bool, out: &mut String) {
    if let Some((t, s)) = scalar(y) {
        tag(t, out);
        if compact || level > 0 {
            out.push(' ');
        } else {
            out.push('\n');
        }
        out.push_str(&s);
        return;
    }
    match y {
        Yaml::Array(t, v) => {
            tag(t, out);
            if v.is_empty() {
                out.push_str(if level == 0 { "\n[]" } else { " []" });
            } else {
                for (i, x) in v.iter().enumerate() {
                    if i == 0 && compact && t.is_none() {
                        out.push(' ');
                    } else {
                        pad(level, out);
                    }
                    out.push('-');
                    node(x, level + 1, true, out);
                }
            }
        }
        Yaml::Hash(t, Hash(v)) => {
            tag(t, out);
            if v.is_empty() {
                out.push_str(if level == 0 { "\n{}" } else { " {}" });
            } else {
                for (i, (k, x)) in v.iter().enumerate() {
                    if i == 0 && compact && t.is_none() {
                        out.push(' ');
                    } else {
                        pad(level, out);
                    }
                    match scalar(k) {
                        Some((_, s)) => {
                            out.push_str(&s);
                        }
                        None => {
                            out.push('?');
                            node(k, level + 1, true, out);
                            pad(level, out);
                        }
                    }
                    out.push(':');
                    node(x, level + 1, false, out);
                }
            }
        }
        _ => {}
    }
}
