use crate::scanner::{Marker, ScanError, TScalarStyle, TokenType};
use std::collections::HashMap;

#[derive(Clone, PartialEq, Debug)]
pub enum Event {
    Nothing,
    StreamStart,
    StreamEnd,
    DocumentStart,
    DocumentEnd,
    Alias(usize),
    Scalar(String, TScalarStyle, usize, Option<TokenType>),
    SequenceStart(usize),
    SequenceEnd,
    MappingStart(usize),
    MappingEnd,
}

pub trait MarkedEventReceiver {
    fn on_event(&mut self, ev: Event, mark: Marker);
}

pub struct Parser {
    src: Vec<char>,
    pos: usize,
    line: usize,
    col: usize,
    anchors: HashMap<String, usize>,
    next_anchor: usize,
    depth: usize,
    events: Vec<(Event, Marker)>,
}

type R<T> = Result<T, ScanError>;

#[derive(Default)]
struct Props {
    anchor: usize,
    tag: Option<TokenType>,
}

const MAX_DEPTH: usize = 2000;

impl Parser {
    pub fn new<I: Iterator<Item = char>>(src: I) -> Self {
        let mut src: Vec<char> = src.collect();
        if src.first() == Some(&'\u{feff}') {
            src[0] = ' ';
        }
        Parser {
            src,
            pos: 0,
            line: 1,
            col: 0,
            anchors: HashMap::new(),
            next_anchor: 1,
            depth: 0,
            events: vec![],
        }
    }

    pub fn load<T: MarkedEventReceiver>(&mut self, recv: &mut T, multi: bool) -> R<()> {
        let m = self.mark();
        recv.on_event(Event::StreamStart, m);
        let mut first = true;
        let mut result = Ok(());
        loop {
            self.events.clear();
            match self.document(first) {
                Ok(more) => {
                    for (e, m) in self.events.drain(..) {
                        recv.on_event(e, m);
                    }
                    if !more {
                        break;
                    }
                }
                Err(e) => {
                    for (e, m) in self.events.drain(..) {
                        recv.on_event(e, m);
                    }
                    result = Err(e);
                    break;
                }
            }
            first = false;
            if !multi {
                break;
            }
        }
        result?;
        let m = self.mark();
        recv.on_event(Event::StreamEnd, m);
        Ok(())
    }

    // -- cursor -----------------------------------------------------------

    fn mark(&self) -> Marker {
        Marker::new(self.pos, self.line, self.col)
    }
    fn err<T>(&self, s: &str) -> R<T> {
        Err(ScanError::new(self.mark(), s))
    }
    fn peek(&self) -> Option<char> {
        self.src.get(self.pos).copied()
    }
    fn at(&self, n: usize) -> Option<char> {
        self.src.get(self.pos + n).copied()
    }
    fn bump(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.pos += 1;
        if c == '\n' {
            self.line += 1;
            self.col = 0;
        } else {
            self.col += 1;
        }
        Some(c)
    }
    fn is_break(c: Option<char>) -> bool {
        matches!(c, None | Some('\n') | Some('\r'))
    }
    fn is_blank_or_break(c: Option<char>) -> bool {
        matches!(c, None | Some('\n') | Some('\r') | Some(' ') | Some('\t'))
    }
    fn doc_marker(&self) -> bool {
        self.col == 0
            && (matches!(
                (self.at(0), self.at(1), self.at(2)),
                (Some('-'), Some('-'), Some('-')) | (Some('.'), Some('.'), Some('.'))
            ))
            && Self::is_blank_or_break(self.at(3))
    }
    /// Skip spaces, comments and line breaks; true if a line break was crossed.
    fn skip_ws(&mut self) -> bool {
        let mut crossed = self.col == 0;
        loop {
            match self.peek() {
                Some(' ') | Some('\t') => {
                    self.bump();
                }
                Some('\n') | Some('\r') => {
                    self.bump();
                    crossed = true;
                }
                Some('#')
                    if self.pos == 0 || Self::is_blank_or_break(Some(self.src[self.pos - 1])) =>
                {
                    while !Self::is_break(self.peek()) {
                        self.bump();
                    }
                }
                _ => return crossed,
            }
        }
    }

    fn emit(&mut self, e: Event, m: Marker) {
        self.events.push((e, m));
    }

    fn null(&mut self, p: Props) {
        let m = self.mark();
        self.emit(
            Event::Scalar(
                if p.tag.is_some() { String::new() } else { "~".into() },
                TScalarStyle::Plain,
                p.anchor,
                p.tag,
            ),
            m,
        );
    }

    // -- documents ---------------------------------------------------------

    fn document(&mut self, first: bool) -> R<bool> {
        self.skip_ws();
        while self.col == 0 && self.peek() == Some('%') {
            while !Self::is_break(self.peek()) {
                self.bump();
            }
            self.skip_ws();
        }
        let mut explicit = false;
        while self.doc_marker() {
            let start = self.peek() == Some('-');
            if start && explicit {
                break;
            }
            for _ in 0..3 {
                self.bump();
            }
            if start {
                explicit = true;
            }
            self.skip_ws();
        }
        if self.peek().is_none() && !explicit {
            let _ = first;
            return Ok(false);
        }
        let m = self.mark();
        self.emit(Event::DocumentStart, m);
        if self.peek().is_none() || self.doc_marker() {
            self.null(Props::default());
        } else {
            self.block_node(-1, false)?;
        }
        self.skip_ws();
        if self.peek().is_some() && !self.doc_marker() {
            return self.err("did not find expected <document start>");
        }
        let m = self.mark();
        self.emit(Event::DocumentEnd, m);
        Ok(true)
    }

    // -- block -------------------------------------------------------------

    fn props(&mut self) -> R<Props> {
        let mut p = Props::default();
        loop {
            match self.peek() {
                Some('&') => {
                    self.bump();
                    let n = self.name()?;
                    let id = self.next_anchor;
                    self.next_anchor += 1;
                    self.anchors.insert(n, id);
                    p.anchor = id;
                }
                Some('!') => {
                    self.bump();
                    let mut handle = String::from("!");
                    let mut suffix = String::new();
                    if self.peek() == Some('<') {
                        self.bump();
                        handle.clear();
                        while let Some(c) = self.peek() {
                            if c == '>' || Self::is_blank_or_break(Some(c)) {
                                break;
                            }
                            suffix.push(c);
                            self.bump();
                        }
                        if self.peek() != Some('>') {
                            return self.err("while scanning a tag, did not find the expected '>'");
                        }
                        self.bump();
                    } else {
                        if self.peek() == Some('!') {
                            self.bump();
                            handle.push('!');
                        }
                        while let Some(c) = self.peek() {
                            if Self::is_blank_or_break(Some(c))
                                || matches!(c, ',' | '[' | ']' | '{' | '}')
                            {
                                break;
                            }
                            suffix.push(c);
                            self.bump();
                        }
                    }
                    p.tag = Some(TokenType::Tag(handle, suffix));
                }
                _ => return Ok(p),
            }
            while matches!(self.peek(), Some(' ') | Some('\t')) {
                self.bump();
            }
        }
    }

    fn name(&mut self) -> R<String> {
        let mut n = String::new();
        while let Some(c) = self.peek() {
            if Self::is_blank_or_break(Some(c)) || matches!(c, ',' | '[' | ']' | '{' | '}') {
                break;
            }
            n.push(c);
            self.bump();
        }
        if n.is_empty() {
            return self.err("while scanning an anchor or alias, did not find expected alphabetic or numeric character");
        }
        Ok(n)
    }

    fn alias(&mut self) -> R<()> {
        let m = self.mark();
        self.bump();
        let n = self.name()?;
        match self.anchors.get(&n) {
            Some(id) => {
                let id = *id;
                self.emit(Event::Alias(id), m);
                Ok(())
            }
            None => Err(ScanError::new(m, "while parsing node, found unknown anchor")),
        }
    }

    /// Is there an implicit key (single line, followed by `:`) at the cursor?
    fn implicit_key_ahead(&self) -> bool {
        let mut i = self.pos;
        let get = |i: usize| self.src.get(i).copied();
        // skip properties
        loop {
            match get(i) {
                Some('&') | Some('!') => {
                    while !Self::is_blank_or_break(get(i)) {
                        i += 1;
                    }
                    while get(i) == Some(' ') {
                        i += 1;
                    }
                }
                _ => break,
            }
        }
        match get(i) {
            Some('"') => {
                i += 1;
                loop {
                    match get(i) {
                        None | Some('\n') => return false,
                        Some('\\') => i += 2,
                        Some('"') => {
                            i += 1;
                            break;
                        }
                        _ => i += 1,
                    }
                }
            }
            Some('\'') => {
                i += 1;
                loop {
                    match get(i) {
                        None | Some('\n') => return false,
                        Some('\'') if get(i + 1) == Some('\'') => i += 2,
                        Some('\'') => {
                            i += 1;
                            break;
                        }
                        _ => i += 1,
                    }
                }
            }
            Some('[') | Some('{') => {
                let mut d = 0;
                let mut q: Option<char> = None;
                loop {
                    match (q, get(i)) {
                        (_, None) | (_, Some('\n')) => return false,
                        (Some('"'), Some('\\')) => i += 1,
                        (Some(a), Some(b)) if a == b => q = None,
                        (Some(_), _) => {}
                        (None, Some(c @ ('"' | '\''))) => q = Some(c),
                        (None, Some('[' | '{')) => d += 1,
                        (None, Some(']' | '}')) => {
                            d -= 1;
                            if d == 0 {
                                i += 1;
                                break;
                            }
                        }
                        _ => {}
                    }
                    i += 1;
                }
            }
            _ => loop {
                match get(i) {
                    None | Some('\n') | Some('\r') => return false,
                    Some('#') if i > 0 && Self::is_blank_or_break(get(i - 1)) => return false,
                    Some(':') if Self::is_blank_or_break(get(i + 1)) => return true,
                    _ => i += 1,
                }
            },
        }
        while get(i) == Some(' ') {
            i += 1;
        }
        get(i) == Some(':') && Self::is_blank_or_break(get(i + 1))
    }

    /// Parse a block node whose content must be indented more than `parent`.
    /// `inline`: cursor is on the same line as the parent's indicator.
    fn block_node(&mut self, parent: isize, seq_at_parent: bool) -> R<()> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            return self.err("recursion limit exceeded");
        }
        let r = self.block_node_inner(parent, seq_at_parent, Props::default());
        self.depth -= 1;
        r
    }

    fn block_node_inner(&mut self, parent: isize, seq_at_parent: bool, inherited: Props) -> R<()> {
        let crossed = self.skip_ws();
        let fresh_line = crossed;
        if self.peek().is_none() || self.doc_marker() {
            self.null(inherited);
            return Ok(());
        }
        let col = self.col as isize;
        if fresh_line {
            let is_seq = self.peek() == Some('-') && Self::is_blank_or_break(self.at(1));
            if col <= parent && !(seq_at_parent && is_seq && col == parent) {
                self.null(inherited);
                return Ok(());
            }
        }
        let p = inherited;
        if self.peek() == Some('-') && Self::is_blank_or_break(self.at(1)) {
            return self.block_seq(col, p);
        }
        if self.peek() == Some('?') && Self::is_blank_or_break(self.at(1)) {
            return self.block_map(col, p);
        }
        if self.implicit_key_ahead() {
            return self.block_map(col, p);
        }
        if matches!(self.peek(), Some('&') | Some('!')) {
            let line = self.line;
            let q = self.props()?;
            let merged = Props {
                anchor: if q.anchor != 0 { q.anchor } else { p.anchor },
                tag: q.tag.or(p.tag),
            };
            self.skip_inline();
            if Self::is_break(self.peek()) || self.line != line {
                return self.block_node_inner(parent, seq_at_parent, merged);
            }
            return self.content(parent, merged);
        }
        self.content(parent, p)
    }

    fn skip_inline(&mut self) {
        while matches!(self.peek(), Some(' ') | Some('\t')) {
            self.bump();
        }
        if self.peek() == Some('#') {
            while !Self::is_break(self.peek()) {
                self.bump();
            }
        }
    }

    fn content(&mut self, parent: isize, p: Props) -> R<()> {
        let m = self.mark();
        match self.peek() {
            Some('*') => self.alias(),
            Some('[') | Some('{') => self.flow_node_with(p),
            Some('"') => {
                let s = self.double_quoted()?;
                self.emit(Event::Scalar(s, TScalarStyle::DoubleQuoted, p.anchor, p.tag), m);
                Ok(())
            }
            Some('\'') => {
                let s = self.single_quoted()?;
                self.emit(Event::Scalar(s, TScalarStyle::SingleQuoted, p.anchor, p.tag), m);
                Ok(())
            }
            Some('|') | Some('>') => {
                let lit = self.peek() == Some('|');
                let s = self.block_scalar(parent)?;
                let st = if lit { TScalarStyle::Literal } else { TScalarStyle::Foled };
                self.emit(Event::Scalar(s, st, p.anchor, p.tag), m);
                Ok(())
            }
            Some('@') | Some('`') | Some('%') => {
                self.err("while scanning for the next token, found character that cannot start any token")
            }
            Some(']') | Some('}') | Some(',') => {
                self.err("while parsing a node, did not find expected node content")
            }
            _ => {
                let s = self.plain(parent, false)?;
                self.emit(Event::Scalar(s, TScalarStyle::Plain, p.anchor, p.tag), m);
                Ok(())
            }
        }
    }

    fn block_seq(&mut self, col: isize, p: Props) -> R<()> {
        let m = self.mark();
        self.emit(Event::SequenceStart(p.anchor), m);
        loop {
            self.bump(); // '-'
            self.block_node(col, false)?;
            self.skip_ws();
            if self.peek().is_none() || self.doc_marker() {
                break;
            }
            let c = self.col as isize;
            let is_seq = self.peek() == Some('-') && Self::is_blank_or_break(self.at(1));
            if c == col && is_seq {
                continue;
            }
            if c > col {
                return self.err("while parsing a block collection, did not find expected '-' indicator");
            }
            break;
        }
        let m = self.mark();
        self.emit(Event::SequenceEnd, m);
        Ok(())
    }

    fn block_map(&mut self, col: isize, p: Props) -> R<()> {
        let m = self.mark();
        self.emit(Event::MappingStart(p.anchor), m);
        loop {
            if self.peek() == Some('?') && Self::is_blank_or_break(self.at(1)) {
                self.bump();
                self.block_node(col, false)?;
                self.skip_ws();
                if self.col as isize == col
                    && self.peek() == Some(':')
                    && Self::is_blank_or_break(self.at(1))
                {
                    self.bump();
                    self.block_node(col, true)?;
                } else {
                    self.null(Props::default());
                }
            } else {
                let kp = self.props()?;
                let m = self.mark();
                match self.peek() {
                    Some('"') => {
                        let s = self.double_quoted()?;
                        self.emit(Event::Scalar(s, TScalarStyle::DoubleQuoted, kp.anchor, kp.tag), m);
                    }
                    Some('\'') => {
                        let s = self.single_quoted()?;
                        self.emit(Event::Scalar(s, TScalarStyle::SingleQuoted, kp.anchor, kp.tag), m);
                    }
                    Some('*') => self.alias()?,
                    Some('[') | Some('{') => self.flow_node_with(kp)?,
                    _ => {
                        let mut s = String::new();
                        while let Some(c) = self.peek() {
                            if c == ':' && Self::is_blank_or_break(self.at(1)) {
                                break;
                            }
                            s.push(c);
                            self.bump();
                        }
                        let s = s.trim_end().to_string();
                        self.emit(Event::Scalar(s, TScalarStyle::Plain, kp.anchor, kp.tag), m);
                    }
                }
                while self.peek() == Some(' ') {
                    self.bump();
                }
                if self.peek() != Some(':') {
                    return self.err("while scanning a simple key, could not find expected ':'");
                }
                self.bump();
                self.block_node(col, true)?;
            }
            self.skip_ws();
            if self.peek().is_none() || self.doc_marker() {
                break;
            }
            let c = self.col as isize;
            if c == col {
                let is_seq = self.peek() == Some('-') && Self::is_blank_or_break(self.at(1));
                if is_seq {
                    return self.err("block sequence entries are not allowed in this context");
                }
                if self.implicit_key_ahead()
                    || (self.peek() == Some('?') && Self::is_blank_or_break(self.at(1)))
                {
                    continue;
                }
                return self.err("while scanning a simple key, could not find expected ':'");
            }
            if c > col {
                return self.err("while parsing a block mapping, did not find expected key");
            }
            break;
        }
        let m = self.mark();
        self.emit(Event::MappingEnd, m);
        Ok(())
    }

    // -- scalars -----------------------------------------------------------

    fn plain(&mut self, parent: isize, flow: bool) -> R<String> {
        let mut out = String::new();
        loop {
            let mut lead = String::new();
            let mut got = false;
            loop {
                let c = self.peek();
                if Self::is_break(c) {
                    break;
                }
                let c = c.unwrap();
                if c == ':'
                    && (Self::is_blank_or_break(self.at(1))
                        || (flow && matches!(self.at(1), Some(',' | '[' | ']' | '{' | '}'))))
                {
                    break;
                }
                if flow && matches!(c, ',' | '[' | ']' | '{' | '}') {
                    break;
                }
                if c == '#' && self.pos > 0 && Self::is_blank_or_break(Some(self.src[self.pos - 1]))
                {
                    break;
                }
                lead.push(c);
                got = true;
                self.bump();
            }
            if !got {
                if out.is_empty() {
                    return self.err("while scanning a plain scalar, found unexpected character");
                }
                break;
            }
            out.push_str(lead.trim_end());
            // continuation
            if !Self::is_break(self.peek()) || self.peek().is_none() {
                break;
            }
            let save = (self.pos, self.line, self.col);
            let mut breaks = 0;
            loop {
                match self.peek() {
                    Some('\n') => {
                        breaks += 1;
                        self.bump();
                    }
                    Some(' ') | Some('\t') | Some('\r') => {
                        self.bump();
                    }
                    _ => break,
                }
            }
            let stop = self.peek().is_none()
                || self.doc_marker()
                || self.peek() == Some('#')
                || (!flow && self.col as isize <= parent)
                || (flow && matches!(self.peek(), Some(',' | '[' | ']' | '{' | '}')))
                || (self.peek() == Some(':') && Self::is_blank_or_break(self.at(1)))
                || (!flow && self.implicit_key_ahead());
            if stop {
                (self.pos, self.line, self.col) = save;
                break;
            }
            if breaks <= 1 {
                out.push(' ');
            } else {
                for _ in 1..breaks {
                    out.push('\n');
                }
            }
        }
        Ok(out)
    }

    fn fold_break(&mut self, out: &mut String) {
        while out.ends_with(' ') || out.ends_with('\t') {
            out.pop();
        }
        let mut breaks = 0;
        loop {
            match self.peek() {
                Some('\n') => {
                    breaks += 1;
                    self.bump();
                }
                Some(' ') | Some('\t') | Some('\r') => {
                    self.bump();
                }
                _ => break,
            }
        }
        if breaks <= 1 {
            out.push(' ');
        } else {
            for _ in 1..breaks {
                out.push('\n');
            }
        }
    }

    fn single_quoted(&mut self) -> R<String> {
        self.bump();
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return self.err("while scanning a quoted scalar, found unexpected end of stream"),
                Some('\'') => {
                    self.bump();
                    if self.peek() == Some('\'') {
                        out.push('\'');
                        self.bump();
                    } else {
                        return Ok(out);
                    }
                }
                Some('\n') | Some('\r') => self.fold_break(&mut out),
                Some(c) => {
                    out.push(c);
                    self.bump();
                }
            }
        }
    }

    fn hex(&mut self, n: usize) -> R<u32> {
        let mut v = 0u32;
        for _ in 0..n {
            match self.peek().and_then(|c| c.to_digit(16)) {
                Some(d) => {
                    v = v.wrapping_mul(16) + d;
                    self.bump();
                }
                None => {
                    return self.err("while parsing a quoted scalar, did not find expected hexadecimal number")
                }
            }
        }
        Ok(v)
    }

    fn double_quoted(&mut self) -> R<String> {
        self.bump();
        let mut out = String::new();
        let mut protect = 0usize;
        loop {
            match self.peek() {
                None => return self.err("while scanning a quoted scalar, found unexpected end of stream"),
                Some('"') => {
                    self.bump();
                    return Ok(out);
                }
                Some('\n') | Some('\r') => {
                    let tail = out.split_off(protect.min(out.len()));
                    let mut t = tail;
                    self.fold_break(&mut t);
                    out.push_str(&t);
                }
                Some('\\') => {
                    self.bump();
                    let c = self.bump();
                    match c {
                        Some('0') => out.push('\0'),
                        Some('a') => out.push('\x07'),
                        Some('b') => out.push('\x08'),
                        Some('t') | Some('\t') => out.push('\t'),
                        Some('n') => out.push('\n'),
                        Some('v') => out.push('\x0b'),
                        Some('f') => out.push('\x0c'),
                        Some('r') => out.push('\r'),
                        Some('e') => out.push('\x1b'),
                        Some(' ') => out.push(' '),
                        Some('"') => out.push('"'),
                        Some('\'') => out.push('\''),
                        Some('/') => out.push('/'),
                        Some('\\') => out.push('\\'),
                        Some('N') => out.push('\u{85}'),
                        Some('_') => out.push('\u{a0}'),
                        Some('L') => out.push('\u{2028}'),
                        Some('P') => out.push('\u{2029}'),
                        Some('x') => {
                            let v = self.hex(2)?;
                            out.push(char::from_u32(v).unwrap());
                        }
                        Some('u') => {
                            let mut v = self.hex(4)?;
                            if (0xd800..0xdc00).contains(&v)
                                && self.peek() == Some('\\')
                                && self.at(1) == Some('u')
                            {
                                self.bump();
                                self.bump();
                                let lo = self.hex(4)?;
                                if (0xdc00..0xe000).contains(&lo) {
                                    v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
                                } else {
                                    return self.err("while parsing a quoted scalar, found invalid Unicode character escape code");
                                }
                            }
                            match char::from_u32(v) {
                                Some(c) => out.push(c),
                                None => return self.err("while parsing a quoted scalar, found invalid Unicode character escape code"),
                            }
                        }
                        Some('U') => {
                            let v = self.hex(8)?;
                            match char::from_u32(v) {
                                Some(c) => out.push(c),
                                None => return self.err("while parsing a quoted scalar, found invalid Unicode character escape code"),
                            }
                        }
                        Some('\n') => {
                            while matches!(self.peek(), Some(' ') | Some('\t')) {
                                self.bump();
                            }
                        }
                        _ => return self.err("while parsing a quoted scalar, found unknown escape character"),
                    }
                    protect = out.len();
                }
                Some(c) => {
                    out.push(c);
                    self.bump();
                }
            }
        }
    }

    fn block_scalar(&mut self, parent: isize) -> R<String> {
        let literal = self.bump() == Some('|');
        let mut chomp = ' ';
        let mut indent: Option<isize> = None;
        loop {
            match self.peek() {
                Some(c @ ('+' | '-')) => {
                    chomp = c;
                    self.bump();
                }
                Some(c) if c.is_ascii_digit() && c != '0' => {
                    indent = Some(parent.max(0) + c.to_digit(10).unwrap() as isize);
                    self.bump();
                }
                _ => break,
            }
        }
        self.skip_inline();
        if !Self::is_break(self.peek()) {
            return self.err("while scanning a block scalar, did not find expected comment or line break");
        }
        self.bump();
        let mut lines: Vec<String> = vec![];
        loop {
            if self.peek().is_none() {
                break;
            }
            // measure indentation
            let mut n = 0;
            while self.at(n) == Some(' ') && indent.map(|i| (n as isize) < i).unwrap_or(true) {
                n += 1;
            }
            let blank = Self::is_break(self.at(n));
            if blank {
                for _ in 0..n {
                    self.bump();
                }
                if self.peek() == Some('\r') {
                    self.bump();
                }
                if self.bump().is_none() {
                    break;
                }
                lines.push(String::new());
                continue;
            }
            let need = match indent {
                Some(i) => i,
                None => {
                    if (n as isize) <= parent {
                        break;
                    }
                    indent = Some(n as isize);
                    n as isize
                }
            };
            if (n as isize) < need || (self.col == 0 && self.doc_marker()) {
                break;
            }
            for _ in 0..n {
                self.bump();
            }
            let mut l = String::new();
            while !Self::is_break(self.peek()) {
                l.push(self.bump().unwrap());
            }
            if self.peek() == Some('\r') {
                self.bump();
            }
            lines.push(l);
            if self.bump().is_none() {
                break;
            }
        }
        let mut trailing = 0;
        while lines.last().map(|l| l.is_empty()).unwrap_or(false) {
            lines.pop();
            trailing += 1;
        }
        let mut out = String::new();
        if literal {
            out = lines.join("\n");
        } else {
            let mut i = 0;
            let mut prev_more = true;
            while i < lines.len() {
                if lines[i].is_empty() {
                    let mut k = 0;
                    while lines[i].is_empty() {
                        k += 1;
                        i += 1;
                    }
                    let more = lines[i].starts_with([' ', '\t']);
                    for _ in 0..k {
                        out.push('\n');
                    }
                    if (prev_more || more) && !out.is_empty() && out.len() > k {
                        out.push('\n');
                    }
                    prev_more = more;
                    out.push_str(&lines[i]);
                    i += 1;
                    continue;
                }
                let more = lines[i].starts_with([' ', '\t']);
                if i > 0 && !out.is_empty() {
                    out.push(if more || prev_more { '\n' } else { ' ' });
                }
                out.push_str(&lines[i]);
                prev_more = more;
                i += 1;
            }
        }
        if !lines.is_empty() && chomp != '-' {
            out.push('\n');
        }
        if chomp == '+' {
            for _ in 0..trailing {
                out.push('\n');
            }
        }
        Ok(out)
    }

    // -- flow --------------------------------------------------------------

    fn flow_node(&mut self) -> R<()> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            return self.err("recursion limit exceeded");
        }
        self.skip_ws();
        let p = self.props()?;
        self.skip_ws();
        let r = self.flow_node_with(p);
        self.depth -= 1;
        r
    }

    fn flow_node_with(&mut self, p: Props) -> R<()> {
        let m = self.mark();
        match self.peek() {
            None => self.err("while parsing a flow node, found unexpected end of stream"),
            Some('*') => self.alias(),
            Some('[') => {
                self.bump();
                self.emit(Event::SequenceStart(p.anchor), m);
                loop {
                    self.skip_ws();
                    match self.peek() {
                        Some(']') => {
                            self.bump();
                            break;
                        }
                        None => return self.err("while parsing a flow sequence, expected ',' or ']'"),
                        Some(',') => return self.err("while parsing a flow sequence, unexpected ','"),
                        _ => {}
                    }
                    let at = self.events.len();
                    let m0 = self.mark();
                    self.flow_node()?;
                    self.skip_ws();
                    if self.peek() == Some(':') {
                        // single-pair mapping
                        self.events.insert(at, (Event::MappingStart(0), m0));
                        self.bump();
                        self.skip_ws();
                        if matches!(self.peek(), Some(',' | ']')) {
                            self.null(Props::default());
                        } else {
                            self.flow_node()?;
                        }
                        let m = self.mark();
                        self.emit(Event::MappingEnd, m);
                        self.skip_ws();
                    }
                    match self.peek() {
                        Some(',') => {
                            self.bump();
                        }
                        Some(']') => {}
                        _ => return self.err("while parsing a flow sequence, expected ',' or ']'"),
                    }
                }
                let m = self.mark();
                self.emit(Event::SequenceEnd, m);
                Ok(())
            }
            Some('{') => {
                self.bump();
                self.emit(Event::MappingStart(p.anchor), m);
                loop {
                    self.skip_ws();
                    match self.peek() {
                        Some('}') => {
                            self.bump();
                            break;
                        }
                        None => return self.err("while parsing a flow mapping, did not find expected ',' or '}'"),
                        Some(',') => return self.err("while parsing a flow mapping, unexpected ','"),
                        _ => {}
                    }
                    self.flow_node()?;
                    self.skip_ws();
                    if self.peek() == Some(':') {
                        self.bump();
                        self.skip_ws();
                        if matches!(self.peek(), Some(',' | '}')) {
                            self.null(Props::default());
                        } else {
                            self.flow_node()?;
                        }
                    } else {
                        self.null(Props::default());
                    }
                    self.skip_ws();
                    match self.peek() {
                        Some(',') => {
                            self.bump();
                        }
                        Some('}') => {}
                        _ => return self.err("while parsing a flow mapping, did not find expected ',' or '}'"),
                    }
                }
                let m = self.mark();
                self.emit(Event::MappingEnd, m);
                Ok(())
            }
            Some('"') => {
                let s = self.double_quoted()?;
                self.emit(Event::Scalar(s, TScalarStyle::DoubleQuoted, p.anchor, p.tag), m);
                Ok(())
            }
            Some('\'') => {
                let s = self.single_quoted()?;
                self.emit(Event::Scalar(s, TScalarStyle::SingleQuoted, p.anchor, p.tag), m);
                Ok(())
            }
            Some(',') | Some(']') | Some('}') => {
                self.null(p);
                Ok(())
            }
            Some('@') | Some('`') | Some('%') => {
                self.err("while scanning for the next token, found character that cannot start any token")
            }
            _ => {
                let s = self.plain(-1, true)?;
                self.emit(Event::Scalar(s, TScalarStyle::Plain, p.anchor, p.tag), m);
                Ok(())
            }
        }
    }
}
