//! The reference model: what the documentation says a text means
//!
//! The text is an array of characters with the position of each; tokens are
//! found by scanning it, and the parser keeps the open elements in a list.
//! Whenever the answer depends on the text ending where it does, `saw_end` is
//! set: if an error was found without that, every extension of the text has
//! the same error.
use crate::types::*;
use std::hash::{Hash, Hasher};

pub const URI_XMLNS: &str = "http://www.w3.org/2000/xmlns/";
pub const URI_XML: &str = "http://www.w3.org/XML/1998/namespace";

/// NameStartChar of XML 1.0 (fifth edition), without the colon
const NAME_START: &[(u32, u32)] = &[
    ('A' as u32, 'Z' as u32),
    ('_' as u32, '_' as u32),
    ('a' as u32, 'z' as u32),
    (0xC0, 0xD6),
    (0xD8, 0xF6),
    (0xF8, 0x2FF),
    (0x370, 0x37D),
    (0x37F, 0x1FFF),
    (0x200C, 0x200D),
    (0x2070, 0x218F),
    (0x2C00, 0x2FEF),
    (0x3001, 0xD7FF),
    (0xF900, 0xFDCF),
    (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];
/// What NameChar has in addition
const NAME_MORE: &[(u32, u32)] = &[
    ('-' as u32, '-' as u32),
    ('.' as u32, '.' as u32),
    ('0' as u32, '9' as u32),
    (0xB7, 0xB7),
    (0x0300, 0x036F),
    (0x203F, 0x2040),
];
fn within(table: &[(u32, u32)], c: char) -> bool {
    let c = c as u32;
    table.iter().any(|(a, b)| *a <= c && c <= *b)
}
pub fn name_start(c: char) -> bool {
    within(NAME_START, c)
}
pub fn name_more(c: char) -> bool {
    within(NAME_START, c) || within(NAME_MORE, c)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Boxing {
    No,
    Open,
    Close,
}

#[derive(Debug)]
enum Tok {
    Comment(Vec<(usize, usize)>),
    Text(Kind, (usize, usize)),
    Tag(usize, Nm, Boxing),
    Attr(Nm, (usize, usize)),
}

/// Prefix (possibly empty) and local part, as ranges of the text
type Nm = ((usize, usize), (usize, usize));

pub struct Text {
    pub ch: Vec<char>,
    pub pos: Vec<Pos>,
    saw_end: bool,
}

impl Text {
    pub fn new(s: &str) -> Self {
        let mut t = Text {
            ch: Vec::with_capacity(s.len()),
            pos: Vec::with_capacity(s.len() + 1),
            saw_end: false,
        };
        let mut p = Pos {
            byte: 0,
            line: 1,
            col: 1,
        };
        for c in s.chars() {
            t.ch.push(c);
            t.pos.push(p);
            p.byte += c.len_utf8();
            if c == '\n' {
                p.line += 1;
                p.col = 1;
            } else {
                p.col += 1;
            }
        }
        t.pos.push(p);
        t
    }
    #[inline]
    fn at(&mut self, i: usize) -> Option<char> {
        if i < self.ch.len() {
            Some(self.ch[i])
        } else {
            self.saw_end = true;
            None
        }
    }
    fn str(&self, r: (usize, usize)) -> String {
        self.ch[r.0..r.1].iter().collect()
    }
    fn sp(&self, s: usize, e: usize) -> Sp {
        Sp::new(self.pos[s], self.pos[e])
    }
    fn run(&mut self, mut i: usize, f: impl Fn(char) -> bool) -> usize {
        while let Some(c) = self.at(i) {
            if !f(c) {
                break;
            }
            i += 1;
        }
        i
    }

    /// name without a colon
    fn ncname(&mut self, i: usize) -> Option<usize> {
        match self.at(i) {
            Some(c) if name_start(c) => Some(self.run(i + 1, name_more)),
            _ => None,
        }
    }
    /// [name:]name
    fn qname(&mut self, i: usize) -> Option<(usize, Nm)> {
        let e = self.ncname(i)?;
        if self.at(e) == Some(':') {
            let e2 = self.ncname(e + 1)?;
            Some((e2, ((i, e), (e + 1, e2))))
        } else {
            Some((e, ((i, i), (i, e))))
        }
    }
    /// The end of the contents of a string that starts at i, if it is terminated
    fn string_end(&mut self, i: usize, quote: char, hashes: usize) -> Option<usize> {
        let mut j = i;
        loop {
            let c = self.at(j)?;
            if c == '\n' && hashes == 0 {
                return None;
            }
            if c == quote {
                let mut k = 0;
                while k < hashes && self.at(j + 1 + k) == Some('#') {
                    k += 1;
                }
                if k == hashes {
                    return Some(j);
                }
            }
            j += 1;
        }
    }
    fn comment(&mut self, i: usize) -> (usize, Vec<(usize, usize)>) {
        let mut lines = vec![];
        let mut i = i; // at the ';'
        loop {
            let e = self.run(i + 1, |c| c != '\n');
            lines.push((i + 1, e));
            if e == self.ch.len() {
                return (e, lines);
            }
            let next = e + 1;
            let s = self.run(next, |c| c != '\n' && c.is_whitespace());
            if self.at(s) == Some(';') {
                i = s;
            } else {
                return (next, lines);
            }
        }
    }
    fn text(&mut self, i: usize) -> Option<(usize, Tok)> {
        let raw = self.at(i) == Some('r');
        let h = if raw { i + 1 } else { i };
        let q = self.run(h, |c| c == '#');
        let hashes = q - h;
        let quote = self.at(q)?;
        if quote != '"' && quote != '\'' {
            return None;
        }
        let e = self.string_end(q + 1, quote, hashes)?;
        let kind = if raw { Kind::Raw } else { Kind::Int };
        Some((e + 1 + hashes, Tok::Text(kind, (q + 1, e))))
    }
    fn tag(&mut self, i: usize) -> Result<(usize, Tok), (Fault, Sp)> {
        let h = self.run(i, |c| c == '#');
        let Some((mut e, nm)) = self.qname(h) else {
            return Err((Fault::TagName, self.sp(i, h)));
        };
        let mut boxing = Boxing::No;
        match self.at(e) {
            Some('{') => {
                boxing = Boxing::Open;
                e += 1;
            }
            Some('}') => {
                boxing = Boxing::Close;
                e += 1;
            }
            _ => (),
        }
        match self.at(e) {
            Some(c) if !c.is_whitespace() => Err((Fault::TagSpace, self.sp(i, e))),
            _ => Ok((e, Tok::Tag(h - i, nm, boxing))),
        }
    }
    fn attr(&mut self, i: usize) -> Option<Result<(usize, Tok), (Fault, Sp)>> {
        let (e, nm) = self.qname(i)?;
        Some(match self.at(e) {
            None => Err((Fault::Eof, self.sp(i, e))),
            Some('=') => match self.at(e + 1) {
                Some(q @ ('"' | '\'')) => match self.string_end(e + 2, q, 0) {
                    Some(ve) => Ok((ve + 1, Tok::Attr(nm, (e + 2, ve)))),
                    None => Err((Fault::Equals('='), self.sp(e + 1, e + 1))),
                },
                Some(c) if !c.is_whitespace() => {
                    let ve = self.run(e + 1, |c| !c.is_whitespace());
                    Ok((ve, Tok::Attr(nm, (e + 1, ve))))
                }
                _ => Err((Fault::Equals('='), self.sp(e + 1, e + 1))),
            },
            Some(c) => Err((Fault::Equals(c), self.sp(i, e))),
        })
    }
    /// The token at or after i, which skips whitespace: where it starts and ends
    fn token(&mut self, i: usize) -> Result<Option<(usize, usize, Tok)>, (Fault, Sp)> {
        let i = self.run(i, |c| c.is_whitespace());
        let Some(c) = self.at(i) else {
            return Ok(None);
        };
        if c == ';' {
            let (e, lines) = self.comment(i);
            return Ok(Some((i, e, Tok::Comment(lines))));
        }
        if let Some((e, t)) = self.text(i) {
            return Ok(Some((i, e, t)));
        }
        if c == '#' {
            let (e, t) = self.tag(i)?;
            return Ok(Some((i, e, t)));
        }
        if let Some(r) = self.attr(i) {
            let (e, t) = r?;
            return Ok(Some((i, e, t)));
        }
        Err((Fault::Char(c), self.sp(i, i)))
    }
}

#[derive(Debug)]
struct Open {
    depth: usize,
    boxed: bool,
    prefix: String,
    local: String,
    name: QName,
    /// number of bindings in force outside of the element
    env: usize,
}

struct Building {
    sp: Sp,
    attrs: Vec<(Sp, String, String, String)>,
}

struct Reader {
    opts: Opts,
    open: Vec<Open>,
    env: Vec<(String, String)>,
    building: Option<Building>,
    last: Pos,
    out: Vec<Obs>,
}

type Step = Result<(), (Fault, Sp)>;

impl Reader {
    fn new(opts: Opts, start: Pos) -> Self {
        let mut env = vec![(String::new(), String::new())];
        if opts.xmlns {
            env.push(("xmlns".into(), URI_XMLNS.into()));
            env.push(("xml".into(), URI_XML.into()));
        }
        Reader {
            opts,
            open: vec![],
            env,
            building: None,
            last: start,
            out: vec![],
        }
    }
    fn emit(&mut self, sp: Sp, e: Ev) {
        self.out.push(Obs {
            sp: Some(sp),
            what: Ok(e),
        });
    }
    fn resolve(&self, prefix: &str, local: &str, sp: Sp) -> Result<QName, (Fault, Sp)> {
        match self.env.iter().rev().find(|(p, _)| p == prefix) {
            Some((_, u)) => Ok(QName {
                prefix: prefix.into(),
                uri: u.clone(),
                name: local.into(),
            }),
            None => Err((Fault::Unmapped(prefix.into()), sp)),
        }
    }
    /// how many elements are open within the innermost box
    fn depth(&self) -> usize {
        self.open.iter().rev().take_while(|o| !o.boxed).count()
    }
    fn finish_start(&mut self) -> Step {
        let Some(b) = self.building.take() else {
            return Ok(());
        };
        let mut attrs = vec![];
        for (sp, p, l, v) in b.attrs {
            let n = if self.opts.xmlns && p.is_empty() && l == "xmlns" {
                let mut n = self.resolve("xmlns", "xmlns", sp)?;
                n.prefix = String::new();
                n
            } else {
                self.resolve(&p, &l, sp)?
            };
            attrs.push((n, v));
        }
        let (p, l) = {
            let o = self.open.last().unwrap();
            (o.prefix.clone(), o.local.clone())
        };
        let name = self.resolve(&p, &l, b.sp)?;
        self.open.last_mut().unwrap().name = name.clone();
        self.emit(b.sp, Ev::Start(name, attrs));
        Ok(())
    }
    fn close_top(&mut self, sp: Sp) {
        let o = self.open.pop().unwrap();
        self.env.truncate(o.env);
        self.emit(sp, Ev::End(o.name));
    }
    fn token(&mut self, text: &Text, s: usize, e: usize, tok: Tok) -> Step {
        let sp = text.sp(s, e);
        if let Tok::Attr(nm, value) = &tok {
            self.last = sp.e;
            let (p, l, v) = (text.str(nm.0), text.str(nm.1), text.str(*value));
            let Some(b) = &mut self.building else {
                return Err((Fault::Attr(format!("{p}:{l}")), sp));
            };
            if self.opts.xmlns {
                if p.is_empty() && l == "xmlns" {
                    self.env.push((String::new(), v.clone()));
                } else if p == "xmlns" {
                    self.env.push((l.clone(), v.clone()));
                }
            }
            b.attrs.push((sp, p, l, v));
            return Ok(());
        }
        self.finish_start()?;
        self.last = sp.e;
        match tok {
            Tok::Attr(..) => unreachable!(),
            Tok::Comment(lines) => {
                let lines: Vec<String> = lines.into_iter().map(|l| text.str(l)).collect();
                let lengths = lines.iter().map(|l| l.len()).collect();
                self.emit(sp, Ev::Comment(lines.join("\n"), lengths));
            }
            Tok::Text(kind, r) => {
                if self.open.is_empty() {
                    return Err((Fault::Content, Sp::at(sp.s)));
                }
                self.emit(sp, Ev::Content(kind, text.str(r)));
            }
            Tok::Tag(depth, nm, Boxing::Close) => {
                let (p, l) = (text.str(nm.0), text.str(nm.1));
                self.resolve(&p, &l, sp)?;
                while self.depth() > 0 {
                    self.close_top(Sp::at(sp.s));
                }
                match self.open.last() {
                    Some(o) if o.depth == depth && o.prefix == p && o.local == l => {
                        self.close_top(sp)
                    }
                    _ => return Err((Fault::CloseTag, sp)),
                }
            }
            Tok::Tag(depth, nm, boxing) => {
                let d = self.depth();
                if depth > d + 1 {
                    return Err((Fault::Indent(d + 1), sp));
                }
                for _ in depth..=d {
                    self.close_top(Sp::at(sp.s));
                }
                self.open.push(Open {
                    depth,
                    boxed: boxing == Boxing::Open,
                    prefix: text.str(nm.0),
                    local: text.str(nm.1),
                    name: QName::default(),
                    env: self.env.len(),
                });
                self.building = Some(Building { sp, attrs: vec![] });
            }
        }
        Ok(())
    }
    fn end(&mut self) -> Step {
        self.finish_start()?;
        let sp = Sp::at(self.last);
        while let Some(o) = self.open.last() {
            if o.boxed {
                return Err((Fault::Eof, sp));
            }
            self.close_top(sp);
        }
        self.emit(sp, Ev::EndDoc);
        Ok(())
    }
    /// A canonical form of the state for counting
    fn digest(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for o in &self.open {
            (o.depth, o.boxed, &o.prefix, &o.local).hash(&mut h);
        }
        self.env.hash(&mut h);
        if let Some(b) = &self.building {
            for a in &b.attrs {
                (&a.1, &a.2).hash(&mut h);
            }
            1.hash(&mut h);
        }
        // what was seen last
        if let Some(Obs { what: Ok(e), .. }) = self.out.last() {
            std::mem::discriminant(e).hash(&mut h);
        }
        h.finish()
    }
}

pub struct Run {
    pub trace: Trace,
    pub saw_end: bool,
    /// canonical model state at the end of the text (or at the error)
    pub state: u64,
}

/// What reading the text gives
pub fn read(s: &str, opts: Opts) -> Run {
    let mut t = Text::new(s);
    let start = t.pos[0];
    let mut r = Reader::new(opts, start);
    r.emit(Sp::at(start), Ev::StartDoc(opts.version));
    let mut i = 0;
    let mut state = 0;
    let result = loop {
        match t.token(i) {
            Err(x) => break Err(x),
            Ok(None) => {
                state = r.digest();
                break r.end();
            }
            Ok(Some((s, e, tok))) => {
                if let Err(x) = r.token(&t, s, e, tok) {
                    break Err(x);
                }
                i = e;
            }
        }
    };
    if let Err((f, sp)) = result {
        if state == 0 {
            state = r.digest();
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (state, &f).hash(&mut h);
        state = h.finish();
        r.out.push(Obs {
            sp: Some(sp),
            what: Err(f),
        });
    } else {
        // the unread rest of the last token is part of the state
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let tail: Vec<char> = t.ch.iter().rev().take(2).cloned().collect();
        (state, tail).hash(&mut h);
        state = h.finish();
    }
    Run {
        trace: Trace {
            obs: r.out,
            after: vec![],
            overrun: false,
        },
        saw_end: t.saw_end,
        state,
    }
}
