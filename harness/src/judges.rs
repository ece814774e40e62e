//! What each property requires of the reading of a text
//!
//! Every judge looks at its own projection of what the implementation reports
//! and, where it needs one, of what the model says.
use crate::drive::{self, CheckedRun, LC};
use crate::model;
use crate::stream::OddPos;
use crate::types::*;
use std::cell::OnceCell;

pub struct Reading<'a> {
    pub text: &'a str,
    pub opts: Opts,
    pub model: model::Run,
    real: OnceCell<Trace>,
    checked: OnceCell<CheckedRun>,
}

impl<'a> Reading<'a> {
    pub fn new(text: &'a str, opts: Opts) -> Self {
        Reading {
            text,
            opts,
            model: model::read(text, opts),
            real: OnceCell::new(),
            checked: OnceCell::new(),
        }
    }
    /// The library's lexer, with lines and columns
    pub fn real(&self) -> &Trace {
        self.real
            .get_or_init(|| drive::read::<LC>(self.text, self.opts, 3))
    }
    /// The checking stream, with offsets
    pub fn checked(&self) -> &CheckedRun {
        self.checked
            .get_or_init(|| drive::read_checked::<usize>(self.text, self.opts, 3))
    }
    /// Whether an extension of the text could give another result
    pub fn open(&self) -> bool {
        if self.model.trace.fault().is_none() || self.model.saw_end {
            return true;
        }
        let c = self.checked();
        c.trace.fault().is_none() || c.saw_end
    }
    fn differ(&self, what: &str) -> Result<(), String> {
        Err(format!(
            "{what}\ntext {:?} ({})\nimplementation:\n{}model:\n{}",
            self.text,
            if self.opts.xmlns {
                "with namespaces"
            } else {
                "plain"
            },
            self.real().show(),
            self.model.trace.show()
        ))
    }
    fn same(&self) -> bool {
        self.real().obs == self.model.trace.obs
    }
}

pub type Judge = fn(&Reading) -> Result<(), String>;

fn events(t: &Trace) -> impl Iterator<Item = (&Ev, &Option<Sp>)> {
    t.obs
        .iter()
        .filter_map(|o| o.what.as_ref().ok().map(|e| (e, &o.sp)))
}

/// Elements and the presence of text, with names as written
#[derive(PartialEq)]
enum Bone<'a> {
    Start(&'a str, &'a str),
    End(&'a str, &'a str),
    Text,
    Doc(bool),
}
fn bones(t: &Trace) -> Vec<Bone<'_>> {
    events(t)
        .filter_map(|(e, _)| match e {
            Ev::StartDoc(_) => Some(Bone::Doc(true)),
            Ev::EndDoc => Some(Bone::Doc(false)),
            Ev::Start(n, _) => Some(Bone::Start(&n.prefix, &n.name)),
            Ev::End(n) => Some(Bone::End(&n.prefix, &n.name)),
            Ev::Content(..) => Some(Bone::Text),
            Ev::Comment(..) | Ev::Pi(..) => None,
        })
        .collect()
}

fn bytes(s: &Option<Sp>) -> Option<(usize, usize)> {
    s.map(|s| s.bytes())
}

/// The common part of C04 and C20: a class of faults is reported exactly
fn faults(r: &Reading, mine: fn(&Fault) -> bool, what: &str) -> Result<(), String> {
    if r.same() {
        return Ok(());
    }
    let real = r.real();
    match (r.model.trace.fault(), real.fault()) {
        (Some((m, msp)), got) if mine(m) => match got {
            None => r.differ(&format!("a text with a {what} is accepted")),
            Some((f, _)) if f != m => r.differ(&format!("a {what} is not reported as what it is")),
            Some((_, sp)) if bytes(sp) != bytes(msp) => {
                r.differ(&format!("a {what} is not reported where it is"))
            }
            _ if bones(real) != bones(&r.model.trace) => {
                r.differ(&format!("the events before a {what} are not as they should be"))
            }
            _ => Ok(()),
        },
        (_, Some((f, _))) if mine(f) => {
            r.differ(&format!("a text is rejected for a {what} that it does not have"))
        }
        _ => Ok(()),
    }
}

pub fn c01(r: &Reading) -> Result<(), String> {
    let t = r.real();
    if t.overrun {
        return r.differ("more events than the text can have");
    }
    let c = r.checked();
    if let Some(b) = &c.bad {
        return Err(format!("text {:?}: the lexer asked for {b}", r.text));
    }
    if c.trace.overrun {
        return r.differ("more events than the text can have, on a checking stream");
    }
    for t in [t, &c.trace] {
        for o in t.obs.iter().chain(&t.after) {
            if let Some(sp) = &o.sp {
                for p in [sp.s.byte, sp.e.byte] {
                    if !r.text.is_char_boundary(p) {
                        return r.differ("a position outside of the text or inside a character");
                    }
                }
                if sp.s.byte > sp.e.byte {
                    return r.differ("a span that ends before it starts");
                }
            }
        }
    }
    // neither kind of reading may go on for ever if errors are skipped over
    let n = drive::persist::<LC>(r.text, r.opts, if r.text.len() < 100 { 2 * r.text.len() + 8 } else { 8 });
    if n > 4 * r.text.len() + 16 {
        return r.differ("the events do not come to an end for a caller that keeps asking");
    }
    drive::show_errors::<LC>(r.text, r.opts);
    Ok(())
}

pub fn c02(r: &Reading) -> Result<(), String> {
    if let Some(e) = drive::accessors(r.text, r.opts) {
        return r.differ(&e);
    }
    let t = r.real();
    let mut open: Vec<&QName> = vec![];
    let mut ended = false;
    for (i, o) in t.obs.iter().enumerate() {
        if ended {
            return r.differ("an event after the end of the document");
        }
        let Ok(e) = &o.what else {
            continue;
        };
        if (i == 0) != matches!(e, Ev::StartDoc(_)) {
            return r.differ("the events do not start with the one start of the document");
        }
        match e {
            Ev::StartDoc(v) => {
                if *v != r.opts.version {
                    return r.differ("the version is not the one that was set");
                }
            }
            Ev::Start(n, _) => open.push(n),
            Ev::End(n) => match open.pop() {
                Some(m) if m == n => (),
                _ => return r.differ("an element ends that is not the innermost open one"),
            },
            Ev::Content(..) if open.is_empty() => {
                return r.differ("content outside of all elements")
            }
            Ev::EndDoc => {
                if !open.is_empty() {
                    return r.differ("the document ends before its elements");
                }
                ended = true;
            }
            Ev::Content(..) | Ev::Comment(..) | Ev::Pi(..) => (),
        }
    }
    if t.overrun {
        return r.differ("the events do not end");
    }
    if t.fault().is_none() && !ended {
        return r.differ("neither an end of the document nor an error");
    }
    if t.fault().map(|f| f.0) == Some(&Fault::Beyond) {
        return r.differ("the events end without an end of the document");
    }
    if ended {
        for o in &t.after {
            if o.what != Err(Fault::Beyond) {
                return r.differ("something other than no more events after the end");
            }
        }
    } else if t.after.iter().any(|o| matches!(o.what, Ok(Ev::StartDoc(_)))) {
        return r.differ("a second start of the document after an error");
    }
    Ok(())
}

pub fn c04(r: &Reading) -> Result<(), String> {
    fn mine(f: &Fault) -> bool {
        f.is_structural() || *f == Fault::Eof
    }
    faults(r, mine, "structural mistake")
}

pub fn c20(r: &Reading) -> Result<(), String> {
    fn mine(f: &Fault) -> bool {
        f.is_lexical() || *f == Fault::Eof
    }
    faults(r, mine, "malformed token")
}

#[derive(PartialEq)]
enum Datum<'a> {
    Text(Kind, &'a str),
    Attr(&'a str, &'a str, &'a str),
}
fn data(t: &Trace) -> Vec<Datum<'_>> {
    let mut v = vec![];
    for (e, _) in events(t) {
        match e {
            Ev::Content(k, s) => v.push(Datum::Text(*k, s)),
            Ev::Start(_, a) => {
                for (n, s) in a {
                    v.push(Datum::Attr(&n.prefix, &n.name, s));
                }
            }
            _ => (),
        }
    }
    v
}

pub fn c05(r: &Reading) -> Result<(), String> {
    if r.same() {
        return Ok(());
    }
    let (m, x) = (data(&r.model.trace), data(r.real()));
    let n = m.len().min(x.len());
    if m[..n] != x[..n] {
        return r.differ("text or attribute values are not as written");
    }
    if x.len() < m.len() {
        return r.differ("text or attribute values are missing");
    }
    if x.len() > m.len() {
        // more than the model has: wrong if what the model stopped at is a
        // string or a value, or if the model has read everything
        let wrong = match r.model.trace.fault() {
            None => true,
            Some((Fault::Char('"' | '\''), _)) => true,
            Some((Fault::Equals('='), _)) => true,
            Some((Fault::Char('r'), _)) | Some((Fault::TagName, _)) => true,
            Some((Fault::Equals(_), Some(sp))) => r.text[sp.s.byte..].starts_with('r'),
            _ => false,
        };
        if wrong {
            return r.differ("text or values are delivered that the document does not have");
        }
    }
    Ok(())
}

fn kinds(t: &Trace, comments: bool) -> Vec<std::mem::Discriminant<Ev>> {
    events(t)
        .filter(|(e, _)| comments || !matches!(e, Ev::Comment(..)))
        .map(|(e, _)| std::mem::discriminant(e))
        .collect()
}
fn rest(t: &Trace) -> Vec<&Ev> {
    events(t)
        .map(|e| e.0)
        .filter(|e| !matches!(e, Ev::Comment(..)))
        .collect()
}

pub fn c06(r: &Reading) -> Result<(), String> {
    let m = &r.model.trace;
    let first = events(m)
        .filter(|(e, _)| matches!(e, Ev::Comment(..)))
        .filter_map(|(_, s)| *s)
        .next();
    let Some(first) = first else {
        return Ok(());
    };
    let x = r.real();
    if !r.same() {
        let coms = |t: &Trace| -> Vec<(String, Vec<usize>, Option<(usize, usize)>)> {
            events(t)
                .filter_map(|(e, s)| match e {
                    Ev::Comment(d, l) => Some((d.clone(), l.clone(), bytes(s))),
                    _ => None,
                })
                .collect()
        };
        let (cm, cx) = (coms(m), coms(x));
        let n = cm.len().min(cx.len());
        if cm[..n] != cx[..n] {
            return r.differ("a comment is not delivered as written");
        }
        if cx.len() < cm.len() {
            return r.differ("a comment is missing");
        }
        if m.ok() && x.ok() && kinds(m, true) != kinds(x, true) {
            return r.differ("a comment is out of place, or swallows something");
        }
    }
    if m.ok() {
        if !x.ok() {
            // is it due to the comments?
            let without = strip(r);
            if drive::read::<LC>(&without, r.opts, 0).ok() {
                return r.differ("a text is rejected because of its comments");
            }
            return Ok(());
        }
        let without = strip(r);
        let y = drive::read::<LC>(&without, r.opts, 0);
        if rest(x) != rest(&y) {
            return Err(format!(
                "comments change other events\ntext {:?}\n{}without comments {:?}\n{}",
                r.text,
                x.show(),
                without,
                y.show()
            ));
        }
        let _ = first;
    }
    Ok(())
}

/// The text with a line break in place of each comment
fn strip(r: &Reading) -> String {
    let mut s = String::new();
    let mut at = 0;
    for (e, sp) in events(&r.model.trace) {
        if let (Ev::Comment(..), Some(sp)) = (e, sp) {
            s.push_str(&r.text[at..sp.s.byte]);
            s.push('\n');
            at = sp.e.byte;
        }
    }
    s.push_str(&r.text[at..]);
    s
}

pub fn c07(r: &Reading) -> Result<(), String> {
    if r.same() {
        return Ok(());
    }
    fn names(t: &Trace) -> Vec<(&str, &str)> {
        let mut v = vec![];
        for (e, _) in events(t) {
            match e {
                Ev::Start(n, a) => {
                    v.push((&n.prefix[..], &n.name[..]));
                    for (n, _) in a {
                        v.push((&n.prefix[..], &n.name[..]));
                    }
                }
                Ev::End(n) => v.push((&n.prefix[..], &n.name[..])),
                _ => (),
            }
        }
        v
    }
    let (m, x) = (&r.model.trace, r.real());
    if names(m) != names(x) {
        return r.differ("names are not as written");
    }
    match (m.fault(), x.fault()) {
        (None, None) => Ok(()),
        (None, Some(_)) => r.differ("a name is rejected"),
        (Some(_), None) => r.differ("what is not a name is accepted"),
        (Some((a, s)), Some((b, t))) => {
            if a != b || bytes(s) != bytes(t) {
                return r.differ("the name does not end where it should");
            }
            Ok(())
        }
    }
}

pub fn c08(r: &Reading) -> Result<(), String> {
    let x = r.real();
    // every position on its own
    let mut last = Pos::default();
    let text = model::Text::new(r.text);
    for o in &x.obs {
        let Some(sp) = &o.sp else {
            if !matches!(o.what, Err(Fault::Beyond)) {
                return r.differ("no position");
            }
            continue;
        };
        for p in [&sp.s, &sp.e] {
            if text.pos.binary_search(p).is_err() {
                return r.differ("a position that is not one of the text, or has the wrong line or column");
            }
        }
        if sp.e < sp.s {
            return r.differ("a span that ends before it starts");
        }
        if o.what.is_ok() {
            if sp.s < last {
                return r.differ("positions go backwards");
            }
            last = sp.s;
        }
    }
    if r.same() {
        return Ok(());
    }
    for (m, x) in r.model.trace.obs.iter().zip(&x.obs) {
        let same = match (&m.what, &x.what) {
            (Ok(a), Ok(b)) => std::mem::discriminant(a) == std::mem::discriminant(b),
            (Err(a), Err(b)) => std::mem::discriminant(a) == std::mem::discriminant(b),
            _ => false,
        };
        if !same {
            break;
        }
        if m.sp != x.sp {
            return r.differ(&format!("a wrong position: {}", show_obs(x)));
        }
    }
    Ok(())
}

pub fn c09(r: &Reading) -> Result<(), String> {
    if r.same() {
        return Ok(());
    }
    let (m, x) = (&r.model.trace, r.real());
    for (a, b) in m.obs.iter().zip(&x.obs) {
        match (&a.what, &b.what) {
            (Ok(Ev::Start(n, l)), Ok(Ev::Start(o, k))) => {
                if n.prefix != o.prefix || n.name != o.name || l.len() != k.len() {
                    break;
                }
                if n.uri != o.uri {
                    return r.differ("an element is in the wrong namespace");
                }
                for (p, q) in l.iter().zip(k) {
                    if p.0.prefix == q.0.prefix && p.0.name == q.0.name && p.0.uri != q.0.uri {
                        return r.differ("an attribute is in the wrong namespace");
                    }
                }
            }
            (Ok(Ev::End(n)), Ok(Ev::End(o))) => {
                if n.prefix == o.prefix && n.name == o.name && n.uri != o.uri {
                    return r.differ("an end of element has the wrong namespace");
                }
            }
            (Ok(a), Ok(b)) if std::mem::discriminant(a) == std::mem::discriminant(b) => (),
            _ => break,
        }
    }
    match (m.fault(), x.fault()) {
        (Some((f, sp)), got) if f.is_name() => match got {
            None => r.differ("a name with no declaration in scope is accepted"),
            Some((g, _)) if f != g => r.differ("a name with no declaration is not reported as such"),
            Some((_, s)) if bytes(s) != bytes(sp) => {
                r.differ("a name with no declaration is not reported where it is")
            }
            _ if bones(m) != bones(x) => {
                r.differ("the events before a name with no declaration are not as they should be")
            }
            _ => Ok(()),
        },
        (_, Some((g, _))) if g.is_name() => r.differ("a name that is declared is rejected"),
        _ => Ok(()),
    }
}

pub fn c17(r: &Reading) -> Result<(), String> {
    let a = r.real();
    let flat = |t: &Trace| -> Vec<(Option<(usize, usize)>, Result<Ev, Fault>)> {
        t.obs
            .iter()
            .chain(&t.after)
            .map(|o| (bytes(&o.sp), o.what.clone()))
            .collect()
    };
    let mine = flat(a);
    let b = drive::read::<usize>(r.text, r.opts, 3);
    let o = drive::read::<OddPos>(r.text, r.opts, 3);
    let c = r.checked();
    let d = drive::read_checked::<LC>(r.text, r.opts, 3);
    let e = drive::read_checked::<OddPos>(r.text, r.opts, 3);
    for (what, t, bad) in [
        ("offsets only", &b, &None),
        ("another position type", &o, &None),
        ("offsets only and another stream", &c.trace, &c.bad),
        ("another stream", &d.trace, &d.bad),
        ("another position type and stream", &e.trace, &e.bad),
    ] {
        if let Some(bad) = bad {
            return Err(format!("text {:?}, {what}: asked for {bad}", r.text));
        }
        if flat(t) != mine || t.overrun != a.overrun {
            return Err(format!(
                "different results\ntext {:?}\n{}with {what}:\n{}",
                r.text,
                a.show(),
                t.show()
            ));
        }
    }
    for (what, t) in [
        ("another position type", &o),
        ("another stream", &d.trace),
        ("another position type and stream", &e.trace),
    ] {
        if t.obs != a.obs {
            return Err(format!(
                "different lines or columns\ntext {:?}\n{}with {what}:\n{}",
                r.text,
                a.show(),
                t.show()
            ));
        }
    }
    Ok(())
}

pub fn c21(r: &Reading) -> Result<(), String> {
    if let Err(e) = drive::reported::<LC>(r.text, r.opts) {
        return r.differ(&e);
    }
    // and it has a place, unless there is nothing more
    let t = r.real();
    for o in t.obs.iter().chain(&t.after) {
        if let Err(f) = &o.what {
            if o.sp.is_none() != (*f == Fault::Beyond) {
                return r.differ("an error with no place");
            }
        }
    }
    Ok(())
}

/// Everything agrees
/// Reading asks for each character only so many times
const PER_CHARACTER: u64 = 16;
const AT_MOST: u64 = 64;
pub fn c22(r: &Reading) -> Result<(), String> {
    let c = drive::read_checked::<usize>(r.text, r.opts, 0);
    let n = r.text.chars().count() as u64;
    if c.requests > PER_CHARACTER * n + AT_MOST {
        return Err(format!(
            "reading {n} characters took {} requests for characters\ntext {:?}",
            c.requests, r.text
        ));
    }
    Ok(())
}

pub fn all(r: &Reading) -> Result<(), String> {
    if r.same() {
        Ok(())
    } else {
        r.differ("not what the model says")
    }
}
