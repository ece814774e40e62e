//! Errors: what they carry and what they print
use crate::drive::{fault, markup_fault, AsPos, LC};
use crate::engine::{digest, Out, Space, Verdict};
use crate::spaces::{product, sizes, NAME_WORDS, STRING_WORDS, VALUE_WORDS};
use crate::stream::OddPos;
use crate::types::*;
use hml_rs::{HmlError, HmlResult, MarkupError, MarkupResult, Span};
use lexer_rs::{LexerError, PosnInCharStream, UserPosn};
use std::error::Error;

macro_rules! ensure {
    ($c:expr, $($f:tt)*) => {
        if !($c) {
            return Err(format!($($f)*));
        }
    };
}

/// All positions of this text are used
const TEXT: &str = "a\u{e9}\n\u{20ac}\u{1f600}";

fn positions<P: AsPos + PosnInCharStream + UserPosn>() -> Vec<P> {
    let mut v = vec![P::default()];
    for c in TEXT.chars() {
        let p = *v.last().unwrap();
        v.push(if c == '\n' {
            p.advance_line(1)
        } else {
            p.advance_cols(c.len_utf8(), 1)
        });
    }
    v
}

/// What the message of a fault has to include, and a number for the kind of fault
fn says(f: &Fault) -> (u32, Vec<String>) {
    match f {
        Fault::Indent(d) => (0, vec![d.to_string()]),
        Fault::Attr(a) => (1, vec![a.clone()]),
        Fault::CloseTag => (2, vec![]),
        Fault::Content => (3, vec![]),
        Fault::Eof => (4, vec![]),
        Fault::TagName => (5, vec![]),
        Fault::TagSpace => (6, vec![]),
        Fault::Char(c) => (7, vec![c.to_string()]),
        Fault::Equals(c) => (8, vec![c.to_string()]),
        Fault::Newline => (9, vec![]),
        Fault::Unmapped(p) => (10, vec![p.clone()]),
        Fault::EmptyName => (11, vec![]),
        Fault::BadName(n) => (12, vec![n.clone()]),
        Fault::Beyond => (13, vec![]),
        Fault::Io => (14, vec![]),
        Fault::Other(_) => (15, vec![]),
    }
}

/// An error is about what it was made for, where it was made for, and says so
fn error<P: AsPos>(e: &HmlError<P>, want: &Fault, at: Option<Sp>) -> Result<(), String> {
    let (sp, f) = fault(e);
    ensure!(f == *want, "{want:?} is {f:?}");
    ensure!(sp == at, "{want:?} at {at:?} is at {sp:?}");
    message(&e.to_string(), want)?;
    let source = e.source().map(|s| s.to_string());
    match e {
        HmlError::MarkupError { source: s, .. } => {
            ensure!(source == Some(s.to_string()), "the source of {want:?} is {source:?}");
            ensure!(e.to_string().contains(&s.to_string()), "the message of {want:?} is {e}");
            message(&s.to_string(), want)?;
        }
        HmlError::IoError { source: s, .. } => {
            ensure!(source == Some(s.to_string()), "the source of {want:?} is {source:?}");
            ensure!(e.to_string().contains(&s.to_string()), "the message of {want:?} is {e}");
        }
        _ => ensure!(source.is_none(), "{want:?} has the source {source:?}"),
    }
    Ok(())
}
fn message(m: &str, want: &Fault) -> Result<(), String> {
    for s in says(want).1 {
        ensure!(m.contains(&s), "the message of {want:?} is {m:?}");
    }
    Ok(())
}

fn made<P: AsPos>(r: HmlResult<(), P>, want: Fault, at: Option<Sp>) -> Result<(), String> {
    match r {
        Ok(()) => Err(format!("no error for {want:?}")),
        Err(e) => error(&e, &want, at),
    }
}

const CHARS: &[char] = &['a', '\'', '"', '\n', '\u{0}', '\u{e9}', '{', '\u{1f600}', '='];
const STRS: &[&str] = &["", "a", "p:q", "{}", "\u{e9}\n", "'", "{depth}", "a:b:c"];
const IO: &[std::io::ErrorKind] = &[
    std::io::ErrorKind::NotFound,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::Other,
];

fn markup(k: usize, s: &str) -> (MarkupError, Fault) {
    match k {
        0 => (MarkupError::empty_name(), Fault::EmptyName),
        1 => (MarkupError::unmapped_prefix(s), Fault::Unmapped(s.into())),
        _ => (MarkupError::bad_name(s), Fault::BadName(s.into())),
    }
}

/// Every way to make an error, for a start and an end
fn make<P: AsPos + PosnInCharStream + UserPosn>(from: usize, to: usize) -> Result<u64, String> {
    let all = positions::<P>();
    let (s, e) = (all[from], all[to]);
    let sp = Sp::new(s.as_pos(), e.as_pos());
    let span = Span::new(s, e);
    let at = Some(sp);
    let mut runs = 0;
    type E<P> = HmlError<P>;
    made(E::unexpected_eof(&s, &e), Fault::Eof, at)?;
    made(E::unexpected_newline_in_string(&s, &e), Fault::Newline, at)?;
    made(E::unexpected_content(span), Fault::Content, at)?;
    made(E::<P>::no_more_events(), Fault::Beyond, None)?;
    error(&E::ExpectedTagName { span }, &Fault::TagName, at)?;
    error(&E::ExpectedWhitespaceAfterTag { span }, &Fault::TagSpace, at)?;
    runs += 6;
    for c in CHARS {
        made(E::unexpected_character(&s, &e, *c), Fault::Char(*c), at)?;
        made(E::expected_equals(&s, &e, *c), Fault::Equals(*c), at)?;
        error(&E::failed_to_parse(s, *c), &Fault::Char(*c), Some(Sp::at(sp.s)))?;
        runs += 3;
    }
    for d in [0, 1, 2, 9, 10, 255, 256, usize::MAX] {
        made(E::unexpected_tag_indent(span, d), Fault::Indent(d), at)?;
        runs += 1;
    }
    for p in STRS {
        for n in STRS {
            let want = Fault::Attr(format!("{p}:{n}"));
            made(E::unexpected_attribute(span, p, n), want, at)?;
            runs += 1;
        }
        for k in 0..3 {
            let (m, f) = markup(k, p);
            ensure!(markup_fault(&m) == f, "{f:?} is {m:?}");
            message(&m.to_string(), &f)?;
            ensure!(m.source().is_none(), "{f:?} has a source");
            made(E::map_markup_error(Err(m), &span), f, at)?;
            let r: MarkupResult<&str> = Ok(p);
            match E::map_markup_error(r, &span) {
                Ok(t) if t == *p => (),
                r => return Err(format!("a good result {p:?} became {r:?}")),
            }
            runs += 1;
        }
        for kind in IO {
            let io = || std::io::Error::new(*kind, *p);
            let results = [
                Err(E::<P>::io_error(span, io())),
                E::<P>::of_io_result(span, Err::<(), _>(io())),
            ];
            for r in results {
                let Err(e) = r else {
                    return Err("an I/O error is lost".into());
                };
                error(&e, &Fault::Io, at)?;
                match e {
                    HmlError::IoError { source, .. }
                        if source.kind() == *kind && source.to_string() == *p => (),
                    e => return Err(format!("the error {:?} became {e:?}", io())),
                }
            }
            match E::<P>::of_io_result(span, Ok(*p)) {
                Ok(t) if t == *p => (),
                r => return Err(format!("a good result {p:?} became {r:?}")),
            }
            runs += 2;
        }
    }
    Ok(runs)
}

fn constructors() -> Box<dyn Space> {
    let n = TEXT.chars().count() as u32 + 1;
    product(
        "constructors",
        &format!("all ways to make an error, with all pairs of positions of {TEXT:?} of three types and {CHARS:?}, {STRS:?}, {IO:?}"),
        vec![3, n, n],
        |p| -> Verdict {
            let (a, b) = (p[1] as usize, p[2] as usize);
            let runs = if a > b {
                0
            } else {
                match p[0] {
                    0 => make_offsets(a, b)?,
                    1 => make::<LC>(a, b)?,
                    _ => make::<OddPos>(a, b)?,
                }
            };
            Ok(Out {
                extend: false,
                state: digest(p),
                runs,
            })
        },
        |p| format!("{p:?}"),
    )
}
fn make_offsets(a: usize, b: usize) -> Result<u64, String> {
    make::<usize>(a, b)
}

/// The strings that errors are about, in pairs, and long ones
fn words() -> Box<dyn Space> {
    let list = || -> Vec<String> {
        let mut v: Vec<String> = [NAME_WORDS, VALUE_WORDS, STRING_WORDS]
            .concat()
            .iter()
            .map(|s| s.to_string())
            .collect();
        for n in sizes(300, 65537) {
            v.push("a".repeat(n));
        }
        v
    };
    let all = list();
    let first = [NAME_WORDS, VALUE_WORDS].concat();
    product(
        "error-words",
        "the errors about a name, with all pairs of special words, and words with strings of 0..300 and around powers of two to 65536 characters",
        vec![first.len() as u32, all.len() as u32],
        move |p| -> Verdict {
            let (a, b) = (first[p[0] as usize], all[p[1] as usize].as_str());
            let span: Span<usize> = Span::new_at(&0);
            let at = Some(Sp::at(0usize.as_pos()));
            for (x, y) in [(a, b), (b, a)] {
                made(HmlError::unexpected_attribute(span, x, y), Fault::Attr(format!("{x}:{y}")), at)?;
            }
            let mut runs = 2;
            if p[0] == 0 {
                for k in 1..3 {
                    let (m, f) = markup(k, b);
                    ensure!(markup_fault(&m) == f, "{f:?} is {m:?}");
                    message(&m.to_string(), &f)?;
                    made(HmlError::map_markup_error(Err(m), &span), f, at)?;
                    runs += 1;
                }
            }
            Ok(Out {
                extend: false,
                state: digest(p),
                runs,
            })
        },
        |p| format!("{p:?}"),
    )
}

/// The characters that errors are about
fn characters() -> Box<dyn Space> {
    const BLOCK: u32 = 0x400;
    product(
        "error-characters",
        "errors about all 1112064 Unicode characters",
        vec![0x110000 / BLOCK, BLOCK],
        |p| {
            let Some(c) = char::from_u32(p[0] * BLOCK + p[1]) else {
                return Ok(Out {
                    extend: false,
                    state: 0,
                    runs: 0,
                });
            };
            let e = HmlError::<usize>::failed_to_parse(7, c);
            let at = Some(Sp::at(7usize.as_pos()));
            error(&e, &Fault::Char(c), at)?;
            made(HmlError::<usize>::unexpected_character(&7, &7, c), Fault::Char(c), at)?;
            made(HmlError::<usize>::expected_equals(&7, &7, c), Fault::Equals(c), at)?;
            let s = c.to_string();
            let span = Span::new(7, 7);
            made(
                HmlError::<usize>::unexpected_attribute(span, &s, "n"),
                Fault::Attr(format!("{s}:n")),
                at,
            )?;
            for k in 1..3 {
                let (m, f) = markup(k, &s);
                made(HmlError::<usize>::map_markup_error(Err(m), &span), f, at)?;
            }
            Ok(Out {
                extend: false,
                state: digest((c.len_utf8(), c.is_control())),
                runs: 6,
            })
        },
        |p| format!("{:?}", char::from_u32(p[0] * BLOCK + p[1])),
    )
}

/// The depths and lengths
fn numbers() -> Box<dyn Space> {
    let list = sizes(1000, 1 << 62);
    let list2 = list.clone();
    product(
        "error-numbers",
        "errors about the depths and offsets 0..1000 and around all powers of two to 2^62",
        vec![list.len() as u32],
        move |p| {
            let n = list[p[0] as usize];
            let span = Span::new(n, n + 1);
            let at = Some(Sp::new(n.as_pos(), (n + 1).as_pos()));
            made(HmlError::<usize>::unexpected_tag_indent(span, n), Fault::Indent(n), at)?;
            made(HmlError::<usize>::unexpected_eof(&n, &(n + 1)), Fault::Eof, at)?;
            let mut runs = 2;
            if n <= 4097 {
                let s = "\u{e9}".repeat(n);
                for k in 1..3 {
                    let (m, f) = markup(k, &s);
                    made(HmlError::<usize>::map_markup_error(Err(m), &span), f, at)?;
                }
                made(
                    HmlError::<usize>::unexpected_attribute(span, &s, &s),
                    Fault::Attr(format!("{s}:{s}")),
                    at,
                )?;
                runs += 3;
            }
            Ok(Out {
                extend: false,
                state: digest(n),
                runs,
            })
        },
        move |p| format!("{}", list2[p[0] as usize]),
    )
}

/// No two faults have the same message
fn kinds() -> Box<dyn Space> {
    fn all() -> Vec<HmlError<usize>> {
        let span = Span::new(1, 2);
        type E = HmlError<usize>;
        vec![
            E::UnexpectedTagIndent { span, depth: 1 },
            E::UnexpectedAttribute {
                span,
                attr: "1".into(),
            },
            E::UnexpectedCloseTag { span },
            E::UnexpectedContent { span },
            E::UnexpectedEOF { span },
            E::ExpectedTagName { span },
            E::ExpectedWhitespaceAfterTag { span },
            E::UnexpectedCharacter { span, ch: '1' },
            E::ExpectedEquals { span, ch: '1' },
            E::UnexpectedNewlineInQuotedString { span },
            E::MarkupError {
                span,
                source: MarkupError::empty_name(),
            },
            E::MarkupError {
                span,
                source: MarkupError::unmapped_prefix("1"),
            },
            E::MarkupError {
                span,
                source: MarkupError::bad_name("1"),
            },
            E::BeyondEndOfTokens,
            E::IoError {
                span,
                source: std::io::Error::new(std::io::ErrorKind::Other, "1"),
            },
        ]
    }
    let n = all().len() as u32;
    product(
        "messages",
        "all pairs of kinds of errors",
        vec![n, n],
        |p| {
            let (a, b) = (&all()[p[0] as usize], &all()[p[1] as usize]);
            let (a, b) = (a.to_string(), b.to_string());
            ensure!(!a.is_empty(), "an error has no message");
            ensure!((p[0] == p[1]) == (a == b), "two kinds of errors have the message {a:?}");
            Ok(Out {
                extend: false,
                state: digest(p),
                runs: 1,
            })
        },
        |p| format!("{:?} and {:?}", all()[p[0] as usize], all()[p[1] as usize]),
    )
}

/// The error of a reading says what it carries
pub fn reported<P: AsPos>(e: &HmlError<P>) -> Result<(), String> {
    let (sp, f) = fault(e);
    error(e, &f, sp)
}

pub fn c21(th: bool, reading: Vec<Box<dyn Space>>) -> Vec<Box<dyn Space>> {
    let _ = th;
    let mut v = vec![kinds(), constructors(), words(), characters(), numbers()];
    v.extend(reading);
    v
}
