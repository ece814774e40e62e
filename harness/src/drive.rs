//! Runs the implementation and records what it reports
use crate::stream::{Checked, OddPos};
use crate::types::*;
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::{Name, Namespace, NamespaceStack};
use hml_rs::{HmlError, HmlResult, MarkupError, Posn, Span};
use lexer_rs::{Lexer, LexerOfStr, LineColumn, StreamCharPos};

pub type LC = StreamCharPos<LineColumn>;

pub trait AsPos: Posn {
    fn as_pos(&self) -> Pos;
}
impl AsPos for usize {
    fn as_pos(&self) -> Pos {
        Pos {
            byte: *self,
            line: 0,
            col: 0,
        }
    }
}
impl AsPos for LC {
    fn as_pos(&self) -> Pos {
        use lexer_rs::{PosnInCharStream, UserPosn};
        Pos {
            byte: self.byte_ofs(),
            line: self.line(),
            col: self.column(),
        }
    }
}
impl AsPos for OddPos {
    fn as_pos(&self) -> Pos {
        use lexer_rs::{PosnInCharStream, UserPosn};
        Pos {
            byte: self.byte_ofs(),
            line: self.line(),
            col: self.column(),
        }
    }
}

pub fn span<P: AsPos>(s: &Span<P>) -> Sp {
    Sp::new(s.start().as_pos(), s.end().as_pos())
}

pub fn qname(n: &Name, ns: &NamespaceStack) -> QName {
    QName {
        prefix: ns.prefix_str(n.prefix).into(),
        uri: ns.uri_str(n.uri).into(),
        name: ns.name_str(n.name).into(),
    }
}

pub fn kind(c: ContentType) -> Kind {
    match c {
        ContentType::Raw => Kind::Raw,
        ContentType::Interpretable => Kind::Int,
        ContentType::Whitespace => Kind::Ws,
    }
}

pub fn event<P: AsPos>(e: &Event<P>, ns: &NamespaceStack) -> (Sp, Ev) {
    match e {
        Event::StartDocument { span: s, version } => (span(s), Ev::StartDoc(*version)),
        Event::EndDocument { span: s } => (span(s), Ev::EndDoc),
        Event::StartElement { span: s, tag } => (
            span(s),
            Ev::Start(
                qname(&tag.name, ns),
                tag.attributes
                    .attributes()
                    .iter()
                    .map(|a| (qname(&a.name, ns), a.value.clone()))
                    .collect(),
            ),
        ),
        Event::EndElement { span: s, name } => (span(s), Ev::End(qname(name, ns))),
        Event::Content {
            span: s,
            ctype,
            data,
        } => (span(s), Ev::Content(kind(*ctype), data.clone())),
        Event::Comment {
            span: s,
            data,
            lengths,
        } => (span(s), Ev::Comment(data.clone(), lengths.clone())),
        Event::ProcessingInstruction {
            span: s,
            name,
            data,
        } => (span(s), Ev::Pi(ns.name_str(*name).into(), data.clone())),
    }
}

pub fn markup_fault(e: &MarkupError) -> Fault {
    match e {
        MarkupError::EmptyName {} => Fault::EmptyName,
        MarkupError::UnmappedPrefix { prefix } => Fault::Unmapped(prefix.clone()),
        MarkupError::BadName { name } => Fault::BadName(name.clone()),
        #[allow(unreachable_patterns)]
        e => Fault::Other(format!("{e:?}")),
    }
}

pub fn fault<P: AsPos>(e: &HmlError<P>) -> (Option<Sp>, Fault) {
    use HmlError::*;
    let f = match e {
        UnexpectedTagIndent { depth, .. } => Fault::Indent(*depth),
        UnexpectedAttribute { attr, .. } => Fault::Attr(attr.clone()),
        UnexpectedCloseTag { .. } => Fault::CloseTag,
        UnexpectedContent { .. } => Fault::Content,
        UnexpectedEOF { .. } => Fault::Eof,
        ExpectedTagName { .. } => Fault::TagName,
        ExpectedWhitespaceAfterTag { .. } => Fault::TagSpace,
        UnexpectedCharacter { ch, .. } => Fault::Char(*ch),
        ExpectedEquals { ch, .. } => Fault::Equals(*ch),
        UnexpectedNewlineInQuotedString { .. } => Fault::Newline,
        MarkupError { source, .. } => markup_fault(source),
        BeyondEndOfTokens => Fault::Beyond,
        IoError { .. } => Fault::Io,
        #[allow(unreachable_patterns)]
        e => Fault::Other(format!("{e:?}")),
    };
    (e.span().map(span), f)
}

pub fn obs<P: AsPos>(r: &HmlResult<Event<P>, P>, ns: &NamespaceStack) -> Obs {
    match r {
        Ok(e) => {
            let (sp, e) = event(e, ns);
            Obs {
                sp: Some(sp),
                what: Ok(e),
            }
        }
        Err(e) => {
            let (sp, f) = fault(e);
            Obs { sp, what: Err(f) }
        }
    }
}

/// The version is 100 if none is set
pub fn parser<P: AsPos>(opts: Opts) -> Parser<P> {
    if opts.version == 100 {
        Parser::default()
    } else {
        Parser::default().set_version(opts.version)
    }
}

/// Reads with a given lexer; `$look` sees every result before it is recorded
macro_rules! read_all {
    ($P:ty, $lexer:expr, $ns:expr, $limit:expr, $opts:expr, $extra:expr, $look:expr) => {{
        let lexer = $lexer;
        let fns = parse_fns();
        let mut it = lexer.iter(&fns);
        let mut parser: Parser<$P> = crate::drive::parser($opts);
        let mut trace = Trace::default();
        let mut look = $look;
        let limit = 4 * $limit + 16;
        let mut n = 0;
        loop {
            let r = parser.next_event($ns, || it.next());
            let o = obs(&r, $ns);
            look(&r, &*$ns, &o);
            let done = matches!(&o.what, Err(_) | Ok(Ev::EndDoc));
            trace.obs.push(o);
            n += 1;
            if done {
                break;
            }
            if n > limit {
                trace.overrun = true;
                break;
            }
        }
        for _ in 0..$extra {
            let r = parser.next_event($ns, || it.next());
            let o = obs(&r, $ns);
            look(&r, &*$ns, &o);
            trace.after.push(o);
        }
        trace
    }};
}

/// Reads with the library's lexer and the given stack
pub fn read_with<P: AsPos>(
    text: &str,
    ns: &mut NamespaceStack,
    opts: Opts,
    extra: usize,
) -> Trace {
    let lexer: LexerOfStr<P, _, HmlError<P>> = LexerOfStr::new(text);
    read_all!(P, &lexer, ns, text.len(), opts, extra, |_: &_, _: &_, _: &_| ())
}

/// Reads with the library's lexer and a fresh namespace
pub fn read<P: AsPos>(text: &str, opts: Opts, extra: usize) -> Trace {
    let mut n = Namespace::new(opts.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    read_with::<P>(text, &mut ns, opts, extra)
}

pub struct CheckedRun {
    pub trace: Trace,
    pub saw_end: bool,
    pub requests: u64,
    pub bad: Option<String>,
}

/// Reads with the checking stream and a fresh namespace
pub fn read_checked<P: AsPos>(text: &str, opts: Opts, extra: usize) -> CheckedRun {
    let mut n = Namespace::new(opts.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let lexer: Checked<P, _, HmlError<P>> = Checked::new(text);
    let trace = read_all!(P, &lexer, &mut ns, text.len(), opts, extra, |_: &_, _: &_, _: &_| ());
    let bad = lexer.bad.borrow_mut().take();
    CheckedRun {
        trace,
        saw_end: lexer.saw_end.get(),
        requests: lexer.requests.get(),
        bad,
    }
}

/// How many events come if errors are ignored and the caller keeps asking
pub fn persist<P: AsPos>(text: &str, opts: Opts, errors: usize) -> usize {
    let mut n = Namespace::new(opts.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let lexer: LexerOfStr<P, _, HmlError<P>> = LexerOfStr::new(text);
    let fns = parse_fns();
    let mut it = lexer.iter(&fns);
    let mut parser: Parser<P> = parser(opts);
    let (mut good, mut bad) = (0, 0);
    while bad < errors && good <= 4 * text.len() + 16 {
        match parser.next_event(&mut ns, || it.next()) {
            Ok(_) => good += 1,
            Err(_) => bad += 1,
        }
    }
    good
}

/// Formats everything that a reading gives
pub fn show_errors<P: AsPos>(text: &str, opts: Opts) -> usize {
    let mut n = Namespace::new(opts.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let lexer: LexerOfStr<P, _, HmlError<P>> = LexerOfStr::new(text);
    let mut size = 0;
    let t = read_all!(
        P,
        &lexer,
        &mut ns,
        text.len(),
        opts,
        1,
        |r: &HmlResult<Event<P>, P>, _: &NamespaceStack, _: &Obs| {
            if let Err(e) = r {
                size += e.to_string().len() + format!("{e:?}").len();
            }
        }
    );
    size + t.obs.len()
}

/// Whether the errors of a reading say what they carry
pub fn reported<P: AsPos>(text: &str, opts: Opts) -> Result<(), String> {
    let mut n = Namespace::new(opts.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let lexer: LexerOfStr<P, _, HmlError<P>> = LexerOfStr::new(text);
    let mut result = Ok(());
    read_all!(
        P,
        &lexer,
        &mut ns,
        text.len(),
        opts,
        1,
        |r: &HmlResult<Event<P>, P>, _: &NamespaceStack, _: &Obs| {
            if let (Err(e), Ok(())) = (r, &result) {
                result = crate::err::reported(e);
            }
        }
    );
    result
}

/// The message of the first error of a reading
pub fn first_error(text: &str, opts: Opts) -> Option<String> {
    let mut n = Namespace::new(opts.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let lexer: LexerOfStr<LC, _, HmlError<LC>> = LexerOfStr::new(text);
    let mut says = None;
    read_all!(
        LC,
        &lexer,
        &mut ns,
        text.len(),
        opts,
        0,
        |r: &HmlResult<Event<LC>, LC>, _: &NamespaceStack, _: &Obs| {
            if let Err(e) = r {
                says = Some(e.to_string());
            }
        }
    );
    says
}

/// Whether types and accessors agree with the events
pub fn accessors(text: &str, opts: Opts) -> Option<String> {
    use hml_rs::markup::EventType;
    type R = HmlResult<Event<usize>, usize>;
    let mut n = Namespace::new(opts.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let lexer: LexerOfStr<usize, _, HmlError<usize>> = LexerOfStr::new(text);
    let mut bad = None;
    read_all!(
        usize,
        &lexer,
        &mut ns,
        text.len(),
        opts,
        1,
        |r: &R, ns: &NamespaceStack, o: &Obs| {
            let (Ok(e), Ok(ev)) = (r, &o.what) else {
                return;
            };
            let ty = e.get_type();
            let good = match ev {
                Ev::StartDoc(_) => ty == EventType::StartDocument,
                Ev::EndDoc => ty == EventType::EndDocument,
                Ev::Start(..) => ty == EventType::StartElement,
                Ev::End(_) => ty == EventType::EndElement,
                Ev::Content(..) => ty == EventType::Content,
                Ev::Comment(..) => ty == EventType::Comment,
                Ev::Pi(..) => ty == EventType::ProcessingInstruction,
            };
            if !good {
                bad = Some(format!("the type of the event {ev:?} is {ty:?}"));
            }
            let mut check = |what: &str, good: bool| {
                if !good {
                    bad = Some(format!("{what} does not agree with the event {ev:?}"));
                }
            };
            check("borrow_span", Some(span(e.borrow_span())) == o.sp);
            check(
                "as_start_document",
                e.as_start_document()
                    == match ev {
                        Ev::StartDoc(v) => Some(*v),
                        _ => None,
                    },
            );
            check(
                "is_start_document",
                e.is_start_document() == matches!(ev, Ev::StartDoc(_)),
            );
            check(
                "is_end_document",
                e.is_end_document() == matches!(ev, Ev::EndDoc),
            );
            check(
                "as_end_element",
                e.as_end_element().map(|n| qname(n, ns))
                    == match ev {
                        Ev::End(n) => Some(n.clone()),
                        _ => None,
                    },
            );
            check(
                "as_content",
                e.as_content().map(|(c, s)| (kind(c), s.to_string()))
                    == match ev {
                        Ev::Content(k, s) => Some((*k, s.clone())),
                        _ => None,
                    },
            );
        }
    );
    bad
}
