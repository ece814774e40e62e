//! Events as XML, and through an XML writer and reader
use crate::drive::{self, kind, qname};
use crate::engine::{digest, Out, Space};
use crate::judges::{Judge, Reading};
use crate::spaces::{changed, specials, words, NAME_WORDS, VALUE_WORDS, product, scale, seqs, unicode};
use crate::types::*;
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event, EventType};
use hml_rs::names::*;
use hml_rs::HmlError;
use lexer_rs::{Lexer, LexerOfStr, StreamCharSpan};
use xml::common::XmlVersion;
use xml::reader::XmlEvent as R;
use xml::writer::XmlEvent as W;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

fn version(v: usize) -> XmlVersion {
    if v == 100 {
        XmlVersion::Version10
    } else {
        XmlVersion::Version11
    }
}

fn as_written(q: &QName) -> (Option<&str>, &str) {
    ((!q.prefix.is_empty()).then_some(&q.prefix[..]), &q.name)
}

/// The namespace of a name need not be given, but then not a wrong one
fn in_space(q: &QName, uri: Option<&str>) -> bool {
    uri.is_none_or(|u| u == q.uri)
}

/// Whether the XML events of an event are as they should be
fn convert(e: &Event<usize>, ns: &NamespaceStack) -> Result<(), String> {
    let (_, ev) = drive::event(e, ns);
    let w = e.as_xml_writer(ns);
    let good = match (&ev, &w) {
        (Ev::EndDoc, None) => true,
        (
            Ev::StartDoc(v),
            Some(W::StartDocument {
                version: x,
                standalone: None,
                ..
            }),
        ) => *x == version(*v),
        (
            Ev::Start(n, a),
            Some(W::StartElement {
                name, attributes, ..
            }),
        ) => {
            as_written(n) == (name.prefix, name.local_name)
                && in_space(n, name.namespace)
                && a.len() == attributes.len()
                && a.iter().zip(attributes.iter()).all(|((n, v), x)| {
                    as_written(n) == (x.name.prefix, x.name.local_name)
                        && in_space(n, x.name.namespace)
                        && v == x.value
                })
        }
        (Ev::End(n), Some(W::EndElement { name })) => match name {
            None => true,
            Some(x) => as_written(n) == (x.prefix, x.local_name),
        },
        (Ev::Content(_, t), Some(W::Characters(x))) => t == x,
        (Ev::Comment(t, _), Some(W::Comment(x))) => t == x,
        (Ev::Pi(n, d), Some(W::ProcessingInstruction { name, data })) => {
            n == name && d.as_deref() == *data
        }
        _ => false,
    };
    ensure!(good, "the XML writer event of {ev:?} is {w:?}");
    for fill in [false, true] {
        let r = e.as_xml_reader(ns, fill);
        let good = match (&ev, &r) {
            (Ev::EndDoc, Some(R::EndDocument)) => true,
            (
                Ev::StartDoc(v),
                Some(R::StartDocument {
                    version: x,
                    standalone: None,
                    ..
                }),
            ) => *x == version(*v),
            (
                Ev::Start(n, a),
                Some(R::StartElement {
                    name, attributes, ..
                }),
            ) => {
                as_written(n) == (name.prefix.as_deref(), &name.local_name[..])
                    && in_space(n, name.namespace.as_deref())
                    && a.len() == attributes.len()
                    && a.iter().zip(attributes.iter()).all(|((n, v), x)| {
                        as_written(n) == (x.name.prefix.as_deref(), &x.name.local_name[..])
                            && in_space(n, x.name.namespace.as_deref())
                            && *v == x.value
                    })
            }
            (Ev::End(n), Some(R::EndElement { name: x })) => {
                as_written(n) == (x.prefix.as_deref(), &x.local_name[..])
                    && in_space(n, x.namespace.as_deref())
            }
            (Ev::Content(_, t), Some(R::Characters(x))) => t == x,
            (Ev::Comment(t, _), Some(R::Comment(x))) => t == x,
            (Ev::Pi(n, d), Some(R::ProcessingInstruction { name, data })) => n == name && d == data,
            _ => false,
        };
        ensure!(good, "the XML reader event of {ev:?} is {r:?}");
    }
    Ok(())
}

/// Reads a text and converts every event; gives the XML
fn to_xml(text: &str, opts: Opts) -> Result<Option<Result<Vec<u8>, String>>, String> {
    let mut n = Namespace::new(opts.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let lexer: LexerOfStr<usize, _, HmlError<usize>> = LexerOfStr::new(text);
    let fns = parse_fns();
    let mut it = lexer.iter(&fns);
    let mut parser: Parser<usize> = Parser::default().set_version(opts.version);
    let mut out = vec![];
    let mut refused = None;
    let mut writer = xml::writer::EmitterConfig::new()
        .perform_indent(false)
        .autopad_comments(false)
        .create_writer(&mut out);
    let mut open = vec![];
    for _ in 0..4 * text.len() + 16 {
        match parser.next_event(&mut ns, || it.next()) {
            Err(_) => return Ok(None),
            Ok(e) => {
                convert(&e, &ns)?;
                match e.as_xml_reader(&ns, false) {
                    Some(R::StartElement { name, .. }) => open.push(name),
                    Some(R::EndElement { name }) => {
                        let start = open.pop();
                        ensure!(start.as_ref() == Some(&name), "the XML reader event ends {start:?} with {name:?}");
                    }
                    _ => (),
                }
                match e.as_xml_writer(&ns) {
                    None => {
                        drop(writer);
                        return Ok(Some(refused.map_or(Ok(out), Err)));
                    }
                    Some(_) if refused.is_some() => (),
                    Some(w) => {
                        if let Err(x) = writer.write(w) {
                            refused = Some(format!("{e:?} is not written: {x}"));
                        }
                    }
                }
            }
        }
    }
    Err("too many events".into())
}

/// What a reader of the XML has to find
#[derive(Debug, PartialEq, Clone)]
enum Item {
    Doc(XmlVersion),
    Start(QName, Vec<(QName, String)>),
    End(QName),
    Text(String),
    Comment(String),
    EndDoc,
}

fn push_text(v: &mut Vec<Item>, t: &str) {
    if t.is_empty() {
        return;
    }
    if let Some(Item::Text(s)) = v.last_mut() {
        s.push_str(t);
    } else {
        v.push(Item::Text(t.into()));
    }
}

fn xml_char(c: char, version: usize, attr: bool) -> bool {
    let ok = matches!(c, ' '..='\u{7e}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
        || (c == '\n')
        || (c == '\t' && !attr)
        || (version == 100 && matches!(c, '\u{7f}'..='\u{9f}'));
    // new lines of XML 1.1
    ok && (version == 100 || c != '\u{2028}')
}

/// The items of a document; None if XML cannot represent it
fn items(r: &Reading) -> Option<Vec<Item>> {
    let v = r.opts.version;
    let text_ok = |t: &str, attr| t.chars().all(|c| xml_char(c, v, attr));
    let (mut depth, mut roots) = (0i64, 0);
    let mut out = vec![];
    for o in &r.real().obs {
        match o.what.as_ref().ok()? {
            Ev::StartDoc(v) => out.push(Item::Doc(version(*v))),
            Ev::EndDoc => out.push(Item::EndDoc),
            Ev::Start(n, attrs) => {
                if depth == 0 {
                    roots += 1;
                }
                depth += 1;
                let mut list: Vec<(QName, String)> = vec![];
                let mut seen = vec![];
                for (a, v) in attrs {
                    if !text_ok(v, true) {
                        return None;
                    }
                    if seen.contains(&(&a.prefix, &a.name)) {
                        return None;
                    }
                    seen.push((&a.prefix, &a.name));
                    let default = a.prefix.is_empty() && a.name == "xmlns";
                    if default || a.prefix == "xmlns" {
                        // and the reader does not take these as the default
                        let reserved = v.starts_with("http://www.w3.org/")
                            || default && (v == "xml" || v == "xmlns");
                        let bad = a.prefix == "xmlns"
                            && (v.is_empty() || a.name == "xml" || a.name == "xmlns");
                        if !r.opts.xmlns || reserved || bad {
                            return None;
                        }
                        continue;
                    }
                    let mut a = a.clone();
                    if a.prefix.is_empty() {
                        // not in a namespace, in XML
                        a.uri.clear();
                    } else if list.iter().any(|(b, _)| b.uri == a.uri && b.name == a.name) {
                        return None;
                    }
                    list.push((a, v.clone()));
                }
                // the reader has no elements with these prefixes
                if n.prefix == "xmlns" || n.prefix == "xml" {
                    return None;
                }
                out.push(Item::Start(n.clone(), list));
            }
            Ev::End(n) => {
                depth -= 1;
                out.push(Item::End(n.clone()));
            }
            Ev::Content(_, t) => {
                if depth == 0 || !text_ok(t, false) {
                    return None;
                }
                push_text(&mut out, t);
            }
            Ev::Comment(t, _) => {
                if t.contains("--") || t.ends_with('-') || !text_ok(t, false) {
                    return None;
                }
                out.push(Item::Comment(t.clone()));
            }
            Ev::Pi(..) => return None,
        }
    }
    (roots == 1).then_some(out)
}

fn owned(n: &xml::name::OwnedName) -> QName {
    QName {
        prefix: n.prefix.clone().unwrap_or_default(),
        uri: n.namespace.clone().unwrap_or_default(),
        name: n.local_name.clone(),
    }
}

fn read_xml(xml: &[u8]) -> Result<Vec<Item>, String> {
    let reader = xml::reader::ParserConfig::new()
        .whitespace_to_characters(true)
        .cdata_to_characters(true)
        .ignore_comments(false)
        .coalesce_characters(false)
        .create_reader(xml);
    let mut out = vec![];
    for e in reader {
        match e.map_err(|e| e.to_string())? {
            R::StartDocument { version, .. } => out.push(Item::Doc(version)),
            R::EndDocument => out.push(Item::EndDoc),
            R::StartElement {
                name, attributes, ..
            } => out.push(Item::Start(
                owned(&name),
                attributes
                    .iter()
                    .map(|a| (owned(&a.name), a.value.clone()))
                    .collect(),
            )),
            R::EndElement { name } => out.push(Item::End(owned(&name))),
            R::Characters(t) | R::CData(t) | R::Whitespace(t) => push_text(&mut out, &t),
            R::Comment(t) => out.push(Item::Comment(t)),
            e => return Err(format!("{e:?} in the XML")),
        }
    }
    Ok(out)
}

/// Every event of every text; and the XML of those texts that have one
pub fn c12_judge(r: &Reading) -> Result<(), String> {
    let Some(xml) = to_xml(r.text, r.opts)? else {
        return Ok(());
    };
    let Some(want) = items(r) else {
        return Ok(());
    };
    let xml = xml?;
    let shown = String::from_utf8_lossy(&xml);
    let got = read_xml(&xml)
        .map_err(|e| format!("the XML of {:?} is not well formed, {e}: {shown}", r.text))?;
    ensure!(
        got == want,
        "the XML of {:?} is {shown}, which is read as\n{got:?}\nand not\n{want:?}",
        r.text
    );
    Ok(())
}

// Events of all kinds

const STRS: &[&str] = &[
    "", "x", "a b\n", "<&>\"'", "\u{1f600}\u{e9}", "]]>", "--", " ", "\n", "\t", "\r", "\r\n", "a\r\nb", " a", "a ", "&amp;", "&#10;", "<a/>",
    "<![CDATA[x]]>", "<!--", "-->", "-", "a-", "?>", "<?", "\\n", "\\", "{}", "%s", "a:b", "\u{0}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}",
    "\u{feff}", "\u{ffff}", "xml", "0",
];

struct Made {
    event: Event<usize>,
    want: Ev,
    span: (usize, usize),
}

const PREFIXES: &[&str] = &["", "p", "xmlns", "xml", "q"];
const VERSIONS: &[usize] = &[100, 110, 0, 1, 99, 101, 10, 1000, 200, usize::MAX];
fn make(p: &[u32], st: &mut NamespaceStack) -> Option<Made> {
    let (start, end) = (p[1] as usize * 7, p[1] as usize * 8 + 1);
    let span = StreamCharSpan::new(start, end);
    let (i, j) = (p[2] as usize, p[3] as usize);
    let q = |st: &NamespaceStack, n: &Name| qname(n, st);
    let s = STRS.get(i).copied();
    let (event, want) = match p[0] {
        0 => {
            let v = *VERSIONS.get(i).filter(|_| j == 0)?;
            (Event::start_document(span, v), Ev::StartDoc(v))
        }
        1 if i == 0 && j == 0 => (Event::end_document(span), Ev::EndDoc),
        2 => {
            // as many attributes as i, in an order
            if j >= PREFIXES.len() {
                return None;
            }
            let mut attrs = Attributes::default();
            let mut list = vec![];
            for k in 0..i {
                let (ap, an) = (PREFIXES[(k + j) % PREFIXES.len()], ["k", "l", "k"][k % 3]);
                attrs.add(st, ap, an, STRS[(k + i) % STRS.len()].into()).ok()?;
            }
            for a in attrs.attributes() {
                list.push((q(st, &a.name), a.value.clone()));
            }
            let tag = Tag::new(st, PREFIXES[j], "el", attrs).ok()?;
            let name = q(st, &tag.name);
            (Event::start_element(span, tag), Ev::Start(name, list))
        }
        3 => {
            let name = Name::new(st, PREFIXES.get(j)?, ["a", "\u{e9}"].get(i)?).ok()?;
            let n = q(st, &name);
            (Event::end_element(span, name), Ev::End(n))
        }
        4 => {
            let t = s?.to_string();
            let (a, b) = match j {
                0 => (Event::content_raw(span, t.clone()), Kind::Raw),
                1 => (Event::content_int(span, t.clone()), Kind::Int),
                2 => (Event::content_ws(span, t.clone()), Kind::Ws),
                3 => (Event::content(span, ContentType::Raw, t.clone()), Kind::Raw),
                4 => (
                    Event::content(span, ContentType::Interpretable, t.clone()),
                    Kind::Int,
                ),
                5 => (
                    Event::content(span, ContentType::Whitespace, t.clone()),
                    Kind::Ws,
                ),
                _ => return None,
            };
            (a, Ev::Content(b, t))
        }
        5 => {
            let t = s?.to_string();
            let lens: Vec<usize> = (0..j).collect();
            (
                Event::comment(span, t.clone(), lens.clone()),
                Ev::Comment(t, lens),
            )
        }
        6 => {
            let data = if j == 0 {
                None
            } else {
                Some(STRS.get(j - 1)?.to_string())
            };
            let target = *["t", "xml-style", "\u{e9}"].get(i)?;
            let name = st.add_name(target);
            (
                Event::ProcessingInstruction {
                    span,
                    name,
                    data: data.clone(),
                },
                Ev::Pi(target.into(), data),
            )
        }
        _ => return None,
    };
    Some(Made {
        event,
        want,
        span: (start, end),
    })
}

fn all_events(
    name: &str,
    test: fn(Made, &NamespaceStack) -> Result<(), String>,
) -> Box<dyn Space> {
    product(
        name,
        &format!("events of all kinds with all of {STRS:?}, {PREFIXES:?}, versions {VERSIONS:?}, 0 to 39 attributes or lines"),
        vec![7, 3, 40, 40],
        move |p| {
            let mut n = Namespace::new(true);
            let mut st = NamespaceStack::new(&mut n);
            st.add_ns("p", "u");
            st.add_ns("q", "");
            if p[1] == 1 {
                st.add_ns("", "d");
            }
            let Some(m) = make(p, &mut st) else {
                return Ok(Out {
                    extend: false,
                    state: 0,
                    runs: 0,
                });
            };
            let state = digest(&m.want);
            test(m, &st)?;
            Ok(Out {
                extend: false,
                state,
                runs: 1,
            })
        },
        |p| format!("event {p:?}"),
    )
}

fn fields(m: Made, ns: &NamespaceStack) -> Result<(), String> {
    let (e, want) = (m.event, m.want);
    let (sp, got) = drive::event(&e, ns);
    ensure!(got == want, "the event made for {want:?} is {got:?}");
    ensure!(
        sp.bytes() == m.span && drive::span(e.borrow_span()).bytes() == m.span,
        "the span of {want:?} is {:?} and {:?}, not {:?}",
        sp.bytes(),
        drive::span(e.borrow_span()).bytes(),
        m.span
    );
    let ty = match &want {
        Ev::StartDoc(_) => EventType::StartDocument,
        Ev::EndDoc => EventType::EndDocument,
        Ev::Start(..) => EventType::StartElement,
        Ev::End(_) => EventType::EndElement,
        Ev::Content(..) => EventType::Content,
        Ev::Comment(..) => EventType::Comment,
        Ev::Pi(..) => EventType::ProcessingInstruction,
    };
    ensure!(e.get_type() == ty, "the type of {want:?} is {:?}", e.get_type());
    let v = match &want {
        Ev::StartDoc(v) => Some(*v),
        _ => None,
    };
    ensure!(
        e.as_start_document() == v && e.is_start_document() == v.is_some(),
        "as_start_document or is_start_document of {want:?}"
    );
    ensure!(
        e.is_end_document() == (want == Ev::EndDoc),
        "is_end_document of {want:?}"
    );
    let n = match &want {
        Ev::End(n) => Some(n.clone()),
        _ => None,
    };
    ensure!(
        e.as_end_element().map(|n| qname(n, ns)) == n,
        "as_end_element of {want:?}"
    );
    let c = match &want {
        Ev::Content(k, t) => Some((*k, &t[..])),
        _ => None,
    };
    ensure!(
        e.as_content().map(|(k, t)| (kind(k), t)) == c,
        "as_content of {want:?}"
    );
    let tag = e.as_start_element().map(|t| {
        (
            qname(&t.name, ns),
            t.attributes
                .attributes()
                .iter()
                .map(|a| (qname(&a.name, ns), a.value.clone()))
                .collect::<Vec<_>>(),
        )
    });
    let s = match want {
        Ev::Start(n, a) => Some((n, a)),
        _ => None,
    };
    ensure!(tag == s, "as_start_element of {s:?} is {tag:?}");
    Ok(())
}

/// For C02: events of all kinds
pub fn event_fields() -> Box<dyn Space> {
    all_events("events", fields)
}

/// constructs with text that needs care
const BUILD: &[&str] = &[
    "#a ",
    "##a ",
    "###\u{e9} ",
    "#b{ ",
    "#b} ",
    "k='<\"&' ",
    "l=\"'\n>\" ",
    "\"<&]]>\" ",
    "r' \n' ",
    ";c <&>\n",
];
const SPACES: &[&str] = &[
    "#a ", "##a ", "#p:a ", "##p:a ", "###q:b ", "xmlns:p=u ", "xmlns:p=v ", "xmlns=d ", "p:k=1 ",
    "k=1 ", "xmlns:q=u ", "xml:k=1 ", "xmlns:p='' ",
];
const ONE: &[&str] = &[
    "xmlns:p=u ", "xmlns:q=v ", "xmlns=d ", "p:k=1 ", "q:k=1 ", "k=1 ", "xml:k=1 ", "##p:b ",
    "##c ", "xmlns='' ", "xmlns:p=w ", "xmlns:q='' ",
];
const TEXT: &[&str] = &["<", ">", "&", "\"", "'", "\n", " ", "]", "a", ";", "\u{e9}", "\t"];
const PLACES: &[&str] = &[
    "#a r'\u{0}'",
    "#a k=\"\u{0}\" ##b \"x\u{0}\u{0}y\"",
    "#a ;\u{0}x\n",
    "#\u{0} 'x'",
    "#a \u{0}=1",
    "#a\u{0}b k\u{0}l=1",
];
const NS_PLACES: &[&str] = &["#\u{0}:a xmlns:\u{0}=u \u{0}:k=1", "#p:a xmlns:p='\u{0}'"];

const V11: Opts = Opts {
    xmlns: false,
    version: 110,
};
const NS11: Opts = Opts {
    xmlns: true,
    version: 110,
};

pub fn c12(th: bool) -> Vec<Box<dyn Space>> {
    let d = |a, b| if th { b } else { a };
    let j = c12_judge as Judge;
    let mut v = vec![
        all_events("events", |m, ns| convert(&m.event, ns)),
        seqs("constructs", "", BUILD, d(5, 6), PLAIN, j),
        seqs("constructs-1.1", "", BUILD, d(4, 5), V11, j),
        seqs("namespaces", "", SPACES, d(5, 6), XMLNS, j),
        seqs("one-tag", "#p:a ", ONE, d(5, 6), XMLNS, j),
        seqs("one-tag-1.1", "#a ", ONE, d(4, 5), NS11, j),
        seqs("text", "#a ##'", &[TEXT, &["'##"]].concat(), d(5, 6), PLAIN, j),
        seqs("value", "#a k='", TEXT, d(4, 6), PLAIN, j),
        seqs("comment", "#a ;", TEXT, d(4, 5), PLAIN, j),
        unicode("characters", if th { PLACES } else { &PLACES[..3] }, PLAIN, j),
        unicode("characters-1.1", if th { PLACES } else { &PLACES[1..2] }, V11, j),
    ];
    if th {
        v.push(unicode("namespace-characters", NS_PLACES, XMLNS, j));
    }
    crate::props::mixed(&mut v, j, 3);
    v.push(changed("changed", 0, XMLNS, j));
    v.push(changed("changed-twice", d(10, 20), XMLNS, j));
    crate::props::word_pairs(&mut v, j);
    v.push(words("words-as-uris", crate::props::URI_PAIRS, &[NAME_WORDS, VALUE_WORDS], &[NAME_WORDS, VALUE_WORDS], XMLNS, j));
    v.push(specials("specials", PLACES, d(2, 3), PLAIN, j));
    v.push(scale("scale", d(64, 300), d(1025, 4097), PLAIN, j));
    v.push(scale("scale-in-namespaces", d(64, 300), d(257, 4097), XMLNS, j));
    v
}
