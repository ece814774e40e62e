//! Readers one after another and at the same time
use crate::drive::{obs, read, read_with, LC};
use crate::engine::{capture_len, digest, Out, Space, Verdict};
use crate::judges::Reading;
use crate::model;
use crate::spaces::{all_families, product, scale, seqs, sizes, unicode, Gen};
use crate::types::*;
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::names::{Namespace, NamespaceStack};
use hml_rs::HmlError;
use lexer_rs::{Lexer, LexerOfStr};
use std::io::Write;
use std::sync::Mutex;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

/// Only one case at a time, so that output is that of the case
static QUIET: Mutex<()> = Mutex::new(());

fn quietly<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let _lock = QUIET.lock().unwrap_or_else(|e| e.into_inner());
    let before = capture_len();
    let r = f();
    let _ = std::io::stdout().flush();
    let after = capture_len();
    if r.is_ok() {
        ensure!(
            before == after,
            "{} bytes were written to standard output or standard error",
            after - before
        );
    }
    r
}

const DOCS: &[&str] = &[
    "#a",
    "#a k=1 'x'",
    "#p:a xmlns:p=u p:k=1 ##p:q",
    "#p:a xmlns:p=v ##q:b xmlns:q=u ;c\n",
    "#a xmlns=d ##b k=1",
    "#c{ xmlns:p=w #p:x xmlns:p=u #p:y #c} ##b",
    // not HML, at various places
    "#p:a",
    "#a p:k=1",
    "#a xmlns:p=u xmlns=e ##q:b",
    "#a xmlns:p=u ##b xmlns:q=v !",
    "#a{ xmlns:p=u",
    "#a xmlns:q=v 'x",
    "#xmlns:a xml:b=1 xmlns:r=z",
];

/// Reads some events
fn partly(text: &str, ns: &mut NamespaceStack, opts: Opts, n: usize) -> Vec<Obs> {
    let lexer: LexerOfStr<LC, _, HmlError<LC>> = LexerOfStr::new(text);
    let fns = parse_fns();
    let mut it = lexer.iter(&fns);
    let mut parser: Parser<LC> = crate::drive::parser(opts);
    let mut v = vec![];
    for _ in 0..n {
        let r = parser.next_event(ns, || it.next());
        let o = obs(&r, ns);
        let end = !matches!(o.what, Ok(ref e) if *e != Ev::EndDoc);
        v.push(o);
        if end {
            break;
        }
    }
    v
}

type Snapshot = (
    Vec<Option<String>>,
    Vec<(String, String)>,
    Vec<(String, String)>,
);
fn snapshot(st: &mut NamespaceStack) -> Snapshot {
    let found = ["", "p", "q", "r", "xml", "xmlns"]
        .iter()
        .map(|p| {
            let i = st.find_prefix_id(p)?;
            let u = st.find_mapping(i)?;
            Some(st.uri_str(u).to_string())
        })
        .collect();
    let st = &*st;
    let own = |m| {
        let (a, b) = st.borrow_mapping(m);
        (a.to_string(), b.to_string())
    };
    let mut all: Vec<_> = st.into_iter().map(own).collect();
    let mut top: Vec<_> = st.iter_top_mappings().map(own).collect();
    all.sort();
    top.sort();
    (
        found,
        all,
        top,
    )
}

fn same(what: &str, got: &[Obs], want: &[Obs]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let show = |v: &[Obs]| v.iter().map(|o| format!("    {}\n", show_obs(o))).collect::<String>();
    Err(format!("{what}\nhere:\n{}alone:\n{}", show(got), show(want)))
}

/// How much of a document is read: 0 for all of it, else the number of events
const AMOUNTS: &[usize] = &[0, 2, 3];

/// Documents with one namespace, each with its own stack
fn histories(name: &str, depth: usize, xmlns: bool) -> Box<dyn Space> {
    let opts = Opts {
        xmlns,
        version: 100,
    };
    let width = (DOCS.len() * AMOUNTS.len()) as u32;
    let split = |i: u32| (DOCS[i as usize % DOCS.len()], AMOUNTS[i as usize / DOCS.len()]);
    Box::new(Gen {
        name: name.into(),
        bound: format!(
            "all histories of up to {depth} of {DOCS:?} read with one namespace, completely or {:?} events, xmlns {xmlns}",
            &AMOUNTS[1..]
        ),
        width: Box::new(move |p| if p.len() < depth { width } else { 0 }),
        run: Box::new(move |p| -> Verdict {
            quietly(|| {
                let mut n = Namespace::new(xmlns);
                for (i, x) in p.iter().enumerate() {
                    let (text, amount) = split(*x);
                    let mut st = NamespaceStack::new(&mut n);
                    let last = i + 1 == p.len();
                    let got = if amount == 0 {
                        read_with::<LC>(text, &mut st, opts, 2)
                    } else {
                        let mut t = Trace::default();
                        t.obs = partly(text, &mut st, opts, amount);
                        t
                    };
                    if last {
                        let mut want = read::<LC>(text, opts, 2);
                        if amount > 0 {
                            want.obs.truncate(amount);
                            want.after.clear();
                        }
                        same("the events of the last differ", &got.obs, &want.obs)?;
                        same("the events after its end differ", &got.after, &want.after)?;
                    }
                }
                let mut known = vec![];
                for s in ["a", "b", "c", "k", "x", "y"] {
                    known.push(n.find_name(s).is_some());
                }
                for s in ["p", "q", "r"] {
                    known.push(n.find_prefix(s).is_some());
                }
                for s in ["u", "v", "w", "d", "e", "z"] {
                    known.push(n.find_uri(s).is_some());
                }
                Ok(Out {
                    extend: true,
                    state: digest(known),
                    runs: 1,
                })
            })
        }),
        show: Box::new(move |p| {
            p.iter()
                .map(|i| format!("{:?}", split(*i)))
                .collect::<Vec<_>>()
                .join(" then ")
        }),
    })
}

/// A stack with some mappings
fn prepare(st: &mut NamespaceStack, env: u32) {
    match env {
        0 => (),
        1 => {
            st.add_ns("p", "u");
        }
        2 => {
            st.add_ns("p", "v");
            st.add_ns("", "d");
            st.push_frame();
            st.add_ns("q", "u");
        }
        _ => {
            st.add_ns("q", "x");
            st.push_frame();
            st.add_ns("p", "y");
            st.add_ns("", "");
            st.push_frame();
        }
    }
}

/// Documents with one stack; those that are read completely
fn on_one_stack(name: &str, depth: usize) -> Box<dyn Space> {
    Box::new(Gen {
        name: name.into(),
        bound: format!(
            "all histories of up to {depth} of {DOCS:?} that are HML, read with one stack that has one of 4 sets of mappings, with and without xmlns"
        ),
        width: Box::new(move |p| match p.len() {
            0 => 8,
            n if n <= depth => DOCS.len() as u32,
            _ => 0,
        }),
        run: Box::new(move |p| -> Verdict {
            if p.is_empty() {
                return Ok(crate::engine::INNER);
            }
            let (env, xmlns) = (p[0] / 2, p[0] % 2 == 1);
            let opts = Opts {
                xmlns,
                version: 100,
            };
            quietly(|| {
                let mut n = Namespace::new(xmlns);
                let mut st = NamespaceStack::new(&mut n);
                prepare(&mut st, env);
                let before = snapshot(&mut st);
                let mut complete = true;
                // a history goes on after documents that were read completely
                for (i, x) in p[1..].iter().enumerate() {
                    let text = DOCS[*x as usize];
                    let got = read_with::<LC>(text, &mut st, opts, 2);
                    let last = i + 2 == p.len();
                    if last {
                        let mut n = Namespace::new(xmlns);
                        let mut alone = NamespaceStack::new(&mut n);
                        prepare(&mut alone, env);
                        let want = read_with::<LC>(text, &mut alone, opts, 2);
                        same("the events of the last differ", &got.obs, &want.obs)?;
                        same("the events after its end differ", &got.after, &want.after)?;
                    }
                    complete = got.ok();
                    if complete {
                        let after = snapshot(&mut st);
                        ensure!(
                            after == before,
                            "after the document the mappings are\n{after:?}\nbefore it\n{before:?}"
                        );
                    }
                }
                Ok(Out {
                    extend: complete,
                    state: digest((p[0], snapshot(&mut st), p.last())),
                    runs: 1,
                })
            })
        }),
        show: Box::new(move |p| {
            format!(
                "mappings {:?} {:?}",
                p.first(),
                p.iter().skip(1).map(|i| DOCS[*i as usize]).collect::<Vec<_>>()
            )
        }),
    })
}

/// All interleavings of two readers; the path is two documents and then the schedule
fn interleavings(name: &str, docs: &'static [&'static str], xmlns: bool, shared: bool) -> Box<dyn Space> {
    let opts = Opts {
        xmlns,
        version: 100,
    };
    // events until the end or the error, and one request after that
    let steps: Vec<usize> = docs.iter().map(|d| read::<LC>(d, opts, 0).obs.len() + 1).collect();
    let steps2 = steps.clone();
    let n = docs.len() as u32;
    Box::new(Gen {
        name: name.into(),
        bound: format!(
            "all pairs of {docs:?} in all interleavings of their events, xmlns {xmlns}, {}",
            if shared {
                "of one text in one lexer where they are the same"
            } else {
                "each with its own lexer"
            }
        ),
        width: Box::new(move |p| match p.len() {
            0 | 1 => n,
            _ => {
                let total = steps[p[0] as usize] + steps[p[1] as usize];
                if p.len() - 2 < total {
                    2
                } else {
                    0
                }
            }
        }),
        run: Box::new(move |p| -> Verdict {
            if p.len() < 2 {
                return Ok(crate::engine::INNER);
            }
            let (i, j) = (p[0] as usize, p[1] as usize);
            let ones = p[2..].iter().filter(|x| **x == 1).count();
            let zeros = p.len() - 2 - ones;
            let nothing = Out {
                extend: false,
                state: 0,
                runs: 0,
            };
            if zeros > steps2[i] || ones > steps2[j] || (shared && i != j) {
                return Ok(nothing);
            }
            let state = digest((i, j, zeros, ones));
            if zeros < steps2[i] || ones < steps2[j] {
                return Ok(Out {
                    extend: true,
                    state,
                    runs: 0,
                });
            }
            let lexers: [LexerOfStr<LC, _, HmlError<LC>>; 2] =
                [LexerOfStr::new(docs[i]), LexerOfStr::new(docs[j])];
            let fns = [parse_fns(), parse_fns()];
            let second = if shared { 0 } else { 1 };
            let mut its = [lexers[0].iter(&fns[0]), lexers[second].iter(&fns[second])];
            let mut parsers: [Parser<LC>; 2] = [
                Parser::default(),
                Parser::default(),
            ];
            let (mut n1, mut n2) = (Namespace::new(xmlns), Namespace::new(xmlns));
            let mut stacks = [NamespaceStack::new(&mut n1), NamespaceStack::new(&mut n2)];
            let mut got: [Vec<Obs>; 2] = [vec![], vec![]];
            for x in &p[2..] {
                let x = *x as usize;
                let it = &mut its[x];
                let r = parsers[x].next_event(&mut stacks[x], || it.next());
                let o = obs(&r, &stacks[x]);
                got[x].push(o);
            }
            for x in 0..2 {
                let t = read::<LC>(docs[[i, j][x]], opts, 1);
                let want: Vec<Obs> = t.obs.into_iter().chain(t.after).collect();
                same(&format!("the events of reader {x} differ"), &got[x], &want)?;
            }
            Ok(Out {
                extend: false,
                state,
                runs: 1,
            })
        }),
        show: Box::new(move |p| {
            format!(
                "{:?} with the schedule {:?}",
                p.iter().take(2).map(|i| docs[*i as usize]).collect::<Vec<_>>(),
                p.get(2..)
            )
        }),
    })
}

/// One document many times in one process; every time as the first time
fn repeated(times: usize) -> Box<dyn Space> {
    product(
        "repeated",
        &format!("each of {:?} {times} times, with a namespace of its own or with the same one", &DOCS[2..5]),
        vec![3, 2],
        move |p| {
            let text = DOCS[2 + p[0] as usize];
            quietly(|| {
                let first = read::<LC>(text, XMLNS, 1);
                ensure!(
                    first.obs.first().map(|o| &o.what) == Some(&Ok(Ev::StartDoc(100))),
                    "the document starts with {:?}",
                    first.obs.first()
                );
                let mut ns = Namespace::new(true);
                for i in 0..times {
                    let t = if p[1] == 0 {
                        read::<LC>(text, XMLNS, 1)
                    } else {
                        let mut st = NamespaceStack::new(&mut ns);
                        read_with::<LC>(text, &mut st, XMLNS, 1)
                    };
                    same(&format!("the events differ the {}th time", i + 2), &t.obs, &first.obs)?;
                    same(&format!("the events after it differ the {}th time", i + 2), &t.after, &first.after)?;
                }
                Ok(Out {
                    extend: false,
                    state: digest((p[0], p[1])),
                    runs: times as u64 + 1,
                })
            })
        },
        |p| format!("{:?} of its own namespace {}", p.first().map(|i| DOCS[2 + *i as usize]), p.get(1) == Some(&0)),
    )
}

/// Large documents leave the mappings as they were and can be read again
fn large(all: usize, max: usize) -> Box<dyn Space> {
    let fams = all_families();
    let list: Vec<(usize, usize)> = fams
        .iter()
        .enumerate()
        .flat_map(|(i, f)| sizes(all, f.max.min(max)).into_iter().map(move |n| (i, n)))
        .collect();
    let list2 = list.clone();
    product(
        "large",
        &format!(
            "{} families of texts of size 0..{all} and around powers of two to {max}, each read twice with one stack or namespace",
            fams.len()
        ),
        vec![list.len() as u32],
        move |p| {
            let (i, n) = list[p[0] as usize];
            let text = (all_families()[i].make)(n);
            quietly(|| {
                let mut ns = Namespace::new(true);
                let first = {
                    let mut st = NamespaceStack::new(&mut ns);
                    let before = snapshot(&mut st);
                    let first = read_with::<LC>(&text, &mut st, XMLNS, 1);
                    if first.ok() {
                        ensure!(
                            snapshot(&mut st) == before,
                            "the mappings are {:?}, before it {before:?}",
                            snapshot(&mut st)
                        );
                        let again = read_with::<LC>(&text, &mut st, XMLNS, 1);
                        ensure!(again == first, "the events differ when it is read again");
                    }
                    first
                };
                let mut st = NamespaceStack::new(&mut ns);
                let again = read_with::<LC>(&text, &mut st, XMLNS, 1);
                ensure!(again == first, "the events differ with another stack");
                Ok(Out {
                    extend: false,
                    state: digest((i, first.obs.len())),
                    runs: 1,
                })
            })
        },
        move |p| {
            let (i, n) = list2[p[0] as usize];
            format!("{} {n}", all_families()[i].name)
        },
    )
}

/// Reading alone, in every way that the other properties use
fn silent(r: &Reading) -> Result<(), String> {
    quietly(|| {
        let t = read::<LC>(r.text, r.opts, 1);
        let u = read::<usize>(r.text, r.opts, 1);
        ensure!(t.obs.len() == u.obs.len(), "two readings have different lengths");
        Ok(())
    })
}

const FULL: &[&str] = &[
    "#", "a", ":", "=", "\"", "'", ";", "\n", " ", "r", "{", "}", "\u{e9}", "1", "\\", "\u{300}",
];
const BUILD: &[&str] = &[
    "#a ", "##a ", "###a ", "#b ", "#a{ ", "##a{ ", "#b{ ", "#a} ", "##a} ", "#b} ", "k=1 ",
    "\"t\" ", ";c\n",
];
const SPACES: &[&str] = &[
    "#a ", "##a ", "#p:a ", "##p:a ", "#p:a{ ", "#p:a} ", "#q:b ", "xmlns:p=u ", "xmlns:p=v ",
    "xmlns=d ", "p:k=1 ", "k=1 ", "xmlns:q=u ",
];
const PLACES: &[&str] = &["#a \u{0}", "#\u{0} \u{0}='\u{0}' \"\u{0}\" ;\u{0}"];

/// Every document of a few constructs leaves the mappings as they were
fn restored(name: &str, depth: usize, prefix: &'static str, symbols: &'static [&'static str]) -> Box<dyn Space> {
    let make = move |p: &[u32]| -> String {
        let mut s = String::from(prefix);
        for i in p {
            s.push_str(symbols[*i as usize]);
        }
        s
    };
    Box::new(Gen {
        name: name.into(),
        bound: format!("all sequences of up to {depth} of {symbols:?} after {prefix:?} read twice with one stack that has mappings"),
        width: Box::new(move |p| if p.len() < depth { symbols.len() as u32 } else { 0 }),
        run: Box::new(move |p| -> Verdict {
            let text = make(p);
            let m = model::read(&text, XMLNS);
            let extend = m.trace.fault().is_none() || m.saw_end;
            for env in 0..4 {
                let mut n = Namespace::new(true);
                let mut st = NamespaceStack::new(&mut n);
                prepare(&mut st, env);
                let before = snapshot(&mut st);
                let first = read_with::<LC>(&text, &mut st, XMLNS, 1);
                if !first.ok() {
                    continue;
                }
                let after = snapshot(&mut st);
                ensure!(
                    after == before,
                    "after the document the mappings are\n{after:?}\nbefore it\n{before:?}"
                );
                let again = read_with::<LC>(&text, &mut st, XMLNS, 1);
                same("the events differ when it is read again", &again.obs, &first.obs)?;
            }
            Ok(Out {
                extend,
                state: m.state.max(1),
                runs: 4,
            })
        }),
        show: Box::new(move |p| format!("{:?}", make(p))),
    })
}

pub fn c18(th: bool) -> Vec<Box<dyn Space>> {
    let d = |a, b| if th { b } else { a };
    let mut v = vec![
        repeated(d(70000, 300000)),
        histories("histories", 3, true),
        histories("histories-plain", 3, false),
        on_one_stack("one-stack", d(4, 5)),
        interleavings("interleavings", DOCS, true, false),
        interleavings("interleavings-of-one-lexer", DOCS, true, true),
        restored("restored", d(5, 6), "", SPACES),
        restored("restored-in-boxes", d(4, 5), "#p:a{ xmlns:p=w ", SPACES),
        large(d(40, 200), d(1025, 4097)),
        seqs("silent-characters", "", FULL, d(4, 5), XMLNS, silent),
        seqs("silent-inside", "#a ", FULL, d(4, 5), XMLNS, silent),
        seqs("silent-constructs", "", BUILD, d(4, 5), PLAIN, silent),
        seqs("silent-namespaces", "", SPACES, d(4, 5), XMLNS, silent),
        scale("silent-scale", d(20, 64), d(1025, 8193), XMLNS, silent),
    ];
    if th {
        v.push(unicode("silent-all-characters", PLACES, XMLNS, silent));
    }
    v
}
