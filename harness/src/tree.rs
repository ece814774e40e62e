//! Trees, all the ways to write them, and what reading them has to give
use crate::drive::{self, LC};
use crate::engine::{digest, Out, Space, Verdict};
use crate::spaces::{product, Gen};
use crate::types::*;

#[derive(Debug, Clone)]
pub enum Node {
    Element {
        name: &'static str,
        attrs: &'static [(&'static str, &'static str)],
        kids: Vec<Node>,
        id: usize,
    },
    Text(&'static str, bool),
    Comment(&'static str),
}

#[derive(Clone, Copy)]
enum Item {
    Open(&'static str, &'static [(&'static str, &'static str)]),
    Text(&'static str, bool),
    Comment(&'static str),
    Close,
}
const ITEMS: &[Item] = &[
    Item::Open("a", &[]),
    Item::Open("b", &[("k", "v"), ("l", "\u{e9};#")]),
    Item::Text("t", false),
    Item::Text("u\\n", true),
    Item::Comment(" c"),
    Item::Close,
];

/// The nodes of a path and how many elements they have; None if it is not a
/// prefix of a tree
fn build(path: &[u32]) -> Option<(Vec<Node>, usize, bool)> {
    // open elements with their children so far; the first is the document
    let mut stack: Vec<Vec<Node>> = vec![vec![]];
    let mut opened: Vec<(&'static str, &'static [(&'static str, &'static str)], usize)> = vec![];
    let mut n = 0;
    for i in path {
        match ITEMS[*i as usize] {
            Item::Open(name, attrs) => {
                if opened.is_empty() && stack[0].iter().any(|n| matches!(n, Node::Element { .. })) {
                    return None;
                }
                opened.push((name, attrs, n));
                stack.push(vec![]);
                n += 1;
            }
            Item::Text(t, raw) => {
                if opened.is_empty() {
                    return None;
                }
                stack.last_mut()?.push(Node::Text(t, raw));
            }
            Item::Comment(c) => {
                let l = stack.last_mut()?;
                if matches!(l.last(), Some(Node::Comment(_))) {
                    return None;
                }
                l.push(Node::Comment(c));
            }
            Item::Close => {
                let (name, attrs, id) = opened.pop()?;
                let kids = stack.pop()?;
                stack.last_mut()?.push(Node::Element {
                    name,
                    attrs,
                    kids,
                    id,
                });
            }
        }
    }
    let complete = opened.is_empty() && n > 0;
    Some((stack.swap_remove(0), n, complete))
}

/// How to write a tree
pub struct Style<'a> {
    pub boxed: &'a dyn Fn(usize) -> bool,
    pub sep: usize,
    pub quote: usize,
    pub value: usize,
}
const SEPS: &[&str] = &[" ", "\n", " \r\n\t", "\u{2003}"];
const TIGHT: usize = 4;
const QUOTES: &[(&str, &str)] = &[
    ("\"", "\""),
    ("'", "'"),
    ("#\"", "\"#"),
    ("###'", "'###"),
];

/// Elements that text or a comment follows can only be written boxed
fn must_box(next: Option<&Node>) -> bool {
    matches!(next, Some(Node::Text(..) | Node::Comment(_)))
}

fn write(nodes: &[Node], depth: usize, st: &Style, out: &mut String) {
    let sep = |i: usize| -> &str {
        match st.sep {
            TIGHT => " ",
            n if n < SEPS.len() => SEPS[n],
            _ => SEPS[i % SEPS.len()],
        }
    };
    for (i, n) in nodes.iter().enumerate() {
        match n {
            Node::Element {
                name,
                attrs,
                kids,
                id,
            } => {
                let boxed = must_box(nodes.get(i + 1)) || (st.boxed)(*id);
                for _ in 0..depth {
                    out.push('#');
                }
                out.push_str(name);
                if boxed {
                    out.push('{');
                }
                out.push_str(sep(*id));
                for (j, (k, v)) in attrs.iter().enumerate() {
                    let q = match st.value {
                        0 => "",
                        1 => "\"",
                        2 => "'",
                        _ => ["", "\"", "'"][(id + j) % 3],
                    };
                    out.push_str(k);
                    out.push('=');
                    out.push_str(q);
                    out.push_str(v);
                    out.push_str(q);
                    if !(st.sep == TIGHT && !q.is_empty()) {
                        out.push_str(sep(*id + j + 1));
                    }
                }
                write(kids, if boxed { 1 } else { depth + 1 }, st, out);
                if boxed {
                    for _ in 0..depth {
                        out.push('#');
                    }
                    out.push_str(name);
                    out.push('}');
                    out.push_str(sep(*id + 1));
                }
            }
            Node::Text(t, raw) => {
                let (a, b) = if st.quote < QUOTES.len() {
                    QUOTES[st.quote]
                } else {
                    QUOTES[i % QUOTES.len()]
                };
                if *raw {
                    out.push('r');
                }
                out.push_str(a);
                out.push_str(t);
                out.push_str(b);
                if st.sep != TIGHT {
                    out.push_str(sep(i));
                }
            }
            Node::Comment(c) => {
                out.push(';');
                out.push_str(c);
                out.push('\n');
                if st.sep != TIGHT {
                    out.push_str(sep(i));
                }
            }
        }
    }
}

fn events(nodes: &[Node], out: &mut Vec<Ev>) {
    let name = |n: &str| QName {
        name: n.into(),
        ..QName::default()
    };
    for n in nodes {
        match n {
            Node::Element {
                name: x,
                attrs,
                kids,
                ..
            } => {
                out.push(Ev::Start(
                    name(x),
                    attrs
                        .iter()
                        .map(|(k, v)| (name(k), v.to_string()))
                        .collect(),
                ));
                events(kids, out);
                out.push(Ev::End(name(x)));
            }
            Node::Text(t, raw) => out.push(Ev::Content(
                if *raw { Kind::Raw } else { Kind::Int },
                t.to_string(),
            )),
            Node::Comment(c) => out.push(Ev::Comment(c.to_string(), vec![c.len()])),
        }
    }
}

pub fn text_of(nodes: &[Node], st: &Style) -> String {
    let mut s = String::new();
    write(nodes, 1, st, &mut s);
    s
}
pub fn events_of(nodes: &[Node]) -> Vec<Ev> {
    let mut v = vec![Ev::StartDoc(100)];
    events(nodes, &mut v);
    v.push(Ev::EndDoc);
    v
}

fn judge(text: &str, want: &[Ev]) -> Result<(), String> {
    let t = drive::read::<LC>(text, PLAIN, 0);
    let got: Vec<Result<&Ev, &Fault>> = t.obs.iter().map(|o| o.what.as_ref()).collect();
    if got.len() != want.len() || got.iter().zip(want).any(|(g, w)| *g != Ok(w)) {
        return Err(format!(
            "not the events of the tree\ntext {text:?}\nimplementation:\n{}tree:\n{}",
            t.show(),
            want.iter().map(|e| format!("    {e:?}\n")).collect::<String>()
        ));
    }
    Ok(())
}

fn styles(level: usize) -> Vec<(usize, usize, usize)> {
    match level {
        0 => vec![(5, 4, 3)],
        1 => vec![(0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 4, 3), (5, 4, 1)],
        _ => (0..6)
            .flat_map(|s| (0..5).flat_map(move |q| (0..4).map(move |v| (s, q, v))))
            .collect(),
    }
}

/// What can come next depends on the open elements and what they have last
fn state(path: &[u32]) -> u64 {
    let mut open: Vec<(u32, Option<u32>)> = vec![(9, None)];
    for i in path {
        match ITEMS[*i as usize] {
            Item::Open(..) => open.push((*i, None)),
            Item::Close => {
                open.pop();
                if let Some(o) = open.last_mut() {
                    o.1 = Some(*i);
                }
            }
            _ => {
                if let Some(o) = open.last_mut() {
                    o.1 = Some(*i);
                }
            }
        }
    }
    digest((open, path.len()))
}

fn trees(name: &str, items: usize, level: usize) -> Box<dyn Space> {
    let count = |p: &[u32]| p.iter().filter(|i| **i != 5).count();
    let st = styles(level);
    let bound = format!(
        "all trees of up to {items} nodes (two kinds of element, two of text, comments), all choices of boxes, {} layouts",
        st.len()
    );
    Box::new(Gen {
        name: name.into(),
        bound,
        width: Box::new(move |p| {
            if count(p) < items || p.len() < 2 * items {
                ITEMS.len() as u32
            } else {
                0
            }
        }),
        run: Box::new(move |p| -> Verdict {
            let mut o = Out {
                extend: false,
                state: 0,
                runs: 0,
            };
            if count(p) > items {
                return Ok(o);
            }
            let Some((nodes, n, complete)) = build(p) else {
                return Ok(o);
            };
            o.extend = true;
            o.state = state(p);
            if !complete {
                return Ok(o);
            }
            let want = events_of(&nodes);
            let mut seen = std::collections::HashSet::new();
            for mask in 0..1u32 << n {
                for (sep, quote, value) in &st {
                    let text = text_of(
                        &nodes,
                        &Style {
                            boxed: &|i| mask >> i & 1 == 1,
                            sep: *sep,
                            quote: *quote,
                            value: *value,
                        },
                    );
                    // different choices may be the same text
                    if seen.insert(digest(&text)) {
                        judge(&text, &want)?;
                        o.runs += 1;
                    }
                }
            }
            Ok(o)
        }),
        show: Box::new(|p| {
            let Some((nodes, ..)) = build(p) else {
                return String::new();
            };
            format!(
                "{:?}",
                text_of(
                    &nodes,
                    &Style {
                        boxed: &|_| false,
                        sep: 0,
                        quote: 0,
                        value: 0
                    }
                )
            )
        }),
    })
}

/// Trees of one shape that grow with n
fn shape(i: u32, n: usize) -> Vec<Node> {
    let el = |kids, id| Node::Element {
        name: "a",
        attrs: &[],
        kids,
        id,
    };
    let mut kids = vec![];
    match i {
        // a chain
        0 => {
            for i in (0..n).rev() {
                kids = vec![el(kids, i)];
            }
            return kids;
        }
        // a chain with text before and after
        1 => {
            for i in (0..n).rev() {
                kids = vec![Node::Text("x", false), el(kids, i), Node::Text("y", true)];
            }
            kids.pop();
            kids.reverse();
        }
        // a comb: every element has a leaf and goes on
        2 => {
            for i in (0..n).rev() {
                kids = vec![el(vec![Node::Text("x", false)], 2 * i), el(kids, 2 * i + 1)];
            }
        }
        // goes on first, so that many end at once
        3 => {
            for i in (0..n).rev() {
                kids = vec![el(kids, 2 * i), el(vec![], 2 * i + 1)];
            }
        }
        // wide
        4 => {
            for i in 0..n {
                kids.push(el(vec![Node::Text("x", false)], i));
            }
        }
        // wide and deep: n leaves below a chain of n
        _ => {
            for i in 0..n {
                kids.push(el(vec![], i));
            }
            for i in 0..n {
                kids = vec![el(kids, i + n)];
            }
        }
    }
    vec![el(kids, 2 * n)]
}

const BOXINGS: &[(&str, fn(usize) -> bool)] = &[
    ("no boxes", |_| false),
    ("all boxes", |_| true),
    ("every second", |i| i % 2 == 0),
    ("every third", |i| i % 3 == 1),
    ("even pairs", |i| i / 2 % 2 == 0),
];

fn shapes(max: usize, more: usize) -> Box<dyn Space> {
    let sizes = crate::spaces::sizes(max, more);
    let sizes2 = sizes.clone();
    product(
        "shapes",
        &format!("6 shapes of trees of size 0..{max} and around powers of two to {more}, 5 choices of boxes, 6 layouts"),
        vec![6, BOXINGS.len() as u32, sizes.len() as u32],
        move |p| {
            let n = sizes[p[2] as usize];
            let nodes = shape(p[0], n);
            let want = events_of(&nodes);
            let mut runs = 0;
            for (sep, quote, value) in styles(1) {
                let text = text_of(
                    &nodes,
                    &Style {
                        boxed: &BOXINGS[p[1] as usize].1,
                        sep,
                        quote,
                        value,
                    },
                );
                if text.len() > 3_000_000 {
                    continue;
                }
                judge(&text, &want).map_err(|e| e.chars().take(20000).collect::<String>())?;
                runs += 1;
            }
            Ok(Out {
                extend: false,
                state: digest(p),
                runs,
            })
        },
        move |p| format!("shape {} of size {}, {}", p[0], sizes2[p[2] as usize], BOXINGS[p[1] as usize].0),
    )
}

pub fn c03(th: bool) -> Vec<Box<dyn Space>> {
    if th {
        vec![
            trees("trees-all-layouts", 5, 2),
            trees("trees", 6, 1),
            trees("trees-mixed-layout", 7, 0),
            shapes(150, 1025),
        ]
    } else {
        vec![
            trees("trees-all-layouts", 4, 2),
            trees("trees", 5, 1),
            trees("trees-mixed-layout", 6, 0),
            shapes(60, 257),
        ]
    }
}
