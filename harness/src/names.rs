//! Namespaces, stacks of them, names, attributes and tags
use crate::drive::markup_fault;
use crate::engine::{digest, Out, Space, Verdict};
use crate::model::{URI_XML, URI_XMLNS};
use crate::spaces::{product, sizes, Gen};
use crate::types::Fault;
use hml_rs::names::*;
use std::collections::{BTreeMap, BTreeSet};

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

/// All sequences of operations up to a length
fn sequences<S: std::hash::Hash>(
    name: &str,
    bound: String,
    ops: usize,
    depth: usize,
    run: impl Fn(&[u32]) -> Result<Option<S>, String> + Sync + Send + 'static,
    show: impl Fn(u32) -> String + Sync + Send + 'static,
) -> Box<dyn Space> {
    Box::new(Gen {
        name: name.into(),
        bound,
        width: Box::new(move |p| if p.len() < depth { ops as u32 } else { 0 }),
        run: Box::new(move |p| -> Verdict {
            Ok(match run(p)? {
                None => Out {
                    extend: false,
                    state: 0,
                    runs: 0,
                },
                Some(s) => Out {
                    extend: true,
                    state: digest(s),
                    runs: 1,
                },
            })
        }),
        show: Box::new(move |p| p.iter().map(|i| show(*i)).collect::<Vec<_>>().join("; ")),
    })
}

// The namespace stack

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Push,
    Pop,
    Null,
    Defaults,
    Add(&'static str, &'static str),
    AddUnset(&'static str, &'static str),
    AddId(&'static str, &'static str),
    AddIdUnset(&'static str, &'static str),
}
use Op::*;

/// The model: frames of mappings
#[derive(Debug, Clone, Hash, PartialEq)]
struct Frames(Vec<BTreeMap<String, String>>);
impl Frames {
    fn new(xmlns: bool) -> Self {
        let mut f = Frames(vec![BTreeMap::new()]);
        f.set("", "");
        if xmlns {
            f.defaults();
        }
        f
    }
    fn defaults(&mut self) {
        self.set("", "");
        self.set("xmlns", URI_XMLNS);
        self.set("xml", URI_XML);
    }
    fn set(&mut self, p: &str, u: &str) {
        self.0.last_mut().unwrap().insert(p.into(), u.into());
    }
    fn set_unset(&mut self, p: &str, u: &str) -> bool {
        if self.0.last().unwrap().contains_key(p) {
            return false;
        }
        self.set(p, u);
        true
    }
    fn get(&self, p: &str) -> Option<&str> {
        self.0.iter().rev().find_map(|f| f.get(p)).map(|s| &s[..])
    }
    fn in_force(&self) -> BTreeMap<&str, &str> {
        let mut m = BTreeMap::new();
        for f in &self.0 {
            for (p, u) in f {
                m.insert(&p[..], &u[..]);
            }
        }
        m
    }
}

/// Everything that a stack can be asked
fn same_stack(st: &mut NamespaceStack, model: &Frames, prefixes: &[&str]) -> Result<(), String> {
    for p in prefixes {
        let got = st
            .find_prefix_id(p)
            .and_then(|id| st.find_mapping(id))
            .map(|u| st.uri_str(u).to_string());
        ensure!(
            got.as_deref() == model.get(p),
            "the prefix {p:?} maps to {got:?}, not {:?}",
            model.get(p)
        );
        if let Some(id) = st.find_prefix_id(p) {
            ensure!(st.prefix_str(id) == *p, "the prefix {p:?} is {:?}", st.prefix_str(id));
            ensure!(id.is_none() == p.is_empty(), "the id of prefix {p:?} is {id:?}");
        }
    }
    let all: Vec<NSMap> = st.into_iter().collect();
    let strs: BTreeMap<&str, &str> = all.iter().map(|m| st.borrow_mapping(*m)).collect();
    ensure!(
        strs == model.in_force() && all.len() == strs.len(),
        "iteration gives {:?}, not {:?}",
        all.iter().map(|m| st.borrow_mapping(*m)).collect::<Vec<_>>(),
        model.in_force()
    );
    let top: Vec<NSMap> = st.iter_top_mappings().collect();
    let strs: BTreeMap<&str, &str> = top.iter().map(|m| st.borrow_mapping(*m)).collect();
    let want: BTreeMap<&str, &str> = model
        .0
        .last()
        .unwrap()
        .iter()
        .map(|(a, b)| (&a[..], &b[..]))
        .collect();
    ensure!(
        strs == want && top.len() == want.len(),
        "the top frame has {:?}, not {want:?}",
        top.iter().map(|m| st.borrow_mapping(*m)).collect::<Vec<_>>()
    );
    for m in all.iter().chain(&top) {
        let mut s = String::new();
        st.fmt_map(&mut s, *m).map_err(|e| e.to_string())?;
        let (p, u) = st.borrow_mapping(*m);
        ensure!(s == format!("'{p}' => '{u}'"), "the mapping {p:?}, {u:?} is shown as {s}");
        ensure!(
            st.prefix_str(m.prefix_id()) == p && st.uri_str(m.uri_id()) == u,
            "the ids of a mapping are not of its strings"
        );
        ensure!(*m == NSMap::new(m.prefix_id(), m.uri_id()), "a mapping is not that of its ids");
    }
    Ok(())
}

const PREFIXES: &[&str] = &["", "p", "q", "xml", "xmlns", "unused"];

/// Runs a sequence on the real stack and the model; None if it is not allowed
/// `watch` asks everything after each operation, and not only after the last
fn run_stack(
    ops: &[Op],
    path: &[u32],
    xmlns: bool,
    prepare: bool,
    watch: bool,
) -> Result<Option<Frames>, String> {
    let mut n = Namespace::new(xmlns);
    let mut ids = BTreeMap::new();
    if prepare {
        for o in ops {
            if let AddId(p, u) | AddIdUnset(p, u) = o {
                ids.insert((*p, *u), n.add_mapping(p, u));
            }
        }
    }
    let mut st = NamespaceStack::new(&mut n);
    let mut model = Frames::new(xmlns);
    ensure!(st.uses_xmlns() == xmlns, "uses_xmlns");
    for (i, o) in path.iter().enumerate() {
        let last = i + 1 == path.len();
        let o = ops[*o as usize];
        match o {
            Push => {
                st.push_frame();
                model.0.push(BTreeMap::new());
            }
            Pop => {
                if model.0.len() == 1 {
                    return Ok(None);
                }
                st.pop_frame();
                model.0.pop();
            }
            Null => {
                st.add_null_ns();
                model.set("", "");
            }
            Defaults => {
                st.add_default_xmls();
                model.defaults();
            }
            Add(p, u) => {
                let m = st.add_ns(p, u);
                ensure!(
                    !last || st.borrow_mapping(m) == (p, u),
                    "adding {p:?} {u:?} gives {:?}",
                    st.borrow_mapping(m)
                );
                model.set(p, u);
            }
            AddUnset(p, u) => {
                let (m, b) = st.add_ns_if_unset(p, u);
                ensure!(
                    !last || st.borrow_mapping(m) == (p, u),
                    "adding {p:?} {u:?} gives {:?}",
                    st.borrow_mapping(m)
                );
                let want = model.set_unset(p, u);
                ensure!(b == want, "adding {p:?} if unset says {b}");
            }
            AddId(p, u) => {
                let Some(m) = ids.get(&(p, u)) else {
                    return Ok(None);
                };
                st.add_mapping_by_id(*m);
                model.set(p, u);
            }
            AddIdUnset(p, u) => {
                let Some(m) = ids.get(&(p, u)) else {
                    return Ok(None);
                };
                let b = st.add_mapping_by_id_if_unset(*m);
                let want = model.set_unset(p, u);
                ensure!(b == want, "adding {p:?} by id if unset says {b}");
            }
        }
        if watch {
            same_stack(&mut st, &model, PREFIXES)?;
        }
    }
    same_stack(&mut st, &model, PREFIXES)?;
    Ok(Some(model))
}

fn stack_space(
    name: &str,
    ops: &'static [Op],
    depth: usize,
    xmlns: bool,
    prepare: bool,
    watch: bool,
) -> Box<dyn Space> {
    sequences(
        name,
        format!("all sequences of up to {depth} of {ops:?}, xmlns {xmlns}, asked after each {watch}"),
        ops.len(),
        depth,
        move |p| run_stack(ops, p, xmlns, prepare, watch),
        move |i| format!("{:?}", ops[i as usize]),
    )
}

const STACK_OPS: &[Op] = &[
    Push,
    Pop,
    Add("p", "u"),
    Add("p", "v"),
    Add("q", "u"),
    Add("q", ""),
    Add("", "u"),
    Add("", ""),
    Add("xml", "u"),
    AddUnset("p", "u"),
    AddUnset("p", "v"),
    AddUnset("q", "v"),
    AddUnset("", "v"),
    AddUnset("xml", "v"),
    Null,
    Defaults,
];
const ID_OPS: &[Op] = &[
    Push,
    Pop,
    AddId("p", "u"),
    AddId("p", "v"),
    AddId("q", "u"),
    AddId("q", ""),
    AddId("", "v"),
    AddIdUnset("p", "v"),
    AddIdUnset("p", "u"),
    AddIdUnset("q", "v"),
    AddIdUnset("", "u"),
    Add("p", "v"),
    AddUnset("q", "u"),
];
const DEEP_OPS: &[Op] = &[
    Push,
    Pop,
    Add("p", "u"),
    Add("p", "v"),
    AddUnset("p", "u"),
    Add("q", "v"),
];

/// Stacks that grow with n, in some ways
fn big_stack(kind: u32, n: usize) -> Result<(), String> {
    let mut ns = Namespace::new(true);
    let mut st = NamespaceStack::new(&mut ns);
    let mut model = Frames::new(true);
    let add = |st: &mut NamespaceStack, model: &mut Frames, p: &str, u: &str| {
        st.add_ns(p, u);
        model.set(p, u);
    };
    let mut names: Vec<String> = vec!["p".into(), "".into(), "xml".into()];
    for i in 0..n {
        match kind {
            // many frames
            0 => {
                st.push_frame();
                model.0.push(BTreeMap::new());
                add(&mut st, &mut model, "p", &format!("u{}", i % 7));
            }
            // many frames, mostly empty
            1 => {
                st.push_frame();
                model.0.push(BTreeMap::new());
                if i % 50 == 0 {
                    add(&mut st, &mut model, "p", &format!("u{i}"));
                }
            }
            // many mappings in one frame
            2 => {
                let p = format!("p{i}");
                add(&mut st, &mut model, &p, &format!("u{}", i / 2));
                names.push(p);
            }
            // many changes of one mapping
            3 => add(&mut st, &mut model, "p", &format!("u{}", i % 100)),
            // many mappings, each in its own frame
            4 => {
                st.push_frame();
                model.0.push(BTreeMap::new());
                let p = format!("p{i}");
                add(&mut st, &mut model, &p, "u");
                names.push(p);
            }
            // many mappings in one frame, each only if it is not there yet
            5 => {
                let p = format!("p{i}");
                let old = format!("p{}", i / 2);
                for (p, u) in [(&p, "u"), (&p, "v"), (&old, "w")] {
                    let (_, b) = st.add_ns_if_unset(p, u);
                    let want = model.set_unset(p, u);
                    ensure!(b == want, "adding {p:?} if unset says {b}");
                }
                names.push(p);
            }
            // frames come and go
            _ => {
                st.push_frame();
                model.0.push(BTreeMap::new());
                add(&mut st, &mut model, "p", &format!("v{}", i % 3));
                let m = model.clone();
                if i < 300 {
                    same_stack(&mut st, &m, &["p", ""])?;
                }
                st.pop_frame();
                model.0.pop();
            }
        }
    }
    names.push("unused".into());
    let refs: Vec<&str> = names.iter().map(|s| &s[..]).collect();
    same_stack(&mut st, &model, &refs)?;
    // what is set in the top frame stays, what is not is added, and all is changed
    for _ in 0..2 {
        for p in &refs {
            let (_, b) = st.add_ns_if_unset(p, "w");
            let want = model.set_unset(p, "w");
            ensure!(b == want, "adding {p:?} if unset says {b}");
        }
        same_stack(&mut st, &model, &refs)?;
        for p in &refs {
            add(&mut st, &mut model, p, "x");
        }
        same_stack(&mut st, &model, &refs)?;
        st.push_frame();
        model.0.push(BTreeMap::new());
    }
    // and back
    while model.0.len() > 1 {
        st.pop_frame();
        model.0.pop();
        if model.0.len() < 20 || model.0.len() % 997 == 0 {
            same_stack(&mut st, &model, &refs)?;
        }
    }
    same_stack(&mut st, &model, &refs)
}

fn big_stacks(all: usize, max: usize) -> Box<dyn Space> {
    let list = sizes(all, max);
    let list2 = list.clone();
    product(
        "stack-scale",
        &format!("7 ways to grow a stack to sizes 0..{all} and around powers of two to {max}, and back"),
        vec![7, list.len() as u32],
        move |p| {
            let n = list[p[1] as usize];
            // linear search of names makes some of these quadratic
            let limit = match p[0] {
                2 | 4 | 5 => 2049,
                _ => usize::MAX,
            };
            if n > limit {
                return Ok(Out {
                    extend: false,
                    state: 0,
                    runs: 0,
                });
            }
            big_stack(p[0], n)?;
            Ok(Out {
                extend: false,
                state: digest(p),
                runs: 1,
            })
        },
        move |p| format!("kind {} of size {}", p[0], list2[p[1] as usize]),
    )
}

pub fn c10(th: bool) -> Vec<Box<dyn Space>> {
    let d = |a, b| if th { b } else { a };
    vec![
        stack_space("stack", STACK_OPS, d(5, 6), false, false, false),
        stack_space("stack-watched", STACK_OPS, d(4, 5), false, false, true),
        stack_space("stack-xmlns", STACK_OPS, d(5, 6), true, false, false),
        stack_space("stack-by-id", ID_OPS, d(5, 6), false, true, false),
        stack_space("stack-by-id-watched", ID_OPS, d(4, 5), true, true, true),
        stack_space("stack-deep", DEEP_OPS, d(8, 9), true, false, false),
        stack_space("stack-deep-watched", DEEP_OPS, d(7, 9), true, false, true),
        big_stacks(d(200, 300), d(4097, 65537)),
    ]
}

// Interning

const STRS: &[&str] = &["", "a", "b", "ab", "\u{e9}"];

#[derive(Debug, Clone, Copy)]
enum Intern {
    Name(usize),
    Map(usize, usize),
    Unset(usize, usize),
    Find,
    Push,
    Pop,
}

#[derive(Default, Hash)]
struct Interned {
    names: BTreeMap<String, usize>,
    prefixes: BTreeMap<String, usize>,
    uris: BTreeMap<String, usize>,
}

fn intern_ops() -> Vec<Intern> {
    let mut v = vec![];
    for i in 0..STRS.len() {
        v.push(Intern::Name(i));
    }
    for i in 0..3 {
        for j in 0..3 {
            v.push(Intern::Map(i, j));
        }
    }
    v.push(Intern::Unset(1, 2));
    v.push(Intern::Unset(2, 4));
    v.push(Intern::Find);
    v.push(Intern::Push);
    v.push(Intern::Pop);
    v
}

macro_rules! note {
    ($table:expr, $s:expr, $id:expr, $what:expr) => {{
        let (s, id): (&str, _) = ($s, $id);
        ensure!(
            id.is_none() == s.is_empty() && id.is_some() != s.is_empty(),
            "the {} {s:?} has the id {id:?}",
            $what
        );
        if let Some(n) = id.get() {
            if let Some(m) = $table.get(s) {
                ensure!(*m == n, "the {} {s:?} has two ids, {m} and {n}", $what);
            }
            ensure!(
                !$table.iter().any(|(t, m)| *m == n && t != s),
                "the {} {s:?} has the id {n} of another, {:?}",
                $what,
                $table
            );
            $table.insert(s.to_string(), n);
        }
    }};
}

fn run_intern(ops: &[Intern], path: &[u32], xmlns: bool) -> Result<Option<u64>, String> {
    let mut n = Namespace::new(xmlns);
    let mut t = Interned::default();
    let mut depth = 1;
    {
        let mut st = NamespaceStack::new(&mut n);
        if xmlns {
            for p in ["xml", "xmlns"] {
                let id = st.find_prefix_id(p).ok_or("no predeclared prefix")?;
                note!(t.prefixes, p, id, "prefix");
                let u = st.find_mapping(id).ok_or("no predeclared mapping")?;
                let us = st.uri_str(u).to_string();
                note!(t.uris, &us, u, "URI");
            }
        }
        for o in path {
            match ops[*o as usize] {
                Intern::Name(i) => {
                    let id = st.add_name(STRS[i]);
                    note!(t.names, STRS[i], id, "name");
                }
                Intern::Map(i, j) => {
                    let m = st.add_ns(STRS[i], STRS[j]);
                    note!(t.prefixes, STRS[i], m.prefix_id(), "prefix");
                    note!(t.uris, STRS[j], m.uri_id(), "URI");
                }
                Intern::Unset(i, j) => {
                    let (m, _) = st.add_ns_if_unset(STRS[i], STRS[j]);
                    note!(t.prefixes, STRS[i], m.prefix_id(), "prefix");
                    note!(t.uris, STRS[j], m.uri_id(), "URI");
                }
                Intern::Find => {
                    for s in STRS {
                        let got = st.find_prefix_id(s);
                        if s.is_empty() {
                            ensure!(got == Some(NSPrefixId::none()), "the empty prefix is {got:?}");
                        } else {
                            ensure!(
                                got.and_then(|p| p.get()) == t.prefixes.get(*s).copied(),
                                "finding the prefix {s:?} gives {got:?}, not {:?}",
                                t.prefixes.get(*s)
                            );
                        }
                    }
                }
                Intern::Push => {
                    st.push_frame();
                    depth += 1;
                }
                Intern::Pop => {
                    if depth == 1 {
                        return Ok(None);
                    }
                    st.pop_frame();
                    depth -= 1;
                }
            }
        }
        check_strings(&st, &t)?;
    }
    // the same afterwards, in the namespace itself, twice
    for _ in 0..2 {
        for s in STRS.iter().chain(&["never", "xml", "a\u{0}", "A"]) {
            let (a, b, c) = (n.find_name(s), n.find_prefix(s), n.find_uri(s));
            if s.is_empty() {
                ensure!(
                    a == Some(NSNameId::none())
                        && b == Some(NSPrefixId::none())
                        && c == Some(NSUriId::none()),
                    "the empty string is found as {a:?} {b:?} {c:?}"
                );
                continue;
            }
            for (what, got, want) in [
                ("name", a.and_then(|x| x.get()), t.names.get(*s)),
                ("prefix", b.and_then(|x| x.get()), t.prefixes.get(*s)),
                ("URI", c.and_then(|x| x.get()), t.uris.get(*s)),
            ] {
                ensure!(
                    got == want.copied(),
                    "finding the {what} {s:?} gives {got:?}, not {want:?}"
                );
            }
            ensure!(
                a != Some(NSNameId::none())
                    && b != Some(NSPrefixId::none())
                    && c != Some(NSUriId::none()),
                "{s:?} is found as none"
            );
        }
    }
    for (s, i) in &t.names {
        ensure!(n.name_str(NSNameId::new(*i), "?") == s, "the name {s:?} has changed");
    }
    for (s, i) in &t.prefixes {
        ensure!(n.prefix_str(NSPrefixId::new(*i), "?") == s, "the prefix {s:?} has changed");
    }
    for (s, i) in &t.uris {
        ensure!(n.uri_str(NSUriId::new(*i), "?") == s, "the URI {s:?} has changed");
    }
    ensure!(
        n.name_str(NSNameId::none(), "?") == "?"
            && n.prefix_str(NSPrefixId::none(), "!") == "!"
            && n.uri_str(NSUriId::none(), "") == "",
        "the none id is not the default"
    );
    // a second stack on the same namespace sees the same
    let mut st = NamespaceStack::new(&mut n);
    check_strings(&st, &t)?;
    for (s, i) in t.names.clone() {
        let id = st.add_name(&s);
        ensure!(id.get() == Some(i), "the name {s:?} is added again as {id:?}");
    }
    // which strings are known, whatever their ids
    Ok(Some(digest((
        t.names.keys().collect::<Vec<_>>(),
        t.prefixes.keys().collect::<Vec<_>>(),
        t.uris.keys().collect::<Vec<_>>(),
        depth,
    ))))
}

fn check_strings(st: &NamespaceStack, t: &Interned) -> Result<(), String> {
    for (s, i) in &t.names {
        ensure!(st.name_str(NSNameId::new(*i)) == s, "the name {s:?} has changed");
    }
    for (s, i) in &t.prefixes {
        ensure!(st.prefix_str(NSPrefixId::new(*i)) == s, "the prefix {s:?} has changed");
    }
    for (s, i) in &t.uris {
        ensure!(st.uri_str(NSUriId::new(*i)) == s, "the URI {s:?} has changed");
    }
    ensure!(
        st.name_str(NSNameId::none()).is_empty()
            && st.prefix_str(NSPrefixId::none()).is_empty()
            && st.uri_str(NSUriId::none()).is_empty(),
        "the none id is not the empty string"
    );
    Ok(())
}

/// Many strings in one namespace
fn many(strs: &[String]) -> Result<(), String> {
    let mut n = Namespace::new(false);
    let mut ids = vec![];
    {
        let mut st = NamespaceStack::new(&mut n);
        for (i, s) in strs.iter().enumerate() {
            let a = st.add_name(s);
            let m = st.add_ns(s, &strs[strs.len() - 1 - i]);
            ids.push((a, m.prefix_id(), m.uri_id()));
        }
        for (i, s) in strs.iter().enumerate() {
            ensure!(st.name_str(ids[i].0) == s, "the name {s:?} is {:?}", st.name_str(ids[i].0));
            ensure!(st.prefix_str(ids[i].1) == s, "the prefix {s:?} is {:?}", st.prefix_str(ids[i].1));
            ensure!(
                st.uri_str(ids[i].2) == strs[strs.len() - 1 - i],
                "the URI {:?} is {:?}",
                strs[strs.len() - 1 - i],
                st.uri_str(ids[i].2)
            );
            ensure!(st.add_name(s) == ids[i].0, "the name {s:?} has another id when added again");
        }
    }
    let names: BTreeSet<_> = ids.iter().map(|i| i.0.get()).collect();
    let prefixes: BTreeSet<_> = ids.iter().map(|i| i.1.get()).collect();
    let uris: BTreeSet<_> = ids.iter().map(|i| i.2.get()).collect();
    ensure!(
        names.len() == strs.len() && prefixes.len() == strs.len() && uris.len() == strs.len(),
        "different strings have the same id"
    );
    for (i, s) in strs.iter().enumerate() {
        ensure!(
            n.find_name(s) == Some(ids[i].0) && n.find_prefix(s) == Some(ids[i].1),
            "{s:?} is not found with its id"
        );
        ensure!(
            n.find_uri(s) == Some(ids[strs.len() - 1 - i].2),
            "{s:?} is not found with its id"
        );
    }
    Ok(())
}

fn intern_chars() -> Box<dyn Space> {
    let make = |block: u32| -> Vec<String> {
        (block * 512..(block + 1) * 512)
            .filter_map(char::from_u32)
            .flat_map(|c| [c.to_string(), format!("{c}{c}")])
            .collect()
    };
    product(
        "intern-characters",
        "every Unicode character, alone and doubled, with 511 others in a namespace",
        vec![0x110000 / 512],
        move |p| {
            let strs = make(p[0]);
            if !strs.is_empty() {
                many(&strs)?;
            }
            Ok(Out {
                extend: false,
                state: digest(p),
                runs: strs.len() as u64,
            })
        },
        move |p| format!("characters from {:x}", p[0] * 512),
    )
}

/// A long string and each character put before, in and after it
fn intern_near_chars() -> Box<dyn Space> {
    const BASE: &str = "http://example.com/name";
    const BLOCK: u32 = 128;
    product(
        "intern-one-more-character",
        &format!("{BASE:?} with every Unicode character before, in or after it, with {} others", BLOCK - 1),
        vec![0x110000 / BLOCK],
        move |p| {
            let strs: Vec<String> = std::iter::once(BASE.to_string())
                .chain(
                    (p[0] * BLOCK..(p[0] + 1) * BLOCK)
                        .filter_map(char::from_u32)
                        .flat_map(|c| [format!("{c}{BASE}"), format!("{}{c}{}", &BASE[..9], &BASE[9..]), format!("{BASE}{c}")]),
                )
                .collect();
            // the same character next to itself gives the same string once more
            let set: BTreeSet<&String> = strs.iter().collect();
            let strs: Vec<String> = set.into_iter().cloned().collect();
            many(&strs)?;
            Ok(Out {
                extend: false,
                state: digest(p),
                runs: strs.len() as u64,
            })
        },
        move |p| format!("characters from {:x}", p[0] * BLOCK),
    )
}

/// The upper and lower case of each character, and characters that look the same
fn intern_cases() -> Box<dyn Space> {
    const ALIKE: &[&[&str]] = &[
        &["\u{212b}", "\u{c5}", "A\u{30a}", "A"],
        &["\u{2126}", "\u{3a9}", "\u{3c9}"],
        &["\u{212a}", "K", "k", "\u{212a}\u{200b}"],
        &["\u{e9}", "e\u{301}", "e", "\u{c9}"],
        &["\u{fb01}", "fi"],
        &["\u{df}", "ss", "SS", "\u{1e9e}"],
        &["\u{131}", "i", "I", "\u{130}"],
        &["\u{ff41}", "a", "\u{430}", "\u{1d41a}"],
        &["\u{b5}", "\u{3bc}"],
        &["\u{17f}", "s", "S"],
        &["\u{ac00}", "\u{1100}\u{1161}"],
        &["\u{f900}", "\u{8c48}"],
        &["a", "a\u{0}", "\u{0}a", "a\u{feff}", "\u{feff}a", "a ", " a", "a\n", "a\u{ad}"],
        &["a/", "a", "a//", "a#", "a?", "a.", "a;", "a%20", "a+", "a&amp;", "a&"],
        &["http://a", "https://a", "HTTP://a", "http://A", "http://a/", "http://a:80", "//a", "http://a/./"],
        &["urn:x", "URN:x", "urn:X", "urn:x:", "urn::x"],
        &["0", "00", "-0", "+0", "0.0", "0x0"],
        &["none", "None", "null", "", "xmlns", "xml", "XML", "*"],
    ];
    product(
        "intern-alike",
        "every Unicode character with its upper and lower case, and lists of strings that are alike",
        vec![0x110000 / 256 + ALIKE.len() as u32],
        move |p| {
            let n = 0x110000 / 256;
            let mut runs = 0;
            let mut go = |set: BTreeSet<String>| {
                if set.len() > 1 {
                    runs += 1;
                    let v: Vec<String> = set.iter().filter(|s| !s.is_empty()).cloned().collect();
                    many(&v)
                } else {
                    Ok(())
                }
            };
            if p[0] >= n {
                let v = ALIKE[(p[0] - n) as usize];
                go(v.iter().map(|s| s.to_string()).collect())?;
                go(v.iter().map(|s| format!("abcdefgh{s}ijkl")).collect())?;
                go(v.iter().map(|s| format!("http://example.com/{s}")).collect())?;
            } else {
                for c in (p[0] * 256..(p[0] + 1) * 256).filter_map(char::from_u32) {
                    let up: String = c.to_uppercase().collect();
                    let low: String = c.to_lowercase().collect();
                    let lup: String = up.chars().flat_map(|c| c.to_lowercase()).collect();
                    go([c.to_string(), up.clone(), low.clone(), lup].into())?;
                    go([format!("name{c}"), format!("name{up}"), format!("name{low}")].into())?;
                }
            }
            Ok(Out {
                extend: false,
                state: digest(p),
                runs,
            })
        },
        move |p| format!("block {:x}", p[0]),
    )
}

/// Strings of the same length that differ in one place
fn intern_places(all: usize, max: usize) -> Box<dyn Space> {
    let list: Vec<usize> = sizes(all, max).into_iter().filter(|n| *n > 0).collect();
    let list2 = list.clone();
    product(
        "intern-one-place",
        &format!("all strings of lengths 1..{all} and around powers of two to {max} that differ from repeated x in one place"),
        vec![list.len() as u32, 3],
        move |p| {
            let n = list[p[0] as usize];
            let base = vec!['x'; n];
            let other = ['y', 'X', '\u{e9}'][p[1] as usize];
            let mut strs: Vec<String> = vec![base.iter().collect()];
            for i in 0..n {
                let mut s = base.clone();
                s[i] = other;
                strs.push(s.iter().collect());
            }
            many(&strs)?;
            Ok(Out {
                extend: false,
                state: digest(p),
                runs: n as u64 + 1,
            })
        },
        move |p| format!("length {}", list2[p[0] as usize]),
    )
}

fn intern_scale(all: usize, max: usize) -> Box<dyn Space> {
    let list = sizes(all, max);
    let list2 = list.clone();
    product(
        "intern-scale",
        &format!("3 kinds of strings, 0..{all} of them and around powers of two to {max}"),
        vec![3, list.len() as u32],
        move |p| {
            let n = list[p[1] as usize];
            let strs: Vec<String> = (0..n)
                .map(|i| match p[0] {
                    0 => format!("n{i}"),
                    1 => "a".repeat(i % 700 + 1) + &i.to_string(),
                    // the same beginning and length
                    _ => format!("{}{i:08}", "x".repeat(40)),
                })
                .collect();
            if n > 0 {
                many(&strs)?;
            }
            Ok(Out {
                extend: false,
                state: digest(p),
                runs: 1,
            })
        },
        move |p| format!("kind {} of size {}", p[0], list2[p[1] as usize]),
    )
}

fn id_values() -> Box<dyn Space> {
    let list = sizes(1000, 1 << 60);
    product(
        "ids",
        "the identifiers of 0..1000 and around all powers of two to 2^60",
        vec![list.len() as u32],
        move |p| {
            let n = list[p[0] as usize];
            let (a, b, c) = (NSNameId::new(n), NSPrefixId::new(n), NSUriId::new(n));
            ensure!(
                a.get() == Some(n) && b.get() == Some(n) && c.get() == Some(n),
                "id {n} is {a:?} {b:?} {c:?}"
            );
            ensure!(
                a.is_some() && !a.is_none() && b.is_some() && !b.is_none() && c.is_some() && !c.is_none(),
                "id {n} is none"
            );
            ensure!(
                a != NSNameId::none() && b != NSPrefixId::none() && c != NSUriId::none(),
                "id {n} equals none"
            );
            ensure!(
                a.to_string() == n.to_string() && b.to_string() == n.to_string() && c.to_string() == n.to_string(),
                "id {n} is shown as {a} {b} {c}"
            );
            let m = NSMap::new(b, c);
            ensure!(m.prefix_id() == b && m.uri_id() == c, "the mapping of {n} is {m:?}");
            Ok(Out {
                extend: false,
                state: digest(n),
                runs: 1,
            })
        },
        |p| format!("{p:?}"),
    )
}

pub fn c11(th: bool) -> Vec<Box<dyn Space>> {
    let ops = |name: &str, depth: usize, xmlns: bool| {
        let v = intern_ops();
        let w = intern_ops();
        sequences(
            name,
            format!("all sequences of up to {depth} of {v:?} with {STRS:?}, xmlns {xmlns}"),
            v.len(),
            depth,
            move |p| run_intern(&v, p, xmlns),
            move |i| format!("{:?}", w[i as usize]),
        )
    };
    if th {
        vec![
            ops("interning", 6, false),
            ops("interning-xmlns", 5, true),
            intern_chars(),
            intern_near_chars(),
            intern_cases(),
            intern_places(140, 1025),
            intern_scale(300, 16385),
            id_values(),
        ]
    } else {
        vec![
            ops("interning", 5, false),
            ops("interning-xmlns", 5, true),
            intern_chars(),
            intern_near_chars(),
            intern_cases(),
            intern_places(70, 513),
            intern_scale(100, 8193),
            id_values(),
        ]
    }
}

// Names, attributes and tags

type Triple = (String, String, String);

fn triple(st: &NamespaceStack, n: &Name) -> Triple {
    (
        st.prefix_str(n.prefix).into(),
        st.uri_str(n.uri).into(),
        st.name_str(n.name).into(),
    )
}

/// What making a name from two strings has to give
fn want_name(env: &Frames, prefix: &str, name: &str) -> Result<Triple, Fault> {
    if name.is_empty() {
        return Err(Fault::EmptyName);
    }
    match env.get(prefix) {
        Some(u) => Ok((prefix.into(), u.into(), name.into())),
        None => Err(Fault::Unmapped(prefix.into())),
    }
}
fn want_local(name: &str) -> Result<Triple, Fault> {
    if name.is_empty() {
        return Err(Fault::EmptyName);
    }
    Ok((String::new(), String::new(), name.into()))
}
fn want_str(env: &Frames, s: &str) -> Result<Triple, Fault> {
    match s.find(':') {
        None => want_local(s),
        Some(i) => {
            let (p, n) = (&s[..i], &s[i + 1..]);
            if n.contains(':') {
                Err(Fault::BadName(s.into()))
            } else {
                want_name(env, p, n)
            }
        }
    }
}

fn check_name(
    st: &NamespaceStack,
    got: Result<Name, hml_rs::MarkupError>,
    want: Result<Triple, Fault>,
    what: &str,
) -> Result<Option<Name>, String> {
    let got = got.map_err(|e| markup_fault(&e));
    let g = got.as_ref().map(|n| triple(st, n)).map_err(|e| e.clone());
    ensure!(g == want, "{what} gives {g:?}, not {want:?}");
    let Ok(n) = got else {
        return Ok(None);
    };
    let (p, u, l) = want.unwrap();
    let shown = if p.is_empty() {
        l.clone()
    } else {
        format!("{p}:{l}")
    };
    ensure!(n.to_string(st) == shown, "{what} is shown as {:?}", n.to_string(st));
    ensure!(n.has_prefix() == !p.is_empty(), "{what}: has_prefix is {}", n.has_prefix());
    ensure!(n.has_uri() == !u.is_empty(), "{what}: has_uri is {}", n.has_uri());
    Ok(Some(n))
}

/// A stack in one of several states
fn environment(st: &mut NamespaceStack, env: &mut Frames, which: u32) {
    let mut add = |st: &mut NamespaceStack, p: &str, u: &str| {
        st.add_ns(p, u);
        env.set(p, u);
    };
    match which {
        0 => (),
        1 => add(st, "a", "u"),
        2 => {
            add(st, "a", "u");
            add(st, "", "d");
            add(st, "\u{e9}", "u");
        }
        _ => {
            add(st, "a", "u");
            add(st, "b", "v");
            st.push_frame();
            env.0.push(BTreeMap::new());
            let mut add = |st: &mut NamespaceStack, p: &str, u: &str| {
                st.add_ns(p, u);
                env.set(p, u);
            };
            add(st, "a", "w");
            add(st, "ab", "");
            st.push_frame();
            env.0.push(BTreeMap::new());
            st.add_ns("b", "x");
            st.pop_frame();
            env.0.pop();
        }
    }
}

const PARTS: &[&str] = &[
    "", "a", "b", "ab", "\u{e9}", "a:b", ":", "xmlns", "xml", " ", "A",
];

fn name_pairs() -> Box<dyn Space> {
    product(
        "names-of-two",
        &format!("all pairs of {PARTS:?} in 4 environments, xmlns or not, also as attributes and tags"),
        vec![2, 4, PARTS.len() as u32, PARTS.len() as u32],
        |p| {
            let xmlns = p[0] == 1;
            let mut n = Namespace::new(xmlns);
            let mut st = NamespaceStack::new(&mut n);
            let mut env = Frames::new(xmlns);
            environment(&mut st, &mut env, p[1]);
            let (a, b) = (PARTS[p[2] as usize], PARTS[p[3] as usize]);
            let r = Name::new(&mut st, a, b);
            let x = check_name(&st, r, want_name(&env, a, b), &format!("the name {a:?} {b:?}"))?;
            same_stack(&mut st, &env, PARTS)?;
            // names are equal exactly if they are the same
            let r = Name::new(&mut st, a, b);
            let y = check_name(&st, r, want_name(&env, a, b), "the same again")?;
            ensure!(x == y, "the same name is not equal: {x:?} {y:?}");
            if let Some(x) = x {
                for c in ["a", "b", "zz"] {
                    let o = Name::new_local(&mut st, c).map_err(|e| e.to_string())?;
                    ensure!(
                        (triple(&st, &o) == triple(&st, &x)) == (o == x),
                        "names that differ are equal"
                    );
                }
            }
            let r = Name::new_local(&mut st, b);
            check_name(&st, r, want_local(b), &format!("the local name {b:?}"))?;
            same_stack(&mut st, &env, PARTS)?;
            // as a tag
            let mut attrs = Attributes::default();
            ensure!(attrs.is_empty(), "new attributes are not empty");
            if attrs.add(&mut st, "", "one", "1".into()).is_err() {
                return Err("an attribute with no prefix is rejected".into());
            }
            let t = Tag::new(&mut st, a, b, attrs);
            let count = t.as_ref().map(|t| t.attributes.attributes().len());
            ensure!(matches!(count, Err(_) | Ok(1)), "the tag has lost its attributes");
            check_name(
                &st,
                t.map(|t| t.name),
                want_name(&env, a, b),
                &format!("the tag {a:?} {b:?}"),
            )?;
            same_stack(&mut st, &env, PARTS)?;
            // as an attribute
            let (want, mut after) = want_attr(&env, xmlns, a, b, "val");
            let r = Attribute::new(&mut st, a, b, "val".into());
            if let Ok(r) = &r {
                ensure!(r.value == "val", "the value is {:?}", r.value);
            }
            check_name(
                &st,
                r.map(|r| r.name),
                want,
                &format!("the attribute {a:?} {b:?}"),
            )?;
            same_stack(&mut st, &after, PARTS)?;
            // as an attribute in a list, in a new frame
            st.push_frame();
            after.0.push(BTreeMap::new());
            let mut attrs = Attributes::default();
            let (want, after) = want_attr(&after, xmlns, a, b, "other");
            let r = attrs.add(&mut st, a, b, "other".into());
            let got = r
                .map_err(|e| markup_fault(&e))
                .map(|_| attrs.attributes().iter().map(|a| triple(&st, &a.name)).collect::<Vec<_>>());
            ensure!(
                got == want.clone().map(|w| vec![w]),
                "adding the attribute {a:?} {b:?} gives {got:?}, not {want:?}"
            );
            ensure!(attrs.is_empty() == want.is_err(), "is_empty is {}", attrs.is_empty());
            same_stack(&mut st, &after, PARTS)?;
            Ok(Out {
                extend: false,
                state: digest(p),
                runs: 1,
            })
        },
        |p| {
            format!(
                "{:?} {:?} in environment {}, xmlns {}",
                PARTS[p[2] as usize], PARTS[p[3] as usize], p[1], p[0]
            )
        },
    )
}

/// Names and attributes are equal exactly if all that they consist of is
fn equality() -> Box<dyn Space> {
    const P: &[&str] = &["", "p", "q", "r"];
    const N: &[&str] = &["k", "l", "K", "kk", "xmlns", "p"];
    const V: &[&str] = &["", "1", "2", "11", "k"];
    let all: u32 = (P.len() * N.len() * V.len()) as u32;
    let at = |i: u32| {
        let i = i as usize;
        (P[i / (N.len() * V.len())], N[i / V.len() % N.len()], V[i % V.len()])
    };
    product(
        "equality",
        &format!("all pairs of attributes of {P:?}, {N:?} and {V:?}, where p and q have the same URI"),
        vec![2, all, all],
        move |p| {
            let mut n = Namespace::new(p[0] == 1);
            let mut st = NamespaceStack::new(&mut n);
            st.add_ns("p", "u");
            st.add_ns("q", "u");
            st.add_ns("r", "k");
            let mut make = |i| {
                let (p, n, v) = at(i);
                Attribute::new(&mut st, p, n, v.into()).map_err(|e| format!("{e:?}"))
            };
            let (a, b) = (make(p[1])?, make(p[2])?);
            let (x, y) = (triple(&st, &a.name), triple(&st, &b.name));
            let hash = |h: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
                let mut s = std::collections::hash_map::DefaultHasher::new();
                h(&mut s);
                std::hash::Hasher::finish(&s)
            };
            use std::hash::Hash;
            ensure!((a.name == b.name) == (x == y), "the names {x:?} and {y:?} are equal: {}", a.name == b.name);
            let same = x == y && a.value == b.value;
            ensure!(
                (a == b) == same && (a != b) != same,
                "the attributes {a:?} and {b:?} are equal: {}",
                a == b
            );
            if x == y {
                ensure!(
                    hash(&|s| a.name.hash(s)) == hash(&|s| b.name.hash(s)),
                    "equal names have different hashes"
                );
            }
            if same {
                ensure!(hash(&|s| a.hash(s)) == hash(&|s| b.hash(s)), "equal attributes have different hashes");
            }
            let c = a.clone();
            ensure!(c == a && c.value == a.value && triple(&st, &c.name) == x, "a copy differs");
            Ok(Out {
                extend: false,
                state: digest((p[0], x, y, same)),
                runs: 1,
            })
        },
        move |p| format!("{:?} and {:?}, xmlns {}", at(p[1]), at(p[2]), p[0]),
    )
}

/// What adding an attribute gives, and the mappings after it
fn want_attr(
    env: &Frames,
    xmlns: bool,
    p: &str,
    n: &str,
    v: &str,
) -> (Result<Triple, Fault>, Frames) {
    let mut e = env.clone();
    if xmlns && p.is_empty() && n == "xmlns" {
        e.set("", v);
        let r = want_name(&e, "xmlns", "xmlns").map(|t| (String::new(), t.1, t.2));
        return (r, e);
    }
    if xmlns && p == "xmlns" && !n.is_empty() {
        e.set(n, v);
    }
    let r = want_name(&e, p, n);
    (r, e)
}

fn name_strings(depth: usize) -> Box<dyn Space> {
    const CH: &[&str] = &["a", "b", ":", "\u{e9}", "-", " "];
    let make = |p: &[u32]| -> String { p[2..].iter().map(|i| CH[*i as usize]).collect() };
    Box::new(Gen {
        name: "names-of-strings".into(),
        bound: format!("all strings of up to {depth} of {CH:?} in 4 environments, xmlns or not"),
        width: Box::new(move |p| match p.len() {
            0 => 2,
            1 => 4,
            n if n < depth + 2 => CH.len() as u32,
            _ => 0,
        }),
        run: Box::new(move |p| -> Verdict {
            if p.len() < 2 {
                return Ok(crate::engine::INNER);
            }
            let xmlns = p[0] == 1;
            let mut n = Namespace::new(xmlns);
            let mut st = NamespaceStack::new(&mut n);
            let mut env = Frames::new(xmlns);
            environment(&mut st, &mut env, p[1]);
            let s = make(p);
            let r = Name::from_str(&mut st, &s);
            let want = want_str(&env, &s);
            let class = digest((p[0], p[1], &want));
            check_name(&st, r, want, &format!("the name of {s:?}"))?;
            same_stack(&mut st, &env, PREFIXES)?;
            Ok(Out {
                extend: true,
                state: class,
                runs: 1,
            })
        }),
        show: Box::new(move |p| {
            if p.len() < 2 {
                return String::new();
            }
            format!("{:?} in environment {}, xmlns {}", make(p), p[1], p[0])
        }),
    })
}

#[derive(Debug, Clone, Copy)]
enum AttrOp {
    Add(usize, &'static str, &'static str, &'static str),
    Steal(usize),
    Push,
    Pop,
    Map(&'static str, &'static str),
    Take(usize),
}
const ATTR_OPS: &[AttrOp] = &[
    AttrOp::Add(0, "", "k", "1"),
    AttrOp::Add(0, "p", "k", "2"),
    AttrOp::Add(0, "xmlns", "p", "u"),
    AttrOp::Add(1, "", "k", "1"),
    AttrOp::Add(1, "", "", "5"),
    AttrOp::Add(1, "", "xmlns", "d"),
    AttrOp::Add(1, "q", "l", "\u{e9}"),
    AttrOp::Add(1, "xmlns", "", "w"),
    AttrOp::Steal(0),
    AttrOp::Steal(1),
    AttrOp::Push,
    AttrOp::Pop,
    AttrOp::Map("p", "v"),
    AttrOp::Take(0),
];

fn attr_ops(name: &str, depth: usize, xmlns: bool) -> Box<dyn Space> {
    sequences(
        name,
        format!("all sequences of up to {depth} of {ATTR_OPS:?} on two lists of attributes, xmlns {xmlns}"),
        ATTR_OPS.len(),
        depth,
        move |p| {
            let mut n = Namespace::new(xmlns);
            let mut st = NamespaceStack::new(&mut n);
            let mut env = Frames::new(xmlns);
            let mut lists = [Attributes::default(), Attributes::default()];
            let mut model: [Vec<(Triple, String)>; 2] = [vec![], vec![]];
            for o in p {
                match ATTR_OPS[*o as usize] {
                    AttrOp::Add(i, p, n, v) => {
                        let (want, after) = want_attr(&env, xmlns, p, n, v);
                        let got = lists[i].add(&mut st, p, n, v.into());
                        let got = got.map_err(|e| markup_fault(&e));
                        ensure!(
                            got == want.as_ref().map(|_| ()).map_err(|e| e.clone()),
                            "adding {p:?} {n:?} gives {got:?}, not {want:?}"
                        );
                        env = after;
                        if let Ok(w) = want {
                            model[i].push((w, v.to_string()));
                        }
                    }
                    AttrOp::Steal(i) => {
                        let (a, b) = lists.split_at_mut(1);
                        let (x, y) = (&mut a[0], &mut b[0]);
                        let (x, y) = if i == 0 { (x, y) } else { (y, x) };
                        x.steal(y);
                        let mut m = std::mem::take(&mut model[1 - i]);
                        model[i].append(&mut m);
                    }
                    AttrOp::Push => {
                        st.push_frame();
                        env.0.push(BTreeMap::new());
                    }
                    AttrOp::Pop => {
                        if env.0.len() == 1 {
                            return Ok(None);
                        }
                        st.pop_frame();
                        env.0.pop();
                    }
                    AttrOp::Map(p, u) => {
                        st.add_ns(p, u);
                        env.set(p, u);
                    }
                    AttrOp::Take(i) => {
                        let got: Vec<_> = std::mem::take(&mut lists[i])
                            .take()
                            .iter()
                            .map(|a| (triple(&st, &a.name), a.value.clone()))
                            .collect();
                        let want = std::mem::take(&mut model[i]);
                        ensure!(got == want, "taking gives {got:?}, not {want:?}");
                    }
                }
            }
            for i in 0..2 {
                let got: Vec<_> = lists[i]
                    .attributes()
                    .iter()
                    .map(|a| (triple(&st, &a.name), a.value.clone()))
                    .collect();
                ensure!(got == model[i], "list {i} has {got:?}, not {:?}", model[i]);
                ensure!(
                    lists[i].is_empty() == model[i].is_empty(),
                    "is_empty of list {i} is {}",
                    lists[i].is_empty()
                );
            }
            same_stack(&mut st, &env, PREFIXES)?;
            Ok(Some((env, model)))
        },
        |i| format!("{:?}", ATTR_OPS[i as usize]),
    )
}

fn attr_scale(all: usize, max: usize) -> Box<dyn Space> {
    let list = sizes(all, max);
    let list2 = list.clone();
    product(
        "attribute-scale",
        &format!("lists of 0..{all} attributes and around powers of two to {max}, moved and taken"),
        vec![list.len() as u32],
        move |p| {
            let k = list[p[0] as usize];
            let mut n = Namespace::new(true);
            let mut st = NamespaceStack::new(&mut n);
            let mut a = Attributes::default();
            let mut b = Attributes::default();
            for i in 0..k {
                let l = if i % 3 == 0 { &mut a } else { &mut b };
                l.add(&mut st, "", &format!("k{}", i % 300), format!("{i}"))
                    .map_err(|e| format!("{e:?}"))?;
            }
            a.steal(&mut b);
            ensure!(b.is_empty() && b.attributes().is_empty(), "a list is not empty after it was moved");
            let want: Vec<String> = (0..k)
                .filter(|i| i % 3 == 0)
                .chain((0..k).filter(|i| i % 3 != 0))
                .map(|i| format!("{i}"))
                .collect();
            let got: Vec<String> = a.attributes().iter().map(|a| a.value.clone()).collect();
            ensure!(got == want, "the attributes are {got:?}, not {want:?}");
            let t = Tag::new(&mut st, "", "t", a).map_err(|e| format!("{e:?}"))?;
            let got: Vec<String> = t.attributes.take().into_iter().map(|a| a.value).collect();
            ensure!(got == want, "the attributes taken are {got:?}, not {want:?}");
            Ok(Out {
                extend: false,
                state: digest(k),
                runs: 1,
            })
        },
        move |p| format!("{} attributes", list2[p[0] as usize]),
    )
}

pub fn c19(th: bool) -> Vec<Box<dyn Space>> {
    let d = |a, b| if th { b } else { a };
    vec![
        name_pairs(),
        equality(),
        name_strings(d(6, 7)),
        attr_ops("attributes", d(5, 6), false),
        attr_ops("attributes-xmlns", d(5, 6), true),
        attr_scale(d(300, 600), d(4097, 65537)),
    ]
}
