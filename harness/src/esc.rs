//! Escapes of XML and of HML
use crate::engine::{digest, Out, Space, Verdict};
use crate::spaces::{product, sizes, Gen};
use hml_rs::escape::{
    escape, escape_required, Entities, ESCAPE_APOS, ESCAPE_ATTR, ESCAPE_CR, ESCAPE_GT, ESCAPE_LF,
    ESCAPE_PCDATA, ESCAPE_QUOTE,
};

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

type Test = fn(&str) -> Result<u64, String>;

/// All sequences of symbols up to a length, after and before something
fn strings(
    name: &str,
    around: (&'static str, &'static str),
    symbols: &'static [&'static str],
    depth: usize,
    test: Test,
) -> Box<dyn Space> {
    let make = move |p: &[u32]| -> String {
        let mut s = String::from(around.0);
        for i in p {
            s.push_str(symbols[*i as usize]);
        }
        s + around.1
    };
    Box::new(Gen {
        name: name.into(),
        bound: format!(
            "all sequences of up to {depth} of {symbols:?} between {:?} and {:?}",
            around.0, around.1
        ),
        width: Box::new(move |p| if p.len() < depth { symbols.len() as u32 } else { 0 }),
        run: Box::new(move |p| -> Verdict {
            Ok(Out {
                extend: true,
                state: test(&make(p))?,
                runs: 1,
            })
        }),
        show: Box::new(move |p| format!("{:?}", make(p))),
    })
}

/// Every text of a numbered list
fn listed(
    name: &str,
    bound: &str,
    kinds: u32,
    count: u32,
    make: impl Fn(u32, u32) -> Option<String> + Sync + Send + Clone + 'static,
    test: Test,
) -> Box<dyn Space> {
    const BLOCK: u32 = 0x1000;
    let make2 = make.clone();
    product(
        name,
        bound,
        vec![kinds, count.div_ceil(BLOCK), BLOCK],
        move |p| {
            let n = p[1] * BLOCK + p[2];
            let text = if n < count { make(p[0], n) } else { None };
            Ok(match text {
                None => Out {
                    extend: false,
                    state: 0,
                    runs: 0,
                },
                Some(t) => Out {
                    extend: false,
                    state: digest((p[0], test(&t)?)),
                    runs: 1,
                },
            })
        },
        move |p| match p {
            [k, a, b] => format!("{:?}", make2(*k, a * BLOCK + b)),
            _ => String::new(),
        },
    )
}

/// Every Unicode character in the places of NUL in the templates
fn characters(name: &str, templates: &'static [&'static str], test: Test) -> Box<dyn Space> {
    listed(
        name,
        &format!("all 1112064 Unicode characters (in the place of NUL) in each of {templates:?}"),
        templates.len() as u32,
        0x110000,
        move |k, n| {
            let c = char::from_u32(n)?;
            Some(templates[k as usize].replace('\u{0}', c.encode_utf8(&mut [0; 4])))
        },
        test,
    )
}

/// Texts with one or two characters left out, replaced or inserted
fn edited(bases: &'static [&'static str], test: Test) -> Vec<Box<dyn Space>> {
    const FEW: &[&str] = &[
        "&", "#", ";", "x", "X", "\\", "{", "}", "u", "n", "a", "g", "F", "0", "1", "9", " ", "\n", "\u{0}", "_", "-", "+", ".", "'", "\u{e9}", "\u{661}", "\u{ff11}", "\u{1f600}",
    ];
    let all: Vec<String> = (0..0x180)
        .filter_map(char::from_u32)
        .map(|c| c.to_string())
        .chain(crate::spaces::SPECIALS.iter().chain(FEW).map(|s| s.to_string()))
        .collect();
    let few: Vec<String> = FEW.iter().map(|s| s.to_string()).collect();
    let longest = bases.iter().map(|b| b.chars().count()).max().unwrap_or(0) as u32;
    [("changed", all, 1), ("changed-twice", few, 2)]
        .into_iter()
        .map(|(name, edits, times)| {
            let n = edits.len();
            let bound = format!("{bases:?} with {times} characters left out, replaced by or preceded by {edits:?}");
            let mut widths = vec![bases.len() as u32];
            for _ in 0..times {
                widths.extend([longest + 1, 2 * n as u32 + 1]);
            }
            let make = move |p: &[u32]| -> Option<String> {
                let base: Vec<char> = bases[p[0] as usize].chars().collect();
                if p[1..].chunks(2).any(|c| c[0] as usize > base.len()) || p.len() == 5 && p[3] < p[1] {
                    return None;
                }
                let mut s = String::new();
                for i in 0..=base.len() {
                    let mut keep = true;
                    for c in p[1..].chunks(2).filter(|c| c[0] as usize == i) {
                        let k = c[1] as usize;
                        if k < 2 * n {
                            s.push_str(&edits[k % n]);
                        }
                        keep = keep && k < n;
                    }
                    if keep && i < base.len() {
                        s.push(base[i]);
                    }
                }
                Some(s)
            };
            let make2 = make.clone();
            let len = widths.len();
            product(
                name,
                &bound,
                widths,
                move |p| {
                    Ok(match make(p) {
                        None => Out {
                            extend: false,
                            state: 0,
                            runs: 0,
                        },
                        Some(t) => Out {
                            extend: false,
                            state: digest((p[0], test(&t)?)),
                            runs: 1,
                        },
                    })
                },
                move |p| if p.len() < len { String::new() } else { format!("{:?}", make2(p)) },
            )
        })
        .collect()
}

/// Texts that grow
fn growing(
    name: &str,
    families: &'static [(&'static str, &'static str, &'static str)],
    all: usize,
    max: usize,
    test: Test,
) -> Box<dyn Space> {
    let list = sizes(all, max);
    let count = list.len() as u32;
    let make = move |k: u32, n: u32| {
        let (a, b, c) = families[k as usize];
        format!("{a}{}{c}", b.repeat(list[n as usize]))
    };
    let make2 = make.clone();
    product(
        name,
        &format!("beginning, middle and end of {families:?} with 0..{all} middles and around powers of two to {max}"),
        vec![families.len() as u32, count],
        move |p| {
            Ok(Out {
                extend: false,
                state: digest((p[0], test(&make(p[0], p[1]))?)),
                runs: 1,
            })
        },
        move |p| match p {
            [k, n] => {
                let mut s = make2(*k, *n);
                s.truncate(s.char_indices().nth(200).map_or(s.len(), |x| x.0));
                format!("size number {n} of {k}, starting {s:?}")
            }
            _ => String::new(),
        },
    )
}

// XML escapes

/// What one character becomes
fn escaped(c: char, mask: usize) -> Option<&'static str> {
    match c {
        '&' => Some("&amp;"),
        '<' => Some("&lt;"),
        '"' if mask & 1 != 0 => Some("&quot;"),
        '\'' if mask & 2 != 0 => Some("&apos;"),
        '>' if mask & 4 != 0 => Some("&gt;"),
        '\n' if mask & 8 != 0 => Some("&#xA;"),
        '\r' if mask & 16 != 0 => Some("&#xD;"),
        _ => None,
    }
}
fn escape_all(s: &str, mask: usize) -> (String, bool) {
    let mut r = String::new();
    let mut any = false;
    for c in s.chars() {
        match escaped(c, mask) {
            Some(e) => {
                r.push_str(e);
                any = true;
            }
            None => r.push(c),
        }
    }
    (r, any)
}

fn one_mask(s: &str, mask: usize, e: &Entities) -> Result<bool, String> {
    let (want, any) = escape_all(s, mask);
    let want = any.then_some(want);
    let got = escape(s, mask);
    ensure!(got == want, "with the mask {mask:#x} {s:?} gives {got:?}, not {want:?}");
    let text = got.as_deref().unwrap_or(s);
    let back = e.replace_entities(true, text);
    let back = back.as_deref().unwrap_or(text);
    ensure!(
        back == s,
        "with the mask {mask:#x} {s:?} gives {got:?}, and back {back:?}"
    );
    Ok(any)
}

/// all masks
fn c14_masks(s: &str) -> Result<u64, String> {
    let e = Entities::xml();
    let mut which = 0u64;
    for mask in 0..32 {
        if one_mask(s, mask, &e)? {
            which |= 1 << mask;
        }
    }
    for mask in [0x20, 0x40, 0x85, 0x1f00, !0x1f, !0, !0 ^ 4, 1 << 63] {
        one_mask(s, mask, &e)?;
    }
    ensure!(
        ESCAPE_QUOTE == 1
            && ESCAPE_APOS == 2
            && ESCAPE_GT == 4
            && ESCAPE_LF == 8
            && ESCAPE_CR == 16
            && ESCAPE_ATTR == 31
            && ESCAPE_PCDATA == 0,
        "the masks have other values"
    );
    Ok(digest((which, s.chars().last(), s.chars().count())))
}

/// some masks
fn c14_few(s: &str) -> Result<u64, String> {
    let e = Entities::xml();
    let mut which = 0u64;
    for mask in [0, 31, 1, 2, 4, 8, 16] {
        if one_mask(s, mask, &e)? {
            which |= 1 << mask;
        }
    }
    Ok(digest(which))
}

/// all parts of a text
fn c14_parts(s: &str) -> Result<u64, String> {
    let b = s.as_bytes();
    let mut none = 0u64;
    for n in 0..=b.len() {
        for i in 0..=n {
            for mask in [0, 31, 1, 2, 4, 8, 16, 0x15] {
                let got = escape_required(b, mask, i, n);
                let want = std::str::from_utf8(&b[..n]).ok().map(|all| {
                    // an escape is not inside a character, so bytes will do
                    let mut r = b[..i].to_vec();
                    for c in &all.as_bytes()[i..] {
                        match escaped(*c as char, mask) {
                            Some(e) if *c < 0x80 => r.extend(e.as_bytes()),
                            _ => r.push(*c),
                        }
                    }
                    String::from_utf8(r).unwrap()
                });
                ensure!(
                    got == want,
                    "with the mask {mask:#x} {s:?} from {i} to {n} gives {got:?}, not {want:?}"
                );
                if want.is_none() {
                    none += 1;
                }
            }
        }
    }
    Ok(digest((none, s)))
}

const SPECIAL: &[&str] = &[
    "&", "<", ">", "\"", "'", "\n", "\r", "a", ";", "\u{e9}", "\u{1f600}",
];
const LIKE: &[&str] = &["]", ">", "-", "<", "!", "&", "?", "/", "\n", " ", "a", "\t", "=", "\""];
const AMPS: &[&str] = &["&", "amp;", "lt;", "#xA;", "#", "a", "<", "\n", ";", "&amp;"];
const PARTS: &[&str] = &["&", "<", ">", "\"", "'", "\n", "\r", "a", "\u{e9}", "\u{1f600}"];
const C14_PLACES: &[&str] = &["\u{0}", "a\u{0}&", "<\u{0}\u{0}'", "&\u{0};\n\u{0}"];
const C14_GROW: &[(&str, &str, &str)] = &[
    ("", "a", ""),
    ("", "a", "&"),
    ("&", "a", ""),
    ("", "&", ""),
    ("", "<>\"'\r\n&", ""),
    ("", "\u{1f600}", "<"),
    ("<", "\u{e9}", "\n"),
    ("", "\n", "\r"),
    ("", "'", "\u{20ac}"),
    ("", "a&", "b"),
    ("", "a", "<>\"'\r\n&\u{e9}&"),
    ("<>\"'\r\n&", "a", "\n\r'\"><&"),
];

pub fn c14(th: bool) -> Vec<Box<dyn Space>> {
    let d = |a, b| if th { b } else { a };
    vec![
        strings("masks", ("", ""), SPECIAL, d(5, 6), c14_masks),
        strings("longer", ("", ""), SPECIAL, d(6, 7), c14_few),
        strings("like-markup", ("", ""), LIKE, d(4, 5), c14_masks),
        strings("references", ("", ""), AMPS, d(5, 6), c14_masks),
        listed(
            "pairs",
            "all pairs of characters below 256",
            256,
            256,
            |a, b| Some([char::from_u32(a)?, char::from_u32(b)?].iter().collect()),
            c14_masks,
        ),
        strings("parts", ("", ""), PARTS, d(4, 5), c14_parts),
        characters(
            "characters",
            if th { C14_PLACES } else { &C14_PLACES[..2] },
            c14_masks,
        ),
        growing("scale", C14_GROW, d(100, 300), d(16385, 65537), c14_masks),
    ]
}

// references

const NAMED: &[(&str, &str)] = &[
    ("amp", "&"),
    ("AMP", "&"),
    ("lt", "<"),
    ("LT", "<"),
    ("gt", ">"),
    ("GT", ">"),
    ("apos", "'"),
    ("APOS", "'"),
    ("quot", "\""),
    ("QUOT", "\""),
];

/// The value of what is between & and ;
fn reference(body: &str, named: bool) -> Option<String> {
    if named {
        if let Some((_, v)) = NAMED.iter().find(|(n, _)| *n == body) {
            return Some(v.to_string());
        }
    }
    let body = body.strip_prefix('#')?;
    let (digits, base) = match body.strip_prefix('x') {
        Some(d) => (d, 16),
        None => (body, 10),
    };
    if digits.is_empty() {
        return None;
    }
    let mut v: u32 = 0;
    for c in digits.chars() {
        let d = c.to_digit(base)?;
        v = (v * base + d).min(0x110000);
    }
    char::from_u32(v).map(|c| c.to_string())
}

fn replace_all(s: &str, named: bool) -> Option<String> {
    let mut r = String::new();
    let mut any = false;
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        r.push_str(&rest[..i]);
        let after = &rest[i + 1..];
        let value = after
            .find([';', '&'])
            .filter(|j| after.as_bytes()[*j] == b';')
            .and_then(|j| Some((j, reference(&after[..j], named)?)));
        match value {
            Some((j, v)) => {
                r.push_str(&v);
                any = true;
                rest = &after[j + 1..];
            }
            None => {
                r.push('&');
                rest = after;
            }
        }
    }
    r.push_str(rest);
    any.then_some(r)
}

fn c15_test(s: &str) -> Result<u64, String> {
    let e = Entities::xml();
    let d = Entities::default();
    let mut outs = vec![];
    for (named, set, what) in [
        (true, &e, "the XML entities"),
        (false, &e, "no named entities"),
        (true, &d, "an empty set"),
    ] {
        let want = replace_all(s, named && what == "the XML entities");
        let got = set.replace_entities(named, s);
        if let Some(g) = &got {
            ensure!(
                std::str::from_utf8(g.as_bytes()).is_ok(),
                "with {what} {s:?} gives a string that is not UTF-8"
            );
        }
        ensure!(got == want, "with {what} {s:?} gives {got:?}, not {want:?}");
        outs.push(want);
    }
    // the shape of the result
    let shape: Vec<_> = outs
        .iter()
        .map(|o| {
            o.as_ref()
                .map(|o| (o.chars().count(), o.chars().map(|c| c.is_ascii()).last()))
        })
        .collect();
    Ok(digest((shape, s.chars().count())))
}

const REF: &[&str] = &["&", "#", "x", ";", "4", "1", "a", "F", "X", "amp", "lt"];
const REF_IN: &[&str] = &["0", "1", "9", "a", "f", "A", "F", "g", "x", "#", " ", "\u{e9}"];
const REF_NAME: &[&str] = &["a", "m", "p", "o", "s", "l", "t", "g", "q", "u", "A", "P", ";", "&"];
const REFS: &[&str] = &[
    "&#65;", "&#x1F600;", "&lt;", "&AMP;", "&", ";", "&bad;", "&#xD800;", "&#1114112;", "\u{e9}", "a",
    "&quot", "#38;", "&#x;",
];
const C15_PLACES: &[&str] = &[
    "\u{0}",
    "&\u{0};",
    "&\u{0}amp;",
    "&amp\u{0};",
    "&#\u{0};",
    "&#6\u{0};",
    "&#x\u{0};",
    "&#x4\u{0}1;",
    "&#65\u{0}&lt;\u{0}",
    "\u{0}&#65;\u{0}",
];
/// names that other languages have
const HTML: &[&str] = &[
    "nbsp", "copy", "reg", "trade", "euro", "pound", "yen", "cent", "sect", "hellip", "mdash", "ndash",
    "lsquo", "rsquo", "ldquo", "rdquo", "laquo", "raquo", "bull", "middot", "times", "divide", "plusmn",
    "deg", "micro", "para", "larr", "rarr", "uarr", "darr", "alpha", "beta", "gamma", "delta", "pi",
    "sigma", "omega", "Alpha", "Omega", "eacute", "egrave", "uuml", "ouml", "auml", "szlig", "ccedil",
    "ntilde", "Amp", "aMP", "Lt", "lT", "Gt", "gT", "Quot", "Apos", "newline", "NewLine", "Tab", "tab",
    "lf", "cr", "LF", "CR", "num", "colon", "semi", "equals", "lbrace", "rbrace", "excl", "dollar",
    "percnt", "ast", "plus", "comma", "period", "sol", "bsol", "grave", "lowbar", "verbar", "tilde",
    "zwj", "zwnj", "shy", "ensp", "emsp", "thinsp", "le", "ge", "ne", "infin", "sum", "prod", "radic",
    "int", "cap", "cup", "sub", "sup", "and", "or", "not", "forall", "exist", "empty", "isin", "quote",
    "apostrophe", "ampersand", "less", "greater", "hash", "x41", "u0041", "amp1", "1amp", "am", "ampamp",
];
/// a word of lower case letters or of letters and digits
fn word(kind: u32, n: u32) -> Option<String> {
    let mut s = String::from("&");
    let mut rest = n;
    if kind == 0 {
        while rest > 0 {
            let d = rest % 27;
            rest /= 27;
            s.push(char::from_u32('a' as u32 + d.checked_sub(1)?)?);
        }
    } else {
        const ALL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        while rest > 0 {
            let d = rest % 63;
            rest /= 63;
            s.push(ALL[d.checked_sub(1)? as usize] as char);
        }
        if s.len() > 4 {
            return None;
        }
    }
    Some(s + ";")
}
/// a character, as a reference in many ways
fn number(kind: u32, n: u32) -> Option<String> {
    Some(match kind {
        0 => format!("&#{n};"),
        1 => format!("&#x{n:x};"),
        2 => format!("&#x{n:X};"),
        3 => format!("&#{n:09};"),
        4 => format!("&#x{n:012x};"),
        5 => format!("a&#{n};&#x{n:x};\u{e9}"),
        6 => format!("&#{n}"),
        _ => format!("&#x{n:x}"),
    })
}
/// numbers that are too large for one or another integer, or just not
fn huge(kind: u32, i: u32) -> Option<String> {
    // bits 20 to 139, plus something
    let bit = 16 + i % 110;
    let add: i32 = [-2, -1, 0, 1, 65, 0x10ffff, 0xd800, 97, 48][(i / 110) as usize % 9];
    let times = 1 + i / 990;
    // bits in base 2^16
    let mut digits = vec![0u32; 12];
    digits[(bit / 16) as usize] = times << (bit % 16);
    let mut carry = add as i64;
    for d in digits.iter_mut() {
        let v = *d as i64 + carry;
        *d = v.rem_euclid(65536) as u32;
        carry = v.div_euclid(65536);
    }
    let hex: String = digits.iter().rev().map(|d| format!("{d:04x}")).collect();
    let hex = hex.trim_start_matches('0');
    let hex = if hex.is_empty() { "0" } else { hex };
    Some(match kind {
        0 => format!("&#x{hex};"),
        1 => format!("&#x{};", hex.to_uppercase()),
        2 => format!("&#x0000{hex};"),
        _ => {
            // in decimal
            let mut dec = vec![0u8];
            for c in hex.chars() {
                let mut carry = c.to_digit(16).unwrap();
                for d in dec.iter_mut() {
                    let v = *d as u32 * 16 + carry;
                    *d = (v % 10) as u8;
                    carry = v / 10;
                }
                while carry > 0 {
                    dec.push((carry % 10) as u8);
                    carry /= 10;
                }
            }
            let dec: String = dec.iter().rev().map(|d| (b'0' + d) as char).collect();
            if kind == 3 {
                format!("&#{dec};")
            } else {
                format!("&amp;&#000{dec};&#{dec}1;")
            }
        }
    })
}
const C15_GROW: &[(&str, &str, &str)] = &[
    ("", "a", ""),
    ("", "&", ""),
    ("", "&", "amp;"),
    ("", "&amp;", ""),
    ("", "&#65;", "&#x42;"),
    ("&#65;", "\u{e9}", "&lt;"),
    ("&#", "0", "65;"),
    ("&#x", "0", "41;"),
    ("&#", "1", ";"),
    ("&#x", "f", ";"),
    ("&#6", "5", ";&gt;"),
    ("&#x4", "1", ";&gt;"),
    ("&", "a", ";&gt;"),
    ("&", "#", ";&gt;"),
    ("", ";", "&quot;"),
    ("", "&nosuch;", "&quot;"),
    ("", "&#x1f600;\u{1f600}", ""),
    ("&#", "4294967296", ";"),
    ("&#x1", "00000000", "41;"),
    ("", "a", "&lt;&gt;&#65;&#x42;&quot;&nosuch;&apos;\u{e9}"),
    ("", "\u{e9}", "&#65;&lt;&AMP;&#x42;"),
    ("&lt;", "a", "&#x42;&#65;&apos;&LT;"),
    ("&#65;", "b", "&lt;&#65;"),
    ("&amp;", "&nosuch;", "&lt;&#65;"),
];

pub fn c15(th: bool) -> Vec<Box<dyn Space>> {
    let d = |a, b| if th { b } else { a };
    let mut v = vec![
        strings("references", ("", ""), REF, d(6, 8), c15_test),
        strings("whole-references", ("", ""), REFS, d(5, 6), c15_test),
        strings("digits", ("&#x", ";"), REF_IN, d(6, 7), c15_test),
        strings("decimals", ("&#", ";"), REF_IN, d(6, 7), c15_test),
        strings("names", ("&", ";"), REF_NAME, d(5, 6), c15_test),
        listed(
            "words",
            "all words of up to 4 lower case letters and of up to 3 letters and digits",
            2,
            27 * 27 * 27 * 27,
            word,
            c15_test,
        ),
        listed(
            "names-of-html",
            "the names of HTML in 4 ways",
            4,
            HTML.len() as u32,
            |k, i| {
                let n = HTML[i as usize];
                Some(match k {
                    0 => format!("&{n};"),
                    1 => format!("&{n}"),
                    2 => format!("&{}; &{n};", n.to_uppercase()),
                    _ => format!("&amp;{n};&{n};&lt;"),
                })
            },
            c15_test,
        ),
        listed(
            "numbers",
            "all numbers below 0x140000 as references in 8 ways",
            8,
            0x140000,
            number,
            c15_test,
        ),
        listed(
            "huge-numbers",
            "1 to 15 times every power of two from 2^16 to 2^125 with 9 offsets in 5 ways",
            5,
            990 * 15,
            huge,
            c15_test,
        ),
        characters(
            "characters",
            if th { C15_PLACES } else { &C15_PLACES[1..6] },
            c15_test,
        ),
        growing("scale", C15_GROW, d(200, 600), d(16385, 65537), c15_test),
    ];
    v.extend(edited(
        &[
            "&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&AMP;", "&LT;", "&GT;", "&APOS;", "&QUOT;", "&#65;", "&#x41;", "&#xE9;", "&#x1f600;", "&#1114111;",
            "a&lt;b&#66;c",
        ],
        c15_test,
    ));
    v
}

// HML escapes

#[cfg(feature = "escape")]
mod hml {
    use super::*;

    fn unescape(s: &str) -> Option<String> {
        let c: Vec<char> = s.chars().collect();
        let mut r = String::new();
        let mut i = 0;
        while i < c.len() {
            if c[i] != '\\' {
                r.push(c[i]);
                i += 1;
                continue;
            }
            let e = *c.get(i + 1)?;
            i += 2;
            match e {
                '0' => r.push('\0'),
                't' => r.push('\t'),
                'n' => r.push('\n'),
                'r' => r.push('\r'),
                '"' | '\'' | '\\' => r.push(e),
                'x' => {
                    let a = c.get(i)?.to_digit(16)?;
                    let b = c.get(i + 1)?.to_digit(16)?;
                    let v = a * 16 + b;
                    if v > 0x7f {
                        return None;
                    }
                    r.push(v as u8 as char);
                    i += 2;
                }
                'u' => {
                    if *c.get(i)? != '{' {
                        return None;
                    }
                    i += 1;
                    let (mut v, mut n) = (0, 0);
                    while *c.get(i)? != '}' {
                        v = v * 16 + c[i].to_digit(16)?;
                        n += 1;
                        if n > 6 {
                            return None;
                        }
                        i += 1;
                    }
                    if n == 0 {
                        return None;
                    }
                    i += 1;
                    r.push(char::from_u32(v)?);
                }
                _ => return None,
            }
        }
        Some(r)
    }

    pub fn test(s: &str) -> Result<u64, String> {
        use hml_rs::hml::escape::Escapable;
        let want = unescape(s);
        let got = Escapable::new(s);
        if let Ok(e) = &got {
            ensure!(
                std::str::from_utf8(e.as_ref().as_bytes()).is_ok(),
                "{s:?} gives a string that is not UTF-8"
            );
        }
        match (&got, &want) {
            (Ok(e), Some(w)) => ensure!(e.as_ref() == w, "{s:?} gives {:?}, not {w:?}", e.as_ref()),
            (Ok(e), None) => return Err(format!("{s:?} gives {:?}, and is not legal", e.as_ref())),
            (Err(e), Some(w)) => return Err(format!("{s:?} is rejected with {e:?}, it is {w:?}")),
            (Err(e), None) => {
                let _ = format!("{e:?}");
            }
        }
        let again = Escapable::try_from(s);
        ensure!(
            again.as_ref().ok().map(|e| e.as_ref()) == got.as_ref().ok().map(|e| e.as_ref()),
            "try_from and new differ for {s:?}"
        );
        let w = want.map(|w| (w.chars().count(), w.chars().last().map(|c| c.len_utf8())));
        Ok(digest((w, s.chars().count())))
    }

    const ALL: &[&str] = &[
        "\\", "x", "u", "{", "}", "0", "7", "8", "f", "F", "g", "t", "n", "r", "\"", "'", "\u{e9}",
        " ",
    ];
    const WHOLE: &[&str] = &[
        "\\n", "\\\\", "\\x41", "\\x7f", "\\u{e9}", "\\u{1F600}", "\\u{10ffff}", "a", "\u{e9}", "\\",
        "u{41}", "}", "\\0", "\\u{0}", "\\\"",
    ];
    const CODE: &[&str] = &["\\", "u{", "x", "}", "0", "1", "d", "8", "F", "\u{e9}"];
    const PLACES: &[&str] = &[
        "\u{0}",
        "\\\u{0}",
        "\\n\u{0}\\\\",
        "\u{0}\\t\u{0}",
        "\\x\u{0}1",
        "\\x4\u{0}",
        "\\x41\u{0}",
        "\\u\u{0}41}",
        "\\u{\u{0}",
        "\\u{\u{0}}",
        "\\u{4\u{0}}",
        "\\u{41\u{0}",
        "\\u{41}\u{0}",
    ];
    fn code(kind: u32, n: u32) -> Option<String> {
        Some(match kind {
            0 => format!("\\u{{{n:x}}}"),
            1 => format!("\\u{{{n:X}}}"),
            2 => format!("\\u{{{n:06x}}}"),
            3 => format!("\\u{{{n:07x}}}"),
            4 => format!("\u{e9}\\u{{{n:x}}}\\u{{{n:04x}}}b"),
            _ => format!("\\u{{{n:x}"),
        })
    }
    fn hex(kind: u32, n: u32) -> Option<String> {
        let (a, b) = (char::from_u32(n / 256)?, char::from_u32(n % 256)?);
        Some(match kind {
            0 => format!("\\x{a}{b}"),
            1 => format!("\\x{a}{b}0"),
            2 => format!("\\{a}{b}"),
            3 => format!("\\u{{{a}{b}}}"),
            _ => format!("\\u{a}{b}}}"),
        })
    }
    const GROW: &[(&str, &str, &str)] = &[
        ("", "a", ""),
        ("", "a", "\\n"),
        ("", "\\", ""),
        ("", "\\\\", "n"),
        ("", "\u{1f600}", "\\u{e9}"),
        ("\\t", "\u{e9}", "\\"),
        ("", "\\u{1f600}\\x41", ""),
        ("\\u{", "0", "}"),
        ("\\u{", "f", "}"),
        ("\\u{1", "0", "}"),
        ("", "\\n\n", "\\x7"),
        ("\\x", "1", ""),
        ("", "a", "\\n\\t\\u{41}\\x41\\0\\\\\u{e9}"),
        ("\\n", "a", "\\n\\u{1f600}\\'\\\""),
        ("\\u{41}", "\\n", "\\u{d800}"),
        ("\\x41", "b", "\\q"),
    ];

    pub fn c16(th: bool) -> Vec<Box<dyn Space>> {
        let d = |a, b| if th { b } else { a };
        let mut v = vec![
            strings("escapes", ("", ""), ALL, d(5, 7), test),
            strings("whole-escapes", ("", ""), WHOLE, d(5, 6), test),
            strings("codes", ("\\u{", ""), CODE, d(7, 8), test),
            strings("hexadecimal", ("\\x", "\\n"), CODE, d(6, 7), test),
            listed(
                "numbers",
                &format!("all numbers below 0x{:x} as codes in 6 ways", d(0x140000, 0x1000000)),
                6,
                d(0x140000, 0x1000000) as u32,
                code,
                test,
            ),
            listed(
                "pairs",
                "all pairs of characters below 256 after \\x, \\, \\u{ and \\u",
                5,
                0x10000,
                hex,
                test,
            ),
            characters("characters", if th { PLACES } else { &PLACES[..7] }, test),
            growing("scale", GROW, d(200, 600), d(16385, 65537), test),
        ];
        v.extend(edited(
            &[
                "\\n", "\\0", "\\t\\r", "\\'\\\"", "\\\\", "\\x41", "\\x7F", "\\u{41}", "\\u{0}", "\\u{10ffff}", "\\u{1F600}", "a\\x62c\\u{e9}",
            ],
            test,
        ));
        v
    }
}

pub fn c16(th: bool) -> Vec<Box<dyn Space>> {
    #[cfg(feature = "escape")]
    return hml::c16(th);
    #[cfg(not(feature = "escape"))]
    {
        let _ = th;
        panic!("built without the feature escape");
    }
}
