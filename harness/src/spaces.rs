//! The spaces of texts
use crate::engine::{digest, Out, Space, Verdict, INNER};
use crate::judges::{Judge, Reading};
use crate::types::*;

/// All sequences of symbols up to a length, after a fixed beginning
pub struct Seqs {
    pub name: String,
    pub prefix: &'static str,
    pub symbols: Vec<String>,
    pub depth: usize,
    pub opts: Opts,
    pub judge: Judge,
}

impl Seqs {
    fn text(&self, path: &[u32]) -> String {
        let mut s = String::from(self.prefix);
        for i in path {
            s.push_str(&self.symbols[*i as usize]);
        }
        s
    }
}

impl Space for Seqs {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn bound(&self) -> String {
        format!(
            "all sequences of up to {} of {:?} after {:?}{}",
            self.depth,
            self.symbols,
            self.prefix,
            if self.opts.xmlns {
                ", with namespaces"
            } else {
                ""
            }
        )
    }
    fn width(&self, path: &[u32]) -> u32 {
        if path.len() < self.depth {
            self.symbols.len() as u32
        } else {
            0
        }
    }
    fn run(&self, path: &[u32]) -> Verdict {
        let text = self.text(path);
        let r = Reading::new(&text, self.opts);
        (self.judge)(&r)?;
        Ok(Out {
            extend: path.len() < self.depth && r.open(),
            state: r.model.state.max(1),
            runs: 1,
        })
    }
    fn show(&self, path: &[u32]) -> String {
        format!("{:?}", self.text(path))
    }
}

type Width = Box<dyn Fn(&[u32]) -> u32 + Sync + Send>;
type Run = Box<dyn Fn(&[u32]) -> Verdict + Sync + Send>;
type Show = Box<dyn Fn(&[u32]) -> String + Sync + Send>;
/// Any other space
pub struct Gen {
    pub name: String,
    pub bound: String,
    pub width: Width,
    pub run: Run,
    pub show: Show,
}
impl Space for Gen {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn bound(&self) -> String {
        self.bound.clone()
    }
    fn width(&self, path: &[u32]) -> u32 {
        (self.width)(path)
    }
    fn run(&self, path: &[u32]) -> Verdict {
        (self.run)(path)
    }
    fn show(&self, path: &[u32]) -> String {
        (self.show)(path)
    }
}

/// A product of finite sets; the leaves are judged
pub fn product(
    name: &str,
    bound: &str,
    dims: Vec<u32>,
    run: impl Fn(&[u32]) -> Verdict + Sync + Send + 'static,
    show: impl Fn(&[u32]) -> String + Sync + Send + 'static,
) -> Box<dyn Space> {
    let n = dims.len();
    Box::new(Gen {
        name: name.into(),
        bound: bound.into(),
        width: Box::new(move |p| dims.get(p.len()).copied().unwrap_or(0)),
        run: Box::new(move |p| if p.len() < n { Ok(INNER) } else { run(p) }),
        show: Box::new(show),
    })
}

pub fn seqs(
    name: &str,
    prefix: &'static str,
    symbols: &[&str],
    depth: usize,
    opts: Opts,
    judge: Judge,
) -> Box<dyn Space> {
    Box::new(Seqs {
        name: name.into(),
        prefix,
        symbols: symbols.iter().map(|s| s.to_string()).collect(),
        depth,
        opts,
        judge,
    })
}

pub fn reading(text: &str, opts: Opts, judge: Judge, tag: u64) -> Verdict {
    let r = Reading::new(text, opts);
    judge(&r)?;
    // the shape of the result, since the texts are all different
    let shape: Vec<_> = r
        .model
        .trace
        .obs
        .iter()
        .map(|o| match &o.what {
            Ok(e) => (1, format!("{:?}", std::mem::discriminant(e))),
            Err(e) => (2, format!("{:?}", std::mem::discriminant(e))),
        })
        .collect();
    Ok(Out {
        extend: false,
        state: digest((tag, shape)),
        runs: 1,
    })
}

/// Every Unicode character in each template, in the place of `\u{0}`
pub fn unicode(
    name: &str,
    templates: &'static [&'static str],
    opts: Opts,
    judge: Judge,
) -> Box<dyn Space> {
    const BLOCK: u32 = 0x400;
    let make = move |p: &[u32]| -> Option<String> {
        let c = char::from_u32(p[1] * BLOCK + p[2])?;
        Some(templates[p[0] as usize].replace('\u{0}', c.encode_utf8(&mut [0; 4])))
    };
    product(
        name,
        &format!("all 1112064 Unicode characters (NUL in the place of) in each of {templates:?}"),
        vec![templates.len() as u32, 0x110000 / BLOCK, BLOCK],
        move |p| match make(p) {
            None => Ok(Out {
                extend: false,
                state: 0,
                runs: 0,
            }),
            Some(t) => reading(&t, opts, judge, p[0] as u64),
        },
        move |p| format!("{:?}", make(p)),
    )
}

/// Texts that grow with n
pub struct Family {
    pub name: &'static str,
    /// how large n may become
    pub max: usize,
    pub make: fn(usize) -> String,
}

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

pub fn all_families() -> Vec<Family> {
    let f = |name, max, make| Family { name, max, make };
    const BIG: usize = 65537;
    const MID: usize = 8193;
    const SMALL: usize = 520;
    vec![
        f("hashes", BIG, |n| format!("#a {}{}", rep("#", n), "\"x\"")),
        f("hash string", BIG, |n| {
            let h = rep("#", n);
            format!("#a {h}\"x'\n\"{h} 'after'")
        }),
        f("hash string with fewer inside", MID, |n| {
            let h = rep("#", n);
            format!("#a r{h}'x'{} y'{h} 'after'", rep("#", n.saturating_sub(1)))
        }),
        f("hash string with more after", MID, |n| {
            let h = rep("#", n);
            format!("#a {h}'x'{h}#b 'after'")
        }),
        f("hash string unclosed", MID, |n| {
            let h = rep("#", n + 1);
            format!("#a {h}'x'{}", rep("#", n))
        }),
        f("string length", BIG, |n| format!("#a \"{}\" 'b'", rep("x", n))),
        f("string of wide characters", BIG, |n| {
            format!("#a '{}' 'b'", rep("\u{1f600}", n))
        }),
        f("string lines", BIG, |n| {
            format!("#a #\"{}\"# #b", rep("x\u{e9}\n", n))
        }),
        f("string quotes", MID, |n| format!("#a ##\"{}\"## #b", rep("\"#", n))),
        f("value length", BIG, |n| {
            format!("#a k={}v l=\"{}\" m=2", rep("\u{e9}", n), rep(" ", n))
        }),
        f("name length", BIG, |n| {
            format!("#a{} b{}=1 #a{}b", rep("\u{e9}", n), rep("-", n), rep("\u{b7}", n))
        }),
        f("prefix length", BIG, |n| {
            format!("#a b{}c:d=1", rep("\u{e9}", n))
        }),
        f("attributes", 4097, |n| {
            let mut s = String::from("#a");
            for i in 0..n {
                s += &format!(" k{i}=v{i}");
            }
            s + " 'x'"
        }),
        f("equal attributes", BIG, |n| format!("#a{} #b", rep(" k=1", n))),
        f("long names that differ at the end", MID, |n| {
            let x = rep("x", n);
            format!("#p{x}a:e{x}a xmlns:p{x}a=u{x}a xmlns:p{x}b=u{x}b p{x}b:k{x}a=v{x}a p{x}a:k{x}b=1 ##p{x}b:e{x}b")
        }),
        f("long names that differ at the start", MID, |n| {
            let x = rep("\u{e9}", n);
            format!("#a{x}:a{x} xmlns:a{x}=a{x} xmlns:b{x}=b{x} b{x}:a{x}=1 a{x}:b{x}=2 ##b{x}:b{x}")
        }),
        f("long box closed by another", MID, |n| {
            let x = rep("x", n);
            format!("#a{x}b{{ #a{x}c{{ #a{x}c}} 't' #a{x}c}}")
        }),
        f("long box of a prefix closed by another", MID, |n| {
            let x = rep("x", n);
            format!("#a{{ xmlns:p{x}1=u xmlns:p{x}2=u #p{x}1:a{{ #p{x}1:a}} #p{x}1:a{{ #p{x}2:a}}")
        }),
        f("undeclared prefix", BIG, |n| format!("#a{{ #b #{}:b", rep("\u{e9}", n + 1))),
        f("undeclared prefix of an attribute", BIG, |n| format!("#a k=1 {}p:k=2", rep("q", n))),
        f("attribute out of place", BIG, |n| format!("#a 'x' k{}=1", rep("\u{e9}", n))),
        f("long attribute out of place", BIG, |n| format!("#a{{ ##b ;c\n {}p:k=''", rep("p", n))),
        f("comment length", BIG, |n| format!("#a ;{}\n 'x'", rep("\u{e9}", n))),
        f("comment lines", MID, |n| {
            let mut s = String::from("#a\n");
            for i in 0..n {
                s += &format!("{};{}\n", rep(" ", i % 5), rep("c", i % 7));
            }
            s + "'x'"
        }),
        f("indented comment lines", BIG, |n| {
            format!("#a\n;b\n{};c\n{};\n'x'", rep(" ", n), rep("\u{2003}", n))
        }),
        f("empty comment lines", BIG, |n| format!("{}#a", rep(";\n", n))),
        f("comment lines to the end", MID, |n| format!("#a {};", rep(";\u{e9}\n", n))),
        f("separate comments", MID, |n| format!("#a{{ {} #a}}", rep(";c\n\n", n))),
        f("newlines", BIG, |n| format!("#a {} #b {}!", rep("\n", n), rep("\r\n", n))),
        f("blanks", BIG, |n| {
            format!("{}#a{}k=1{}'x'", rep("\u{2003}", n), rep(" ", n + 1), rep("\t", n))
        }),
        f("depth", SMALL, |n| {
            let mut s = String::new();
            for i in 1..=n {
                s += &format!("{}a{} ", rep("#", i), i % 3);
            }
            s
        }),
        f("depth and back", 200, |n| {
            let mut s = String::new();
            for i in (1..=n).chain((1..=n).rev()) {
                s += &format!("{}a{i} 'x' ", rep("#", i));
            }
            s
        }),
        f("depth and back at once", SMALL, |n| {
            let mut s = String::new();
            for i in 1..=n {
                s += &format!("{}a ", rep("#", i));
            }
            s + "#b 'x'"
        }),
        f("depth and one too many", SMALL, |n| {
            let mut s = String::new();
            for i in 1..=n {
                s += &format!("{}a ", rep("#", i));
            }
            s + &rep("#", n + 2) + "b 'x'"
        }),
        f("too deep", BIG, |n| format!("#a {}b ", rep("#", n + 2))),
        f("boxes", MID, |n| {
            let mut s = String::new();
            for i in 0..n {
                s += &format!("#a{} ", format_args!("{i}{{"));
            }
            s += "'x'";
            for i in (0..n).rev() {
                s += &format!(" #a{i}}}");
            }
            s
        }),
        f("boxes, one not closed", MID, |n| {
            format!("{}{}", rep("#a{ ", n + 1), rep("#a} ", n))
        }),
        f("boxes, one closed twice", MID, |n| {
            format!("{}{}", rep("#a{ ", n), rep("#a} ", n + 1))
        }),
        f("boxes, wrong one closed", MID, |n| {
            format!("#b{{ {}{}#a}} ", rep("#a{ ", n), rep("#a} ", n))
        }),
        f("boxes of depth two", MID, |n| {
            format!("#a {}{}", rep("##b{ #a ", n), rep("'x' ##b} ", n))
        }),
        f("deep boxes", 300, |n| {
            // each box is one level deeper than what it is in
            let mut s = String::new();
            for i in 1..=n {
                for j in 1..i {
                    s += &format!("{}e ", rep("#", j));
                }
                s += &format!("{}b{{ ", rep("#", i));
            }
            for i in (1..=n).rev() {
                s += &format!("{}b}} ", rep("#", i));
            }
            if n > 40 {
                String::new()
            } else {
                s
            }
        }),
        f("siblings", MID, |n| {
            let mut s = String::from("#r ");
            for i in 0..n {
                s += &format!("##a k={i} 'x' ");
            }
            s
        }),
        f("roots", MID, |n| rep("#a 'x' ", n)),
        f("texts", BIG, |n| format!("#a {}", rep("'x'\"y\"", n))),
        f("declarations", 520, |n| {
            let mut s = String::from("#p0:a");
            for i in 0..n {
                s += &format!(" xmlns:p{i}=u{i} p{}:k=1", n - 1 - i);
            }
            s
        }),
        f("declarations inside each other", 520, |n| {
            let mut s = String::new();
            for i in 0..n {
                s += &format!("#p:a{{ xmlns:p=u{} xmlns=d{i} p:k=1 ", i % 7);
            }
            s += "#p:x k=1";
            for _ in 0..n {
                s += " #p:a} ##p:y";
            }
            s
        }),
        f("declarations after each other", 2050, |n| {
            let mut s = String::from("#r ");
            for i in 0..n {
                s += &format!("##p:a xmlns:p=u{i} ###p:b ");
            }
            s + "##p:c"
        }),
        f("unused declarations", 520, |n| {
            let mut s = String::from("#r ");
            for i in 0..n {
                s += &format!("##a xmlns:p{i}=u{} ", i % 3);
            }
            s + &format!("##p{}:c", n / 2)
        }),
    ]
}

/// The sizes at which families are read: all small ones and those around powers of two
pub fn sizes(all_to: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all_to.min(max)).collect();
    let mut p = 1;
    while p <= max {
        for n in [p - 1, p, p + 1] {
            if n > all_to && n <= max {
                v.push(n);
            }
        }
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}

/// The families of texts with a limit on the number of characters
pub fn scale(name: &str, all_to: usize, max: usize, opts: Opts, judge: Judge) -> Box<dyn Space> {
    let fams = all_families();
    let list: Vec<(usize, usize)> = fams
        .iter()
        .enumerate()
        .flat_map(|(i, f)| {
            sizes(all_to.min(f.max), f.max.min(max))
                .into_iter()
                .map(move |n| (i, n))
        })
        .collect();
    let list2 = list.clone();
    let bound = format!(
        "{} families of texts of size 0..{all_to} and around all powers of two to {max}: {}",
        fams.len(),
        fams.iter().map(|f| f.name).collect::<Vec<_>>().join("; ")
    );
    product(
        name,
        &bound,
        vec![list.len() as u32],
        move |p| {
            let (i, n) = list[p[0] as usize];
            reading(&(all_families()[i].make)(n), opts, judge, i as u64)
        },
        move |p| {
            let (i, n) = list2[p[0] as usize];
            format!("{} {n}", all_families()[i].name)
        },
    )
}

/// What may follow a text that is cut off
const TAILS: &[&str] = &[
    "", " ", "\n", "=", "= ", "=\"", "='\n", "\"", "'", "#", "##", " #a ", ":", ":x ", "{ ", "} ", ";", "!", "\u{e9}", "\\",
];

/// The families of texts, cut off at every place and continued in every way
pub fn cut(name: &str, thorough: bool, opts: Opts, judge: Judge) -> Box<dyn Space> {
    const LEN: usize = 400;
    let sizes: Vec<usize> = if thorough {
        (0..=70).collect()
    } else {
        vec![1, 2, 3, 4, 7, 9, 12, 17, 24, 33, 65]
    };
    let texts: Vec<Vec<char>> = all_families()
        .iter()
        .flat_map(|f| sizes.iter().map(|n| (f.make)(*n).chars().collect()))
        .filter(|t: &Vec<char>| t.len() <= LEN)
        .collect();
    let texts = std::sync::Arc::new(texts);
    let make = |texts: &[Vec<char>], p: &[u32]| -> String {
        let mut s: String = texts[p[0] as usize][..p[1] as usize].iter().collect();
        s += TAILS[p[2] as usize];
        s
    };
    let (a, b, c) = (texts.clone(), texts.clone(), texts.clone());
    Box::new(Gen {
        name: name.into(),
        bound: format!(
            "the texts of up to {LEN} characters of the families at sizes {sizes:?}, cut off after each character and followed by each of {TAILS:?}"
        ),
        width: Box::new(move |p| match p.len() {
            0 => a.len() as u32,
            1 => a[p[0] as usize].len() as u32 + 1,
            2 => TAILS.len() as u32,
            _ => 0,
        }),
        run: Box::new(move |p| {
            if p.len() < 3 {
                return Ok(INNER);
            }
            reading(&make(&b, p), opts, judge, p[2] as u64)
        }),
        show: Box::new(move |p| {
            if p.len() < 3 {
                return String::new();
            }
            format!("{:?}", make(&c, p))
        }),
    })
}

/// Characters that programs treat in some special way
pub const SPECIALS: &[&str] = &[
    "\u{0}", "\t", "\n", "\r", "\u{b}", "\u{c}", "\u{1b}", " ", "!", "\"", "#", "$", "%", "&", "'", "*", "+", ",", "-", ".", "/",
    "0", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "_", "`", "a", "n", "r", "{", "|", "}", "~", "\u{7f}", "\u{85}",
    "\u{a0}", "\u{ad}", "\u{b7}", "\u{e9}", "\u{300}", "\u{200b}", "\u{200d}", "\u{2028}", "\u{2029}", "\u{3000}",
    "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{1f600}", "\u{10ffff}",
];

/// Special characters in each template, in the place of `\u{0}`
pub fn specials(
    name: &str,
    templates: &'static [&'static str],
    depth: usize,
    opts: Opts,
    judge: Judge,
) -> Box<dyn Space> {
    let make = move |p: &[u32]| -> String {
        let x: String = p[1..].iter().map(|i| SPECIALS[*i as usize]).collect();
        templates[p[0] as usize].replace('\u{0}', &x)
    };
    Box::new(Gen {
        name: name.into(),
        bound: format!("all sequences of up to {depth} of {SPECIALS:?} (NUL in the place of) in each of {templates:?}"),
        width: Box::new(move |p| match p.len() {
            0 => templates.len() as u32,
            n if n <= depth => SPECIALS.len() as u32,
            _ => 0,
        }),
        run: Box::new(move |p| {
            if p.is_empty() {
                return Ok(INNER);
            }
            let mut out = reading(&make(p), opts, judge, p[0] as u64)?;
            out.extend = true;
            Ok(out)
        }),
        show: Box::new(move |p| {
            if p.is_empty() {
                return String::new();
            }
            format!("{:?}", make(p))
        }),
    })
}

/// Words that programs treat in some special way, as far as they can be names
pub const NAME_WORDS: &[&str] = &[
    "a", "p", "q", "ab", "abc", "A", "Ab", "aB", "AB", "r", "rr", "ra", "R", "x", "xm", "xml", "XML", "Xml", "xml1", "xmlfoo", "xmlns",
    "XMLNS", "xmlnsx", "xml-stylesheet", "xsi", "html", "hml", "HML", "br", "true", "false", "null", "None", "self", "id", "ID",
    "class", "lang", "space", "base", "_", "__", "_a", "a_", "a-", "a--", "a-b", "a--b", "a.", "a..", "a...", "ab.", "abc.",
    "a.b", "a..b", "a1", "a12", "a1b2", "a\u{b7}", "\u{e9}", "e\u{301}", "a\u{e9}b", "\u{3b1}\u{3b2}", "\u{4e2d}\u{6587}",
    "\u{10000}", "a\u{10000}", "a\u{203f}", "\u{200c}", "a\u{200d}b", "\u{2c00}", "\u{fb01}", "aaaaaaaaaaaaaaaa",
];
/// and other words
pub const VALUE_WORDS: &[&str] = &[
    "", "0", "1", "-1", "1.0", "1e5", "0x1f", "NaN", "/", "//", "a/", "ab/", "/a", "a//b", "./a", "http://a", "http://a/",
    "http://www.w3.org/2000/xmlns/", "C:\\a", "\\", "\\\\", "\\n", "a\\nb", "\\t", "\\x41", "\\u0041", "\\u{41}", "\\'", "&", "&amp;",
    "&lt;", "&#65;", "&#x41;", "&;", "a&b", "<", ">", "<a>", "<a/>", "</a>", "<!--", "-->", "--", "<![CDATA[", "]]>", "<?a", "?>",
    "%", "%20", "%s", "$a", "${a}", "{", "}", "{}", "{a}", "{{a}}", "{0}", "(", ")", "[]", "a=b", "=", "==", "a:b", ":", "::",
    "a,b", ",", "a;b", ";", ";;", "a#b", "#", "##", "#a", "r#", "r", "`a`", "~", "*", "**", "|", "^", "@a", "!", "?", "a.", "...",
    "\u{a0}b", "\u{ad}", "\u{200b}", "\u{feff}", "a\u{feff}", "\u{fffd}", "\u{ffff}", "\u{1f468}\u{200d}\u{1f469}", "\u{0}", "a\u{0}b", "\u{7f}",
];
/// and those with blanks and quotes, that only strings with hashes have
pub const STRING_WORDS: &[&str] = &[
    " ", "  ", " a", "a ", " a ", "a b", "a  b", "\t", "\ta", "a\t", "\n", "\n\n", "a\n", "\na", "a\nb", "\na\n", "a\n\nb", "\r",
    "\r\n", "a\r", "\ra", "a\rb", "a\r\n", "a\r\nb", "\n\r", "\r\r\n", "a \n b", " \n ", "\u{b}", "\u{c}", "\u{85}", "a\u{85}b",
    "\u{2028}", "\u{2029}a", "\u{3000}", "\u{2003}a", "\\\n", "a\\\n  b", "\"", "\"\"", "a\"b", "'\"'", "\"#", "\\\"", ";a\n",
];

/// All pairs of words in each template, in the places of `\u{1}` and `\u{2}`
pub fn words(
    name: &str,
    templates: &'static [&'static str],
    first: &[&'static [&'static str]],
    second: &[&'static [&'static str]],
    opts: Opts,
    judge: Judge,
) -> Box<dyn Space> {
    let (first, second) = (first.concat(), second.concat());
    let make = |t: &str, a: &str, b: &str| -> String { t.replace('\u{1}', a).replace('\u{2}', b) };
    let bound = format!(
        "all pairs of {first:?} and {second:?} (1 and 2 in the places of) in each of {templates:?}{}",
        if opts.xmlns {
            ", with namespaces"
        } else {
            ""
        }
    );
    let dims = vec![templates.len() as u32, first.len() as u32, second.len() as u32];
    let (f, s) = (first.clone(), second.clone());
    product(
        name,
        &bound,
        dims,
        move |p| {
            let t = templates[p[0] as usize];
            // a template with one place has each word once
            if !t.contains('\u{2}') && p[2] > 0 {
                return Ok(Out {
                    extend: false,
                    state: 0,
                    runs: 0,
                });
            }
            reading(&make(t, first[p[1] as usize], second[p[2] as usize]), opts, judge, p[0] as u64)
        },
        move |p| {
            if p.len() < 3 {
                return String::new();
            }
            format!("{:?}", make(templates[p[0] as usize], f[p[1] as usize], s[p[2] as usize]))
        },
    )
}

/// Whole documents, of the kind that people write
const DOCUMENTS: &[&str] = &[
    "#a 'x'",
    "#a k=1 \"x\"",
    "#a{ 'x' #a}",
    "#a ;c\n;d\n'x'",
    "#a r#'x'# #b",
    "#p:a xmlns:p=u p:k=1",
    "##a",
    "; A list of books\n#books\n##book title=\"A\" year=1999\n###author \"B C\"\n##book title='D' year=2001\n###author r#\"E \"F\" G\"#\n",
    "#html{\n  #head ##title \"T\"\n  #body{ class=main\n    #p \"one\" ##b 'two' #p #\"three\nfour\"#\n  #body}\n#html}\n",
    "#svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:x=urn:x\n##x:g x:id=g1\n###path d='M 0 0'\n##x:g\n###x:use x:href=#g1\n",
    "#a{\n;one\n ;two\n\n;three\n#b{ k='' l=\"\" ;four\n#b}\n#a}",
    "#\u{e9}t\u{e9} cl\u{e9}=\u{20ac}1 ##\u{4e2d} '\u{1f600}' ;\u{fc}\n#r r'r' r=r",
    "#a\r\n##b k=1\r\n##c 'x'\r\n;d\r\n",
    "#a ##b ###c ####d 'x' ##e ###f 'y' #g",
    "#t 'a''b'\"c\"#'d'# ##\"e\"## r'f' #u",
    "#a{ #b{ #c{ 'x' #c} #b} #d #a} ##e",
];
/// What is at fault, in each way
const FAULTY: &[&str] = &[
    "!", "'x'", "k=1", "#", "##", "#a!", "#a{!", "#a k", "#a k ", "#a k=", "#a k= ", "#a k='", "#a 'x", "#a 'x\n'", "#a r#'x'", "##b",
    "###b{ k=1", "#a}", "##a}", "#a{ #b}", "#a{", "#a 'x' k=1", "#a 'x' p:k=1", "#a 'x' p:p=1", "#a ;c\nk=1", "#p:a", "#a p:k=1", "#p:a}", "#a\n#\u{e9}\n!", "#a:", "#a '\u{e9}' \u{1f600}",
];
/// Long beginnings, after which a document follows, and what comes at the end
const BEFORE: &[(usize, fn(usize) -> (String, String))] = &[
    (65537, |n| (rep("\n", n), String::new())),
    (65537, |n| (rep("\u{2003}", n), String::new())),
    (65537, |n| (rep(";\n", n) + "\n", String::new())),
    (65537, |n| (format!(";{}\n\n", rep("\u{e9}", n)), String::new())),
    (65537, |n| (format!("#z{} k='{}'\n", rep("z", n), rep("v", n)), String::new())),
    (65537, |n| (format!("#z #'{}'#\n", rep("\n", n)), String::new())),
    (65537, |n| (format!("#z{}\n", rep(" 'x'", n)), String::new())),
    (8193, |n| (rep("#z 'x' ", n), String::new())),
    (8193, |n| (rep("#z{ #z}\n", n), String::new())),
    (8193, |n| (rep("#z{ ", n), rep(" #z}", n))),
    (2049, |n| (rep("#z{ xmlns:q=u ", n), rep(" #z}", n))),
    (257, |n| {
        ((1..=n).map(|i| rep("#", i) + "z ").collect(), String::new())
    }),
    (2049, |n| {
        ((0..n).map(|i| format!("#z{i} k{i}=v{i} ")).collect(), String::new())
    }),
];
/// Documents, right and wrong, at the end of long texts
pub fn after(name: &str, thorough: bool, opts: Opts, judge: Judge) -> Box<dyn Space> {
    let mut ns = sizes(0, if thorough { 65537 } else { 513 });
    ns.retain(|n| *n > 2);
    if !thorough {
        ns.extend([4097, 65537]);
    }
    let docs: Vec<&'static str> = [DOCUMENTS, FAULTY].concat();
    let bound = format!("{docs:?} at the end of {} families of texts of each of the sizes {ns:?} (nested ones up to less)", BEFORE.len());
    let list: Vec<(usize, usize)> = BEFORE
        .iter()
        .enumerate()
        .flat_map(|(i, f)| ns.iter().filter(|n| **n <= f.0).map(move |n| (i, *n)))
        .collect();
    let widths = vec![list.len() as u32, docs.len() as u32];
    let make = move |p: &[u32]| {
        let (i, n) = list[p[0] as usize];
        let (a, b) = BEFORE[i].1(n);
        a + docs[p[1] as usize] + &b
    };
    product(
        name,
        &bound,
        widths,
        move |p| reading(&make(p), opts, judge, p[1] as u64),
        |p| format!("{p:?}"),
    )
}
/// What a character is replaced by or has before it
fn edits() -> Vec<String> {
    let more = [
        "\u{85}", "\u{a0}", "\u{ad}", "\u{b7}", "\u{d7}", "\u{e9}", "\u{300}", "\u{2003}", "\u{200b}", "\u{200d}", "\u{2028}",
        "\u{2029}", "\u{3000}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{1f600}", "\u{10ffff}", "\r\n", "\n\n", "##", "''", "\"\"", "r'",
        "r#'", "'#", "\"#", ";\n", "\n;", ";c\n", " k=1 ", " k='1' ", " p:k=1 ", " #b ", " ##b ", " #b{ ", " #b} ", " #a} ", " 't' ",
        " xmlns:p=v ", " xmlns=d ", "a:", ":a", "::",
    ];
    (0..128u8)
        .map(|c| (c as char).to_string())
        .chain(more.iter().map(|s| s.to_string()))
        .collect()
}
/// and in texts with two changes
const FEW_EDITS: &[&str] = &[
    "#", "a", ":", "=", "\"", "'", ";", "\n", " ", "r", "{", "}", "\u{e9}", "1", "\\", "\r", "\u{300}", "\u{2003}", "\u{1f600}", "##", " #b ", " k=1 ",
];

/// Every document with one character left out, replaced or inserted; or two, in the documents
/// of up to `short` characters
pub fn changed(name: &str, short: usize, opts: Opts, judge: Judge) -> Box<dyn Space> {
    let two = short > 0;
    let all: Vec<String> = if two {
        FEW_EDITS.iter().map(|s| s.to_string()).collect()
    } else {
        edits()
    };
    let docs: Vec<Vec<char>> = DOCUMENTS
        .iter()
        .map(|d| d.chars().collect())
        .filter(|d: &Vec<char>| !two || d.len() <= short)
        .collect();
    let n = all.len();
    // each change is a place and then a kind of change
    let kinds = 2 * n as u32 + 1;
    let make = move |docs: &[Vec<char>], all: &[String], p: &[u32]| -> String {
        let d = &docs[p[0] as usize];
        let mut s = String::new();
        for i in 0..=d.len() {
            let mut keep = true;
            for c in p[1..].chunks(2) {
                if c[0] as usize != i {
                    continue;
                }
                let k = c[1] as usize;
                if k < 2 * n {
                    s.push_str(&all[k % n]);
                }
                keep = keep && k < n;
            }
            if keep && i < d.len() {
                s.push(d[i]);
            }
        }
        s
    };
    let show_all: Vec<&str> = DOCUMENTS.iter().copied().filter(|d| !two || d.chars().count() <= short).collect();
    let bound = format!(
        "the documents {show_all:?} with {} left out, replaced by or preceded by {all:?}",
        if two {
            "any two characters"
        } else {
            "any character"
        },
    );
    let shared = std::sync::Arc::new((docs, all));
    let (a, b, c) = (shared.clone(), shared.clone(), shared);
    let changes = if two { 2 } else { 1 };
    Box::new(Gen {
        name: name.into(),
        bound,
        width: Box::new(move |p| match p.len() {
            0 => a.0.len() as u32,
            l if l > 2 * changes => 0,
            l if l % 2 == 1 => a.0[p[0] as usize].len() as u32 + 1,
            _ => kinds,
        }),
        run: Box::new(move |p| {
            if p.len() % 2 == 0 {
                return Ok(INNER);
            }
            // changes in the order of their places
            if p.len() == 5 && p[3] < p[1] {
                return Ok(Out {
                    extend: false,
                    state: 0,
                    runs: 0,
                });
            }
            let mut out = reading(&make(&b.0, &b.1, p), opts, judge, p[0] as u64)?;
            out.extend = true;
            Ok(out)
        }),
        show: Box::new(move |p| {
            if p.len() % 2 == 0 {
                return String::new();
            }
            format!("{:?}", make(&c.0, &c.1, p))
        }),
    })
}
