//! The program hmlconvert, as a process
use crate::engine::{digest, Out, Space, Verdict};
use crate::model;
use crate::spaces::{all_families, product, sizes, Gen, SPECIALS};
use crate::types::*;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}

/// Files of one case, removed after it
struct Files(String, [&'static str; 2]);
impl Files {
    fn new(names: [&'static str; 2]) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let work = std::env::var("HMLMC_WORK").expect("HMLMC_WORK");
        let d = format!("{work}/{}-{}", std::process::id(), N.fetch_add(1, SeqCst));
        std::fs::create_dir_all(&d).expect("directory");
        Files(d, names)
    }
    fn input(&self) -> String {
        format!("{}/{}", self.0, self.1[0])
    }
    fn output(&self) -> String {
        format!("{}/{}", self.0, self.1[1])
    }
}
impl Drop for Files {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.input());
        let _ = std::fs::remove_file(self.output());
        let _ = std::fs::remove_dir(&self.0);
    }
}

#[derive(Debug, Clone)]
struct How {
    from_file: bool,
    to_file: bool,
    /// arguments for the version, before the others
    version: Vec<String>,
    /// and after the others
    last: bool,
    /// the names of the files
    names: [&'static str; 2],
    /// whether there is no output file before
    fresh: bool,
    /// whether its name is in one argument with the option
    joined: bool,
}
impl Default for How {
    fn default() -> Self {
        How {
            from_file: false,
            to_file: false,
            version: vec![],
            last: false,
            names: USUAL,
            fresh: false,
            joined: false,
        }
    }
}
const USUAL: [&str; 2] = ["in.hml", "out.xml"];

struct Done {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    stdout: Vec<u8>,
    stderr: String,
}

fn run(text: &[u8], how: &How) -> Result<Done, String> {
    let program = std::env::var("HMLMC_CONVERT").expect("HMLMC_CONVERT");
    let files = Files::new(how.names);
    let mut args: Vec<String> = vec![];
    if !how.last {
        args.extend(how.version.clone());
    }
    if how.to_file {
        if !how.fresh {
            std::fs::write(files.output(), [b'?'; 5000]).expect("output file");
        }
        if how.joined {
            args.push(format!("--output={}", files.output()));
        } else {
            args.push("--output".into());
            args.push(files.output());
        }
    }
    if how.from_file {
        std::fs::write(files.input(), text).expect("input file");
        args.push(files.input());
    }
    if how.last {
        args.extend(how.version.clone());
    }
    let mut command = Command::new(program);
    command
        .args(&args)
        .env("RUST_BACKTRACE", "0")
        .stdin(if how.from_file {
            Stdio::null()
        } else {
            Stdio::piped()
        })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    unsafe {
        command.pre_exec(|| {
            setrlimit(0, &[40, 40]);
            setrlimit(9, &[4 << 30, 4 << 30]);
            Ok(())
        });
    }
    let mut child = command.spawn().map_err(|e| format!("spawn: {e}"))?;
    let input = child.stdin.take();
    let done = std::thread::scope(|s| {
        if let Some(mut i) = input {
            if text.len() < 4000 {
                let _ = i.write_all(text);
            } else {
                s.spawn(move || {
                    let _ = i.write_all(text);
                });
            }
        }
        child.wait_with_output()
    });
    let done = done.map_err(|e| format!("wait: {e}"))?;
    let (status, stdout, stderr) = (done.status, done.stdout, done.stderr);
    let out = if how.to_file {
        ensure!(
            stdout.is_empty(),
            "with --output, standard output has {:?}",
            String::from_utf8_lossy(&stdout)
        );
        std::fs::read(files.output()).map_err(|e| format!("the output: {e}"))?
    } else {
        stdout.clone()
    };
    if how.from_file {
        let now = std::fs::read(files.input()).map_err(|e| format!("the input: {e}"))?;
        ensure!(now == text, "the input file has changed");
    }
    Ok(Done {
        code: status.code(),
        signal: status.signal(),
        out,
        stdout,
        stderr: String::from_utf8_lossy(&stderr).into_owned(),
    })
}

/// A piece of XML
#[derive(Debug, PartialEq, Clone)]
enum Piece {
    Doc(String),
    Start(String, Vec<(String, String)>),
    End(String),
    Text(String),
    Comment(String),
}

fn decode(s: &str) -> Result<String, String> {
    let mut r = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        r.push_str(&rest[..i]);
        let j = rest[i..].find(';').ok_or("a reference does not end")? + i;
        let body = &rest[i + 1..j];
        match body {
            "amp" => r.push('&'),
            "lt" => r.push('<'),
            "gt" => r.push('>'),
            "quot" => r.push('"'),
            "apos" => r.push('\''),
            _ => {
                let n = match body.strip_prefix("#x") {
                    Some(h) => u32::from_str_radix(h, 16).ok(),
                    None => body.strip_prefix('#').and_then(|d| d.parse().ok()),
                };
                r.push(
                    n.and_then(char::from_u32)
                        .ok_or(format!("the reference {body:?}"))?,
                );
            }
        }
        rest = &rest[j + 1..];
    }
    r.push_str(rest);
    Ok(r)
}

/// Splits XML that need not have exactly one element at the top
fn pieces(xml: &str) -> Result<Vec<Piece>, String> {
    let mut v: Vec<Piece> = vec![];
    let mut rest = xml;
    let cut = |s: &str, end: &str, at: usize| -> Result<(String, usize), String> {
        let j = s[at..].find(end).ok_or(format!("no {end} in the XML"))? + at;
        Ok((s[at..j].to_string(), j + end.len()))
    };
    while !rest.is_empty() {
        if rest.starts_with("<?xml ") {
            let (body, n) = cut(rest, "?>", 6)?;
            let (_, i) = cut(&body, "version=\"", 0)?;
            let (ver, _) = cut(&body, "\"", i)?;
            v.push(Piece::Doc(ver));
            rest = &rest[n..];
        } else if rest.starts_with("<!--") {
            let (body, n) = cut(rest, "-->", 4)?;
            v.push(Piece::Comment(body.trim().into()));
            rest = &rest[n..];
        } else if rest.starts_with("<![CDATA[") {
            let (body, n) = cut(rest, "]]>", 9)?;
            v.push(Piece::Text(body));
            rest = &rest[n..];
        } else if rest.starts_with("</") {
            let (body, n) = cut(rest, ">", 2)?;
            v.push(Piece::End(body.trim().into()));
            rest = &rest[n..];
        } else if rest.starts_with('<') {
            let is_end = |c: char| c == '>' || c == '/' || c.is_ascii_whitespace();
            let n = rest[1..].find(is_end).ok_or("a tag does not end")? + 1;
            let name = rest[1..n].to_string();
            let mut attrs = vec![];
            rest = rest[n..].trim_start_matches([' ', '\n', '\r', '\t']);
            while !rest.starts_with('>') && !rest.starts_with("/>") {
                let (k, n) = cut(rest, "=", 0)?;
                let q = rest[n..].chars().next().ok_or("no value")?;
                ensure!(q == '"' || q == '\'', "a value is not quoted");
                let (val, n) = cut(rest, &q.to_string(), n + 1)?;
                attrs.push((k, decode(&val)?));
                rest = rest[n..].trim_start_matches([' ', '\n', '\r', '\t']);
            }
            v.push(Piece::Start(name.clone(), attrs));
            if let Some(r) = rest.strip_prefix("/>") {
                v.push(Piece::End(name));
                rest = r;
            } else {
                rest = &rest[1..];
            }
        } else {
            let n = rest.find('<').unwrap_or(rest.len());
            v.push(Piece::Text(decode(&rest[..n])?));
            rest = &rest[n..];
        }
    }
    Ok(v)
}

fn blank(s: &str) -> bool {
    s.chars().all(|c| " \n\r\t".contains(c))
}
/// The pieces that are not text, and the text before each of them and at the end
fn split(v: Vec<Piece>) -> (Vec<Piece>, Vec<String>) {
    let mut texts = vec![String::new()];
    let mut rest = vec![];
    for p in v {
        match p {
            Piece::Text(t) => texts.last_mut().unwrap().push_str(&t),
            p => {
                rest.push(p);
                texts.push(String::new());
            }
        }
    }
    (rest, texts)
}
/// Whether the XML is what it should be, but for indentation
fn same(got: Vec<Piece>, want: Vec<Piece>) -> bool {
    let ((got, got_texts), (want, want_texts)) = (split(got), split(want));
    let text = |g: &String, w: &String| {
        if blank(w) {
            blank(g) && g.contains(w.as_str())
        } else {
            g == w
        }
    };
    got == want && got_texts.iter().zip(&want_texts).all(|(g, w)| text(g, w))
}

fn expected(trace: &Trace, version: &str) -> Vec<Piece> {
    let name = |q: &QName| {
        if q.prefix.is_empty() {
            q.name.clone()
        } else {
            format!("{}:{}", q.prefix, q.name)
        }
    };
    let mut v = vec![];
    for o in &trace.obs {
        match o.what.as_ref().unwrap() {
            Ev::StartDoc(_) => v.push(Piece::Doc(version.into())),
            Ev::EndDoc => (),
            Ev::Start(n, a) => v.push(Piece::Start(
                name(n),
                a.iter().map(|(k, v)| (name(k), v.clone())).collect(),
            )),
            Ev::End(n) => v.push(Piece::End(name(n))),
            Ev::Content(_, t) => v.push(Piece::Text(t.clone())),
            // XML has no two hyphens in a comment, and the writer makes a space of one
            Ev::Comment(t, _) => v.push(Piece::Comment(t.replace("--", "- ").trim().into())),
            Ev::Pi(..) => unreachable!(),
        }
    }
    v
}

fn judge(text: &str, how: &How, version: &str, m: &model::Run) -> Result<Vec<u8>, String> {
    let d = run(text.as_bytes(), how).map_err(|e| format!("{how:?}: {e}"))?;
    let context = || {
        format!(
            "{how:?}\nexit status {:?}, signal {:?}\nstandard output {:?}\nstandard error {}\nmodel\n{}",
            d.code,
            d.signal,
            String::from_utf8_lossy(&d.stdout),
            d.stderr,
            m.trace.show()
        )
    };
    ensure!(
        d.signal.is_none() && d.code != Some(101) && !d.stderr.contains("panicked at"),
        "the program died\n{}",
        context()
    );
    if m.trace.ok() {
        ensure!(
            d.code == Some(0),
            "the exit status of a document is not zero\n{}",
            context()
        );
        let xml = std::str::from_utf8(&d.out).map_err(|e| format!("{e}\n{}", context()))?;
        let got = pieces(xml).map_err(|e| format!("{e}\n{}", context()))?;
        let want = expected(&m.trace, version);
        ensure!(
            same(got.clone(), want.clone()),
            "the XML is\n{xml}\nread as\n{got:?}\nand not\n{want:?}\n{}",
            context()
        );
        return Ok(d.out);
    }
    ensure!(
        d.code != Some(0),
        "the exit status of a text that is not HML is zero\n{}",
        context()
    );
    if let Some((_, Some(sp))) = m.trace.fault() {
        let line = text.split('\n').nth(sp.s.line - 1).unwrap_or("");
        ensure!(
            d.stderr.contains(line) && !d.stderr.trim().is_empty(),
            "the source line {line:?} of the error is not on standard error\n{}",
            context()
        );
        let says = crate::drive::first_error(text, PLAIN).unwrap_or_default();
        ensure!(
            d.stderr.contains(&says),
            "the error {says:?} is not on standard error\n{}",
            context()
        );
    }
    Ok(vec![])
}

const IO: [(bool, bool); 4] = [(true, false), (false, false), (true, true), (false, true)];

/// All ways of input and output, with the default version
fn every_way(text: &str) -> Result<(u64, u64), String> {
    let m = model::read(text, PLAIN);
    let mut first: Option<Vec<u8>> = None;
    for (from_file, to_file) in IO {
        let how = How {
            from_file,
            to_file,
            ..How::default()
        };
        let out = judge(text, &how, "1.0", &m)?;
        match &first {
            None => first = Some(out),
            Some(f) => ensure!(
                *f == out,
                "the output is another with {how:?}:\n{}\nnot\n{}",
                String::from_utf8_lossy(&out),
                String::from_utf8_lossy(f)
            ),
        }
    }
    Ok((m.state.max(1), 4))
}

fn texts(
    name: &str,
    prefix: &'static str,
    symbols: &'static [&'static str],
    depth: usize,
) -> Box<dyn Space> {
    let make = move |p: &[u32]| -> String {
        let mut s = String::from(prefix);
        for i in p {
            s.push_str(symbols[*i as usize]);
        }
        s
    };
    Box::new(Gen {
        name: name.into(),
        bound: format!(
            "all sequences of up to {depth} of {symbols:?} after {prefix:?}, from file and standard input, to file and standard output"
        ),
        width: Box::new(move |p| if p.len() < depth { symbols.len() as u32 } else { 0 }),
        run: Box::new(move |p| -> Verdict {
            let text = make(p);
            let m = model::read(&text, PLAIN);
            let (state, runs) = every_way(&text)?;
            Ok(Out {
                // what follows an error that is not at the end is looked at in the
                // shortest texts only
                extend: p.len() < 2 || m.trace.ok() || m.saw_end,
                state,
                runs,
            })
        }),
        show: Box::new(move |p| format!("{:?}", make(p))),
    })
}

/// Files of all kinds of names, which mean nothing
fn file_names() -> Box<dyn Space> {
    const NAMES: &[&str] = &[
        "a", "a.hml", "a.HML", "a.xml", "a.XML", "a.html", "a.txt", "a.hml.xml", "a.xml.hml", ".a", "a.", "a b", " a", "a ", "\u{e9}.\u{4e2d}",
        "-", "--", "-x", "@a", "a=b", "a:b", "%a", "~", "$A", "'a'", "a\\b", "a\tb", "a\nb", "stdin", "stdout", "null",
    ];
    const TEXTS: &[&str] = &["#a k=1 ##b 'x' ;c\n", "<a/>"];
    product(
        "file-names",
        &format!("{NAMES:?} for each of the input and the output, or a usual name, where the output is there or not, given in 2 ways, with {TEXTS:?}"),
        vec![NAMES.len() as u32, 3, 2, 2, TEXTS.len() as u32],
        |p| {
            let name = NAMES[p[0] as usize];
            let how = How {
                from_file: p[1] != 2,
                to_file: p[1] != 1,
                names: if p[1] == 2 {
                    [USUAL[0], name]
                } else {
                    [name, USUAL[1]]
                },
                fresh: p[2] == 0,
                joined: p[3] == 0,
                ..How::default()
            };
            let text = TEXTS[p[4] as usize];
            let m = model::read(text, PLAIN);
            let out = judge(text, &how, "1.0", &m)?;
            Ok(Out {
                extend: false,
                state: digest(out),
                runs: 1,
            })
        },
        |p| format!("{p:?}"),
    )
}

fn versions() -> Box<dyn Space> {
    // what is given and what XML version it is
    const GIVEN: &[(&str, &str)] = &[
        ("1.0", "1.0"),
        ("1", "1.0"),
        ("1.00", "1.0"),
        ("1e0", "1.0"),
        ("0.996", "1.0"),
        ("0.999", "1.0"),
        ("1.004", "1.0"),
        ("0.99", "1.1"),
        ("0.9", "1.1"),
        ("0", "1.1"),
        ("1.006", "1.1"),
        ("1.09", "1.1"),
        ("1.11", "1.1"),
        ("1.1", "1.1"),
        ("1.10", "1.1"),
        ("1.01", "1.1"),
        ("1.2", "1.1"),
        ("1.5", "1.1"),
        ("2", "1.1"),
        ("2.0", "1.1"),
        ("10", "1.1"),
    ];
    const TEXTS: &[&str] = &["", "#a", "#a k='1' ##b 'x' ;c\n", "#a !", ";c"];
    product(
        "versions",
        &format!("{GIVEN:?} in 4 ways before and after the other arguments with {TEXTS:?}"),
        vec![GIVEN.len() as u32, 4, 2, 4, TEXTS.len() as u32],
        |p| {
            let (g, want) = GIVEN[p[0] as usize];
            let version = match p[1] {
                0 => vec!["-x".to_string(), g.to_string()],
                1 => vec![format!("-x{g}")],
                2 => vec!["--xml_version".to_string(), g.to_string()],
                _ => vec![format!("--xml_version={g}")],
            };
            let (from_file, to_file) = IO[p[3] as usize];
            let how = How {
                from_file,
                to_file,
                version,
                last: p[2] == 1,
                ..How::default()
            };
            let text = TEXTS[p[4] as usize];
            let m = model::read(text, PLAIN);
            let out = judge(text, &how, want, &m)?;
            Ok(Out {
                extend: false,
                state: digest((want, out)),
                runs: 1,
            })
        },
        |p| format!("{p:?}"),
    )
}

/// What is not text is refused
fn bytes(depth: usize) -> Box<dyn Space> {
    const PARTS: &[&[u8]] = &[
        b"#a ", b"'x' ", b"k=1 ", b"'", b";", b"\n", b"\xff", b"\x80", b"\xc3", b"\xa9", b"\xc0\x80", b"\xe2\x82", b"\xed\xa0\x80",
        b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe\xff",
    ];
    let make = |p: &[u32]| -> Vec<u8> { p.iter().flat_map(|i| PARTS[*i as usize].iter().copied()).collect() };
    Box::new(Gen {
        name: "bytes".into(),
        bound: format!("all sequences of up to {depth} of {PARTS:x?} that are not UTF-8, from file and standard input"),
        width: Box::new(move |p| if p.len() < depth { PARTS.len() as u32 } else { 0 }),
        run: Box::new(move |p| -> Verdict {
            let text = make(p);
            let mut out = Out {
                extend: true,
                state: digest(std::str::from_utf8(&text).map_err(|e| (e.valid_up_to(), e.error_len())).map(|t| t.len())),
                runs: 0,
            };
            if std::str::from_utf8(&text).is_ok() {
                return Ok(out);
            }
            for from_file in [true, false] {
                let how = How {
                    from_file,
                    to_file: false,
                    ..How::default()
                };
                let d = run(&text, &how).map_err(|e| format!("{how:?}: {e}"))?;
                out.runs += 1;
                ensure!(
                    d.signal.is_none() && d.code != Some(0) && !d.stderr.is_empty(),
                    "{how:?}: what is not UTF-8 is not refused, exit status {:?}, standard output {:?}, standard error {:?}",
                    d.code,
                    String::from_utf8_lossy(&d.stdout),
                    d.stderr
                );
            }
            Ok(out)
        }),
        show: Box::new(move |p| format!("{:?}", String::from_utf8_lossy(&make(p)))),
    })
}

/// Special characters at the ends of documents
fn ends() -> Box<dyn Space> {
    const PLACES: &[&str] = &[
        "\u{0}", "\u{0}#a 'x'", "\u{0}\n#a", "\n\u{0}#a", "#a 'x'\u{0}", "#a 'x'\n\u{0}", "#a\u{0}", "#a k=1\u{0}", "#a k=\u{0}",
        "#a{ 'x' #a}\u{0}", "#a ;c\u{0}", "#a ;c\n\u{0}", ";\u{0}\n#a", "#a\n!\u{0}", "\u{0}\u{0}#a", "#a '\u{0}", "#a 'x' !\u{0}\n#b",
    ];
    let make = |p: &[u32]| PLACES[p[0] as usize].replace('\u{0}', SPECIALS[p[1] as usize]);
    product(
        "ends",
        &format!("each of {SPECIALS:?} in the place of NUL in {PLACES:?}, from file and standard input, to file and standard output"),
        vec![PLACES.len() as u32, SPECIALS.len() as u32],
        move |p| {
            let (state, runs) = every_way(&make(p))?;
            Ok(Out {
                extend: false,
                state,
                runs,
            })
        },
        move |p| if p.len() < 2 { String::new() } else { format!("{:?}", make(p)) },
    )
}

/// What cannot be read or written is a failure
fn failures() -> Box<dyn Space> {
    const CASES: &[&str] = &[
        "no such input",
        "input is a directory",
        "output in no directory",
        "output is a directory",
        "output is full",
        "standard output is full",
    ];
    let texts = || -> Vec<String> {
        let mut v: Vec<String> = ["", "#a", "#a 'x'\n", "#a k='1' ##b 'x' ;c\n", "#a !", ";c"]
            .iter()
            .map(|s| s.to_string())
            .collect();
        for n in [100, 1000, 10000, 100000] {
            v.push(format!("#a '{}'", "x".repeat(n)));
            v.push(format!("#a {}", "##b\n".repeat(n / 4)));
        }
        v
    };
    product(
        "failures",
        &format!("{CASES:?} with {} documents of up to 100000 bytes", texts().len()),
        vec![CASES.len() as u32, texts().len() as u32],
        move |p| {
            let program = std::env::var("HMLMC_CONVERT").expect("HMLMC_CONVERT");
            let files = Files::new(USUAL);
            let text = texts()[p[1] as usize].clone();
            std::fs::write(files.input(), &text).expect("input file");
            let mut command = Command::new(program);
            let args = match p[0] {
                0 => vec![format!("{}/no", files.0)],
                1 => vec![files.0.clone()],
                2 => vec!["--output".into(), format!("{}/no/out", files.0), files.input()],
                3 => vec!["--output".into(), files.0.clone(), files.input()],
                4 => vec!["--output".into(), "/dev/full".into(), files.input()],
                _ => vec![files.input()],
            };
            let full = || std::fs::OpenOptions::new().write(true).open("/dev/full").map(Stdio::from);
            let done = command
                .args(&args)
                .env("RUST_BACKTRACE", "0")
                .stdin(Stdio::null())
                .stdout(if p[0] == 5 {
                    full().map_err(|e| format!("/dev/full: {e}"))?
                } else {
                    Stdio::piped()
                })
                .stderr(Stdio::piped())
                .output()
                .map_err(|e| format!("spawn: {e}"))?;
            ensure!(
                done.status.signal().is_none() && done.status.code() != Some(0) && !done.stderr.is_empty(),
                "{}: the exit status is {:?}, standard error is {:?}",
                CASES[p[0] as usize],
                done.status.code(),
                String::from_utf8_lossy(&done.stderr)
            );
            Ok(Out {
                extend: false,
                state: digest(p),
                runs: 1,
            })
        },
        move |p| format!("{} for document {}", CASES[p[0] as usize], p.get(1).unwrap_or(&0)),
    )
}

/// Documents with 128 characters each
fn characters(th: bool) -> Box<dyn Space> {
    let make = |p: &[u32]| -> String {
        let chars: Vec<char> = (p[0] * 128..(p[0] + 1) * 128)
            .filter_map(char::from_u32)
            .collect();
        let mut s = String::new();
        match p[1] {
            0 => {
                s.push_str("#r ");
                for c in &chars {
                    s += &format!("##e r##'{c}'## r##\"x{c}y\"## ");
                }
            }
            1 => {
                s.push_str("#r ");
                for c in chars.iter().filter(|c| !"\"\n".contains(**c)) {
                    s += &format!("##e k=\"{c}\" l=\"x{c}\" ");
                }
            }
            2 => {
                s.push_str("#r{ ");
                for c in chars.iter().filter(|c| **c != '\n') {
                    s += &format!(";{c}\n\n;x{c}y\n #e ");
                }
                s.push_str("#r}");
            }
            3 => {
                s.push_str("#r ");
                for c in chars.iter().filter(|c| model::name_start(**c)) {
                    s += &format!("##{c} {c}k=1 ##e k{c}=2 ");
                }
            }
            _ => {
                // an error after them, in their line
                s.push_str("#r 'first line'\n#e r##'");
                s.extend(chars.iter().filter(|c| **c != '\n'));
                s.push_str("'## !\n#c");
            }
        }
        s
    };
    product(
        "characters",
        if th {
            "all Unicode characters in text, values, comments, names and lines with an error, 128 in a document"
        } else {
            "the Unicode characters below 3000, from f800 to 11000 and from 10f000 in text, values, comments, names and lines with an error, 128 in a document"
        },
        vec![0x110000 / 128, 5],
        move |p| {
            let first = p[0] * 128;
            let quick = first < 0x3000 || (0xf800..0x11000).contains(&first) || first >= 0x10f000;
            if (0xd800..0xe000).contains(&first) || !(th || quick) {
                return Ok(Out {
                    extend: false,
                    state: 0,
                    runs: 0,
                });
            }
            let text = make(p);
            let m = model::read(&text, PLAIN);
            let how = How {
                from_file: p[0] % 2 == 0,
                to_file: p[0] % 4 > 1,
                ..How::default()
            };
            judge(&text, &how, "1.0", &m)?;
            Ok(Out {
                extend: false,
                state: m.state.max(1),
                runs: 1,
            })
        },
        move |p| format!("characters from {:x}, kind {}", p[0] * 128, p.get(1).unwrap_or(&0)),
    )
}

fn big(all: usize, max: usize) -> Box<dyn Space> {
    let fams = all_families();
    let list: Vec<(usize, usize)> = fams
        .iter()
        .enumerate()
        .flat_map(|(i, f)| {
            // the indentation makes the output of nested elements quadratic
            let nested = ["depth", "box", "deep", "inside each other"]
                .iter()
                .any(|n| f.name.contains(n));
            let max = if nested { max.min(513) } else { max };
            sizes(all, f.max.min(max))
                .into_iter()
                .map(move |n| (i, n))
        })
        .collect();
    let list2 = list.clone();
    product(
        "scale",
        &format!(
            "{} families of texts of size 0..{all} and around powers of two to {max}: {}",
            fams.len(),
            fams.iter().map(|f| f.name).collect::<Vec<_>>().join("; ")
        ),
        vec![list.len() as u32],
        move |p| {
            let (i, n) = list[p[0] as usize];
            let (state, runs) = every_way(&(all_families()[i].make)(n))?;
            Ok(Out {
                extend: false,
                state,
                runs,
            })
        },
        move |p| {
            let (i, n) = list2[p[0] as usize];
            format!("{} {n}", all_families()[i].name)
        },
    )
}

const BUILD: &[&str] = &[
    "#a ",
    "##\u{e9} ",
    "#b{ ",
    "#b} ",
    "k='<\"&' ",
    "\"<&]]>x\" ",
    "##' \n '## ",
    ";c <&-->\n",
    "\n",
    "!",
];
const LINES: &[&str] = &[
    "#a\n", "##a ", "#b{\n", "#b}", "p:k=1", "k=\n", " ", "\"x\n", "r#'\n", ";c\n", "\r\n",
];
const FULL: &[&str] = &[
    "#", "a", ":", "=", "\"", "'", ";", "\n", " ", "r", "{", "}", "\u{e9}", "1", "\\",
];

pub fn c13(th: bool) -> Vec<Box<dyn Space>> {
    let d = |a, b| if th { b } else { a };
    vec![
        versions(),
        file_names(),
        bytes(d(2, 3)),
        failures(),
        ends(),
        texts("constructs", "", BUILD, d(4, 5)),
        texts("lines", "", LINES, d(3, 4)),
        texts("full", "", FULL, 3),
        texts("full-inside", "#a ", FULL, d(3, 4)),
        characters(th),
        big(d(2, 20), d(257, 16385)),
    ]
}
