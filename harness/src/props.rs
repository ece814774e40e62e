//! Which spaces decide which property
use crate::engine::Space;
use crate::judges::{self, Judge};
use crate::spaces::*;
use crate::types::*;

/// every character that the grammar distinguishes, and some that it does not
const FULL: &[&str] = &[
    "#", "a", ":", "=", "\"", "'", ";", "\n", " ", "r", "{", "}", "\u{e9}", "1", "\\", "\u{300}",
];
/// characters of every width, and whitespace of every width
const WIDE: &[&str] = &[
    "#", "a", "=", "\"", ";", "\n", " ", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{a0}", "\u{2003}",
];
const STRINGS: &[&str] = &["\"", "'", "#", "r", "\n", "a", " ", "\u{e9}"];
const BREAKS: &[&str] = &["\"", "#", "\n", "\r", "\t", "\\", "x"];
const VALUES: &[&str] = &["k", "=", "\"", "'", " ", "\n", "\u{e9}", "#", ":"];
const COMMENTS: &[&str] = &[";", "\n", " ", "\t", "a", "\u{e9}", "\"", "\r"];
const TAGS: &[&str] = &["#", "a", "b", ":", "{", "}", " ", "\n"];
const NAMES: &[&str] = &["a", ":", "-", "1", "\u{b7}", "\u{e9}", "\u{d7}", " "];
const MORE_NAMES: &[&str] = &["a", "B", "_", ".", "-", "9", ":", "/", "\u{300}", "\u{10000}"];

/// whole constructs
const BUILD: &[&str] = &[
    "#a ", "##a ", "###a ", "#b ", "#a{ ", "##a{ ", "#b{ ", "#a} ", "##a} ", "#b} ", "k=1 ",
    "\"t\" ", ";c\n",
];
/// constructs that differ in how the elements nest
const NEST: &[&str] = &[
    "#a ", "##a ", "###a ", "#a{ ", "##a{ ", "###a{ ", "#a} ", "##a} ", "###a} ", "'t' ",
];
/// constructs over several lines and with wide characters
const LINES: &[&str] = &[
    "#\u{e9}\n", "##b ", "#b{\n", "#b} ", "k='\u{20ac}'\n", "#'\n\u{e9}\n'#", "\"\u{1f600}\"", ";\u{e9}\n", "  \n", "!",
];
/// constructs about namespaces
const SPACES: &[&str] = &[
    "#a ", "##a ", "#p:a ", "##p:a ", "#p:a{ ", "#p:a} ", "#q:b ", "xmlns:p=u ", "xmlns:p=v ",
    "xmlns=d ", "p:k=1 ", "k=1 ", "xmlns:q=u ",
];
/// and all of them in one tag
const DECLARE: &[&str] = &[
    "xmlns:p=u ", "xmlns:p=v ", "xmlns:q=u ", "xmlns=d ", "xmlns='' ", "p:k=1 ", "q:k=1 ", "k=1 ",
    "xml:k=1 ", "xmlns:xmlns=x ", "##p:b ", "##c ",
];

/// attributes that declare a namespace, and some that nearly do
const NEARLY: &[&str] = &[
    "xmlns=d ", "XMLNS=d ", "xmln=d ", "xmlnss=d ", "xmlns2=d ", "xml=d ", "p:xmlns=d ", "xmlns:p=u ",
    "XMLNS:p=u ", "xmln:p=u ", "xmlnss:p=u ", "xml:p=u ", "xml:xmlns=u ", "xmlns:P=u ", "xmlns:xml=u ",
    "xmlns:xmlns=u ", "xmlns:p='u ' ", "xmlns:p=' u' ", "xmlns:p=U ", "xmlns:p=u/ ", "xmlns:p=\"u\" ",
    "xmlns:p='' ", "xmlns:p=p ", "xmlns:q=p ", "xmlns=' ' ", "xmlns=xmlns ", "p:k=1 ", "P:k=1 ", "q:k=1 ",
    "k=p:v ", "p:p=u ", "xmlns:p=http://www.w3.org/XML/1998/namespace ",
    "xmlns:q=http://www.w3.org/2000/xmlns/ ", "xmlns=http://www.w3.org/XML/1998/namespace ", "##p:b ",
    "##P:b ", "##q:b ", "##b ", "##xml:b ", "##xmlns:b ", "##xmlns ", "#p:b ",
];
/// whole lines about comments
const COMMENT_LINES: &[&str] = &[
    ";\n", ";a\n", ";a \n", "; b\t\n", " ;\u{e9}\r\n", "\t;\u{20ac}\u{2003}\n", "\n", " \n", "'x'\n", "##b\n", ";c",
];
/// something of everything
const MIXED: &[&str] = &[
    "#a ", "##b ", "###c ", "#\u{e9}\n", "#p:a xmlns:p=u ", "##p:b ", "#a{ ", "##b{\n", "#p:a{ xmlns:p=v ",
    "#a} ", "##b}\n", "#p:a} ", "#b ", "#b} ", "k=1 ", "k='' ", "p:k='' ", "p:l=\"x y\" ", "xmlns='' ",
    "xmlns=d ", "xmlns:p=w ", "xmlns:q=u ", "q:k=2 ", "xml:k=\u{e9} ", "''", "'t' ", "r'\\n' ", "#'\n'#",
    "r##\"\"# \"##\n", ";\n", ";c\n;d\n", " ;\u{e9}\n", "\n\n", "\t", "\u{a0}", "!", "k= ", "k", "=1 ", ":",
    "#", "{", "\"", "r", "a",
];

/// places in which a name is
const NAME_PLACES: &[&str] = &[
    "#\u{0} 'x'",
    "#a\u{0} 'x'",
    "#a\u{0}b 'x'",
    "#a\u{0}\u{0}c{ 'x' #a\u{0}\u{0}c}",
    "#\u{0}{ #\u{0}}",
    "#a \u{0}=1",
    "#a k\u{0}=1",
    "#a k\u{0}l=1 m=2",
    "#a: xmlns:\u{0}=u",
    "#a xmlns:\u{0}=u xmlns:p=v",
    "#p\u{0}:a xmlns:p\u{0}=u",
    "#\u{0}:a xmlns:\u{0}=u",
    "#a xmlns:p=u p:\u{0}=1",
    "#a xmlns:p=u p:k\u{0}=1",
    "#p:\u{0} xmlns:p=u",
    "#p:a\u{0} xmlns:p=u",
    "#p:a{ xmlns:p=u #p:a\u{0}}",
];
/// places in which text is
const TEXT_PLACES: &[&str] = &[
    "#a \"\u{0}\"",
    "#a 'x\u{0}' 'y'",
    "#a #\"\u{0}x\"#",
    "#a r##'\u{0}'##",
    "#a r\"x\u{0}y\" #b",
    "#a k=\u{0} l=1",
    "#a k=x\u{0}y l=1",
    "#a k=\"\u{0}\" l=1",
    "#a k='x\u{0}'",
    "#a k=x\u{0} l=1",
    "#a #'x\u{0}'# 'y'",
];
const COMMENT_PLACES: &[&str] = &[
    "#a ;\u{0}\n'x'",
    "#a ;x\u{0}y\n;z\n'x'",
    "#a ;x\n\u{0};z\n'x'",
    "#a ;x\n \u{0} ;z\n'x'",
    "#a 'x'\u{0};z",
    ";\u{0}",
    "#a ;x\u{0}\n'x'",
];
/// every place
const PLACES: &[&str] = &[
    "\u{0}",
    "\u{0}#a",
    "#\u{0}",
    "##\u{0}a",
    "#a\u{0}",
    "#a{\u{0}",
    "#a{ #a}\u{0}",
    "#a \u{0}",
    "#a \u{0} 'x'",
    "#a k\u{0}",
    "#a k\u{0}=1",
    "#a k=\u{0}",
    "#a k= \u{0}",
    "#a k=\"\u{0}",
    "#a k='x'\u{0}",
    "#a \"\u{0}",
    "#a \"x\"\u{0}",
    "#a #\u{0}",
    "#a #'x'#\u{0}",
    "#a r\u{0}",
    "#a r#\u{0}",
    "#a ;\u{0}",
    "#a ;c\n\u{0}",
    "#a\u{0}\u{0}'x'\u{0}\u{0}#b",
];

/// those that are quick to read in every way
const FEW_PLACES: &[&str] = &[
    "\u{0}",
    "#\u{0}",
    "#a\u{0}",
    "#a \u{0} 'x'",
    "#a k=\u{0}",
    "#a ;c\n\u{0}",
    "#a \"\u{0}\"",
];
fn places(thorough: bool) -> &'static [&'static str] {
    if thorough {
        PLACES
    } else {
        FEW_PLACES
    }
}

/// names in pairs
const NAME_PAIRS: &[&str] = &[
    "#\u{1} \u{2}=1 'x'",
    "#\u{1}:\u{2} xmlns:\u{1}=u",
    "#a xmlns:\u{1}=u \u{1}:\u{2}=1",
    "#a{ xmlns:\u{1}=\u{2} #\u{1}:b #a}",
    "#\u{1}{ #\u{2} #\u{1}}",
    "#\u{1}{ #\u{2}}",
    "#a \u{1}=1 \u{2}=2",
    "#p:\u{1}{ xmlns:p=u #p:\u{2}}",
    "#\u{1}:a \u{2}:a=1",
    "#\u{1}",
    "#a xmlns:\u{1}=u xmlns:\u{2}=v ##\u{1}:\u{2} \u{2}:\u{1}=1",
    "#a 'x' \u{1}:\u{2}=1",
];
/// values in pairs
const VALUE_PAIRS: &[&str] = &[
    "#a k=\u{1} l=\u{2}",
    "#a k=\"\u{1}\" l='\u{2}'",
    "#a '\u{1}' \"\u{2}\"",
    "#a r\"\u{1}\"r'\u{2}'",
    "#a '\u{1}",
];
pub const URI_PAIRS: &[&str] = &[
    "#a xmlns:p=\u{1} xmlns:q=\u{2} p:k=1 q:k=2",
    "#p:a{ xmlns:p='\u{1}' ##p:b xmlns:p='\u{2}' ##p:c #p:a}",
    "#a xmlns=\u{1} ##b xmlns='\u{2}' ##c",
];
/// strings in pairs
const STRING_PAIRS: &[&str] = &[
    "#a #\"\u{1}\"# ##'\u{2}'##",
    "#a r#'\u{1}'#r##\"\u{2}\"##",
    "#a k='\u{1}' l=\"\u{2}\"",
    "#a\u{1}'x'\u{2}#b",
];
/// comments in pairs
const COMMENT_PAIRS: &[&str] = &[
    "#a ;\u{1}\n;\u{2}\n'x'",
    ";\u{1}\n\n;\u{2}",
    "#a k=1;\u{1}\n#b",
    "#a 'x'\u{1};y",
];

pub fn word_pairs(v: &mut Vec<Box<dyn Space>>, j: Judge) {
    v.push(words("words-as-names", NAME_PAIRS, &[NAME_WORDS], &[NAME_WORDS], XMLNS, j));
    v.push(words("words-as-values", VALUE_PAIRS, &[NAME_WORDS, VALUE_WORDS], &[NAME_WORDS, VALUE_WORDS], PLAIN, j));
    v.push(words("words-as-strings", STRING_PAIRS, &[VALUE_WORDS, STRING_WORDS], &[VALUE_WORDS, STRING_WORDS], PLAIN, j));
    v.push(words("words-in-comments", COMMENT_PAIRS, &[VALUE_WORDS, STRING_WORDS], &[VALUE_WORDS, STRING_WORDS], PLAIN, j));
}
fn changes(v: &mut Vec<Box<dyn Space>>, j: Judge, twice: usize) {
    v.push(changed("changed", 0, XMLNS, j));
    v.push(changed("changed-plain", 0, PLAIN, j));
    v.push(changed("changed-twice", twice, XMLNS, j));
}

fn t(thorough: bool, a: usize, b: usize) -> usize {
    if thorough {
        b
    } else {
        a
    }
}

/// The spaces that texts of all kinds are in
fn chars(v: &mut Vec<Box<dyn Space>>, j: Judge, depth: usize) {
    v.push(seqs("full", "", FULL, depth, PLAIN, j));
    v.push(seqs("full-inside", "#a ", FULL, depth, PLAIN, j));
    v.push(seqs("wide-inside", "#a ", WIDE, depth, PLAIN, j));
}
fn themes(v: &mut Vec<Box<dyn Space>>, j: Judge, th: bool) {
    v.push(seqs("strings", "#a ", STRINGS, t(th, 6, 8), PLAIN, j));
    v.push(seqs("values", "#a ", VALUES, t(th, 6, 7), PLAIN, j));
    v.push(seqs("comments", "#a ", COMMENTS, t(th, 6, 8), PLAIN, j));
    v.push(seqs("tags", "", TAGS, t(th, 8, 10), PLAIN, j));
}
fn constructs(v: &mut Vec<Box<dyn Space>>, j: Judge, depth: usize) {
    v.push(seqs("constructs", "", BUILD, depth, PLAIN, j));
    v.push(seqs("nesting", "", NEST, depth + 1, PLAIN, j));
}

pub fn mixed(v: &mut Vec<Box<dyn Space>>, j: Judge, depth: usize) {
    v.push(seqs("mixed", "", MIXED, depth, XMLNS, j));
    v.push(seqs("mixed-inside", "#a{ xmlns:p=u ", MIXED, depth, XMLNS, j));
}

pub fn spaces(prop: &str, th: bool) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = vec![];
    match prop {
        "C01" => {
            let j = judges::c01 as Judge;
            mixed(&mut v, j, t(th, 3, 4));
            chars(&mut v, j, t(th, 5, 6));
            themes(&mut v, j, th);
            constructs(&mut v, j, t(th, 5, 6));
            v.push(seqs("names-in-namespaces", "", SPACES, t(th, 4, 5), XMLNS, j));
            v.push(unicode("characters", if th { PLACES } else { &FEW_PLACES[2..] }, PLAIN, j));
            v.push(scale("scale", t(th, 64, 300), t(th, 65537, 65537), PLAIN, j));
            v.push(scale("scale-in-namespaces", t(th, 64, 300), 65537, XMLNS, j));
            changes(&mut v, j, t(th, 20, 30));
            v.push(after("after-long", th, XMLNS, j));
            word_pairs(&mut v, j);
            v.push(specials("specials", PLACES, t(th, 2, 3), PLAIN, j));
        }
        "C02" => {
            let j = judges::c02 as Judge;
            mixed(&mut v, j, 4);
            chars(&mut v, j, t(th, 6, 7));
            constructs(&mut v, j, t(th, 6, 7));
            v.push(seqs("namespaces", "", SPACES, 6, XMLNS, j));
            for version in [0, 1, 99, 101, 110, 200, usize::MAX] {
                let opts = Opts {
                    xmlns: false,
                    version,
                };
                v.push(seqs(&format!("version-{version}"), "", BUILD, t(th, 3, 4), opts, j));
            }
            v.push(crate::xml::event_fields());
            v.push(cut("cut", th, PLAIN, j));
            v.push(scale("scale", t(th, 64, 300), t(th, 65537, 65537), PLAIN, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, PLAIN, j));
        }
        "C03" => v = crate::tree::c03(th),
        "C04" => {
            let j = judges::c04 as Judge;
            mixed(&mut v, j, 4);
            constructs(&mut v, j, t(th, 6, 7));
            v.push(seqs("tags", "", TAGS, t(th, 9, 11), PLAIN, j));
            v.push(seqs("namespaces", "", SPACES, t(th, 6, 7), XMLNS, j));
            v.push(cut("cut", th, PLAIN, j));
            v.push(scale("scale", t(th, 64, 300), 65537, PLAIN, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, XMLNS, j));
            v.push(words("words-as-names", NAME_PAIRS, &[NAME_WORDS], &[NAME_WORDS], XMLNS, j));
        }
        "C05" => {
            let j = judges::c05 as Judge;
            mixed(&mut v, j, 4);
            v.push(seqs("strings", "#a ", STRINGS, t(th, 8, 9), PLAIN, j));
            v.push(seqs("values", "#a ", VALUES, t(th, 7, 8), PLAIN, j));
            v.push(seqs("full-inside", "#a ", FULL, t(th, 6, 7), PLAIN, j));
            v.push(seqs("wide-inside", "#a ", WIDE, t(th, 6, 7), PLAIN, j));
            v.push(unicode("characters", TEXT_PLACES, PLAIN, j));
            v.push(cut("cut", th, PLAIN, j));
            v.push(scale("scale", t(th, 64, 300), 65537, PLAIN, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, PLAIN, j));
            v.push(seqs("breaks", "#a ", BREAKS, t(th, 8, 9), PLAIN, j));
            v.push(words("words-as-values", VALUE_PAIRS, &[NAME_WORDS, VALUE_WORDS], &[NAME_WORDS, VALUE_WORDS], PLAIN, j));
            v.push(words("words-as-strings", STRING_PAIRS, &[VALUE_WORDS, STRING_WORDS], &[VALUE_WORDS, STRING_WORDS], PLAIN, j));
            v.push(specials("specials", TEXT_PLACES, 3, PLAIN, j));
        }
        "C06" => {
            let j = judges::c06 as Judge;
            mixed(&mut v, j, 4);
            v.push(seqs("comments", "", COMMENTS, t(th, 7, 9), PLAIN, j));
            v.push(seqs("comments-inside", "#a ", COMMENTS, t(th, 7, 9), PLAIN, j));
            v.push(seqs("comment-lines", "#a ", COMMENT_LINES, t(th, 5, 6), PLAIN, j));
            v.push(seqs("constructs", "", BUILD, t(th, 5, 7), PLAIN, j));
            v.push(unicode("characters", COMMENT_PLACES, PLAIN, j));
            v.push(cut("cut", th, PLAIN, j));
            v.push(scale("scale", t(th, 64, 300), 65537, PLAIN, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, PLAIN, j));
            v.push(words("words-in-comments", COMMENT_PAIRS, &[VALUE_WORDS, STRING_WORDS], &[VALUE_WORDS, STRING_WORDS], PLAIN, j));
            v.push(specials("specials", COMMENT_PLACES, 3, PLAIN, j));
        }
        "C07" => {
            let j = judges::c07 as Judge;
            v.push(unicode("characters-plain", &NAME_PLACES[..8], PLAIN, j));
            if th {
                v.push(unicode("characters", NAME_PLACES, XMLNS, j));
            } else {
                v.push(unicode("characters", &NAME_PLACES[8..], XMLNS, j));
            }
            v.push(seqs("tag-names", "#", NAMES, t(th, 7, 8), PLAIN, j));
            v.push(seqs("attribute-names", "#a xmlns:a=1 ", &[NAMES, &["=1 "]].concat(), t(th, 6, 8), XMLNS, j));
            v.push(scale("scale", t(th, 64, 300), 65537, XMLNS, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(seqs("more-tag-names", "#", MORE_NAMES, t(th, 6, 7), PLAIN, j));
            v.push(seqs("more-attribute-names", "#a xmlns:a=1 ", &[MORE_NAMES, &["=1 "]].concat(), t(th, 6, 7), XMLNS, j));
            v.push(words("words-as-names", NAME_PAIRS, &[NAME_WORDS], &[NAME_WORDS], XMLNS, j));
            v.push(specials("specials", NAME_PLACES, 3, XMLNS, j));
        }
        "C08" => {
            let j = judges::c08 as Judge;
            mixed(&mut v, j, 4);
            chars(&mut v, j, t(th, 6, 7));
            themes(&mut v, j, th);
            constructs(&mut v, j, t(th, 5, 7));
            v.push(seqs("lines", "", LINES, t(th, 5, 7), PLAIN, j));
            v.push(seqs("namespaces", "", SPACES, t(th, 4, 5), XMLNS, j));
            v.push(unicode("characters", PLACES, PLAIN, j));
            v.push(cut("cut", th, PLAIN, j));
            v.push(scale("scale", t(th, 64, 300), t(th, 4097, 65537), PLAIN, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, XMLNS, j));
            v.push(specials("specials", PLACES, 3, PLAIN, j));
        }
        "C09" => {
            let j = judges::c09 as Judge;
            mixed(&mut v, j, 4);
            v.push(seqs("namespaces", "", SPACES, t(th, 6, 7), XMLNS, j));
            v.push(seqs("nearly", "#a ", NEARLY, 4, XMLNS, j));
            v.push(seqs("nearly-plain", "#a ", NEARLY, t(th, 3, 4), PLAIN, j));
            v.push(seqs("declarations", "#p:a ", DECLARE, t(th, 6, 7), XMLNS, j));
            v.push(seqs("declarations-plain", "#a ", DECLARE, t(th, 5, 6), PLAIN, j));
            v.push(seqs("namespaces-plain", "", SPACES, t(th, 5, 6), PLAIN, j));
            v.push(cut("cut", th, XMLNS, j));
            v.push(scale("scale", t(th, 64, 300), 4097, XMLNS, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, XMLNS, j));
            v.push(words("words-as-names", NAME_PAIRS, &[NAME_WORDS], &[NAME_WORDS], XMLNS, j));
            v.push(words("words-as-uris", URI_PAIRS, &[NAME_WORDS, VALUE_WORDS], &[NAME_WORDS, VALUE_WORDS], XMLNS, j));
        }
        "C10" => v = crate::names::c10(th),
        "C11" => v = crate::names::c11(th),
        "C12" => v = crate::xml::c12(th),
        "C13" => v = crate::conv::c13(th),
        "C14" => v = crate::esc::c14(th),
        "C15" => v = crate::esc::c15(th),
        "C16" => v = crate::esc::c16(th),
        "C18" => v = crate::hist::c18(th),
        "C19" => v = crate::names::c19(th),
        "C17" => {
            let j = judges::c17 as Judge;
            mixed(&mut v, j, t(th, 3, 4));
            chars(&mut v, j, t(th, 5, 6));
            themes(&mut v, j, th);
            v.push(seqs("lines", "", LINES, t(th, 4, 5), PLAIN, j));
            v.push(unicode("characters", if th { &PLACES[8..] } else { &FEW_PLACES[2..5] }, PLAIN, j));
            v.push(scale("scale", t(th, 64, 300), t(th, 1025, 8193), PLAIN, j));
            changes(&mut v, j, t(th, 20, 30));
            v.push(after("after-long", th, PLAIN, j));
            v.push(specials("specials", PLACES, t(th, 2, 3), PLAIN, j));
        }
        "C20" => {
            let j = judges::c20 as Judge;
            mixed(&mut v, j, 4);
            chars(&mut v, j, t(th, 6, 7));
            themes(&mut v, j, th);
            v.push(unicode("characters", PLACES, PLAIN, j));
            v.push(cut("cut", th, PLAIN, j));
            v.push(scale("scale", t(th, 64, 300), t(th, 4097, 65537), PLAIN, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, XMLNS, j));
            word_pairs(&mut v, j);
            v.push(specials("specials", PLACES, 3, PLAIN, j));
        }
        "C21" => {
            let j = judges::c21 as Judge;
            mixed(&mut v, j, 4);
            chars(&mut v, j, t(th, 6, 7));
            constructs(&mut v, j, t(th, 5, 7));
            v.push(seqs("namespaces", "", SPACES, t(th, 5, 6), XMLNS, j));
            v.push(unicode("characters", places(th), PLAIN, j));
            v.push(cut("cut", th, XMLNS, j));
            v.push(scale("scale", t(th, 64, 300), t(th, 4097, 65537), PLAIN, j));
            v = crate::err::c21(th, v);
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, XMLNS, j));
            word_pairs(&mut v, j);
        }
        "C22" => {
            let j = judges::c22 as Judge;
            mixed(&mut v, j, 4);
            chars(&mut v, j, t(th, 6, 7));
            themes(&mut v, j, th);
            constructs(&mut v, j, t(th, 5, 7));
            v.push(cut("cut", th, XMLNS, j));
            v.push(scale("scale", t(th, 64, 300), 65537, PLAIN, j));
            v.push(scale("scale-in-namespaces", t(th, 64, 300), 65537, XMLNS, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, XMLNS, j));
        }
        "model" => {
            let j = judges::all as Judge;
            mixed(&mut v, j, 4);
            chars(&mut v, j, t(th, 6, 7));
            themes(&mut v, j, th);
            constructs(&mut v, j, t(th, 5, 7));
            v.push(unicode("characters", PLACES, PLAIN, j));
            v.push(cut("cut", th, PLAIN, j));
            v.push(scale("scale", t(th, 64, 300), t(th, 4097, 65537), XMLNS, j));
            changes(&mut v, j, t(th, 20, 50));
            v.push(after("after-long", th, XMLNS, j));
            word_pairs(&mut v, j);
            v.push(specials("specials", PLACES, 2, PLAIN, j));
        }
        _ => (),
    }
    v
}
