//! What a reading looks like, for the implementation and the model alike
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct Pos {
    pub byte: usize,
    pub line: usize,
    pub col: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Sp {
    pub s: Pos,
    pub e: Pos,
}

impl Sp {
    pub fn at(p: Pos) -> Self {
        Sp { s: p, e: p }
    }
    pub fn new(s: Pos, e: Pos) -> Self {
        Sp { s, e }
    }
    /// Without lines and columns
    pub fn bytes(&self) -> (usize, usize) {
        (self.s.byte, self.e.byte)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct QName {
    pub prefix: String,
    pub uri: String,
    pub name: String,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    StartDoc(usize),
    EndDoc,
    Start(QName, Vec<(QName, String)>),
    End(QName),
    Content(Kind, String),
    Comment(String, Vec<usize>),
    Pi(String, Option<String>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Raw,
    Int,
    Ws,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Fault {
    // of the structure
    Indent(usize),
    Attr(String),
    CloseTag,
    Content,
    /// end of the text; in an attribute or in a box
    Eof,
    // of the tokens
    TagName,
    TagSpace,
    Char(char),
    Equals(char),
    Newline,
    // of the names
    Unmapped(String),
    EmptyName,
    BadName(String),
    // others
    Beyond,
    Io,
    Other(String),
}

impl Fault {
    pub fn is_structural(&self) -> bool {
        use Fault::*;
        matches!(self, Indent(_) | Attr(_) | CloseTag | Content)
    }
    pub fn is_lexical(&self) -> bool {
        use Fault::*;
        matches!(self, TagName | TagSpace | Char(_) | Equals(_) | Newline)
    }
    pub fn is_name(&self) -> bool {
        use Fault::*;
        matches!(self, Unmapped(_) | EmptyName | BadName(_))
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Obs {
    pub sp: Option<Sp>,
    pub what: Result<Ev, Fault>,
}

/// The observations up to and including the first error or the end of the document
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Trace {
    pub obs: Vec<Obs>,
    /// further observations after the end or the first error
    pub after: Vec<Obs>,
    /// too many events for the length of the text
    pub overrun: bool,
}

impl Trace {
    pub fn fault(&self) -> Option<(&Fault, &Option<Sp>)> {
        match self.obs.last() {
            Some(Obs { what: Err(f), sp }) => Some((f, sp)),
            _ => None,
        }
    }
    pub fn ok(&self) -> bool {
        matches!(
            self.obs.last(),
            Some(Obs {
                what: Ok(Ev::EndDoc),
                ..
            })
        )
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for o in &self.obs {
            let _ = writeln!(s, "    {}", show_obs(o));
        }
        for o in &self.after {
            let _ = writeln!(s, "    after: {}", show_obs(o));
        }
        if self.overrun {
            let _ = writeln!(s, "    ... and too many more");
        }
        s
    }
}

pub fn show_obs(o: &Obs) -> String {
    let sp = match &o.sp {
        None => "-".to_string(),
        Some(sp) => format!(
            "{}..{} ({}:{}-{}:{})",
            sp.s.byte, sp.e.byte, sp.s.line, sp.s.col, sp.e.line, sp.e.col
        ),
    };
    match &o.what {
        Ok(e) => format!("{sp} {e:?}"),
        Err(e) => format!("{sp} error {e:?}"),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Opts {
    pub xmlns: bool,
    pub version: usize,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            xmlns: false,
            version: 100,
        }
    }
}
pub const PLAIN: Opts = Opts {
    xmlns: false,
    version: 100,
};
pub const XMLNS: Opts = Opts {
    xmlns: true,
    version: 100,
};
