//! A character stream that checks what is asked of it
//!
//! It has the required methods of the interface only, so that everything else
//! goes through the provided methods. A request that a stream need not support
//! (outside of the text, inside a character) is recorded and answered safely.
use lexer_rs::{
    BoxDynLexerParseFn, CharStream, Lexer, LexerError, LexerParseResult, ParserIterator,
    PosnInCharStream, StreamCharSpan, UserPosn,
};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

#[derive(Debug)]
pub struct Checked<'a, P, T, E> {
    text: &'a str,
    pub saw_end: Cell<bool>,
    pub requests: Cell<u64>,
    pub bad: RefCell<Option<String>>,
    _p: PhantomData<(P, T, E)>,
}

impl<'a, P, T, E> Checked<'a, P, T, E>
where
    P: PosnInCharStream,
{
    pub fn new(text: &'a str) -> Self {
        Checked {
            text,
            saw_end: Cell::new(false),
            requests: Cell::new(0),
            bad: RefCell::new(None),
            _p: PhantomData,
        }
    }
    fn fail(&self, what: &str, a: usize, b: usize) {
        let mut bad = self.bad.borrow_mut();
        if bad.is_none() {
            *bad = Some(format!(
                "{what} {a}..{b} of a text of {} bytes",
                self.text.len()
            ));
        }
    }
    fn slice(&self, what: &str, a: usize, b: usize) -> &str {
        self.requests.set(self.requests.get() + 1);
        match self.text.get(a..b) {
            Some(s) => s,
            None => {
                self.fail(what, a, b);
                ""
            }
        }
    }
    fn rest(&self, what: &str, a: usize) -> &str {
        if a >= self.text.len() {
            self.saw_end.set(true);
        }
        self.slice(what, a, self.text.len())
    }
}

impl<'a, P, T, E> Lexer for Checked<'a, P, T, E>
where
    P: PosnInCharStream,
    T: std::fmt::Debug + Clone,
    E: LexerError<P>,
{
    type Token = T;
    type Error = E;
    type State = P;
    fn parse<'iter>(
        &'iter self,
        state: P,
        parsers: &[BoxDynLexerParseFn<'iter, Self>],
    ) -> LexerParseResult<P, T, E> {
        let Some(ch) = self.peek_at(&state) else {
            return Ok(None);
        };
        for p in parsers {
            if let Some(r) = p(self, state, ch)? {
                return Ok(Some(r));
            }
        }
        Err(E::failed_to_parse(state, ch))
    }
    fn iter<'iter>(
        &'iter self,
        parsers: &'iter [BoxDynLexerParseFn<'iter, Self>],
    ) -> Box<dyn Iterator<Item = Result<T, E>> + 'iter> {
        Box::new(ParserIterator::new(self, P::default(), parsers))
    }
}

impl<'a, P, T, E> CharStream<P> for Checked<'a, P, T, E>
where
    P: PosnInCharStream,
{
    fn range_as_bytes(&self, ofs: usize, n: usize) -> &[u8] {
        self.requests.set(self.requests.get() + 1);
        if ofs + n >= self.text.len() {
            self.saw_end.set(true);
        }
        match self.text.as_bytes().get(ofs..ofs + n) {
            Some(b) => b,
            None => {
                self.fail("bytes", ofs, ofs + n);
                b""
            }
        }
    }
    fn matches_bytes(&self, state: &P, s: &[u8]) -> bool {
        let rest = self.rest("match at", state.byte_ofs()).as_bytes();
        if rest.len() < s.len() {
            self.saw_end.set(true);
        }
        rest.starts_with(s)
    }
    fn get_text_span(&self, span: &StreamCharSpan<P>) -> &str {
        self.slice("text", span.start().byte_ofs(), span.end().byte_ofs())
    }
    fn get_text(&self, start: P, end: P) -> &str {
        self.slice("text", start.byte_ofs(), end.byte_ofs())
    }
    fn matches_str(&self, pos: &P, pat: &str) -> bool {
        self.matches_bytes(pos, pat.as_bytes())
    }
    fn peek_at(&self, state: &P) -> Option<char> {
        self.rest("peek at", state.byte_ofs()).chars().next()
    }
    fn consumed(&self, mut state: P, num_chars: usize) -> P {
        self.requests.set(self.requests.get() + num_chars as u64);
        let mut it = self.rest("consumed at", state.byte_ofs()).chars();
        for _ in 0..num_chars {
            match it.next() {
                Some(ch) => state = state.move_by_char(ch),
                None => {
                    self.saw_end.set(true);
                    break;
                }
            }
        }
        state
    }
}

/// A position type that has nothing in common with those of the library
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub struct OddPos {
    neg: i64,
    lines: u32,
    cols: u32,
}
impl Default for OddPos {
    fn default() -> Self {
        OddPos {
            neg: -1,
            lines: 1000,
            cols: 500,
        }
    }
}
impl UserPosn for OddPos {
    fn advance_cols(mut self, num_bytes: usize, num_chars: usize) -> Self {
        self.neg -= num_bytes as i64;
        self.cols += num_chars as u32;
        self
    }
    fn advance_line(mut self, num_bytes: usize) -> Self {
        self.neg -= num_bytes as i64;
        self.lines += 1;
        self.cols = 500;
        self
    }
    fn line(&self) -> usize {
        (self.lines - 999) as usize
    }
    fn column(&self) -> usize {
        (self.cols - 499) as usize
    }
}
impl PosnInCharStream for OddPos {
    fn byte_ofs(&self) -> usize {
        (-1 - self.neg) as usize
    }
}
