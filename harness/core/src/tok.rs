//! C08 tokenizer: an online trace checker. Tokens of the real tokenizer are checked one by one
//! against a reference automaton over characters.
use ass_core::tokenizer::{AssTokenizer, DelimiterType, TokenType};
use hcommon::{ensure, gen, mon, Cx, Property, Rng, R};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Doc,
    Header,
    Value,
    Over,
}

/// Reference position: line and column counted in characters; "\r\n" is one line break.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Pos {
    i: usize,
    line: usize,
    col: usize,
    cr: bool,
}

struct Model<'a> {
    s: &'a str,
    p: Pos,
    st: St,
}

impl<'a> Model<'a> {
    fn peek(&self) -> Option<char> {
        self.s[self.p.i..].chars().next()
    }
    fn adv(&mut self) {
        let c = self.peek().unwrap();
        self.p.i += c.len_utf8();
        match c {
            '\r' => {
                self.p.line += 1;
                self.p.col = 1;
            }
            '\n' => {
                if !self.p.cr {
                    self.p.line += 1;
                }
                self.p.col = 1;
            }
            _ => self.p.col += 1,
        }
        self.p.cr = c == '\r';
    }
    fn run(&mut self, f: impl Fn(char) -> bool) {
        while let Some(c) = self.peek() {
            if !f(c) {
                break;
            }
            self.adv();
        }
    }
    /// Next token: kind, byte range, start position.
    fn next(&mut self) -> Option<(TokenType, std::ops::Range<usize>, Pos)> {
        if self.st != St::Value {
            self.run(|c| c.is_whitespace() && c != '\n' && c != '\r');
        }
        let c = self.peek()?;
        let a = self.p;
        let kind = match (c, self.st) {
            ('[', _) => {
                self.st = St::Header;
                self.run(|c| c != ']');
                TokenType::SectionHeader
            }
            (']', St::Header) => {
                self.st = St::Doc;
                self.adv();
                TokenType::SectionClose
            }
            (':', St::Doc) => {
                self.st = St::Value;
                self.adv();
                TokenType::Colon
            }
            ('{', _) => {
                self.st = St::Over;
                self.adv();
                let mut d = 1;
                while let Some(c) = self.peek() {
                    match c {
                        '{' => d += 1,
                        '}' => d -= 1,
                        _ => {}
                    }
                    if d == 0 {
                        break;
                    }
                    self.adv();
                }
                TokenType::OverrideBlock
            }
            ('}', St::Over) => {
                self.st = St::Doc;
                self.adv();
                TokenType::OverrideClose
            }
            (',', _) => {
                self.adv();
                TokenType::Comma
            }
            ('\n' | '\r', _) => {
                self.st = St::Doc;
                self.adv();
                if c == '\r' && self.peek() == Some('\n') {
                    self.adv();
                }
                TokenType::Newline
            }
            (';', St::Doc) => {
                self.run(|c| c != '\n' && c != '\r');
                TokenType::Comment
            }
            ('!', St::Doc) if self.s[a.i + 1..].starts_with(':') => {
                self.run(|c| c != '\n' && c != '\r');
                TokenType::Comment
            }
            ('}' | ']', _) => {
                self.adv();
                TokenType::Text
            }
            (_, St::Value) => {
                self.run(|c| !matches!(c, ',' | '\n' | '\r' | '{' | '['));
                let t = &self.s[a.i..self.p.i];
                if t.chars().all(|c| c.is_ascii_digit() || ".-:".contains(c)) {
                    TokenType::Number
                } else if t.chars().all(char::is_whitespace) {
                    TokenType::Whitespace
                } else {
                    TokenType::Text
                }
            }
            _ => {
                let doc = self.st == St::Doc;
                self.run(|c| !(matches!(c, ',' | ':' | '{' | '}' | '[' | ']' | '\n' | '\r') || (c == ';' && doc)));
                let t = &self.s[a.i..self.p.i];
                if self.st == St::Header {
                    TokenType::SectionName
                } else if hexv(t) {
                    TokenType::HexValue
                } else if t.chars().all(|c| c.is_ascii_digit() || ".-".contains(c)) {
                    TokenType::Number
                } else {
                    TokenType::Text
                }
            }
        };
        Some((kind, a.i..self.p.i, a))
    }
}

fn hexv(t: &str) -> bool {
    let Some(t) = t.strip_prefix("&H") else { return false };
    let t = t.strip_suffix('&').unwrap_or(t);
    [2, 4, 6, 8].contains(&t.len()) && t.chars().all(|c| c.is_ascii_hexdigit())
}

fn text(r: &mut Rng) -> String {
    let mut s = match r.below(5) {
        0 => gen::soup(r, 40),
        1 => {
            // long runs before a delimiter: vectorised scans work on blocks of 16 bytes
            let mut s = String::new();
            for _ in 0..r.u(1, 6) {
                for _ in 0..r.below(40) {
                    s.push(*r.pick(&['a', 'b', 'é', '日', ' ', '0', '.', '-', '&', 'H', 'F', '\u{85}', '😀', '\t']));
                }
                s.push(*r.pick(&[':', ',', '{', '}', '[', ']', '\n', '\r', ';', '!', '\\', '\u{2028}']));
            }
            s
        }
        _ => gen::any_script(r),
    };
    if r.pct(15) {
        s.insert(0, '\u{FEFF}');
    }
    if r.pct(15) {
        s = s.replace('\n', *r.pick(&["\r\n", "\r", "\n\r", "\r\r\n"]));
    }
    s
}

fn trace(cx: &mut Cx) -> R {
    let s = text(&mut cx.rng);
    cx.set_input(s.clone());
    let mut t = AssTokenizer::new(&s);
    let first = pass(cx, &s, &mut t)?;
    ensure!(t.issues().is_empty(), "issues", "{:?}", t.issues());
    // reset at an arbitrary moment gives the same trace again
    let mut t2 = AssTokenizer::new(&s);
    for _ in 0..cx.rng.below(first.len() + 1) {
        let _ = t2.next_token();
    }
    t2.reset();
    let again = pass(cx, &s, &mut t2)?;
    ensure!(first == again, "reset", "{} tokens first, {} after reset", first.len(), again.len());
    cx.obs("resets", 1);
    if first.len() <= 50 {
        let all = AssTokenizer::new(&s).tokenize_all();
        match all {
            Ok(v) => ensure!(v.len() == first.len() && v.iter().zip(&first).all(|(a, b)| a.token_type == b.0 && a.span == &s[b.1..b.2]), "tokenize-all", "differs from the tokens delivered one at a time"),
            Err(e) => return hcommon::fail("tokenize-all", format!("{e} for {} tokens", first.len())),
        }
        cx.obs("whole_runs", 1);
    }
    Ok(())
}

type Tr = Vec<(TokenType, usize, usize)>;

fn pass(cx: &mut Cx, s: &str, t: &mut AssTokenizer) -> R<Tr> {
    let start = if s.starts_with('\u{FEFF}') { 3 } else { 0 };
    let mut m = Model { s, p: Pos { i: start, line: 1, col: 1, cr: false }, st: St::Doc };
    let mut out = vec![];
    let mut end = start;
    loop {
        let got = t.next_token();
        let got = match got {
            Ok(g) => g,
            Err(e) => return hcommon::fail("token-error", format!("next_token failed after {} tokens at byte {}: {e}", out.len(), t.position())),
        };
        let want = m.next();
        let (Some(g), Some((k, r, a))) = (&got, &want) else {
            ensure!(got.is_none() && want.is_none(), "token-count", "after {} tokens: tokenizer {got:?}, reference {want:?}", out.len());
            break;
        };
        let off = (g.span.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
        ensure!(off <= s.len() && s[off..].starts_with(g.span), "token-source", "token {g:?} is not a piece of the source");
        ensure!(off >= end && s[end..off].chars().all(char::is_whitespace), "token-gap", "token {} at bytes {off}..: characters {:?} before it belong to no token", out.len(), &s[end.min(off)..off]);
        ensure!(!g.span.is_empty(), "token-empty", "{g:?}");
        ensure!(g.token_type == *k && (off..off + g.span.len()) == *r, "token", "token {}: {:?} {:?} at {off}, reference {k:?} {:?} at {}", out.len(), g.token_type, g.span, &s[r.clone()], r.start);
        ensure!((g.line, g.column) == (a.line, a.col), "token-position", "token {} {:?} at line {} column {}, reference {} {}", out.len(), g.span, g.line, g.column, a.line, a.col);
        end = off + g.span.len();
        ensure!(t.position() == end && (t.line(), t.column()) == (m.p.line, m.p.col), "cursor", "cursor {}:{}:{} want {}:{}:{}", t.position(), t.line(), t.column(), end, m.p.line, m.p.col);
        ensure!(g.len() == g.span.chars().count() && g.end_column() == g.column + g.len(), "token-len", "{g:?}");
        ensure!(out.len() <= s.len(), "token-progress", "more tokens than bytes");
        out.push((g.token_type, off, end));
        cx.obs(g.token_type.name(), 1);
        cx.obs("tokens", 1);
    }
    ensure!(s[end..].chars().all(char::is_whitespace), "token-tail", "bytes {end}.. belong to no token");
    ensure!(matches!(t.next_token(), Ok(None)), "token-end", "a token after the end");
    cx.max("tokens_in_one_text", out.len() as u64);
    cx.state(&out.iter().map(|x| (x.0, x.2 - x.1)).collect::<Vec<_>>());
    Ok(out)
}

#[cfg(feature = "full")]
fn vector(cx: &mut Cx) -> R {
    use ass_core::tokenizer::simd;
    let s = if cx.rng.bool() { text(&mut cx.rng) } else { "x".repeat(cx.rng.below(40)) + &gen::soup(&mut cx.rng, 2) };
    cx.set_input(s.clone());
    let from = gen::boundary(&mut cx.rng, &s);
    let t = &s[from..];
    let want = t.bytes().position(|b| b":,{}[]\n\r".contains(&b));
    ensure!(simd::scan_delimiters(t) == want, "scan-delimiters", "{t:?}: {:?} want {want:?}", simd::scan_delimiters(t));
    let h: String = (0..cx.rng.below(11)).map(|_| *cx.rng.pick(&['0', '5', '9', 'a', 'f', 'A', 'F', 'E'])).collect();
    let h = if cx.rng.pct(20) { gen::mutate(&mut cx.rng, &h) } else { h };
    if !h.starts_with('+') {
        let want = if h.is_empty() || h.len() > 8 || !h.bytes().all(|b| b.is_ascii_hexdigit()) { None } else { u32::from_str_radix(&h, 16).ok() };
        ensure!(simd::parse_hex_u32(&h) == want, "hex", "{h:?}: {:?} want {want:?}", simd::parse_hex_u32(&h));
    }
    cx.obs("vector_scans", 1);
    cx.state(&t);
    Ok(())
}
#[cfg(not(feature = "full"))]
fn vector(cx: &mut Cx) -> R {
    cx.obs("vector_scans", 1);
    cx.mark_trivial();
    Ok(())
}

fn delims(cx: &mut Cx) -> R {
    use DelimiterType as D;
    let c = char::from_u32(cx.rng.below(0x250) as u32).unwrap_or('x');
    cx.set_input(format!("{c:?}"));
    let tab: [(D, &str); 9] = [
        (D::FieldSeparator, ":"), (D::ValueSeparator, ","), (D::SectionBoundary, "[]"), (D::OverrideBoundary, "{}"), (D::CommentMarker, ";"),
        (D::LineTerminator, "\n\r"), (D::DrawingSeparator, " \t"), (D::TimeSeparator, ":."), (D::ColorSeparator, "&H"),
    ];
    for (d, w) in tab {
        ensure!(d.matches(c) == w.contains(c), "delimiter", "{d:?} {c:?}");
    }
    cx.state(&c);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C08",
        rule: "a distinct case is a distinct sequence of (token kind, length) emitted by the tokenizer and checked token by token against the reference automaton",
        assumptions: &["tokenize_all is only judged on texts of at most 50 tokens: the existing tests fix an error beyond that."],
        monitors: vec![mon("trace", 600_000, 4_000_000, trace), mon("vector", 600_000, 4_000_000, vector), mon("delims", 2_000, 10_000, delims)],
        must_observe: &["tokens", "section header", "override block", "override close", "hex value", "number", "comment", "newline", "colon", "comma", "resets", "whole_runs", "vector_scans"],
    }]
}
