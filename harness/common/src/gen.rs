//! Workload generators: well-formed scripts with their expected content, and hostile text.
use crate::rng::Rng;

pub const STYLE_COLS: [&str; 23] = [
    "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold",
    "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow",
    "Alignment", "MarginL", "MarginR", "MarginV", "Encoding",
];
pub const EVENT_COLS: [&str; 10] =
    ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"];
pub const EVENT_TYPES: [&str; 6] = ["Dialogue", "Comment", "Picture", "Sound", "Movie", "Command"];

/// The column that holds a field: `TertiaryColour` is the outline colour, `Actor` the name.
pub fn column(cols: &[String], c: &str) -> Option<usize> {
    let at = |n: &str| cols.iter().position(|x| x.eq_ignore_ascii_case(n));
    at(c).or_else(|| match c.to_ascii_lowercase().as_str() {
        "outlinecolour" => at("TertiaryColour"),
        "name" => at("Actor"),
        _ => None,
    })
}
pub fn time_str(cs: u32) -> String {
    format!("{}:{:02}:{:02}.{:02}", cs / 360_000, cs / 6000 % 60, cs / 100 % 60, cs % 100)
}

const WORDS: &[&str] = &[
    "hello", "World", "foo", "a", "the", "café", "naïve", "日本語", "Привет", "😀", "e\u{301}", "x", "The end.", "1,2,3",
    "don't", "(brackets)", "semi;colon", "key: value", "#hash", "ﬁ", "İ", "ß", "tab\there", "100%", "-", "q=?",
];
const TAGS: &[&str] = &[
    "{\\b1}", "{\\i1}", "{\\i0}", "{\\pos(10,20)}", "{\\fad(100,200)}", "{\\c&H00FF00&}", "{\\1a&H80&}", "{\\fs40}",
    "{\\k50}", "{\\kf20}", "{\\t(0,100,\\fs20)}", "{\\an8}", "{\\r}", "{\\rAlt}", "{\\fnArial}", "{comment}", "{}",
    "{\\b1\\i1}", "{\\move(0,0,10,10)}", "{\\clip(0,0,10,10)}", "{\\bord2\\shad1}", "{\\q2}", "{\\frz30}", "{\\blur2}",
];
const ESC: &[&str] = &["\\N", "\\n", "\\h", ", ", ",", " ", "  "];

/// Event text without leading or trailing whitespace.
pub fn event_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(8) {
        match r.below(5) {
            0 => s.push_str(*r.pick(TAGS)),
            1 => s.push_str(*r.pick(ESC)),
            _ => s.push_str(*r.pick(WORDS)),
        }
        if r.pct(40) {
            s.push(' ');
        }
    }
    s.trim().to_string()
}

pub fn word(r: &mut Rng) -> String {
    (*r.pick(&["Alpha", "Beta", "Default", "Sign", "Top Line", "Ünï", "日本", "x1", "Note-2", "A.B", "OP_Romaji", "z"]))
        .to_string()
}

/// A value that survives in a comma separated column.
pub fn col_value(r: &mut Rng, col: &str) -> String {
    let c = col.to_ascii_lowercase();
    match c.as_str() {
        "start" | "end" => time_str(r.below(4_000_000) as u32),
        "layer" => format!("{}", r.range(-2, 30)),
        "marginl" | "marginr" | "marginv" | "margint" | "marginb" => {
            if r.pct(10) { String::new() } else { format!("{}", r.below(300)) }
        }
        "effect" => (*r.pick(&["", "", "Banner;10;0", "Scroll up;0;100;5", "karaoke", "fx"])).to_string(),
        "name" | "style" => word(r),
        "fontname" => (*r.pick(&["Arial", "DejaVu Sans", "ＭＳ ゴシック", "@Meiryo", "Times New Roman", ""])).to_string(),
        "fontsize" => (*r.pick(&["20", "48", "12.5", "0", "abc", "100"])).to_string(),
        x if x.ends_with("colour") => format!("&H{:08X}", r.u64() as u32),
        "bold" | "italic" | "underline" | "strikeout" => (*r.pick(&["0", "-1", "1"])).to_string(),
        "scalex" | "scaley" => (*r.pick(&["100", "50", "33.3", "200"])).to_string(),
        "spacing" | "angle" => (*r.pick(&["0", "1.5", "-3", "45"])).to_string(),
        "borderstyle" => (*r.pick(&["1", "3", "4"])).to_string(),
        "outline" | "shadow" => (*r.pick(&["0", "1", "2.5", "3"])).to_string(),
        "alignment" => format!("{}", r.u(1, 9)),
        "encoding" => (*r.pick(&["0", "1", "128"])).to_string(),
        "relativeto" => (*r.pick(&["0", "1", "2"])).to_string(),
        _ => (*r.pick(&["zz", "", "17", "custom value"])).to_string(),
    }
}

#[derive(Clone, Debug, Default)]
pub struct ExpItem {
    /// "Dialogue", "Style", ...
    pub kind: String,
    /// canonical column name -> value; unknown columns too
    pub cols: Vec<(String, String)>,
    pub parent: Option<String>,
    pub line: u32,
    pub start: usize,
    pub end: usize,
    pub column: u32,
    /// embedded data lines (Fonts, Graphics)
    pub data: Vec<String>,
}
impl ExpItem {
    pub fn get(&self, c: &str) -> Option<&str> {
        self.cols.iter().find(|(k, _)| k.eq_ignore_ascii_case(c)).map(|(_, v)| v.as_str())
    }
}
#[derive(Clone, Debug)]
pub enum ExpSection {
    Info(Vec<(String, String)>),
    Styles(Vec<ExpItem>),
    Events(Vec<ExpItem>),
    Fonts(Vec<ExpItem>),
    Graphics(Vec<ExpItem>),
}
#[derive(Clone, Debug, Default)]
pub struct ExpScript {
    pub text: String,
    pub sections: Vec<ExpSection>,
    /// Canonical version: "v4", "v4+", "v4++"
    pub version: Option<String>,
    pub dropped_lines: Vec<u32>,
    pub unknown_sections: usize,
    pub styles_format: Option<Vec<String>>,
    pub events_format: Option<Vec<String>>,
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub crlf: bool,
    pub bom: bool,
    pub blank_lines: bool,
    pub comments: bool,
    pub indent: bool,
    pub pad: bool,
    pub permute: bool,
    pub unknown_cols: bool,
    pub odd_case: bool,
    pub bad_lines: bool,
    pub unknown_sections: bool,
    pub repeat_sections: bool,
    pub media: bool,
    pub parents: bool,
    pub missing_format: bool,
    pub final_newline: bool,
    pub v4pp: bool,
    /// the text column of events may stand anywhere
    pub text_anywhere: bool,
    pub max_items: usize,
}
impl Opts {
    pub fn random(r: &mut Rng) -> Self {
        Opts {
            crlf: r.pct(25), bom: r.pct(10), blank_lines: r.pct(60), comments: r.pct(50), indent: r.pct(20),
            pad: r.pct(30), permute: r.pct(35), unknown_cols: r.pct(15), odd_case: r.pct(15), bad_lines: r.pct(25),
            unknown_sections: r.pct(20), repeat_sections: r.pct(15), media: r.pct(30), parents: r.pct(15),
            missing_format: r.pct(15), final_newline: r.pct(85), v4pp: r.pct(20), text_anywhere: r.pct(15), max_items: 8,
        }
    }
    pub fn plain() -> Self {
        Opts {
            crlf: false, bom: false, blank_lines: false, comments: false, indent: false, pad: false, permute: false,
            unknown_cols: false, odd_case: false, bad_lines: false, unknown_sections: false, repeat_sections: false,
            media: false, parents: false, missing_format: false, final_newline: true, v4pp: false, text_anywhere: false, max_items: 8,
        }
    }
}

struct W<'r> {
    r: &'r mut Rng,
    o: Opts,
    s: String,
    line: u32,
}
impl W<'_> {
    fn nl(&mut self) {
        self.s.push_str(if self.o.crlf { "\r\n" } else { "\n" });
        self.line += 1;
    }
    fn indent(&mut self) -> u32 {
        if self.o.indent && self.r.pct(30) {
            let i = *self.r.pick(&["  ", "\t", " \t ", " "]);
            self.s.push_str(i);
            i.len() as u32
        } else {
            0
        }
    }
    fn filler(&mut self, hash_ok: bool) {
        while self.o.blank_lines && self.r.pct(15) {
            if self.r.pct(20) {
                self.s.push_str("   ");
            }
            self.nl();
        }
        if self.o.comments && self.r.pct(15) {
            let c = *self.r.pick(&["; a comment: with colon", ";", "; [Not A Section]", "; Dialogue: 0,x", "# hash comment"]);
            if hash_ok || !c.starts_with('#') {
                self.s.push_str(c);
                self.nl();
            }
        }
    }
    fn pad(&mut self) -> &'static str {
        if self.o.pad { *self.r.pick(&["", " ", "  ", "\t"]) } else { "" }
    }
    fn header(&mut self, name: &str) {
        self.filler(false);
        self.s.push('[');
        let p = if self.o.pad { self.pad() } else { "" };
        self.s.push_str(p);
        self.s.push_str(name);
        self.s.push_str(p);
        self.s.push(']');
        self.nl();
    }
    fn case(&mut self, s: &str) -> String {
        if self.o.odd_case {
            match self.r.below(3) {
                0 => s.to_ascii_lowercase(),
                1 => s.to_ascii_uppercase(),
                _ => s.to_string(),
            }
        } else {
            s.to_string()
        }
    }
    fn line_item(&mut self, text: &str) -> (u32, usize, usize, u32) {
        let col = self.indent() + 1;
        let start = self.s.len();
        let line = self.line;
        self.s.push_str(text);
        // the element reaches to the end of its physical line
        if self.o.crlf {
            self.s.push('\r');
        }
        let end = self.s.len();
        if self.o.crlf {
            self.s.pop();
        }
        self.nl();
        (line, start, end, col)
    }
}

fn columns(w: &mut W, base: &[&str], text_last: bool, extra: &[&str]) -> Vec<String> {
    let mut cols: Vec<String> = base.iter().map(|s| (*s).to_string()).collect();
    for e in extra {
        if w.r.pct(25) {
            cols.push((*e).to_string());
        }
    }
    if w.o.unknown_cols {
        cols.push("Xtra".to_string());
    }
    if w.o.permute {
        // drop a few, permute
        let n = w.r.below(4);
        for _ in 0..n {
            let i = w.r.below(cols.len());
            let c = cols[i].clone();
            if c != "Name" && c != "Text" && c != "Start" && c != "End" && c != "Style" {
                cols.remove(i);
            }
        }
        w.r.shuffle(&mut cols);
    }
    if text_last {
        cols.retain(|c| c != "Text");
        let at = if w.o.text_anywhere { w.r.below(cols.len() + 1) } else { cols.len() };
        cols.insert(at, "Text".to_string());
    }
    cols
}

/// Generate a well-formed script together with the content it denotes.
pub fn script(r: &mut Rng, o: Opts) -> ExpScript {
    let mut exp = ExpScript::default();
    let mut w = W { r, o, s: String::new(), line: 1 };
    if o.bom {
        w.s.push('\u{FEFF}');
    }
    let mut plan: Vec<u8> = vec![0, 1, 2];
    if o.media {
        plan.push(3);
        plan.push(4);
    }
    if o.unknown_sections {
        plan.push(5);
    }
    if o.repeat_sections {
        let x = *w.r.pick(&[0u8, 1, 2]);
        plan.push(x);
    }
    if w.r.pct(20) {
        let mut rest = plan.split_off(1);
        w.r.shuffle(&mut rest);
        plan.extend(rest);
    }
    if w.r.pct(10) {
        let i = w.r.below(plan.len());
        plan.remove(i);
    }
    let mut prev_format: [Option<Vec<String>>; 2] = [None, None];
    for k in plan {
        match k {
            0 => {
                w.header("Script Info");
                let mut f = vec![];
                let n = w.r.below(6);
                let mut lines: Vec<(String, String)> = vec![];
                if w.r.pct(80) {
                    let v = if o.v4pp { "v4.00++" } else { *w.r.pick(&["v4.00+", "v4.00+", "v4.00"]) };
                    lines.push(("ScriptType".into(), v.into()));
                }
                for _ in 0..n {
                    let k = *w.r.pick(&["Title", "PlayResX", "PlayResY", "WrapStyle", "Original Script", "YCbCr Matrix", "Clé", "Timer", "LayoutResX"]);
                    let v = match k {
                        "PlayResX" | "PlayResY" | "LayoutResX" => format!("{}", w.r.u(1, 4000)),
                        "WrapStyle" => format!("{}", w.r.below(4)),
                        _ => (*w.r.pick(&["", "My: Title", "a=b", "日本語 タイトル", "x ; y", "100.0000", "TV.709"])).to_string(),
                    };
                    lines.push((k.into(), v));
                }
                w.r.shuffle(&mut lines);
                for (k, v) in lines {
                    w.filler(true);
                    let (a, b) = (w.pad(), if v.is_empty() { "" } else { *w.r.pick(&[" ", "", "  "]) });
                    w.line_item(&format!("{k}{a}:{b}{v}"));
                    if k == "ScriptType" {
                        exp.version = Some(match v.as_str() {
                            "v4.00" => "v4".into(),
                            "v4.00+" => "v4+".into(),
                            _ => "v4++".into(),
                        });
                    }
                    f.push((k, v));
                }
                exp.sections.push(ExpSection::Info(f));
            }
            1 | 2 => {
                let styles = k == 1;
                if styles {
                    let h = if o.v4pp { "V4++ Styles" } else if w.r.pct(10) { "V4 Styles" } else { "V4+ Styles" };
                    w.header(h);
                } else {
                    w.header("Events");
                }
                let base: &[&str] = if styles { &STYLE_COLS } else { &EVENT_COLS };
                let mut cols: Vec<String> = base.iter().map(|s| (*s).to_string()).collect();
                let default_format = w.o.missing_format && w.r.pct(50) && prev_format[k as usize - 1].is_none();
                if !default_format {
                    let extra: &[&str] = if o.v4pp {
                        if styles { &["MarginT", "MarginB", "RelativeTo"] } else { &["MarginT", "MarginB"] }
                    } else {
                        &[]
                    };
                    cols = match &prev_format[k as usize - 1] {
                        // a repeated section uses one format across the file
                        Some(f) => f.clone(),
                        None => columns(&mut w, base, !styles, extra),
                    };
                    prev_format[k as usize - 1] = Some(cols.clone());
                    w.filler(true);
                    let mut line = String::from("Format:");
                    // the other names two columns have
                    let other_names = w.o.permute && w.r.pct(20);
                    let named: Vec<String> = cols
                        .iter()
                        .map(|c| match c.as_str() {
                            "OutlineColour" if styles && other_names => "TertiaryColour".to_string(),
                            "Name" if !styles && other_names => "Actor".to_string(),
                            _ => c.clone(),
                        })
                        .collect();
                    for (i, c) in named.iter().enumerate() {
                        if i > 0 {
                            line.push(',');
                        }
                        let (a, b) = if w.o.pad { (w.pad(), w.pad()) } else { (" ", "") };
                        line.push_str(a);
                        let cc = w.case(c);
                        line.push_str(&cc);
                        line.push_str(b);
                    }
                    w.line_item(line.trim_end());
                    if styles {
                        exp.styles_format = Some(named);
                    } else {
                        exp.events_format = Some(named);
                    }
                }
                if default_format {
                    prev_format[k as usize - 1] = Some(cols.clone());
                }
                let mut items = vec![];
                let n = w.r.below(w.o.max_items + 1);
                for _ in 0..n {
                    w.filler(true);
                    if w.o.bad_lines && w.r.pct(20) {
                        let l = w.line;
                        let few = if styles { "Style: OnlyName,Arial" } else { "Dialogue: 0,0:00:00.00" };
                        let junk = *w.r.pick(&[few, few, "Junk line without meaning"]);
                        w.line_item(junk);
                        if junk == few {
                            exp.dropped_lines.push(l);
                        }
                        continue;
                    }
                    let kind = if styles { "Style".to_string() } else if w.r.pct(75) { "Dialogue".into() } else { (*w.r.pick(&EVENT_TYPES)).to_string() };
                    let mut it = ExpItem { kind: kind.clone(), ..Default::default() };
                    let mut line = format!("{kind}:");
                    let lead = *w.r.pick(&[" ", "", "  "]);
                    line.push_str(lead);
                    if styles && w.o.parents && w.r.pct(40) {
                        let p = word(w.r);
                        line.push('*');
                        line.push_str(&p);
                        line.push(',');
                        it.parent = Some(p);
                    }
                    for (i, c) in cols.iter().enumerate() {
                        if i > 0 {
                            line.push(',');
                        }
                        let last = i + 1 == cols.len();
                        let mut v = if c == "Text" { event_text(w.r) } else { col_value(w.r, c) };
                        if c == "Text" && !last {
                            v = v.replace(',', ";").trim().to_string();
                        }
                        // the last column of an event takes the rest of the line
                        if !styles && last && matches!(c.as_str(), "Name" | "Style" | "Effect" | "Xtra") && w.r.bool() {
                            v += ",b, c";
                        }
                        let a = w.pad();
                        line.push_str(a);
                        line.push_str(&v);
                        if c != "Text" {
                            let b = w.pad();
                            line.push_str(b);
                        }
                        it.cols.push((c.clone(), v));
                    }
                    let (l, s, e, col) = w.line_item(&line);
                    it.line = l;
                    it.start = s;
                    it.end = e;
                    it.column = col;
                    items.push(it);
                }
                exp.sections.push(if styles { ExpSection::Styles(items) } else { ExpSection::Events(items) });
            }
            3 | 4 => {
                let fonts = k == 3;
                w.header(if fonts { "Fonts" } else { "Graphics" });
                let mut items = vec![];
                for i in 0..w.r.below(3) {
                    let name = format!("{}{}", *w.r.pick(&["arial_0", "logo", "ünï", "a b"]), if fonts { format!("{i}.ttf") } else { format!("{i}.png") });
                    let mut it = ExpItem { kind: if fonts { "fontname".into() } else { "filename".into() }, ..Default::default() };
                    it.cols.push(("Name".into(), name.clone()));
                    let key = it.kind.clone();
                    let sp = *w.r.pick(&[" ", ""]);
                    let (l, s, e, c) = w.line_item(&format!("{key}:{sp}{name}"));
                    it.line = l;
                    it.start = s;
                    it.end = e;
                    it.column = c;
                    for _ in 0..w.r.below(4) {
                        let n = w.r.u(2, 80);
                        // Uuencoded payload alphabet, first character kept off the markers of comments and sections.
                        let mut d = String::new();
                        for j in 0..n {
                            let c = if j == 0 { (b'A' + w.r.below(20) as u8) as char } else { (33 + w.r.below(63) as u8) as char };
                            // a ':' would make the line look like a key of the section
                            d.push(if c == ':' { 'A' } else { c });
                        }
                        w.s.push_str(&d);
                        w.nl();
                        it.data.push(d);
                    }
                    items.push(it);
                    // entries are separated by an empty line
                    w.nl();
                }
                exp.sections.push(if fonts { ExpSection::Fonts(items) } else { ExpSection::Graphics(items) });
            }
            _ => {
                let h = *w.r.pick(&["Aegisub Project Garbage", "Custom", "Aegisub Extradata", "Événements"]);
                w.header(h);
                exp.unknown_sections += 1;
                for _ in 0..w.r.below(4) {
                    let l = *w.r.pick(&["Last Style Storage: Default", "Data: 1,2,3", "plain words", "Scroll Position: 5"]);
                    w.s.push_str(l);
                    w.nl();
                }
            }
        }
    }
    if !o.final_newline {
        let t = w.s.trim_end_matches(['\r', '\n']).len();
        w.s.truncate(t);
        // the last element may have lost its carriage return
        let len = w.s.len();
        for s in &mut exp.sections {
            if let ExpSection::Styles(v) | ExpSection::Events(v) = s {
                for i in v {
                    i.end = i.end.min(len);
                }
            }
        }
    }
    exp.text = w.s;
    exp
}

const FRAGS: &[&str] = &[
    "[Script Info]\n", "[V4+ Styles]\n", "[V4 Styles]\n", "[V4++ Styles]\n", "[Events]\n", "[Fonts]\n", "[Graphics]\n", "[", "]",
    "[Unknown]\n", "[Events", "\n", "\n", "\r\n", "\r", "Title: x\n", "ScriptType: v4.00+\n", "PlayResX: 640\n", "PlayResY: -1\n",
    "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n", "Format: Start, Text\n", "Format:\n",
    "Format: Name, Fontname\n", "Format: ,,,\n", "Style: Default,Arial,20,&H00FFFFFF,&H000000FF,&H00000000,&H00000000,0,0,0,0,100,100,0,0,1,2,0,2,10,10,10,1\n",
    "Style: *Default,Child,Arial,20,&H00FFFFFF,&H000000FF,&H00000000,&H00000000,0,0,0,0,100,100,0,0,1,2,0,2,10,10,10,1\n",
    "Style:", "Dialogue: 0,0:00:01.00,0:00:05.00,Default,,0,0,0,,", "Comment: 0,0:00:01.00,0:00:05.00,Default,,0,0,0,,", "Dialogue:",
    "{\\b1}", "{\\i1", "}", "{", "\\", "\\N", "\\n", "\\h", "\\pos(", "\\t(0,1,\\fs20)", "\\t(", "\\fad(1,2)", "\\fade(", "\\move(1,2,3,4", "\\clip(m 0 0 l 1 1)",
    "\\p1", "\\p0", "m 0 0 l 10 0 10 10 b 1 2 3 4 5 6 c", "\\c&HFF00FF&", "\\1c&H", "&", "\\alpha&H80&", "\\k50", "\\kf", "\\ko-1", "\\r", "\\fn", "\\fs1e9", "\\fscx-100",
    "\\frz", "\\an7", "\\a99", "\\q9", "\\bord1e30", "\\blur999", "\\be", "\\xbord", "\\fax1", "\\org(1,1)", "\\iclip(1,2,3,4)",
    ",", ",,,,,,,,,,", ":", ";", "; comment\n", "#", "!: note\n", "!", " ", "\t", "fontname: a.ttf\n", "filename: b.png\n", "begin", "M`!#$%&'\n", "``````\n", "\"!\n",
    "é", "日本", "😀", "\u{301}", "\u{FEFF}", "\u{0}", "\u{7f}", "\u{a0}", "\u{2028}", "ß", "İ", "ﬁ", "\u{202e}", "\u{200b}", "\u{85}",
    "0", "1", "-1", "99999999999999999999", "4294967295", "4294967296", "0:00:00.00", "9:59:59.99", "99999:99:99.99", "11930:27:52.95", "1e308", "NaN", "inf", "-0.0", "0x", "1.5.6",
    "hello world", "a", "Default", "&H00FFFFFF&", "&HG", "Banner;10", "Scroll up;0;100;10", "*", "(", ")", "()", "\\(", "--> ",
];

/// Text made of ASS fragments, unusual characters and noise.
pub fn soup(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    let n = r.below(max + 1);
    for _ in 0..n {
        if r.pct(88) {
            s.push_str(*r.pick(FRAGS));
        } else {
            let c = match r.below(4) {
                0 => char::from_u32(r.below(0x80) as u32),
                1 => char::from_u32(r.below(0x800) as u32),
                2 => char::from_u32(r.below(0x10000) as u32),
                _ => char::from_u32(r.below(0x110000) as u32),
            };
            s.push(c.unwrap_or('?'));
        }
    }
    s
}

/// Character-level damage to a text.
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.u(1, 6) {
        let n = v.len();
        match r.below(6) {
            0 if n > 0 => {
                let i = r.below(n);
                v.remove(i);
            }
            1 => {
                let i = r.below(n + 1);
                let f = *r.pick(FRAGS);
                let tail = v.split_off(i);
                v.extend(f.chars());
                v.extend(tail);
            }
            2 if n > 0 => {
                let i = r.below(n);
                let j = (i + r.below(40)).min(n);
                v.drain(i..j);
            }
            3 if n > 0 => {
                let i = r.below(n);
                v[i] = *r.pick(&['é', '[', ']', '{', '}', '\n', '\\', ',', ':', '日', '\r', '(', ')', '😀', '\0']);
            }
            4 if n > 0 => {
                let i = r.below(n);
                let j = (i + r.below(60)).min(n);
                let c: Vec<char> = v[i..j].to_vec();
                let k = r.below(v.len() + 1);
                let tail = v.split_off(k);
                v.extend(c);
                v.extend(tail);
            }
            _ if n > 1 => {
                let i = r.below(n);
                v.truncate(i);
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}

/// Any text: soup, damaged well-formed script, or well-formed script.
pub fn any_script(r: &mut Rng) -> String {
    match r.below(4) {
        0 => soup(r, 60),
        1 => {
            let o = Opts::random(r);
            let e = script(r, o);
            mutate(r, &e.text)
        }
        2 => {
            // a skeleton with soup in the interesting places
            let mut s = String::from("[Script Info]\nScriptType: v4.00+\n");
            let n = r.below(4);
            s.push_str(&soup(r, n));
            s.push_str("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n");
            for _ in 0..r.below(4) {
                s.push_str("Style: ");
                for i in 0..23 {
                    if i > 0 {
                        s.push(',');
                    }
                    if r.pct(15) {
                        let x = soup(r, 2).replace(['\n', '\r', ','], "");
                        s.push_str(&x);
                    } else {
                        let x = col_value(r, STYLE_COLS[i]);
                        s.push_str(&x);
                    }
                }
                s.push('\n');
            }
            s.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
            for _ in 0..r.below(6) {
                let a = r.below(3000) as u32;
                let b = a + r.below(500) as u32;
                s.push_str(&format!("Dialogue: {},{},{},{},,0,0,0,,", r.below(5), time_str(a), time_str(b), word(r)));
                let x = soup(r, 12).replace(['\n', '\r'], "");
                s.push_str(&x);
                s.push('\n');
            }
            s
        }
        _ => {
            let o = Opts::random(r);
            script(r, o).text
        }
    }
}

/// A byte offset on a character boundary.
pub fn boundary(r: &mut Rng, s: &str) -> usize {
    let mut i = r.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
pub fn boundary_range(r: &mut Rng, s: &str, max: usize) -> std::ops::Range<usize> {
    let a = boundary(r, s);
    let mut b = (a + r.below(max + 1)).min(s.len());
    while !s.is_char_boundary(b) {
        b -= 1;
    }
    a..b.max(a)
}
