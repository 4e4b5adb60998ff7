//! E04 style and script info commands.
use crate::events::Ev;
use ass_core::parser::ast::Section;
use ass_core::Script;
use ass_editor::commands::delta_commands::{DeltaCommand, IncrementalEventEditCommand};
use ass_editor::commands::{
    ApplyStyleCommand, CloneStyleCommand, CreateStyleCommand, DeleteScriptInfoCommand, DeleteStyleCommand, EditStyleCommand, GetAllScriptInfoCommand, GetScriptInfoCommand,
    SetScriptInfoCommand,
};
use ass_editor::{EditorDocument, StyleBuilder};
use hcommon::gen::{self, Opts};
use hcommon::*;

/// The document as lines, joined by line feeds.
#[derive(Clone, Debug)]
struct Doc {
    l: Vec<String>,
}
#[derive(Clone, Debug)]
struct Sec {
    name: String,
    head: usize,
    end: usize,
}
#[derive(Clone, Debug)]
struct Sty {
    line: usize,
    cols: Vec<String>,
    vals: Vec<String>,
}
const BOM: char = '\u{feff}';
fn is_styles(n: &str) -> bool {
    ["V4+ Styles", "V4 Styles", "V4++ Styles"].contains(&n)
}
fn split_cols(s: &str) -> Vec<String> {
    s.split(',').map(|c| c.trim().to_string()).collect()
}
impl Doc {
    fn new(t: &str) -> Doc {
        Doc { l: t.split('\n').map(String::from).collect() }
    }
    fn text(&self) -> String {
        self.l.join("\n")
    }
    fn trim(&self, i: usize) -> &str {
        let s = &self.l[i];
        (if i == 0 { s.trim_start_matches(BOM) } else { s }).trim()
    }
    fn secs(&self) -> Vec<Sec> {
        let mut v: Vec<Sec> = vec![];
        for i in 0..self.l.len() {
            if let Some(n) = self.trim(i).strip_prefix('[') {
                if let Some(s) = v.last_mut() {
                    s.end = i;
                }
                v.push(Sec { name: n.split(']').next().unwrap().trim().into(), head: i, end: self.l.len() });
            }
        }
        v
    }
    fn sec(&self, f: impl Fn(&str) -> bool) -> Option<Sec> {
        self.secs().into_iter().find(|s| f(&s.name))
    }
    /// content lines of a section
    fn body(&self, s: &Sec) -> Vec<usize> {
        (s.head + 1..s.end).filter(|&i| !self.trim(i).is_empty() && !self.trim(i).starts_with([';', '#'])).collect()
    }
    fn info(&self) -> Option<Vec<(usize, String, String)>> {
        let s = self.sec(|n| n == "Script Info")?;
        Some(self.body(&s).into_iter().filter_map(|i| self.trim(i).split_once(':').map(|(k, v)| (i, k.trim().to_string(), v.trim().to_string()))).collect())
    }
    fn styles(&self) -> Vec<Sty> {
        let mut v = vec![];
        for s in self.secs().iter().filter(|s| is_styles(&s.name)) {
            let mut cols: Vec<String> = gen::STYLE_COLS.iter().map(|c| c.to_string()).collect();
            for i in self.body(s) {
                if let Some(f) = self.trim(i).strip_prefix("Format:") {
                    cols = split_cols(f);
                } else if let Some(d) = self.trim(i).strip_prefix("Style:") {
                    let d = d.trim_start();
                    let d = if d.starts_with('*') { d.split_once(',').map_or(d, |x| x.1) } else { d };
                    v.push(Sty { line: i, cols: cols.clone(), vals: d.split(',').map(String::from).collect() });
                }
            }
        }
        v
    }
    fn style(&self, n: &str) -> Option<Sty> {
        self.styles().into_iter().find(|s| s.name() == Some(n.trim()))
    }
    /// line after the format line of a section, and its columns
    fn first(&self, s: &Sec, def: &[&str]) -> (usize, Vec<String>) {
        for i in self.body(s) {
            if let Some(f) = self.trim(i).strip_prefix("Format:") {
                return (i + 1, split_cols(f));
            }
        }
        (s.head + 1, def.iter().map(|c| c.to_string()).collect())
    }
    fn insert(&mut self, i: usize, lines: &[&str]) {
        let at_end = i >= self.l.len();
        for (k, l) in lines.iter().enumerate() {
            self.l.insert(i + k, (*l).into());
        }
        if at_end {
            self.l.push(String::new());
        }
    }
    /// replace the line but not the white space around it
    fn put(&mut self, i: usize, new: &str) {
        let t = self.trim(i).to_string();
        let k = self.l[i].find(&t).unwrap();
        self.l[i].replace_range(k..k + t.len(), new);
    }
    fn remove(&mut self, i: usize) {
        self.l[i].clear();
        if i + 1 < self.l.len() {
            self.l.remove(i);
        }
    }
    fn events(&self) -> Option<(Vec<usize>, Vec<String>)> {
        let secs: Vec<Sec> = self.secs().into_iter().filter(|s| s.name == "Events").collect();
        let mut cols: Vec<String> = gen::EVENT_COLS.iter().map(|c| c.to_string()).collect();
        for i in self.body(secs.last()?) {
            if let Some(f) = self.trim(i).strip_prefix("Format:") {
                cols = split_cols(f);
            }
        }
        let v = secs.iter().flat_map(|s| self.body(s)).filter(|&i| gen::EVENT_TYPES.iter().any(|k| self.trim(i).strip_prefix(k).is_some_and(|r| r.starts_with(':')))).filter(|&i| Ev::read(self.trim(i), &cols).raw.len() == cols.len()).collect();
        Some((v, cols))
    }
}
impl Sty {
    fn at(&self, c: &str) -> Option<usize> {
        gen::column(&self.cols, c).filter(|&i| i < self.vals.len())
    }
    fn name(&self) -> Option<&str> {
        self.at("Name").map(|i| self.vals[i].trim())
    }
    fn changed(&self, d: &Doc, ch: &[(String, String)]) -> Option<String> {
        let t = d.trim(self.line);
        let old = self.vals.join(",");
        let mut v = self.vals.clone();
        for (c, x) in ch {
            if x.contains([',', '\n', '\r']) {
                return None;
            }
            v[self.at(c)?] = x.clone();
        }
        Some(format!("{}{}", &t[..t.len() - old.len()], v.join(",")))
    }
}

fn style_name(r: &mut Rng, d: &Doc) -> String {
    let v: Vec<String> = d.styles().iter().filter_map(|s| s.name().map(String::from)).filter(|s| !s.is_empty()).collect();
    if v.is_empty() || r.pct(15) {
        return gen::word(r).replace([',', '*'], "x");
    }
    let n = r.pick(&v).clone();
    match r.below(12) {
        0 => format!("{n}2"),
        1 => n[..gen::boundary(r, &n)].to_string(),
        2 => n.to_uppercase(),
        3 => format!(" {n} "),
        _ => n,
    }
}
fn key(r: &mut Rng, d: &Doc) -> String {
    let v: Vec<String> = d.info().unwrap_or_default().into_iter().map(|x| x.1).collect();
    if v.is_empty() || r.pct(30) {
        return r.pick(&["Title", "PlayResX", "Original Title", "Author", "X", "é", "", "a:b", "; c", "[x", "a\nb", " Pad ", "WrapStyle", "Style"]).to_string();
    }
    let k = r.pick(&v).clone();
    match r.below(8) {
        0 => format!("{k}2"),
        1 => k[..gen::boundary(r, &k)].to_string(),
        2 => k.to_lowercase(),
        _ => k,
    }
}
fn value(r: &mut Rng) -> String {
    match r.below(7) {
        0 => String::new(),
        1 => r.pick(&["a,b", "x\ny", "é日", "Title: x", "\r", "[Events]", " pad ", "; c"]).to_string(),
        2 => r.below(5000).to_string(),
        _ => gen::word(r),
    }
}
/// A builder and the columns it sets.
fn builder(r: &mut Rng) -> (StyleBuilder, Vec<(&'static str, String)>) {
    let mut b = StyleBuilder::new();
    let mut v = vec![];
    macro_rules! set {
        ($m:ident, $c:expr, $x:expr, $s:expr) => {
            if r.pct(25) {
                let x = $x;
                v.push(($c, $s(&x)));
                b = b.$m(x);
            }
        };
    }
    let s = |x: &u32| x.to_string();
    let f = |x: &f32| x.to_string();
    let t = |x: &bool| (if *x { "-1" } else { "0" }).to_string();
    set!(size, "Fontsize", r.below(200) as u32, s);
    set!(bold, "Bold", r.bool(), t);
    set!(italic, "Italic", r.bool(), t);
    set!(underline, "Underline", r.bool(), t);
    set!(strikeout, "StrikeOut", r.bool(), t);
    set!(align, "Alignment", r.u(1, 9) as u32, s);
    set!(scale_x, "ScaleX", r.below(400) as f32 / 2.0, f);
    set!(scale_y, "ScaleY", r.below(400) as f32 / 2.0, f);
    set!(spacing, "Spacing", r.below(40) as f32 / 4.0, f);
    set!(angle, "Angle", r.below(360) as f32, f);
    set!(border_style, "BorderStyle", *r.pick(&[1, 3]), s);
    set!(outline, "Outline", r.below(20) as f32 / 4.0, f);
    set!(shadow, "Shadow", r.below(20) as f32 / 4.0, f);
    set!(margin_left, "MarginL", r.below(200) as u32, s);
    set!(margin_right, "MarginR", r.below(200) as u32, s);
    set!(margin_vertical, "MarginV", r.below(200) as u32, s);
    set!(margin_top, "MarginT", r.below(200) as u32, s);
    set!(margin_bottom, "MarginB", r.below(200) as u32, s);
    set!(encoding, "Encoding", r.below(200) as u32, s);
    let text = |r: &mut Rng| if r.pct(8) { r.pick(&["a,b", "x\ny"]).to_string() } else { gen::word(r) };
    if r.bool() {
        let x = text(r);
        b = b.font(&x);
        v.push(("Fontname", x));
    }
    if r.pct(30) {
        let x = format!("&H{:08X}", r.u(0, 0xffff_ffff) as u32);
        b = b.color(&x);
        v.push(("PrimaryColour", x));
    }
    if r.pct(20) {
        let x = format!("&H{:08X}&", r.u(0, 0xffff_ffff) as u32);
        b = b.outline_color(&x);
        v.push(("OutlineColour", x));
    }
    (b, v)
}
/// What a new style has under a column that is not set.
fn preset(c: &str) -> Option<&'static str> {
    Some(match c.to_ascii_lowercase().as_str() {
        "fontname" => "Arial",
        "fontsize" => "20",
        "primarycolour" => "&Hffffff",
        "secondarycolour" => "&Hff0000",
        "outlinecolour" | "tertiarycolour" | "backcolour" => "&H0",
        "bold" | "italic" | "underline" | "strikeout" | "spacing" | "angle" | "shadow" | "margint" | "marginb" | "alphalevel" | "relativeto" => "0",
        "scalex" | "scaley" => "100",
        "borderstyle" | "encoding" => "1",
        "outline" | "alignment" => "2",
        "marginl" | "marginr" | "marginv" => "10",
        _ => return None,
    })
}
const FORMAT: &str = "Format: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding";
const EFORMAT: &str = "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text";

fn style_line(name: &str, cols: &[String], set: &[(&'static str, String)]) -> Option<String> {
    let mut v = vec![];
    for c in cols {
        let x = if c.eq_ignore_ascii_case("Name") {
            name.to_string()
        } else if let Some((_, x)) = set.iter().find(|s| s.0.eq_ignore_ascii_case(c) || (s.0 == "OutlineColour" && c.eq_ignore_ascii_case("TertiaryColour"))) {
            x.clone()
        } else {
            preset(c)?.to_string()
        };
        if x.contains([',', '\n', '\r']) {
            return None;
        }
        v.push(x);
    }
    Some(format!("Style: {}", v.join(",")))
}
fn add_style(w: &mut Doc, line: &str) {
    if let Some(s) = w.sec(is_styles) {
        let (i, _) = w.first(&s, &gen::STYLE_COLS);
        w.insert(i, &[line]);
    } else {
        let end = if w.l.last().is_some_and(|l| l.is_empty()) { w.l.len() - 1 } else { w.l.len() };
        let i = w.sec(|n| n == "Events").map_or(end, |s| s.head);
        // a byte order mark stays at the start
        let bom = i == 0 && w.l[0].starts_with(BOM);
        if bom {
            w.l[0].remove(0);
        }
        w.insert(i, &["", "[V4+ Styles]", FORMAT, line]);
        if bom {
            w.l[0].insert(0, BOM);
        }
    }
}
/// Decoys: the words of styles and fields where they mean something else.
fn decoys(r: &mut Rng, d: &mut Doc) {
    let names: Vec<String> = d.styles().iter().filter_map(|s| s.name().map(String::from)).collect();
    let name = if names.is_empty() { "Default".to_string() } else { r.pick(&names).clone() };
    for _ in 0..r.below(4) {
        let secs: Vec<Sec> = d.secs().into_iter().filter(|s| s.name == "Script Info" || is_styles(&s.name)).collect();
        if secs.is_empty() {
            return;
        }
        let s = r.pick(&secs).clone();
        let l = match r.below(6) {
            0 => format!("; Style: {name},Arial,20"),
            1 => format!("#Style: {name},x"),
            2 if s.name == "Script Info" => format!("Original Title: Style: {name},x"),
            3 if s.name == "Script Info" => format!("Comment: Title: {name}"),
            4 => "; Title: decoy".into(),
            5 => "; [V4+ Styles]".into(),
            _ => continue,
        };
        d.insert(s.head + 1, &[&l]);
    }
}

fn commands(cx: &mut Cx) -> R {
    let mut o = Opts::random(&mut cx.rng);
    o.max_items = 4;
    o.bad_lines = cx.rng.pct(10);
    let x = gen::script(&mut cx.rng, o.clone());
    let mut m = Doc::new(&x.text);
    if cx.rng.pct(15) {
        // a section is missing
        let secs = m.secs();
        if !secs.is_empty() {
            let s = cx.rng.pick(&secs).clone();
            m.l.drain(s.head..s.end);
            if m.l.is_empty() {
                m.l.push(String::new());
            }
        }
    }
    decoys(&mut cx.rng, &mut m);
    cx.set_input(m.text());
    let mut d = EditorDocument::from_content(&m.text()).map_err(|e| Fail { sig: "content-refused".into(), detail: e.to_string() })?;
    for _ in 0..cx.rng.u(1, 8) {
        let before = m.text();
        let op = cx.rng.below(11);
        let mut w = m.clone();
        let mut ok = true;
        let fluent = cx.rng.bool();
        let r = &mut cx.rng;
        let mut log = format!("op {op} ");
        let res = match op {
            0 | 1 => {
                let (k, v) = (key(r, &m), value(r));
                log += &format!("set {k:?} {v:?}");
                let kt = k.trim();
                ok = !(kt.is_empty() || kt.starts_with(['[', ';', '#']) || kt.contains([':', '\n', '\r']) || v.contains(['\n', '\r']));
                let line = format!("{kt}: {v}");
                let setter = op == 1;
                if ok {
                    match w.info() {
                        Some(f) => match f.iter().find(|x| x.1 == kt) {
                            Some(x) => w.put(x.0, &line),
                            None => {
                                let s = w.sec(|n| n == "Script Info").unwrap();
                                w.insert(s.head + 1, &[&line]);
                            }
                        },
                        None => {
                            let bom = w.l[0].starts_with(BOM);
                            if bom {
                                w.l[0].remove(0);
                            }
                            w.insert(0, &["[Script Info]", &format!("{kt}: {v}"), ""]);
                            if bom {
                                w.l[0].insert(0, BOM);
                            }
                        }
                    }
                }
                if setter {
                    d.set_script_info_field(&k, &v)
                } else if fluent {
                    d.info().set(&k, &v).map(|_| ())
                } else {
                    d.execute_command(&SetScriptInfoCommand::new(k, v)).map(|_| ())
                }
            }
            2 => {
                let k = key(r, &m);
                log += &format!("delete {k:?}");
                match w.info() {
                    None => ok = false,
                    Some(f) => {
                        for x in f.iter().rev().filter(|x| x.1 == k.trim()) {
                            w.remove(x.0);
                        }
                    }
                }
                if fluent {
                    d.info().delete(&k).map(|_| ())
                } else {
                    d.execute_command(&DeleteScriptInfoCommand::new(k)).map(|_| ())
                }
            }
            3 => {
                let n = style_name(r, &m);
                let (b, set) = builder(r);
                log += &format!("create {n:?} {set:?}");
                let cols = w.sec(is_styles).map_or_else(|| gen::STYLE_COLS.iter().map(|c| c.to_string()).collect(), |s| w.first(&s, &gen::STYLE_COLS).1);
                match style_line(&n, &cols, &set) {
                    None => ok = false,
                    Some(l) => add_style(&mut w, &l),
                }
                if fluent {
                    d.styles().create(&n, b).map(|_| ())
                } else {
                    d.execute_command(&CreateStyleCommand::new(n, b)).map(|_| ())
                }
            }
            4 | 5 => {
                let n = style_name(r, &m);
                let st = m.style(&n);
                let mut ch: Vec<(String, String)> = vec![];
                for _ in 0..r.below(4) {
                    let mut c = match &st {
                        Some(s) if r.pct(80) => r.pick(&s.cols).clone(),
                        _ => r.pick(&gen::STYLE_COLS).to_string(),
                    };
                    if r.pct(10) {
                        c = c.to_lowercase();
                    }
                    // the same column under either of its names
                    let plain = |c: &str| c.to_lowercase().replace("tertiary", "outline");
                    if ch.iter().any(|x| plain(&x.0) == plain(&c)) {
                        continue;
                    }
                    let v = if r.pct(70) { gen::col_value(r, &c) } else { value(r) };
                    ch.push((c, v));
                }
                log += &format!("edit {n:?} {ch:?}");
                match st.and_then(|s| s.changed(&m, &ch).map(|t| (s.line, t))) {
                    None => ok = false,
                    Some((i, t)) => w.put(i, &t),
                }
                if fluent {
                    let mut e = d.styles().edit(&n);
                    for (c, v) in &ch {
                        e = match (c.as_str(), v.parse::<u32>()) {
                            ("Fontname", _) => e.font(v),
                            ("PrimaryColour", _) => e.color(v),
                            ("Fontsize", Ok(x)) if x.to_string() == *v => e.size(x),
                            ("Alignment", Ok(x)) if x.to_string() == *v => e.alignment(x),
                            ("Bold", _) if v == "-1" || v == "0" => e.bold(v == "-1"),
                            ("Italic", _) if v == "-1" || v == "0" => e.italic(v == "-1"),
                            _ => e.field(c, v),
                        };
                    }
                    e.apply().map(|_| ())
                } else {
                    let mut c = EditStyleCommand::new(n);
                    for (k, v) in ch {
                        c = c.set_field(&k, v);
                    }
                    d.execute_command(&c).map(|_| ())
                }
            }
            6 => {
                let n = style_name(r, &m);
                log += &format!("delete style {n:?}");
                match m.style(&n) {
                    None => ok = false,
                    Some(s) => w.remove(s.line),
                }
                if fluent {
                    d.styles().delete(&n).map(|_| ())
                } else {
                    d.execute_command(&DeleteStyleCommand::new(n)).map(|_| ())
                }
            }
            7 => {
                let n = style_name(r, &m);
                let t = if r.pct(70) { gen::word(r) } else { style_name(r, &m) };
                log += &format!("clone {n:?} {t:?}");
                match m.style(&n).filter(|_| m.style(&t).is_none()).and_then(|s| s.changed(&m, &[("Name".into(), t.clone())]).map(|t| (s.line, t))) {
                    None => ok = false,
                    Some((i, t)) => {
                        // the white space after the source line stays at its end
                        let src = m.trim(i).to_string();
                        let k = w.l[i].rfind(&src).unwrap() + src.len();
                        let tail = w.l[i].split_off(k);
                        w.l.insert(i + 1, t + &tail);
                    }
                }
                if fluent {
                    d.styles().clone(&n, &t).map(|_| ())
                } else {
                    d.execute_command(&CloneStyleCommand::new(n, t)).map(|_| ())
                }
            }
            8 => {
                let evs = m.events();
                let (a, b) = match &evs {
                    Some((v, cols)) if !v.is_empty() && r.pct(80) => {
                        let i = *r.pick(v);
                        (Ev::read(m.trim(i), cols).get(cols, "Style").unwrap_or("").to_string(), value(r))
                    }
                    _ => (gen::word(r), value(r)),
                };
                let filter = r.pct(40).then(|| gen::word(r).chars().take(1).collect::<String>());
                log += &format!("apply {a:?} {b:?} {filter:?}");
                if o.bad_lines {
                    continue;
                }
                match evs {
                    None => ok = false,
                    Some((v, cols)) => {
                        for i in v {
                            let e = Ev::read(m.trim(i), &cols);
                            if e.get(&cols, "Style").unwrap_or("") == a.trim() && filter.as_ref().is_none_or(|f| e.get(&cols, "Text").unwrap_or("").contains(f)) {
                                match e.with(&cols, &[("Style", b.clone())]) {
                                    Some(e) => w.put(i, &e.line()),
                                    None => ok = false,
                                }
                                cx.obs("restyled", 1);
                            }
                        }
                    }
                }
                if fluent {
                    let c = d.styles().apply(&a, &b);
                    match &filter {
                        Some(f) => c.with_filter(f),
                        None => c,
                    }
                    .apply()
                    .map(|_| ())
                } else {
                    let mut c = ApplyStyleCommand::new(a, b);
                    if let Some(f) = filter {
                        c = c.with_filter(f);
                    }
                    d.execute_command(&c).map(|_| ())
                }
            }
            9 => {
                let n = style_name(r, &m);
                let l = format!("Style: {},{}", n.trim(), gen::word(r));
                match r.below(3) {
                    0 => {
                        log += &format!("add line {l:?}");
                        add_style(&mut w, &l);
                        d.add_style_line(&l)
                    }
                    1 => {
                        log += &format!("edit line {n:?} {l:?}");
                        match m.style(&n) {
                            Some(s) => w.put(s.line, &l),
                            None => add_style(&mut w, &l),
                        }
                        d.edit_style_line(&n, &l)
                    }
                    _ => {
                        let cols = m.events().map_or_else(|| gen::EVENT_COLS.iter().map(|c| c.to_string()).collect(), |e| e.1);
                        let l = &format!("Dialogue: {}", cols.iter().map(|c| gen::col_value(r, c).replace(',', "")).collect::<Vec<_>>().join(","));
                        let l = l.trim_end();
                        log += "add event";
                        match w.sec(|n| n == "Events") {
                            Some(s) => {
                                let (i, _) = w.first(&s, &[]);
                                w.insert(i, &[l]);
                            }
                            None => {
                                let end = if w.l.last().is_some_and(|l| l.is_empty()) { w.l.len() - 1 } else { w.l.len() };
                                w.insert(end, &["", "[Events]", EFORMAT, l]);
                            }
                        }
                        d.add_event_line(l)
                    }
                }
            }
            _ => {
                if o.bad_lines {
                    continue;
                }
                let (v, cols) = m.events().unwrap_or_default();
                let word = if v.is_empty() || r.pct(20) {
                    gen::word(r)
                } else {
                    let i = *r.pick(&v);
                    let t = Ev::read(m.trim(i), &cols).get(&cols, "Text").unwrap_or("").to_string();
                    let t = t[gen::boundary_range(r, &t, 8)].to_string();
                    if t.is_empty() { "Q".into() } else { t }
                };
                let new = if r.pct(80) { gen::word(r) } else { value(r) };
                log += &format!("text {word:?} {new:?}");
                let mut found = false;
                for i in v {
                    let e = Ev::read(m.trim(i), &cols);
                    let t = e.get(&cols, "Text").unwrap_or("");
                    if t.contains(&word) {
                        match e.with(&cols, &[("Text", t.replacen(&word, &new, 1))]) {
                            Some(e) => w.put(i, &e.line()),
                            None => ok = false,
                        }
                        found = true;
                        break;
                    }
                }
                match r.below(3) {
                    // the incremental way and its command; a text that is nowhere is an error there
                    0 => match d.edit_event_incremental(&word, &new) {
                        Err(_) if !found => Ok(()),
                        x => x.map(drop),
                    },
                    1 => IncrementalEventEditCommand::new(word.clone(), new.clone()).execute_with_delta(&mut d).map(drop),
                    _ => d.edit_event_text(&word, &new),
                }
            }
        };
        let got = d.text();
        if !ok {
            ensure!(res.is_err(), "bad-command-accepted", "{log}\n{before:?}\nbecame {got:?}");
            ensure!(got == before, "refused-changed-text", "{log}\n{before:?}\nbecame {got:?}");
            cx.obs("refused", 1);
            continue;
        }
        ensure!(res.is_ok(), "command-refused", "{log}: {:?}\n{before:?}", res.err());
        let want = w.text();
        // whether the text ends with a line break after a line was added there is not fixed
        ensure!(got == want || (got.trim_end_matches('\n') == want.trim_end_matches('\n')), "command-text", "{log}\nbefore {before:?}\nafter  {got:?}\nwanted {want:?}");
        const NAMES: [&str; 11] = ["fields_set", "fields_set", "fields_deleted", "styles_created", "styles_edited", "styles_edited", "styles_deleted", "styles_cloned", "styles_applied", "lines_added", "texts_edited"];
        cx.obs("applied", 1);
        if got != before {
            cx.obs(NAMES[op], 1);
            if d.can_undo() {
                ensure!(d.undo().is_ok() && d.text() == before, "undo-command", "{log}\n{before:?}\n{:?}", d.text());
                ensure!(d.redo().is_ok() && d.text() == got, "redo-command", "{log}");
            }
        }
        m = Doc::new(&got);
        cx.state(&(op, got.len(), m.styles().len()));
        // what is read back
        let f = m.info();
        let all = GetAllScriptInfoCommand::new().get_all(&d).unwrap_or_default();
        let want: Vec<(String, String)> = f.clone().unwrap_or_default().into_iter().map(|x| (x.1, x.2)).collect();
        ensure!(all == want, "all-fields", "{all:?}, expected {want:?}");
        let k = key(&mut cx.rng, &m);
        let g = GetScriptInfoCommand::new(k.clone()).get_value(&d).ok();
        let want = f.map(|f| f.into_iter().find(|x| x.1 == k.trim()).map(|x| x.2));
        ensure!(g == want, "get-field", "{k:?} is {g:?}, expected {want:?}\n{got:?}");
    }
    // what the parser reads agrees with the model
    let t = d.text();
    let s = match Script::parse(&t) {
        Ok(s) => s,
        Err(e) => return fail("parse", e.to_string()),
    };
    let names: Vec<String> = s.sections().iter().filter_map(|s| if let Section::Styles(v) = s { Some(v.iter().map(|x| x.name.to_string()).collect::<Vec<_>>()) } else { None }).flatten().collect();
    let want: Vec<String> = m.styles().iter().filter(|s| s.vals.len() >= s.cols.len()).map(|s| s.name().unwrap_or("").to_string()).collect();
    ensure!(names == want, "styles-read", "the parser reads {names:?}, the commands {want:?}\n{t:?}");
    let fields = s.sections().iter().find_map(|s| if let Section::ScriptInfo(i) = s { Some(i.fields.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>()) } else { None });
    let want = m.info().map(|f| f.into_iter().map(|x| (x.1, x.2)).collect::<Vec<_>>());
    ensure!(fields == want, "fields-read", "the parser reads {fields:?}, the commands {want:?}\n{t:?}");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E04",
        rule: "a distinct case is a distinct (command, resulting length, number of styles) reached by a sequence of style and field commands on one document",
        assumptions: &["The first style or field of a name is the one meant.", "A value that would break its column or line is refused."],
        monitors: vec![mon("commands", 240_000, 2_000_000, commands)],
        must_observe: &["fields_set", "fields_deleted", "styles_created", "styles_edited", "styles_deleted", "styles_cloned", "styles_applied", "restyled", "lines_added", "texts_edited", "refused"],
    }]
}
