//! Structured generator of render scripts: every script is built from a model
//! (styles, events, runs, override tags) so that oracles work on the model and
//! never have to parse ASS text.

use hcommon::Rng;
use std::fmt::Write;

pub const FONTS: &[&str] = &["Go", "Go Mono", "Open Sans", "Tuffy"];

#[derive(Clone, Debug)]
pub struct RStyle {
    pub name: String,
    pub font: String,
    pub size: f32,
    /// primary, secondary, outline, back: (r,g,b, ass alpha 0 = opaque)
    pub col: [[u8; 4]; 4],
    pub bold: bool,
    pub italic: bool,
    pub underline: bool,
    pub strike: bool,
    pub sx: f32,
    pub sy: f32,
    pub spacing: f32,
    pub angle: f32,
    pub border_style: u8,
    pub outline: f32,
    pub shadow: f32,
    pub align: u8,
    pub ml: u32,
    pub mr: u32,
    pub mv: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tag {
    /// colour of component 1..=4 (the `bool` writes `\c` instead of `\1c`)
    C(u8, [u8; 3], bool),
    A(u8, u8),
    Alpha(u8),
    Fs(f32),
    Fn(String),
    B(bool),
    I(bool),
    U(bool),
    S(bool),
    Fscx(f32),
    Fscy(f32),
    Fsp(f32),
    Bord(f32),
    XBord(f32),
    YBord(f32),
    Shad(f32),
    XShad(f32),
    YShad(f32),
    Blur(f32),
    Be(f32),
    Frx(f32),
    Fry(f32),
    Frz(f32),
    Fax(f32),
    Fay(f32),
    An(u8),
    Pos(f32, f32),
    Org(f32, f32),
    Move([f32; 4], Option<(u32, u32)>),
    Clip([f32; 4], bool),
    Fad(u32, u32),
    Fade([u8; 3], [u32; 4]),
    /// kind "k", "kf", "ko", "K"; duration in centiseconds
    K(&'static str, u32),
    R,
    RStyle(String),
    Q(u8),
    P(u8),
    /// (t1,t2) in ms, acceleration, tags
    T(Option<(u32, u32)>, Option<f32>, Vec<Tag>),
}

pub fn hex(c: [u8; 3]) -> String {
    format!("&H{:02X}{:02X}{:02X}&", c[2], c[1], c[0])
}

impl Tag {
    pub fn write(&self, o: &mut String) {
        let _ = match self {
            Tag::C(1, c, true) => write!(o, "\\c{}", hex(*c)),
            Tag::C(n, c, _) => write!(o, "\\{n}c{}", hex(*c)),
            Tag::A(n, a) => write!(o, "\\{n}a&H{a:02X}&"),
            Tag::Alpha(a) => write!(o, "\\alpha&H{a:02X}&"),
            Tag::Fs(v) => write!(o, "\\fs{v}"),
            Tag::Fn(n) => write!(o, "\\fn{n}"),
            Tag::B(b) => write!(o, "\\b{}", u8::from(*b)),
            Tag::I(b) => write!(o, "\\i{}", u8::from(*b)),
            Tag::U(b) => write!(o, "\\u{}", u8::from(*b)),
            Tag::S(b) => write!(o, "\\s{}", u8::from(*b)),
            Tag::Fscx(v) => write!(o, "\\fscx{v}"),
            Tag::Fscy(v) => write!(o, "\\fscy{v}"),
            Tag::Fsp(v) => write!(o, "\\fsp{v}"),
            Tag::Bord(v) => write!(o, "\\bord{v}"),
            Tag::XBord(v) => write!(o, "\\xbord{v}"),
            Tag::YBord(v) => write!(o, "\\ybord{v}"),
            Tag::Shad(v) => write!(o, "\\shad{v}"),
            Tag::XShad(v) => write!(o, "\\xshad{v}"),
            Tag::YShad(v) => write!(o, "\\yshad{v}"),
            Tag::Blur(v) => write!(o, "\\blur{v}"),
            Tag::Be(v) => write!(o, "\\be{v}"),
            Tag::Frx(v) => write!(o, "\\frx{v}"),
            Tag::Fry(v) => write!(o, "\\fry{v}"),
            Tag::Frz(v) => write!(o, "\\frz{v}"),
            Tag::Fax(v) => write!(o, "\\fax{v}"),
            Tag::Fay(v) => write!(o, "\\fay{v}"),
            Tag::An(v) => write!(o, "\\an{v}"),
            Tag::Pos(x, y) => write!(o, "\\pos({x},{y})"),
            Tag::Org(x, y) => write!(o, "\\org({x},{y})"),
            Tag::Move(p, None) => write!(o, "\\move({},{},{},{})", p[0], p[1], p[2], p[3]),
            Tag::Move(p, Some((a, b))) => write!(o, "\\move({},{},{},{},{a},{b})", p[0], p[1], p[2], p[3]),
            Tag::Clip(r, inv) => {
                write!(o, "\\{}clip({},{},{},{})", if *inv { "i" } else { "" }, r[0], r[1], r[2], r[3])
            }
            Tag::Fad(a, b) => write!(o, "\\fad({a},{b})"),
            Tag::Fade(a, t) => {
                write!(o, "\\fade({},{},{},{},{},{},{})", a[0], a[1], a[2], t[0], t[1], t[2], t[3])
            }
            Tag::K(k, d) => write!(o, "\\{k}{d}"),
            Tag::R => write!(o, "\\r"),
            Tag::RStyle(n) => write!(o, "\\r{n}"),
            Tag::Q(v) => write!(o, "\\q{v}"),
            Tag::P(v) => write!(o, "\\p{v}"),
            Tag::T(tt, acc, tags) => {
                o.push_str("\\t(");
                if let Some((a, b)) = tt {
                    let _ = write!(o, "{a},{b},");
                }
                if let Some(a) = acc {
                    let _ = write!(o, "{a},");
                }
                for t in tags {
                    t.write(o);
                }
                o.push(')');
                Ok(())
            }
        };
    }
}

#[derive(Clone, Debug)]
pub struct Run {
    pub tags: Vec<Tag>,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct REvent {
    pub comment: bool,
    pub layer: i32,
    pub start: u32,
    pub end: u32,
    pub style: String,
    pub ml: u32,
    pub mr: u32,
    pub mv: u32,
    pub runs: Vec<Run>,
}

impl REvent {
    pub fn text(&self) -> String {
        let mut o = String::new();
        for r in &self.runs {
            if !r.tags.is_empty() {
                o.push('{');
                for t in &r.tags {
                    t.write(&mut o);
                }
                o.push('}');
            }
            o.push_str(&r.text);
        }
        o
    }
    pub fn line(&self) -> String {
        format!(
            "{}: {},{},{},{},,{},{},{},,{}",
            if self.comment { "Comment" } else { "Dialogue" },
            self.layer,
            hcommon::gen::time_str(self.start),
            hcommon::gen::time_str(self.end),
            self.style,
            self.ml,
            self.mr,
            self.mv,
            self.text()
        )
    }
    pub fn has(&self, f: impl Fn(&Tag) -> bool) -> bool {
        self.runs.iter().flat_map(|r| &r.tags).any(f)
    }
}

#[derive(Clone, Debug)]
pub struct RScript {
    pub play: Option<(u32, u32)>,
    pub layout: Option<(u32, u32)>,
    pub wrap: Option<u8>,
    pub sbas: Option<bool>,
    pub styles: Vec<RStyle>,
    pub events: Vec<REvent>,
}

fn col_str(c: [u8; 4]) -> String {
    format!("&H{:02X}{:02X}{:02X}{:02X}", c[3], c[2], c[1], c[0])
}

impl RStyle {
    pub fn line(&self) -> String {
        let b = |v: bool| if v { "-1" } else { "0" };
        format!(
            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},1",
            self.name,
            self.font,
            self.size,
            col_str(self.col[0]),
            col_str(self.col[1]),
            col_str(self.col[2]),
            col_str(self.col[3]),
            b(self.bold),
            b(self.italic),
            b(self.underline),
            b(self.strike),
            self.sx,
            self.sy,
            self.spacing,
            self.angle,
            self.border_style,
            self.outline,
            self.shadow,
            self.align,
            self.ml,
            self.mr,
            self.mv
        )
    }
    pub fn plain(name: &str) -> Self {
        RStyle {
            name: name.into(),
            font: "Go".into(),
            size: 20.0,
            col: [[255, 255, 255, 0], [255, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]],
            bold: false,
            italic: false,
            underline: false,
            strike: false,
            sx: 100.0,
            sy: 100.0,
            spacing: 0.0,
            angle: 0.0,
            border_style: 1,
            outline: 0.0,
            shadow: 0.0,
            align: 2,
            ml: 10,
            mr: 10,
            mv: 10,
        }
    }
}

impl RScript {
    pub fn text(&self) -> String {
        let mut o = String::from("[Script Info]\nTitle: t\nScriptType: v4.00+\n");
        if let Some((x, y)) = self.play {
            let _ = write!(o, "PlayResX: {x}\nPlayResY: {y}\n");
        }
        if let Some((x, y)) = self.layout {
            let _ = write!(o, "LayoutResX: {x}\nLayoutResY: {y}\n");
        }
        if let Some(w) = self.wrap {
            let _ = writeln!(o, "WrapStyle: {w}");
        }
        if let Some(s) = self.sbas {
            let _ = writeln!(o, "ScaledBorderAndShadow: {}", if s { "yes" } else { "no" });
        }
        o.push_str("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n");
        for s in &self.styles {
            o.push_str(&s.line());
            o.push('\n');
        }
        o.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
        for e in &self.events {
            o.push_str(&e.line());
            o.push('\n');
        }
        o
    }
    pub fn style(&self, n: &str) -> Option<&RStyle> {
        self.styles.iter().rev().find(|s| s.name == n)
    }
}

pub fn rgb(r: &mut Rng) -> [u8; 3] {
    match r.below(4) {
        0 => [255, 0, 0],
        1 => [*r.pick(&[0, 255]), *r.pick(&[0, 255]), *r.pick(&[0, 255])],
        _ => [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8],
    }
}
pub fn alpha(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => 0,
        1 => 255,
        _ => r.below(256) as u8,
    }
}
/// A number with at most one decimal.
pub fn num(r: &mut Rng, lo: i64, hi: i64) -> f32 {
    if r.bool() {
        r.range(lo, hi) as f32
    } else {
        r.range(lo * 2, hi * 2) as f32 / 2.0
    }
}

pub fn words(r: &mut Rng, max: usize) -> String {
    const W: &[&str] = &[
        "a", "in", "the", "Karaoke", "subtitle", "WAVE", "office", "To", "I", "x", "Ünïcode", "42", "don't", "jumps", "fff", "quick",
    ];
    let n = r.u(1, max.max(1));
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(r.pick(W));
    }
    s
}

pub fn style(r: &mut Rng, name: &str) -> RStyle {
    let c4 = |r: &mut Rng| {
        let c = rgb(r);
        let a = if r.bool() { 0 } else { alpha(r) };
        [c[0], c[1], c[2], a]
    };
    RStyle {
        name: name.into(),
        font: r.pick(FONTS).to_string(),
        size: num(r, 8, 40),
        col: [c4(r), c4(r), c4(r), c4(r)],
        bold: r.pct(25),
        italic: r.pct(25),
        underline: r.pct(20),
        strike: r.pct(20),
        sx: if r.pct(70) { 100.0 } else { num(r, 40, 200) },
        sy: if r.pct(70) { 100.0 } else { num(r, 40, 200) },
        spacing: if r.pct(70) { 0.0 } else { num(r, 0, 6) },
        angle: 0.0,
        border_style: if r.pct(80) { 1 } else { 3 },
        outline: if r.bool() { 0.0 } else { num(r, 0, 4) },
        shadow: if r.bool() { 0.0 } else { num(r, 0, 4) },
        align: r.u(1, 9) as u8,
        ml: r.below(40) as u32,
        mr: r.below(40) as u32,
        mv: r.below(40) as u32,
    }
}

/// A tag that changes the look of a run.
pub fn look_tag(r: &mut Rng) -> Tag {
    match r.below(24) {
        0 | 1 => {
            let n = r.u(1, 4) as u8;
            Tag::C(n, rgb(r), n == 1 && r.bool())
        }
        2 => Tag::A(r.u(1, 4) as u8, alpha(r)),
        3 => Tag::Alpha(alpha(r)),
        4 => Tag::Fs(num(r, 6, 48)),
        5 => Tag::Fn(r.pick(FONTS).to_string()),
        6 => Tag::B(r.bool()),
        7 => Tag::I(r.bool()),
        8 => Tag::U(r.bool()),
        9 => Tag::S(r.bool()),
        10 => Tag::Fscx(num(r, 30, 220)),
        11 => Tag::Fscy(num(r, 30, 220)),
        12 => Tag::Fsp(num(r, 0, 8)),
        13 => Tag::Bord(num(r, 0, 5)),
        14 => Tag::XBord(num(r, 0, 5)),
        15 => Tag::YBord(num(r, 0, 5)),
        16 => Tag::Shad(num(r, 0, 5)),
        17 => Tag::XShad(num(r, -5, 5)),
        18 => Tag::YShad(num(r, -5, 5)),
        19 => Tag::Blur(num(r, 0, 4)),
        20 => Tag::Be(num(r, 0, 3)),
        21 => match r.below(3) {
            0 => Tag::Frx(num(r, -90, 90)),
            1 => Tag::Fry(num(r, -90, 90)),
            _ => Tag::Frz(num(r, -180, 180)),
        },
        22 => Tag::Fax(num(r, -1, 1)),
        _ => Tag::Fay(num(r, -1, 1)),
    }
}

pub fn anim_tag(r: &mut Rng) -> Tag {
    match r.below(14) {
        0 => Tag::Fs(num(r, 6, 48)),
        1 => Tag::Fscx(num(r, 30, 220)),
        2 => Tag::Fscy(num(r, 30, 220)),
        3 => Tag::Fsp(num(r, 0, 8)),
        4 => Tag::Frz(num(r, -180, 180)),
        5 => Tag::Frx(num(r, -80, 80)),
        6 => Tag::Fry(num(r, -80, 80)),
        7..=9 => {
            let n = r.u(1, 4) as u8;
            Tag::C(n, rgb(r), n == 1 && r.bool())
        }
        10 => Tag::Alpha(alpha(r)),
        11 => Tag::Bord(num(r, 0, 5)),
        12 => Tag::Shad(num(r, 0, 5)),
        _ => Tag::Blur(num(r, 0, 4)),
    }
}

pub fn t_tag(r: &mut Rng, dur_ms: u32) -> Tag {
    let times = if r.bool() {
        let a = r.below((dur_ms / 10).max(1) as usize) as u32 * 10;
        let b = a + r.u(1, (dur_ms / 10).max(1) as usize) as u32 * 10;
        Some((a, b))
    } else {
        None
    };
    let acc = if r.pct(40) { Some(*r.pick(&[1.0f32, 2.0, 3.0, 0.7, 1.5])) } else { None };
    let n = r.u(1, 3);
    let mut tags: Vec<Tag> = vec![];
    for _ in 0..n {
        let t = anim_tag(r);
        if !tags.iter().any(|x| std::mem::discriminant(x) == std::mem::discriminant(&t)) {
            tags.push(t);
        }
    }
    Tag::T(times, acc, tags)
}

#[derive(Clone, Copy)]
pub struct Size {
    pub w: u32,
    pub h: u32,
}

/// A drawing made of straight lines and curves inside a box of about `n` units.
pub fn drawing(r: &mut Rng, n: i64) -> String {
    let mut o = String::new();
    let p = |r: &mut Rng| format!("{} {}", num(r, 0, n), num(r, 0, n));
    for _ in 0..r.u(1, 2) {
        let _ = write!(o, "{}m {} ", if o.is_empty() { "" } else { " " }, p(r));
        for _ in 0..r.u(1, 3) {
            match r.below(5) {
                0..=2 => {
                    o.push_str("l ");
                    for _ in 0..r.u(1, 4) {
                        o.push_str(&p(r));
                        o.push(' ');
                    }
                }
                3 => {
                    o.push_str("b ");
                    for _ in 0..3 {
                        o.push_str(&p(r));
                        o.push(' ');
                    }
                }
                _ => {
                    o.push_str("s ");
                    for _ in 0..r.u(3, 5) {
                        o.push_str(&p(r));
                        o.push(' ');
                    }
                }
            }
        }
    }
    o.trim_end().to_string()
}

#[derive(Clone, Copy)]
pub struct EvOpts {
    pub anim: bool,
    pub drawing: bool,
    pub positioned: Option<bool>,
    pub karaoke: bool,
    pub multiline: bool,
    pub transforms: bool,
}

pub fn event(r: &mut Rng, styles: &[RStyle], play: (u32, u32), o: EvOpts) -> REvent {
    let start = r.below(300) as u32;
    let end = start + r.u(1, 400) as u32;
    let dur_ms = (end - start) * 10;
    let st = r.pick(styles);
    let (pw, ph) = (play.0 as i64, play.1 as i64);
    let mut head: Vec<Tag> = vec![];
    match o.positioned {
        Some(false) => {}
        _ => {
            if o.positioned == Some(true) || r.bool() {
                if o.anim && r.pct(30) {
                    let p = [num(r, 0, pw), num(r, 0, ph), num(r, 0, pw), num(r, 0, ph)];
                    let t = if r.bool() {
                        let a = r.below((dur_ms / 10) as usize) as u32 * 10;
                        Some((a, a + r.u(1, (dur_ms / 10) as usize) as u32 * 10))
                    } else {
                        None
                    };
                    head.push(Tag::Move(p, t));
                } else {
                    head.push(Tag::Pos(num(r, 0, pw), num(r, 0, ph)));
                }
            }
        }
    }
    if r.pct(40) {
        head.push(Tag::An(r.u(1, 9) as u8));
    }
    if r.pct(15) {
        let (x1, x2) = (num(r, 0, pw), num(r, 0, pw));
        let (y1, y2) = (num(r, 0, ph), num(r, 0, ph));
        head.push(Tag::Clip([x1.min(x2), y1.min(y2), x1.max(x2), y1.max(y2)], r.bool()));
    }
    if o.transforms && r.pct(12) {
        head.push(Tag::Org(num(r, 0, pw), num(r, 0, ph)));
    }
    if o.anim && r.pct(30) {
        if r.bool() {
            head.push(Tag::Fad(r.below(150) as u32 * 10, r.below(150) as u32 * 10));
        } else {
            let mut t = [0u32; 4];
            let mut x = 0;
            for v in &mut t {
                x += r.below(100) as u32 * 10;
                *v = x;
            }
            head.push(Tag::Fade([alpha(r), alpha(r), alpha(r)], t));
        }
    }
    let mut runs = vec![];
    if o.drawing && r.pct(25) {
        let mut tags = head;
        for _ in 0..r.below(3) {
            tags.push(match r.below(4) {
                0 => Tag::C(1, rgb(r), r.bool()),
                1 => Tag::Bord(num(r, 0, 3)),
                2 => Tag::Blur(num(r, 0, 3)),
                _ => Tag::C(3, rgb(r), false),
            });
        }
        tags.push(Tag::P(1));
        runs.push(Run { tags, text: drawing(r, 60) });
    } else {
        let n = r.u(1, 4);
        let kara = o.karaoke && r.pct(25);
        for i in 0..n {
            let mut tags = if i == 0 { std::mem::take(&mut head) } else { vec![] };
            if kara {
                tags.push(Tag::K(*r.pick(&["k", "kf", "ko", "K"]), r.u(1, 80) as u32));
            }
            for _ in 0..r.below(4) {
                let t = look_tag(r);
                if !o.transforms
                    && matches!(t, Tag::Frx(_) | Tag::Fry(_) | Tag::Frz(_) | Tag::Fax(_) | Tag::Fay(_))
                {
                    continue;
                }
                tags.push(t);
            }
            if i > 0 && r.pct(10) {
                tags.insert(0, Tag::R);
            }
            if o.anim && r.pct(25) {
                tags.push(t_tag(r, dur_ms));
            }
            let mut text = words(r, 3);
            if i + 1 < n {
                text.push(' ');
            }
            if o.multiline && r.pct(20) {
                text.push_str("\\N");
                text.push_str(&words(r, 2));
            }
            runs.push(Run { tags, text });
        }
    }
    REvent {
        comment: r.pct(5),
        layer: r.below(3) as i32,
        start,
        end,
        style: st.name.clone(),
        ml: if r.pct(80) { 0 } else { r.below(60) as u32 },
        mr: if r.pct(80) { 0 } else { r.below(60) as u32 },
        mv: if r.pct(80) { 0 } else { r.below(60) as u32 },
        runs,
    }
}

pub fn script(r: &mut Rng, o: EvOpts, max_events: usize) -> RScript {
    let play = match r.below(4) {
        0 => (384, 288),
        1 => (640, 360),
        2 => (r.u(100, 800) as u32, r.u(100, 600) as u32),
        _ => (320, 180),
    };
    let mut styles = vec![style(r, "Default")];
    for i in 0..r.below(3) {
        let n = format!("S{i}");
        styles.push(style(r, &n));
    }
    let n = r.u(1, max_events);
    let events = (0..n).map(|_| event(r, &styles, play, o)).collect();
    RScript {
        play: Some(play),
        layout: None,
        wrap: if r.bool() { Some(r.below(4) as u8) } else { None },
        sbas: if r.bool() { Some(r.bool()) } else { None },
        styles,
        events,
    }
}

pub const ALL: EvOpts =
    EvOpts { anim: true, drawing: true, positioned: None, karaoke: true, multiline: true, transforms: true };

pub fn size(r: &mut Rng, s: &RScript) -> Size {
    let (pw, ph) = s.play.unwrap_or((320, 180));
    match r.below(3) {
        0 => Size { w: pw.min(640), h: ph.min(360) },
        1 => Size { w: 256, h: 144 },
        _ => Size { w: r.u(40, 400) as u32, h: r.u(40, 300) as u32 },
    }
}

/// A time near something interesting of the script.
pub fn time(r: &mut Rng, s: &RScript) -> u32 {
    if s.events.is_empty() {
        return r.below(700) as u32;
    }
    let e = r.pick(&s.events);
    match r.below(5) {
        0 => e.start,
        1 => e.end,
        2 => e.end.saturating_sub(1),
        _ => e.start + r.below((e.end - e.start) as usize + 1) as u32,
    }
}
