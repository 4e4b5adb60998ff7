//! E10 subtitle formats: import and export of SRT, WebVTT, plain text and ASS.
use ass_core::parser::ast::{EventType, Section};
use ass_core::Script;
use ass_editor::formats::ass::AssFormat;
use ass_editor::formats::srt::SrtFormat;
use ass_editor::formats::webvtt::WebVttFormat;
use ass_editor::formats::{Format, FormatExporter, FormatImporter, FormatOptions, FormatRegistry};
use ass_editor::utils::formats::{export_to_file, import_from_file, ConversionOptions, FormatConverter, FormatOptions as VttOptions, SubtitleFormat};
use ass_editor::EditorDocument;
use hcommon::gen::{self, Opts};
use hcommon::*;

/// Which reader or writer is asked.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Srt,
    Vtt,
    /// the converters of `utils::formats`
    PlainSrt,
    PlainVtt,
}
use Kind::*;
impl Kind {
    fn srt(self) -> bool {
        matches!(self, Srt | PlainSrt)
    }
    fn rich(self) -> bool {
        matches!(self, Srt | Vtt)
    }
}
fn any_kind(r: &mut Rng) -> Kind {
    *r.pick(&[Srt, Vtt, PlainSrt, PlainVtt])
}

/// A colour that is the same in either byte order (see `colours`).
fn colour(r: &mut Rng) -> String {
    let (a, b) = (r.below(256), r.below(256));
    format!("{a:02X}{b:02X}{a:02X}")
}
fn plain(r: &mut Rng) -> String {
    r.pick(&["word", "12", "007", "NOTE this", "WEBVTT", "a, b", "émigré", "日本語", "😀", "5:00", "0:00:01.00", "x > y", "-", "'q'", "\"q\"", "Dialogue: 0", "[Events]", "; no", "one two", "STYLE"]).to_string()
}

/// One line of a cue: what the cue says and what the event is to say.
fn cue_line(r: &mut Rng, k: Kind, first: bool) -> (String, String) {
    let (mut c, mut a) = (String::new(), String::new());
    let _ = first;
    for n in 0..r.u(1, 4) {
        if n > 0 && r.bool() {
            c.push(' ');
            a.push(' ');
        }
        let w = plain(r);
        match r.below(9) {
            0 => {
                let t = *r.pick(&["b", "i", "u"]);
                c += &format!("<{t}>{w}</{t}>");
                a += &format!("{{\\{t}1}}{w}{{\\{t}0}}");
            }
            1 => {
                c += &format!("<b><i>{w}</i></b>");
                a += &format!("{{\\b1}}{{\\i1}}{w}{{\\i0}}{{\\b0}}");
            }
            2 if k == Srt => {
                c += &format!("<s>{w}</s>");
                a += &format!("{{\\s1}}{w}{{\\s0}}");
            }
            3 if k == Srt => {
                let x = colour(r);
                match r.below(4) {
                    0 => {
                        c += &format!("<font color=\"#{x}\">{w}</font>");
                        a += &format!("{{\\c&H{x}&}}{w}{{\\c}}");
                    }
                    1 => {
                        c += &format!("<font face=\"Some Font\">{w}</font>");
                        a += &format!("{{\\fnSome Font}}{w}{{\\fn}}");
                    }
                    2 => {
                        c += &format!("<font color=\"#{x}\"><font face=\"Arial\">{w}</font></font>");
                        a += &format!("{{\\c&H{x}&}}{{\\fnArial}}{w}{{\\fn}}{{\\c}}");
                    }
                    _ => {
                        c += &format!("<font face=\"Arial\" color=\"#{x}\">{w}</font>");
                        a += &format!("{{\\c&H{x}&\\fnArial}}{w}{{\\c\\fn}}");
                    }
                }
            }
            4 if k == Vtt => {
                let x = colour(r);
                c += &format!("<c.{x}>{w}</c>");
                a += &format!("{{\\c&H{x}&}}{w}{{\\c}}");
            }
            5 if k == Vtt => match r.below(2) {
                0 => {
                    c += &format!("<ruby>{w}<rt>up</rt></ruby>");
                    a += &format!("{w}(up)");
                }
                _ => {
                    c += &format!("<00:00:0{}.000>{w}", r.below(9));
                    a += &w;
                }
            },
            6 if !k.rich() => {
                let t = *r.pick(&["font color=\"#00FF00\"", "c.red", "v Bob", "ruby"]);
                c += &format!("<{t}>{w}</{}>", &t[..1]);
                a += &w;
            }
            _ => {
                c += &w;
                a += &w;
            }
        }
    }
    (c, a)
}

fn ass_time(ms: u64) -> String {
    let cs = ms / 10;
    format!("{}:{:02}:{:02}.{:02}", cs / 360_000, cs / 6000 % 60, cs / 100 % 60, cs % 100)
}
fn cue_time(ms: u64, sep: char) -> String {
    format!("{:02}:{:02}:{:02}{sep}{:03}", ms / 3_600_000, ms / 60_000 % 60, ms / 1000 % 60, ms % 1000)
}
fn any_ms(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(1000) as u64,
        1 => *r.pick(&[0, 9, 10, 999, 1000, 59_999, 60_000, 3_599_999, 3_600_000, 35_999_990, 36_000_000, 359_999_999, 360_000_000]),
        2 => r.below(400 * 3_600_000) as u64,
        _ => r.below(3 * 3_600_000) as u64,
    }
}
/// Events of a text, as (start, end, style, text).
fn events_of(t: &str) -> Result<Vec<(String, String, String, String)>, Fail> {
    let s = match Script::parse(t) {
        Ok(s) => s,
        Err(e) => return fail("unparsable", format!("{e} {t:?}")),
    };
    Ok(s.sections()
        .iter()
        .filter_map(|s| match s {
            Section::Events(e) => Some(e),
            _ => None,
        })
        .flatten()
        .filter(|e| e.event_type == EventType::Dialogue)
        .map(|e| (e.start.to_string(), e.end.to_string(), e.style.to_string(), e.text.to_string()))
        .collect())
}

/// Import of well-formed cues, some files with broken ones between.
pub fn import(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let k = any_kind(r);
    let nl = if r.pct(30) { "\r\n" } else { "\n" };
    let broken = k.rich() && r.pct(25);
    let mut t = String::new();
    if r.pct(20) {
        t.push('\u{feff}');
    }
    if !k.srt() {
        t += r.pick(&["WEBVTT", "WEBVTT - some title", "WEBVTT\tx"]);
        t += nl;
        t += nl;
    } else if r.pct(10) && !t.starts_with('\u{feff}') {
        t += nl;
    }
    let mut want = vec![];
    let mut bad = 0;
    let n = r.below(6);
    for i in 0..n {
        if broken && r.bool() {
            bad += 1;
            let s = if k.srt() { ',' } else { '.' };
            t += &match r.below(5) {
                0 => format!("stray words{nl}and more{nl}{nl}"),
                1 => format!("{i}{nl}00:61:00{s}000 --> 00:00:02{s}000{nl}never{nl}{nl}"),
                2 => format!("{i}{nl}00:00:01{s}000 --> {nl}never{nl}{nl}"),
                3 => format!("{i}{nl}a:b:c{s}0 --> 00:00:02{s}000{nl}never{nl}{nl}"),
                _ => format!("{i}{nl}00:00:01{s}000 --> 00:00:75{s}000{nl}never{nl}{nl}"),
            };
        }
        if !k.srt() && r.pct(20) {
            t += &format!("NOTE a remark{nl}{nl}");
        }
        let (from, to) = (any_ms(r), any_ms(r));
        let mut pre = String::new();
        if k.srt() {
            t += &format!("{}{nl}{} --> {}", i + 1, cue_time(from, ','), cue_time(to, ','));
            if r.pct(10) {
                t += "  X1:40 X2:600 Y1:20 Y2:50";
            }
        } else {
            if r.bool() {
                t += &format!("{}{nl}", r.pick(&["1", "intro", "NOTEBOOK"]));
            }
            let short = |ms: u64| if ms < 3_600_000 { cue_time(ms, '.')[3..].to_string() } else { cue_time(ms, '.') };
            let (a, b) = if r.bool() { (short(from), short(to)) } else { (cue_time(from, '.'), cue_time(to, '.')) };
            t += &format!("{a} --> {b}");
            if r.pct(30) {
                // settings stand before the text of the event
                let mut tags = String::new();
                if r.bool() {
                    let (l, p) = (r.below(101), r.below(101));
                    t += &format!(" line:{l}% position:{p}%");
                    let pc = |a: usize, b: usize| ((a as f32 / 100.0) * b as f32).round() as u32;
                    tags += &format!("\\pos({},{})", pc(p, 640), pc(l, 480));
                }
                if r.bool() {
                    let (n, a) = *r.pick(&[("start", 1), ("left", 1), ("center", 2), ("middle", 2), ("end", 3), ("right", 3)]);
                    t += &format!(" align:{n}");
                    tags += &format!("\\an{a}");
                }
                if r.pct(20) {
                    t += " size:80%";
                }
                if k == Vtt && !tags.is_empty() {
                    pre = format!("{{{tags}}}");
                }
            }
        }
        t += nl;
        let mut lines = vec![];
        for l in 0..r.u(1, 3) {
            let (c, a) = cue_line(r, k, l == 0);
            t += &c;
            t += nl;
            lines.push(a);
        }
        if i + 1 < n || r.bool() {
            t += nl;
            if r.pct(20) {
                t += nl;
            }
        }
        want.push((ass_time(from), ass_time(to), "Default".to_string(), format!("{pre}{}", lines.join("\\N"))));
    }
    cx.set_input(format!("{k:?}\n{t}"));
    let o = FormatOptions::default();
    let ctx = || format!("{k:?} {t:?}");
    let text = match k {
        Srt | Vtt => {
            let (f, name, count): (Box<dyn Format>, _, _) = if k == Srt { (Box::new(SrtFormat::new()), "SRT", "subtitles_count") } else { (Box::new(WebVttFormat::new()), "WebVTT", "cues_count") };
            let (d, res) = match f.import_from_string(&t, &o) {
                Ok(x) => x,
                Err(e) => return fail("import-refused", format!("{e} {}", ctx())),
            };
            ensure!(res.success && res.lines_processed == n, "import-count", "{res:?} want {n} {}", ctx());
            ensure!(res.metadata.get("original_format").is_some_and(|m| m == name), "import-format", "{res:?}");
            ensure!(res.metadata.get(count).is_some_and(|m| *m == n.to_string()), "import-metadata", "{res:?} want {n}");
            if bad > 0 {
                ensure!(!res.warnings.is_empty(), "import-no-warning", "{}", ctx());
            }
            d.text()
        }
        PlainSrt | PlainVtt => {
            let f = if k == PlainSrt { SubtitleFormat::SRT } else { SubtitleFormat::WebVTT };
            // named, or recognised by its first line
            let named = n == 0 || t.contains("[Events]") || cx.rng.bool();
            match FormatConverter::import(&t, named.then_some(f)) {
                Ok(x) => x,
                Err(e) => return fail("import-refused", format!("{e} {}", ctx())),
            }
        }
    };
    let got = events_of(&text)?;
    ensure!(got == want, "import-events", "{}\ngot  {got:?}\nwant {want:?}", ctx());
    let has_style = Script::parse(&text).unwrap().sections().iter().any(|s| matches!(s, Section::Styles(v) if v.iter().any(|s| s.name == "Default")));
    ensure!(has_style, "import-style", "{text:?}");
    cx.obs("cues_imported", n as u64);
    cx.obs("broken_cues", bad);
    cx.state(&(k, n, bad, want.iter().map(|w| w.3.len()).collect::<Vec<_>>()));
    Ok(())
}

/// Text of an event with what each writer makes of it.
fn event_text(r: &mut Rng) -> (String, [String; 5]) {
    let mut t = String::new();
    let mut o: [String; 5] = Default::default(); // Srt Vtt PlainSrt PlainVtt stripped
    let put = |o: &mut [String; 5], s: &str| o.iter_mut().for_each(|x| x.push_str(s));
    for _ in 0..r.below(8) {
        match r.below(12) {
            0..=3 => {
                let w = plain(r);
                t += &w;
                put(&mut o, &w);
            }
            4 => {
                t += r.pick(&["\\N", "\\n"]);
                put(&mut o, "\n");
            }
            5 => {
                t += "\\h";
                put(&mut o, "\u{a0}");
            }
            6 => {
                t.push(' ');
                put(&mut o, " ");
            }
            7 => t += r.pick(&["{a remark}", "{}", "{\\pos(3,4)}", "{\\t(0,100,\\b1\\i1)}", "{\\bord2\\be1}", "{\\fad(1,2)}", "{\\r}", "{\\b700}", "{\\k20}", "{\\clip(1,2,3,4)}", "{\\iclip(m 0 0 l 1 1)}", "{\\c&HFF&}"]),
            8 => {
                let w = r.pick(&["m 0 0 l 10 10", "m 0 0 \\N l 1 1", "{\\i2}m 1 1"]);
                t += &format!("{{\\p{}}}{w}{{\\p0}}", r.u(1, 4));
            }
            _ => {
                // one to three tags of a block
                t.push('{');
                if r.pct(15) {
                    t += "remark";
                }
                for _ in 0..r.u(1, 3) {
                    if r.pct(15) {
                        t += r.pick(&["\\bord3", "\\an8", "\\blur1", "\\t(\\u1)", "\\fs20", "\\shad0", "\\fscx90", "\\ie1"]);
                    }
                    match r.below(4) {
                        0 | 1 => {
                            let (n, on) = (*r.pick(&["b", "i", "u", "s"]), r.bool());
                            t += &format!("\\{n}{}", u8::from(on));
                            let m = if on { format!("<{n}>") } else { format!("</{n}>") };
                            o[0] += &m;
                            if n != "s" {
                                o[1] += &m;
                                o[2] += &m;
                                o[3] += &m;
                            }
                        }
                        2 => {
                            let n = r.pick(&["c", "1c"]);
                            if r.pct(40) {
                                t += &format!("\\{n}");
                                o[0] += "</font>";
                                o[1] += "</c>";
                            } else {
                                let x = colour(r);
                                t += &format!("\\{n}&H{x}&");
                                o[0] += &format!("<font color=\"#{x}\">");
                                o[1] += &format!("<c.{x}>");
                            }
                        }
                        _ => {
                            if r.pct(40) {
                                t += "\\fn";
                                o[0] += "</font>";
                                o[1] += "</v>";
                            } else {
                                let f = r.pick(&["Arial", "Some Font", "fn1"]);
                                t += &format!("\\fn{f}");
                                o[0] += &format!("<font face=\"{f}\">");
                                o[1] += &format!("<v {f}>");
                            }
                        }
                    }
                }
                t.push('}');
            }
        }
    }
    // the parser trims the text of an event
    let lead = t.len() - t.trim_start().len();
    let trail = t.trim_start().len() - t.trim().len();
    for x in &mut o {
        *x = x[lead..x.len() - trail].to_string();
        *x = x.lines().filter(|l| !l.trim().is_empty()).collect::<Vec<_>>().join("\n");
    }
    (t.trim().to_string(), o)
}

/// A file of cues read in the simplest way: (number or identifier, time line, text).
fn paragraphs(t: &str) -> Vec<Vec<&str>> {
    let mut v = vec![];
    let mut cur = vec![];
    for l in t.split('\n') {
        if l.is_empty() {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(l);
        }
    }
    v.extend((!cur.is_empty()).then_some(cur));
    v
}

/// Export of the events of a document.
pub fn export(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut t = String::from("[Script Info]\nTitle: x\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize\nStyle: Default,Arial,20\n");
    let mut want = vec![];
    let mut raw = vec![];
    let mut bad = 0;
    for _ in 0..if r.pct(10) { 2 } else { 1 } {
        t += "\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
        for _ in 0..r.below(6) {
            let (x, o) = event_text(r);
            let kind = *r.pick(&["Dialogue", "Dialogue", "Dialogue", "Comment"]);
            let (a, b) = (any_ms(r) / 10 * 10, any_ms(r) / 10 * 10);
            if kind == "Dialogue" && r.pct(6) {
                bad += 1;
                t += &format!("Dialogue: 0,{},0:00:01.00,Default,,0,0,0,,{x}\n", r.pick(&["0:61:00.00", "x", "0:00:99.00", "", "1:2"]));
                continue;
            }
            t += &format!("{kind}: 0,{},{},Default,,0,0,0,,{x}\n", ass_time(a), ass_time(b));
            if kind == "Dialogue" {
                raw.push(x);
                want.push((a, b, o));
            }
        }
    }
    let k = any_kind(r);
    let strip = !k.rich() && r.pct(40);
    if !k.rich() && bad > 0 {
        return Ok(()); // the plain converters write such a time as it stands
    }
    let style_block = r.bool();
    cx.set_input(format!("{k:?} strip {strip}\n{t}"));
    let d = match EditorDocument::from_content(&t) {
        Ok(d) => d,
        Err(e) => return fail("document", format!("{e} {t:?}")),
    };
    let out = match k {
        Srt | Vtt => {
            let f: Box<dyn FormatExporter> = if k == Srt { Box::new(SrtFormat::new()) } else { Box::new(WebVttFormat::new()) };
            let enc = *cx.rng.pick(&["UTF-8", "utf-8", "latin1"]);
            let o = FormatOptions { encoding: enc.into(), ..Default::default() };
            let (x, res) = match f.export_to_string(&d, &o) {
                Ok(x) => x,
                Err(e) => return fail("export-refused", format!("{e} {t:?}")),
            };
            ensure!(res.success && res.lines_processed == want.len(), "export-count", "{res:?} want {}", want.len());
            let warned = bad + usize::from(enc == "latin1");
            ensure!(res.warnings.len() == warned, "export-warnings", "{res:?} want {warned}");
            x
        }
        _ => {
            let f = if k == PlainSrt { SubtitleFormat::SRT } else { SubtitleFormat::WebVTT };
            let o = ConversionOptions {
                strip_formatting: strip,
                format_options: VttOptions::WebVTT { include_style_block: style_block, include_notes: false, use_cue_settings: false },
                ..Default::default()
            };
            match FormatConverter::export(&d, f, &o) {
                Ok(x) => x,
                Err(e) => return fail("export-refused", format!("{e} {t:?}")),
            }
        }
    };
    let mut ps = paragraphs(&out);
    if !k.srt() {
        ensure!(ps.first().is_some_and(|p| *p == ["WEBVTT"]), "export-header", "{out:?}");
        ps.remove(0);
        if k == PlainVtt && style_block {
            ensure!(ps.first().is_some_and(|p| p[0] == "STYLE"), "export-style-block", "{out:?}");
            ps.remove(0);
        }
    }
    ensure!(ps.len() == want.len(), "export-cues", "{} of {} cues\n{t}\n{out}", ps.len(), want.len());
    let which = if strip { 4 } else { k as usize };
    for (i, (p, (a, b, o))) in ps.iter().zip(&want).enumerate() {
        let mut p = &p[..];
        if k != PlainVtt {
            ensure!(p[0] == (i + 1).to_string(), "export-number", "{p:?} want {} in\n{out}", i + 1);
            p = &p[1..];
        }
        let sep = if k.srt() { ',' } else { '.' };
        let times = format!("{} --> {}", cue_time(*a, sep), cue_time(*b, sep));
        ensure!(p.first().is_some_and(|l| *l == times), "export-times", "{p:?} want {times:?} in\n{out}");
        let text = p[1..].join("\n");
        ensure!(text == o[which], "export-text", "{:?}\ngot  {text:?}\nwant {:?}", raw[i], o[which]);
    }
    cx.obs("cues_exported", want.len() as u64);
    cx.obs("unwritable_times", bad as u64);
    // plain text
    let stripped = cx.rng.bool();
    if let Ok(x) = FormatConverter::export(&d, SubtitleFormat::PlainText, &ConversionOptions { strip_formatting: stripped, ..Default::default() }) {
        if bad == 0 {
            let lines: String = if stripped { want.iter().map(|w| format!("{}\n", w.2[4])).collect() } else { raw.iter().map(|x| format!("{}\n", x.replace("\\N", "\n"))).collect() };
            ensure!(x == lines, "plain-text", "got  {x:?}\nwant {lines:?}\n{t}");
            cx.obs("plain_texts", 1);
        }
    }
    cx.state(&(k, strip, ps.iter().map(|p| p.len()).collect::<Vec<_>>()));
    Ok(())
}

/// What a file says is the same after a way through a document and back.
pub fn round_trip(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let k = if r.bool() { Srt } else { Vtt };
    let sep = if k.srt() { ',' } else { '.' };
    let mut t = if k == Vtt { String::from("WEBVTT\n\n") } else { String::new() };
    for i in 0..r.u(1, 5) {
        t += &format!("{}\n{} --> {}\n", i + 1, cue_time(any_ms(r) / 10 * 10, sep), cue_time(any_ms(r) / 10 * 10, sep));
        for l in 0..r.u(1, 3) {
            let mut line = cue_line(r, k, l == 0).0;
            // what has no counterpart in an event
            while line.contains("<ruby") || line.contains("<0") || line.contains("face=\"Arial\" color") {
                line = cue_line(r, k, l == 0).0;
            }
            t += &line;
            t.push('\n');
        }
        t.push('\n');
    }
    cx.set_input(t.clone());
    let f: Box<dyn Format> = if k == Srt { Box::new(SrtFormat::new()) } else { Box::new(WebVttFormat::new()) };
    let o = FormatOptions::default();
    let out = f.import_from_string(&t, &o).and_then(|(d, _)| f.export_to_string(&d, &o));
    match out {
        Ok((x, _)) => ensure!(x == t, "round-trip", "{k:?}\n{t}\nbecame\n{x}"),
        Err(e) => return fail("round-trip-refused", format!("{e} {t}")),
    }
    cx.obs("round_trips", 1);
    cx.state(&t);
    Ok(())
}

/// Any text whatever may be imported or exported.
pub fn anything(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let pieces = [
        "WEBVTT", "\n", "\n\n", "\r\n", "1", "-->", " --> ", "00:00:01,000", "00:00:01.000", "00:01", "99999999999:00:00,000", "4294967295:59:59.999", "é", "<b>", "</i>", "<font ", "color=\"#", "face=\"", "\">",
        "<c.", "<v ", "</v>", "<ruby>", "{", "}", "\\N", "\\p1", "line:", "50%", "align:", ":", ",", ".", "NOTE", "\u{feff}", "<", ">", "[Events]", "text", "00:00:01,000 --> 00:00:02,000\n", "00:01.000 --> 00:02.000\n",
        "00:00:01.000 -->\n", "line:-5% position:1e30%", "line:NaN% position:inf%",
    ];
    let t: String = match r.below(4) {
        0 => gen::any_script(r),
        1 => gen::soup(r, 30),
        _ => (0..r.below(40)).map(|_| *r.pick(&pieces)).collect(),
    };
    cx.set_input(t.clone());
    let o = FormatOptions { preserve_formatting: cx.rng.bool(), ..Default::default() };
    let fs: [Box<dyn Format>; 3] = [Box::new(SrtFormat::new()), Box::new(WebVttFormat::new()), Box::new(AssFormat::new())];
    for f in &fs {
        if let Ok((d, res)) = f.import_from_string(&t, &o) {
            cx.obs("files_imported", 1);
            if f.name() != "ASS" {
                let n = events_of(&d.text())?.len();
                ensure!(n == res.lines_processed, "imported-lines", "{} says {} of {n} in {:?} from {t:?}", f.name(), res.lines_processed, d.text());
            }
            for g in &fs {
                let _ = g.export_to_string(&d, &o);
            }
        }
    }
    for f in [None, Some(SubtitleFormat::SRT), Some(SubtitleFormat::WebVTT), Some(SubtitleFormat::PlainText), Some(SubtitleFormat::SSA), Some(SubtitleFormat::ASS)] {
        if let Ok(x) = FormatConverter::import(&t, f) {
            cx.obs("files_imported", 1);
            if let Ok(d) = EditorDocument::from_content(&x) {
                for g in [SubtitleFormat::ASS, SubtitleFormat::SSA, SubtitleFormat::SRT, SubtitleFormat::WebVTT, SubtitleFormat::PlainText] {
                    let _ = FormatConverter::export(&d, g, &ConversionOptions::default());
                }
            }
        }
    }
    cx.state(&t);
    Ok(())
}

/// ASS files, plain text, the registry and files on disk.
pub fn files(cx: &mut Cx) -> R {
    let o = Opts::random(&mut cx.rng);
    let t = gen::script(&mut cx.rng, o).text;
    cx.set_input(t.clone());
    let Ok(d) = EditorDocument::from_content(&t) else { return Ok(()) };
    let f = AssFormat::new();
    let opt = FormatOptions::default();
    let same = f.export_to_string(&d, &opt);
    ensure!(same.as_ref().is_ok_and(|(x, r)| *x == t && r.warnings.is_empty()), "ass-export", "{same:?} want {t:?}");
    let back = f.import_from_string(&t, &opt);
    ensure!(back.as_ref().is_ok_and(|(d, _)| d.text() == t), "ass-import", "{back:?} want {t:?}");
    let n = Script::parse(&t).map(|s| s.sections().len()).unwrap_or(0);
    ensure!(back.is_ok_and(|(_, r)| r.metadata.get("sections").is_some_and(|s| *s == n.to_string())), "ass-sections", "{n} {t:?}");
    let norm = f.export_to_string(&d, &FormatOptions { preserve_formatting: false, ..Default::default() });
    let want = Script::parse(&t).unwrap().to_ass_string();
    ensure!(norm.is_ok_and(|(x, _)| x == want), "ass-normalised", "{t:?}");

    // the registry, on disk
    let dir = std::env::temp_dir().join(format!("verif-e10-{}-{:016x}", std::process::id(), cx.rng.u64()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let res = on_disk(cx, &dir, &t, &d);
    std::fs::remove_dir_all(&dir).expect("scratch directory");
    res?;
    cx.obs("ass_files", 1);
    cx.state(&t);
    Ok(())
}
fn on_disk(cx: &mut Cx, dir: &std::path::Path, t: &str, d: &EditorDocument) -> R {
    let mut reg = FormatRegistry::new();
    let mut known: Vec<&str> = vec![];
    if cx.rng.pct(80) {
        reg.register_format(Box::new(AssFormat::new()));
        known.push("ass");
    }
    if cx.rng.pct(80) {
        if cx.rng.bool() {
            reg.register_format(Box::new(SrtFormat::new()));
        } else {
            reg.register_importer(Box::new(SrtFormat::new()));
            reg.register_exporter(Box::new(SrtFormat::new()));
        }
        known.push("srt");
    }
    if cx.rng.pct(80) {
        reg.register_format(Box::new(WebVttFormat::new()));
        known.extend(["vtt", "webvtt"]);
    }
    known.sort();
    ensure!(reg.supported_import_extensions() == known && reg.supported_export_extensions() == known, "registry-extensions", "{:?} want {known:?}", reg.supported_import_extensions());
    for ext in ["ass", "srt", "vtt", "webvtt", "SRT", "txt", ""] {
        let known = known.contains(&ext.to_lowercase().as_str());
        let path = dir.join(if ext.is_empty() { "bare".into() } else { format!("f.a.{ext}") });
        ensure!(reg.find_importer(ext).is_some() == known && reg.find_exporter(ext).is_some() == known, "registry-find", "{ext:?}");
        let res = reg.export_file(d, &path, None);
        ensure!(res.is_ok() == known, "registry-export", "{ext:?} {res:?}");
        ensure!(path.exists() == known, "registry-file", "{ext:?}");
        if !known {
            std::fs::write(&path, "x").unwrap();
            ensure!(reg.import_file(&path, None).is_err(), "registry-import-unknown", "{ext:?}");
            continue;
        }
        let on_disk = std::fs::read_to_string(&path).unwrap();
        let direct: String = match ext.to_lowercase().as_str() {
            "ass" => t.to_string(),
            "srt" => SrtFormat::new().export_to_string(d, &FormatOptions::default()).map(|x| x.0).unwrap_or_default(),
            _ => WebVttFormat::new().export_to_string(d, &FormatOptions::default()).map(|x| x.0).unwrap_or_default(),
        };
        ensure!(on_disk == direct, "registry-content", "{ext:?} {on_disk:?} want {direct:?}");
        let back = reg.import_file(&path, None);
        ensure!(back.is_ok(), "registry-import", "{ext:?} {back:?}");
        if ext == "ass" {
            ensure!(back.is_ok_and(|(x, _)| x.text() == t), "registry-ass", "{t:?}");
        }
        cx.obs("registry_files", 1);
    }
    // the converters, on disk
    for (ext, f) in [("ass", SubtitleFormat::ASS), ("srt", SubtitleFormat::SRT), ("vtt", SubtitleFormat::WebVTT), ("txt", SubtitleFormat::PlainText), ("odd", SubtitleFormat::ASS), ("VTT", SubtitleFormat::WebVTT)] {
        let path = dir.join(format!("g.{ext}"));
        let p = path.to_str().unwrap();
        let o = ConversionOptions::default();
        let res = export_to_file(d, p, None, &o);
        ensure!(res.is_ok(), "file-export", "{ext} {res:?}");
        let on_disk = std::fs::read_to_string(&path).unwrap();
        ensure!(FormatConverter::export(d, f, &o).is_ok_and(|x| x == on_disk), "file-content", "{ext} {on_disk:?}");
        if f == SubtitleFormat::ASS {
            ensure!(on_disk == t, "file-ass", "{on_disk:?} want {t:?}");
        }
        if ext != "odd" {
            let got = import_from_file(p).map(|d| d.text());
            let want = FormatConverter::import(&on_disk, Some(f)).and_then(|x| EditorDocument::from_content(&x).map(|_| x));
            ensure!(got.is_ok() == want.is_ok() && got.as_ref().ok() == want.as_ref().ok(), "file-import", "{ext} {got:?} want {want:?}");
        }
        let e = SubtitleFormat::from_extension(ext);
        ensure!(e == (ext != "odd").then_some(f), "extension", "{ext} {e:?}");
    }
    // a document and its file
    let path = dir.join("h.ass");
    let p = path.to_str().unwrap();
    let mut a = EditorDocument::from_content(t).unwrap();
    ensure!(a.save().is_err() && a.file_path().is_none(), "save-without-a-name", "{:?}", a.file_path());
    let edit = gen::word(&mut cx.rng);
    a.insert(ass_editor::Position::new(a.len_bytes()), &edit).unwrap();
    ensure!(a.is_modified(), "modified", "");
    let want = format!("{t}{edit}");
    let res = a.save_to_file(p);
    ensure!(res.is_ok() && !a.is_modified() && a.file_path() == Some(p), "save-to-file", "{res:?} {:?}", a.file_path());
    ensure!(std::fs::read_to_string(&path).unwrap() == want && a.text() == want, "saved-text", "{:?}", a.text());
    match EditorDocument::from_file(p) {
        Ok(b) => ensure!(b.text() == want && !b.is_modified() && b.file_path() == Some(p), "loaded", "{:?} {:?} want {want:?}", b.text(), b.file_path()),
        Err(e) => return fail("load", format!("{e} {want:?}")),
    }
    a.insert(ass_editor::Position::new(0), "; x\n").unwrap();
    ensure!(a.is_modified() && a.save().is_ok() && !a.is_modified(), "save", "");
    ensure!(std::fs::read_to_string(&path).unwrap() == format!("; x\n{want}"), "saved-again", "");
    // a name that cannot be written
    a.insert(ass_editor::Position::new(0), "; y\n").unwrap();
    let nowhere = dir.join("none").join("h.ass");
    let res = a.save_to_file(nowhere.to_str().unwrap());
    ensure!(res.is_err() && a.is_modified() && a.file_path() == Some(p), "save-nowhere", "{res:?} {:?}", a.file_path());
    cx.obs("documents_saved", 2);
    Ok(())
}

/// Plain text in, and which format a text is in.
pub fn plain_text(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let lines: Vec<String> = (0..r.u(1, 5)).map(|_| plain(r)).collect();
    let nl = if r.bool() { "\n" } else { "\r\n" };
    let t = lines.join(nl) + if r.bool() { nl } else { "" };
    cx.set_input(t.clone());
    let got = match FormatConverter::import(&t, Some(SubtitleFormat::PlainText)) {
        Ok(x) => events_of(&x)?,
        Err(e) => return fail("plain-import", format!("{e} {t:?}")),
    };
    let want = vec![("0:00:00.00".to_string(), "0:00:05.00".to_string(), "Default".to_string(), lines.join("\\N"))];
    ensure!(got == want, "plain-import-events", "{got:?} want {want:?}");
    let bom = if cx.rng.bool() { "\u{feff}" } else { "" };
    for (s, f) in [
        (format!("{bom}[Script Info]\nTitle: a --> b\n"), SubtitleFormat::ASS),
        (format!("{bom}WEBVTT\n\n00:01.000 --> 00:02.000\nx\n"), SubtitleFormat::WebVTT),
        (format!("{bom}1\n00:00:01,000 --> 00:00:02,000\nx\n"), SubtitleFormat::SRT),
        (format!("{bom}just words\n"), SubtitleFormat::PlainText),
    ] {
        ensure!(SubtitleFormat::from_content(&s) == f, "from-content", "{s:?} is {:?}", SubtitleFormat::from_content(&s));
    }
    cx.obs("plain_imports", 1);
    cx.state(&t);
    Ok(())
}

/// A font colour is red, green, blue in a cue and blue, green, red in an event.
pub fn colours(cx: &mut Cx) -> R {
    let [a, b, c] = [cx.rng.below(256), cx.rng.below(256), cx.rng.below(256)];
    if a == c {
        return Ok(());
    }
    let t = format!("1\n00:00:01,000 --> 00:00:02,000\n<font color=\"#{a:02X}{b:02X}{c:02X}\">x</font>\n\n");
    cx.set_input(t.clone());
    cx.obs("colours", 1);
    let f = SrtFormat::new();
    let o = FormatOptions::default();
    let (d, _) = f.import_from_string(&t, &o).map_err(|e| Fail { sig: "colour-import".into(), detail: e.to_string() })?;
    ensure!(!d.text().contains(&format!("\\c&H{a:02X}{b:02X}{c:02X}&")), "the colour of a <font> tag keeps its byte order (probe colours)", "{:?}", d.text());
    ensure!(d.text().contains(&format!("\\c&H{c:02X}{b:02X}{a:02X}&")), "font-colour", "{:?}", d.text());
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E10",
        rule: "a distinct case is a distinct (format, cues, lengths of their texts), or a distinct file",
        assumptions: &[
            "Texts of cues hold no braces, backslashes or markup of their own.",
            "Voices, colour names, STYLE blocks and escapes of WebVTT are not judged, nor is the SSA header.",
        ],
        must_observe: &[
            "cues_imported", "broken_cues", "cues_exported", "unwritable_times", "plain_texts", "round_trips", "files_imported", "ass_files", "registry_files", "documents_saved", "plain_imports", "colours",
        ],
        monitors: vec![
            mon("import", 100_000, 1_500_000, import),
            mon("export", 100_000, 1_500_000, export),
            mon("round-trip", 60_000, 400_000, round_trip),
            mon("anything", 60_000, 400_000, anything),
            mon("files", 9_000, 60_000, files),
            mon("plain-text", 15_000, 100_000, plain_text),
            mon("colours", 100, 1_000, colours),
        ],
    }]
}
