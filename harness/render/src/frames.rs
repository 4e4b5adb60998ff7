//! R01 totality, R02 history independence, R04 bitmap list, R05 frame
//! invariants, R09 incremental rendering, R10 concurrency.

use crate::rgen::{self, *};
use ass_core::parser::Script;
use ass_renderer::backends::coverage::{composite_bitmap, RenderBitmap};
use ass_renderer::{BackendType, Frame, RenderContext, Renderer};
use hcommon::*;
use std::sync::OnceLock;

pub fn db() -> &'static fontdb::Database {
    static D: OnceLock<fontdb::Database> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = fontdb::Database::new();
        d.load_system_fonts();
        d
    })
}

pub fn ctx(w: u32, h: u32) -> RenderContext {
    RenderContext::with_font_database(w, h, fontdb::Database::new())
}

pub fn renderer(w: u32, h: u32) -> Renderer {
    Renderer::new(BackendType::Software, ctx(w, h)).expect("software renderer")
}

pub fn err<T>(r: Result<T, ass_renderer::RenderError>, what: &str) -> R<T> {
    r.map_err(|e| Fail { sig: "render-error".into(), detail: format!("{what}: {e}") })
}

pub fn frame(s: &Script, t: u32, w: u32, h: u32) -> R<Frame> {
    err(renderer(w, h).render_frame(s, t), "render_frame")
}

pub fn diff(a: &[u8], b: &[u8], w: u32) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("sizes {} and {}", a.len(), b.len()));
    }
    let mut n = 0;
    let mut first = None;
    let mut maxd = 0;
    for (i, (x, y)) in a.chunks_exact(4).zip(b.chunks_exact(4)).enumerate() {
        if x != y {
            n += 1;
            if first.is_none() {
                first = Some((i as u32 % w, i as u32 / w, x.to_vec(), y.to_vec()));
            }
            for (p, q) in x.iter().zip(y) {
                maxd = maxd.max(p.abs_diff(*q));
            }
        }
    }
    first.map(|(x, y, p, q)| format!("{n} pixels differ (max {maxd}), first at {x},{y}: {p:?} vs {q:?}"))
}

pub fn max_diff(a: &[u8], b: &[u8]) -> u8 {
    a.iter().zip(b).map(|(x, y)| x.abs_diff(*y)).max().unwrap_or(0)
}

/// Blurred pixels are known to come out brighter than their alpha allows; see `blur_colour`.
fn blurs(text: &str) -> bool {
    text.contains("\\blur") || text.contains("\\be")
}

/// The fixed inputs behind the listed finding: one blurred drawing and one blurred line.
fn blur_colour(cx: &mut Cx) -> R {
    for body in ["{\\an7\\pos(300,200)\\blur20\\p1}m 0 0 l 80 0 80 80 0 80", "{\\an7\\pos(40,40)\\blur6}glow"] {
        let text = format!("[Script Info]\nPlayResX: 640\nPlayResY: 360\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour\nStyle: Default,Arial,40,&H00FFFFFF\n\n[Events]\nFormat: Layer, Start, End, Style, Text\nDialogue: 0,0:00:00.00,0:00:10.00,Default,{body}\n");
        cx.set_input(text.clone());
        let s = Script::parse(&text).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
        let f = frame(&s, 100, 640, 360)?;
        cx.obs("blurred_probes", 1);
        let bad = f.data().chunks_exact(4).filter(|p| p[0] > p[3] || p[1] > p[3] || p[2] > p[3]).count();
        ensure!(bad == 0, "the soft edge of a \\blur has colour above its alpha (probe blur_colour)", "{bad} pixels of {body}");
    }
    Ok(())
}

fn check_frame(f: &Frame, w: u32, h: u32, t: u32, blurred: bool) -> R {
    ensure!(f.width() == w && f.height() == h, "frame-size", "frame is {}x{}, context {w}x{h}", f.width(), f.height());
    ensure!(f.data().len() == (w * h * 4) as usize, "buffer-size", "buffer {} for {w}x{h}", f.data().len());
    ensure!(f.timestamp() == t, "timestamp", "timestamp {} for time {t}", f.timestamp());
    for (i, p) in f.data().chunks_exact(4).enumerate() {
        ensure!(
            blurred || p[0] <= p[3] && p[1] <= p[3] && p[2] <= p[3],
            "premultiplied",
            "pixel {},{} = {p:?} has colour above its alpha",
            i as u32 % w,
            i as u32 / w
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- R01

const HOSTILE: &[&str] = &[
    "{\\t(", "{\\t()}", "{\\t(\\fs)}", "{\\t(0,0,\\fs40)}", "{\\t(4294967295,1,\\fs40)}", "{\\t(0,4294967295,99999,\\fs1e30)}",
    "{\\fade(255,0,255,1000,500,200,100)}", "{\\fade(1,2,3,4,5,6,7)}", "{\\fade(0,0,0,4294967295,4294967295,4294967295,4294967295)}",
    "{\\fad(4294967295,4294967295)}", "{\\fad(-1,5)}", "{\\move(0,0,1,1,4294967295,4294967295)}", "{\\move(1e30,-1e30,1,1,5,2)}",
    "{\\pos(1e38,1e38)}", "{\\pos(-1e9,3)}", "{\\pos(NaN,inf)}", "{\\pos(inf,0)}", "{\\org(1e30,1e30)\\frz45}", "{\\org(nan,nan)\\frz5}",
    "{\\fs0}", "{\\fs-5}", "{\\fs1e6}", "{\\fsNaN}", "{\\fsinf}", "{\\fscx0}", "{\\fscy0}", "{\\fscx1e9}", "{\\fscy-100}", "{\\fscx-50\\fscy-50}",
    "{\\fsp1e9}", "{\\fsp-100}", "{\\bord1e6}", "{\\bord-3}", "{\\bordNaN}", "{\\shad1e9}", "{\\shad-7}", "{\\xshadinf}",
    "{\\blur1e3}", "{\\blur-1}", "{\\blurnan}", "{\\be1e3}", "{\\be255}", "{\\frx90}", "{\\fry90\\frx89}", "{\\frz1e30}", "{\\frxnan}", "{\\fax1e9}",
    "{\\fay-1e9}", "{\\faxinf}", "{\\an0}", "{\\an255}", "{\\an5\\an9}", "{\\a6}", "{\\q9}", "{\\p1}m 0 0 l 1e30 0 1e30 1e30", "{\\p1}m 0 0 l nan 5 inf 7",
    "{\\p1}m 0 0 s 1 1 2 2 3 3", "{\\p4}m 0 0 l 100 0 100 100", "{\\p1}m -1e9 -1e9 l 1e9 1e9 1e9 -1e9", "{\\p1\\blur50}m 0 0 l 5000 0 5000 5000",
    "{\\p1}b", "{\\p1}m", "{\\p1}m 1", "{\\p1}m 0 0 n 1", "{\\p1}", "{\\p1\\bord5000}m 0 0 l 10 0 10 10", "{\\p1}m 5 5 c c c", "{\\p1}c",
    "{\\clip(10,10,0,0)}", "{\\clip(nan,0,1,1)}", "{\\clip(-1e30,-1e30,1e30,1e30)}", "{\\iclip(0,0,1e9,1e9)}", "{\\clip(m 0 0 l 5 5)}", "{\\clip(1,m 0 0 l 9 9)}",
    "{\\k4294967295}", "{\\k4294967295}x{\\k4294967295}y{\\k9}", "{\\kf0}", "{\\K10}", "{\\ko-1}", "{\\kt5}", "{\\1é}", "{\\é}", "{\\1}", "{\\", "}", "{", "{{}}", "{\\c}",
    "{\\c&H&}", "{\\c&HFFFFFFFFFF&}", "{\\cé&H12&}", "{\\alpha&H&}", "{\\1a&HZZ&}", "{\\alphaé}", "{\\3c&é&h}", "{\\rNope}", "{\\r}", "{\\fn}", "{\\fnNo Such Font}",
    "{\\fn@Go}", "{\\b700}", "{\\b-1}", "{\\pbo1e9}", "{\\pbo5}", "\\N", "\\n", "\\h", "\\", "\\é", "\\N\\N\\N", "日本語", "𝕏", "e\u{301}", "\u{200f}עברית", "\u{0}", "\t",
    "{\\pos(1,2))}", "{)\\fs20}", "{\\t(\\fs20)\\fs}", "{\\fr}", "{\\t(\\clip(1,2,3,4))}", "{\\t(0,500,\\alpha&H80&)}", "{\\t)(}", "{\\t(}\\fs5)}",
];

fn hostile_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.u(1, 5) {
        match r.below(4) {
            0 => s.push_str(&rgen::words(r, 3)),
            1 => {
                let mut o = String::from("{");
                for _ in 0..r.u(1, 3) {
                    rgen::look_tag(r).write(&mut o);
                }
                o.push('}');
                s.push_str(&o);
            }
            _ => s.push_str(r.pick(HOSTILE)),
        }
    }
    if r.pct(20) {
        s = gen::mutate(r, &s);
    }
    s.replace(['\n', '\r'], " ")
}

fn hostile_script(r: &mut Rng) -> (String, bool) {
    if r.pct(15) {
        return (gen::any_script(r), true);
    }
    let mut s = rgen::script(r, ALL, 3);
    if r.pct(15) {
        s.play = None;
    }
    if r.pct(10) {
        s.layout = Some((r.below(700) as u32, r.below(500) as u32));
    }
    let mut text = s.text();
    if r.pct(12) {
        let v = *r.pick(&["0", "1", "4294967295", "-1", "", "99999999999"]);
        text = text.replacen("PlayResX: ", &format!("PlayResX: {v}\nOld: "), 1);
        if r.bool() {
            text = text.replacen("PlayResY: ", &format!("PlayResY: {v}\nOld2: "), 1);
        }
    }
    for _ in 0..r.u(1, 3) {
        let a = r.below(100) as u32;
        let st = *r.pick(&["Default", "S0", "nope", ""]);
        let m = *r.pick(&["0", "10", "-5", "99999", "x", "", "4294967295", "inf", "nan"]);
        let lay = *r.pick(&["0", "1", "-3", "2147483647", "99999999999", "x"]);
        let (b, e) = *r.pick(&[("0:00:00.00", "0:00:05.00"), ("0:00:00.00", "9999999:00:00.00"), ("x", "0:00:03.00"), ("0:00:00.50", "0:00:00.60"), ("0:00:00.10", "x")]);
        let t = hostile_text(r);
        let _ = a;
        text.push_str(&format!("Dialogue: {lay},{b},{e},{st},,{m},{m},{m},,{t}\n"));
    }
    if r.pct(15) {
        // hostile style values
        let v = *r.pick(&["", "x", "-1", "1e9", "nan", "inf", "0", "&H", "&HFFFFFFFFFFF", "é", "&h00ff00&"]);
        let k = r.below(10);
        if let Some(i) = text.find("\nStyle: ") {
            let line_end = text[i + 1..].find('\n').map_or(text.len(), |n| i + 1 + n);
            let mut cols: Vec<String> = text[i + 8..line_end].split(',').map(String::from).collect();
            let c = 1 + (k * 2 + r.below(3)) % (cols.len() - 1);
            cols[c] = v.to_string();
            let nl = cols.join(",");
            text.replace_range(i + 8..line_end, &nl);
        }
    }
    if r.pct(10) {
        text = gen::mutate(r, &text);
    }
    (text, false)
}

fn totality(cx: &mut Cx) -> R {
    let (text, _) = hostile_script(&mut cx.rng);
    let (w, h) = match cx.rng.below(5) {
        0 => (1, 1),
        1 => (cx.rng.u(1, 9) as u32, cx.rng.u(1, 200) as u32),
        _ => (cx.rng.u(16, 200) as u32, cx.rng.u(16, 160) as u32),
    };
    cx.set_input(format!("{w}x{h}\n{text}"));
    let Ok(s) = Script::parse(&text) else { return Ok(()) };
    let mut rd = renderer(w, h);
    for _ in 0..3 {
        let t = match cx.rng.below(6) {
            0 => u32::MAX,
            1 => 1 << 31,
            2 => 0,
            _ => cx.rng.below(600) as u32,
        };
        cx.note(&format!("time {t}"));
        match rd.render_frame(&s, t) {
            Ok(f) => {
                check_frame(&f, w, h, t, blurs(&text))?;
                cx.obs("frames", 1);
                if !f.is_empty() {
                    cx.obs("painted_frames", 1);
                }
                cx.state(&(f.data().len(), hash_of(f.data())));
                if cx.rng.pct(30) {
                    let _ = rd.render_frame_incremental(&s, t.saturating_add(3), &f);
                    cx.obs("incremental", 1);
                }
            }
            Err(e) => {
                cx.obs("errors", 1);
                let _ = e.to_string();
            }
        }
        if cx.rng.pct(40) {
            if let Ok(b) = rd.render_frame_bitmaps(&s, t) {
                cx.obs("bitmaps", b.len() as u64);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- R02

fn history(cx: &mut Cx) -> R {
    let n = cx.rng.u(1, 3);
    let mut models: Vec<RScript> = (0..n).map(|_| rgen::script(&mut cx.rng, ALL, 4)).collect();
    // twins that differ in something that is easy to miss in a cache key
    if cx.rng.bool() {
        let mut m = models[0].clone();
        let other = rgen::style(&mut cx.rng, "Default");
        let k = cx.rng.below(m.styles.len());
        let st = &mut m.styles[k];
        let kinds = if cx.rng.bool() { 7 } else { 30 };
        match cx.rng.below(kinds) {
            7 => st.font = other.font,
            8 => st.col = other.col,
            9 => st.bold = !st.bold,
            10 => st.italic = !st.italic,
            11 => st.underline = !st.underline,
            12 => st.strike = !st.strike,
            13 => st.sx += 30.0,
            14 => st.sy += 30.0,
            15 => st.spacing += 3.0,
            16 => st.angle += 33.0,
            17 => st.border_style = 4 - st.border_style,
            18 => st.outline += 2.0,
            19 => st.shadow += 2.0,
            20 => st.align = 10 - st.align,
            21 => (st.ml, st.mr) = (st.mr + 40, st.ml),
            22 => st.mv += 20,
            23 => m.sbas = Some(m.sbas == Some(false)),
            24 => m.layout = Some((200, 333)),
            // the same run with another tag in front
            25.. => {
                let e = cx.rng.below(m.events.len());
                let e = &mut m.events[e];
                let j = cx.rng.below(e.runs.len());
                let tag = rgen::look_tag(&mut cx.rng);
                let tags = &mut e.runs[j].tags;
                let at = match tags.iter().position(|t| matches!(t, Tag::P(_))) {
                    Some(p) => p,
                    None => tags.len(),
                };
                tags.insert(at, tag);
            }
            0 => m.styles[0].col[0] = [1, 2, 3, 0],
            1 => m.styles[0].size += 7.0,
            2 => m.play = Some((500, 400)),
            3 => m.events.iter_mut().for_each(|e| e.layer = 2 - e.layer),
            4 => m.events.iter_mut().for_each(|e| e.mv += 31),
            5 => m.wrap = Some(2),
            _ => m.play = None,
        }
        models.push(m);
    }
    let texts: Vec<String> = models.iter().map(RScript::text).collect();
    cx.set_input(texts.join("\n=====\n"));
    let sz = rgen::size(&mut cx.rng, &models[0]);
    let (w, h) = (sz.w.min(240), sz.h.min(160));
    let mut rd = renderer(w, h);
    let steps = cx.rng.u(2, 6);
    let keep: Vec<Script> = texts.iter().filter_map(|t| Script::parse(t).ok()).collect();
    if keep.len() != texts.len() {
        return fail("parse", "generated script does not parse");
    }
    // one buffer that successive scripts are parsed from: same addresses, other contents
    let cap = texts.iter().map(String::len).max().unwrap();
    let mut buf = String::with_capacity(cap);
    let mut size = (w, h);
    let mut last = None;
    for _ in 0..steps {
        let i = cx.rng.below(models.len());
        let t = match last {
            Some(t) if cx.rng.pct(40) => t,
            _ => rgen::time(&mut cx.rng, &models[i]),
        };
        last = Some(t);
        if cx.rng.pct(15) {
            size = if size == (w, h) { (w / 2 + 9, h + 5) } else { (w, h) };
            rd.set_context(ctx(size.0, size.1));
        }
        let reparse = cx.rng.bool();
        cx.note(&format!("script {i} at {t} size {size:?} reparsed {reparse}"));
        let shared = if reparse {
            buf.clear();
            buf.push_str(&texts[i]);
            let s = Script::parse(&buf).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
            err(rd.render_frame(&s, t), "render_frame")?
        } else {
            err(rd.render_frame(&keep[i], t), "render_frame")?
        };
        // a renderer that has only ever seen this request
        let fresh = frame(&keep[i], t, size.0, size.1)?;
        check_frame(&shared, size.0, size.1, t, blurs(&texts[i]))?;
        if let Some(d) = diff(shared.data(), fresh.data(), size.0) {
            return fail("history", format!("frame of script {i} at {t} depends on what was rendered before: {d}"));
        }
        cx.obs("frames", 1);
        if !fresh.is_empty() {
            cx.obs("painted_frames", 1);
        }
        cx.state(&(size, hash_of(fresh.data())));
        if cx.rng.pct(30) {
            let b = err(rd.render_frame_bitmaps(&keep[i], t), "bitmaps")?;
            cx.obs("bitmaps", b.len() as u64);
        }
    }
    Ok(())
}

/// Two scripts that differ in one thing, drawn in turn on one thread: each frame
/// is the one a thread that has drawn nothing before draws. (The glyph, coverage
/// and blur caches belong to the thread, not to the renderer.)
fn caches(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut st = rgen::style(r, "Default");
    st.border_style = 1;
    if r.bool() {
        (st.underline, st.strike) = (false, false);
    }
    let (w, h) = (160u32, 100u32);
    let blur = rgen::num(r, 0, 3) + 0.5;
    let blurred = r.bool();
    let run = |r: &mut Rng| {
        let mut tags = vec![];
        if blurred {
            tags.push(Tag::Blur(blur));
        }
        if r.bool() {
            tags.push(rgen::look_tag(r));
        }
        Run { tags, text: rgen::words(r, 2) }
    };
    let runs: Vec<Run> = (0..r.u(1, 2)).map(|_| run(r)).collect();
    let mut e = REvent { comment: false, layer: 0, start: 0, end: 100, style: "Default".into(), ml: 0, mr: 0, mv: 0, runs };
    if r.bool() {
        e.runs[0].tags.insert(0, Tag::Pos(rgen::num(r, 0, 160), rgen::num(r, 0, 100)));
    }
    let a = RScript { play: Some((w, h)), layout: None, wrap: Some(2), sbas: None, styles: vec![st], events: vec![e] };
    let mut b = a.clone();
    {
        let other = rgen::style(r, "Default");
        let st = &mut b.styles[0];
        match r.below(14) {
            0 => st.font = other.font,
            1 => st.size += 1.0,
            2 => st.bold = !st.bold,
            3 => st.italic = !st.italic,
            4 => st.sx += 30.0,
            5 => st.sy += 30.0,
            6 => st.spacing += 3.0,
            7 => st.outline += 1.0,
            8 => st.shadow += 1.0,
            9 => st.col = other.col,
            _ => {
                let k = r.below(b.events[0].runs.len());
                let tag = rgen::look_tag(r);
                b.events[0].runs[k].tags.push(tag);
            }
        }
    }
    let (ta, tb) = (a.text(), b.text());
    cx.set_input(format!("{ta}\n=====\n{tb}"));
    let times = [cx.rng.below(100) as u32, cx.rng.below(100) as u32];
    let cold = |text: &str, t: u32| -> R<(Vec<u8>, usize)> {
        std::thread::scope(|s| {
            s.spawn(|| {
                let s = Script::parse(text).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
                let mut rd = renderer(w, h);
                let f = err(rd.render_frame(&s, t), "render_frame")?;
                let b = err(rd.render_frame_bitmaps(&s, t), "bitmaps")?;
                Ok((f.data().to_vec(), hash_bitmaps(&b)))
            })
            .join()
            .unwrap()
        })
    };
    let want = [cold(&ta, times[0])?, cold(&tb, times[1])?];
    let order: Vec<usize> = (0..4).map(|i| if i < 2 { i } else { cx.rng.below(2) }).collect();
    let one = cx.rng.bool();
    cx.note(&format!("order {order:?}, one renderer {one}, times {times:?}"));
    std::thread::scope(|sc| {
        sc.spawn(|| -> R {
            let scripts = [Script::parse(&ta), Script::parse(&tb)].map(|s| s.unwrap());
            let mut rd = renderer(w, h);
            for &i in &order {
                if !one {
                    rd = renderer(w, h);
                }
                let f = err(rd.render_frame(&scripts[i], times[i]), "render_frame")?;
                if let Some(d) = diff(f.data(), &want[i].0, w) {
                    return fail("warm", format!("script {i} after its twin is not drawn as on a fresh thread: {d}"));
                }
                let b = err(rd.render_frame_bitmaps(&scripts[i], times[i]), "bitmaps")?;
                ensure!(hash_bitmaps(&b) == want[i].1, "warm-bitmaps", "the bitmaps of script {i} after its twin are not those of a fresh thread");
            }
            Ok(())
        })
        .join()
        .unwrap()
    })?;
    cx.obs("twins", u64::from(want[0].0 != want[1].0));
    cx.state(&(hash_of(&want[0].0), hash_of(&want[1].0)));
    Ok(())
}

/// A font file of a one-face family under the family name `Probe`, as the lines
/// of a script's [Fonts] section.
fn embedded(family: &'static str) -> String {
    let id = db().faces().find(|f| f.families.iter().any(|(n, _)| n == family)).expect("font").id;
    let mut data = db().with_face_data(id, |d, _| d.to_vec()).expect("font data");
    let u16_at = |d: &[u8], i: usize| usize::from(d[i]) << 8 | usize::from(d[i + 1]);
    let tables = u16_at(&data, 4);
    let name = (0..tables).map(|i| 12 + 16 * i).find(|&t| &data[t..t + 4] == b"name").expect("name table");
    let base = u16_at(&data, name + 8) << 16 | u16_at(&data, name + 10);
    let strings = base + u16_at(&data, base + 4);
    for rec in (0..u16_at(&data, base + 2)).map(|i| base + 6 + 12 * i) {
        if ![1, 16].contains(&u16_at(&data, rec + 6)) {
            continue;
        }
        let to: Vec<u8> = match u16_at(&data, rec) {
            1 => b"Probe".to_vec(),
            _ => "Probe".encode_utf16().flat_map(u16::to_be_bytes).collect(),
        };
        let at = strings + u16_at(&data, rec + 10);
        assert!(to.len() <= u16_at(&data, rec + 8));
        data[rec + 8..rec + 10].copy_from_slice(&(to.len() as u16).to_be_bytes());
        data[at..at + to.len()].copy_from_slice(&to);
    }
    let mut out = String::from("\n[Fonts]\nfontname: probe_0.ttf\n");
    let digit = |v: u32| if v & 63 == 0 { '`' } else { (32 + (v & 63) as u8) as char };
    for line in data.chunks(45) {
        out.push(digit(line.len() as u32));
        for c in line.chunks(3) {
            let v = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
            for k in 0..4 {
                out.push(digit(v >> (18 - 6 * k)));
            }
        }
        out.push('\n');
    }
    out
}

/// Scripts whose fonts are their own: what a script embeds under a name no
/// installed font has is painted, and measured, as the same font installed is;
/// a script that embeds another font under the name, or none, is unaffected.
fn embedded_fonts(cx: &mut Cx) -> R {
    static LINES: OnceLock<[String; 2]> = OnceLock::new();
    const FAMILIES: [&str; 2] = ["Tuffy", "Go Mono"];
    let lines = LINES.get_or_init(|| FAMILIES.map(embedded));
    let r = &mut cx.rng;
    let mut a = rgen::script(r, ALL, 3);
    for st in &mut a.styles {
        if r.pct(70) {
            st.font = "Probe".into();
        }
    }
    let mut named = a.styles.iter().any(|s| s.font == "Probe");
    for e in &mut a.events {
        for run in &mut e.runs {
            for t in &mut run.tags {
                if let Tag::Fn(f) = t {
                    if r.bool() {
                        *f = "Probe".into();
                        named = true;
                    }
                }
            }
        }
    }
    let as_family = |family: &str| {
        let mut b = a.clone();
        for st in &mut b.styles {
            if st.font == "Probe" {
                st.font = family.into();
            }
        }
        for t in b.events.iter_mut().flat_map(|e| &mut e.runs).flat_map(|x| &mut x.tags) {
            if let Tag::Fn(f) = t {
                if f == "Probe" {
                    *f = family.into();
                }
            }
        }
        b.text()
    };
    let plain = a.text();
    cx.set_input(plain.clone());
    let size = rgen::size(&mut cx.rng, &a);
    let (w, h) = (size.w.min(200), size.h.min(140));
    let with = |i: usize| format!("{plain}{}", lines[i]);
    let scripts = [with(0), with(1), plain.clone()];
    let t = rgen::time(&mut cx.rng, &a);
    let cold = |text: &str| -> R<(Vec<u8>, usize)> {
        std::thread::scope(|s| {
            s.spawn(|| {
                let s = Script::parse(text).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
                let mut rd = renderer(w, h);
                let f = err(rd.render_frame(&s, t), "render_frame")?;
                let b = err(rd.render_frame_bitmaps(&s, t), "bitmaps")?;
                Ok((f.data().to_vec(), hash_bitmaps(&b)))
            })
            .join()
            .unwrap()
        })
    };
    let want = [cold(&as_family(FAMILIES[0]))?, cold(&as_family(FAMILIES[1]))?, cold(&plain)?];
    let order: Vec<usize> = (0..5).map(|_| cx.rng.below(3)).collect();
    let one = cx.rng.pct(70);
    cx.note(&format!("order {order:?} (0, 1: embedding {FAMILIES:?} as Probe; 2: not embedding), one renderer {one}, time {t}"));
    std::thread::scope(|sc| {
        sc.spawn(|| -> R {
            let parsed: Vec<Script> = scripts.iter().map(|s| Script::parse(s).unwrap()).collect();
            let mut rd = renderer(w, h);
            for &i in &order {
                if !one {
                    rd = renderer(w, h);
                }
                let f = err(rd.render_frame(&parsed[i], t), "render_frame")?;
                if let Some(d) = diff(f.data(), &want[i].0, w) {
                    let like: Vec<usize> = (0..3).filter(|&k| want[k].0 == f.data()).collect();
                    return fail("embedded", format!("script {i} is not drawn as with the font installed but as {like:?}: {d}"));
                }
                let b = err(rd.render_frame_bitmaps(&parsed[i], t), "bitmaps")?;
                ensure!(hash_bitmaps(&b) == want[i].1, "embedded-bitmaps", "the bitmaps of script {i} are not those with the font installed");
            }
            Ok(())
        })
        .join()
        .unwrap()
    })?;
    cx.obs("embedded_font_frames", u64::from(named && want[0].0 != want[1].0));
    cx.state(&hash_of(&want[0].0));
    Ok(())
}

fn hash_bitmaps(list: &[RenderBitmap]) -> usize {
    let mut h = 0u64;
    for b in list {
        let x = match b {
            RenderBitmap::Coverage { width, height, coverage, x, y, color } => hash_of(&(width, height, &coverage[..], x, y, color)),
            RenderBitmap::Rgba { width, height, pixels, x, y } => hash_of(&(width, height, &pixels[..], x, y)),
        };
        h = h.rotate_left(7).wrapping_mul(31) ^ x;
    }
    h as usize
}

// ---------------------------------------------------------------- R04

pub fn bitmap_bounds(b: &RenderBitmap) -> (i32, i32, u32, u32, usize) {
    match b {
        RenderBitmap::Coverage { width, height, coverage, x, y, .. } => (*x, *y, *width, *height, coverage.len()),
        RenderBitmap::Rgba { width, height, pixels, x, y } => (*x, *y, *width, *height, pixels.len() / 4),
    }
}

fn bitmaps(cx: &mut Cx) -> R {
    let m = rgen::script(&mut cx.rng, ALL, 4);
    let text = m.text();
    let sz = rgen::size(&mut cx.rng, &m);
    let (w, h) = (sz.w.min(240), sz.h.min(160));
    cx.set_input(format!("{w}x{h}\n{text}"));
    let s = Script::parse(&text).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
    let mut rd = renderer(w, h);
    for _ in 0..2 {
        let t = rgen::time(&mut cx.rng, &m);
        cx.note(&format!("time {t}"));
        let f = frame(&s, t, w, h)?;
        let list = err(rd.render_frame_bitmaps(&s, t), "bitmaps")?;
        let mut out = vec![0u8; (w * h * 4) as usize];
        for b in &list {
            let (_, _, bw, bh, len) = bitmap_bounds(b);
            ensure!(len == (bw * bh) as usize, "bitmap-size", "bitmap {bw}x{bh} holds {len} pixels");
            if let RenderBitmap::Rgba { pixels, .. } = b {
                for p in pixels.chunks_exact(4) {
                    ensure!(blurs(&text) || p[0] <= p[3] && p[1] <= p[3] && p[2] <= p[3], "premultiplied", "bitmap pixel {p:?}");
                }
                cx.obs("rgba_bitmaps", 1);
            } else {
                cx.obs("coverage_bitmaps", 1);
            }
            composite_bitmap(&mut out, w, h, b);
        }
        // vector layers painted straight onto the frame round once more than a
        // bitmap painted through an intermediate pixmap
        let tol = 2 + list.len() as u8;
        let mut shown = f.data().to_vec();
        if blurs(&text) {
            // colour above alpha saturates at a different step; the alphas still agree
            for p in out.chunks_exact_mut(4).chain(shown.chunks_exact_mut(4)) {
                let a = p[3];
                p[..3].fill(a);
            }
        }
        let d = max_diff(&out, &shown);
        cx.max("largest_difference", u64::from(d));
        if d > tol {
            return fail("bitmap-list", format!("t={t}: painting the bitmap list differs from the frame: {}", diff(&out, &shown, w).unwrap()));
        }
        ensure!(list.is_empty() || !m.events.is_empty(), "list", "bitmaps without events");
        cx.obs("frames", 1);
        cx.state(&hash_of(f.data()));
    }
    Ok(())
}

// ---------------------------------------------------------------- R05

fn clip_case(cx: &mut Cx) -> R {
    let mut m = rgen::script(&mut cx.rng, EvOpts { anim: false, karaoke: false, ..ALL }, 1);
    m.play = Some((160, 120));
    let (w, h) = (160u32, 120u32);
    for e in &mut m.events {
        for r in &mut e.runs {
            r.tags.retain(|t| !matches!(t, Tag::Clip(..) | Tag::R));
        }
        e.comment = false;
        if e.has(|t| matches!(t, Tag::Pos(..))) {
            for t in e.runs.iter_mut().flat_map(|r| &mut r.tags) {
                if let Tag::Pos(x, y) = t {
                    *x = cx.rng.below(160) as f32;
                    *y = cx.rng.below(120) as f32;
                }
            }
        }
    }
    let (x1, y1) = (cx.rng.below(150) as u32, cx.rng.below(110) as u32);
    let (x2, y2) = (cx.rng.u(x1 as usize + 1, 160) as u32, cx.rng.u(y1 as usize + 1, 120) as u32);
    let t = m.events[0].start;
    let base = m.text();
    cx.set_input(format!("clip {x1},{y1},{x2},{y2} at {t}\n{base}"));
    let with = |inv: bool| {
        let mut c = m.clone();
        for e in &mut c.events {
            e.runs[0].tags.insert(0, Tag::Clip([x1 as f32, y1 as f32, x2 as f32, y2 as f32], inv));
        }
        c.text()
    };
    let render = |text: &str| -> R<Frame> {
        let s = Script::parse(text).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
        frame(&s, t, w, h)
    };
    let (f, c, ic) = (render(&base)?, render(&with(false))?, render(&with(true))?);
    let mut painted = 0u64;
    for y in 0..h {
        for x in 0..w {
            let i = ((y * w + x) * 4) as usize;
            let inside = x >= x1 && x < x2 && y >= y1 && y < y2;
            let (a, b, d) = (&f.data()[i..i + 4], &c.data()[i..i + 4], &ic.data()[i..i + 4]);
            if inside {
                ensure!(d[3] == 0, "iclip", "pixel {x},{y} inside an \\iclip is painted {d:?}");
            } else {
                ensure!(b[3] == 0, "clip", "pixel {x},{y} outside a \\clip is painted {b:?}");
            }
            // what is let through is what would have been painted
            let (through, name) = if inside { (b, "clip-content") } else { (d, "iclip-content") };
            let m = a.iter().zip(through).map(|(p, q)| p.abs_diff(*q)).max().unwrap();
            ensure!(m <= 8, name, "pixel {x},{y} is {through:?} under the clip but {a:?} without it");
            painted += u64::from(a[3] != 0);
        }
    }
    cx.obs("clipped_frames", 1);
    cx.obs("painted_pixels", painted);
    cx.state(&(hash_of(f.data()), x1, y1, x2, y2));
    Ok(())
}

fn frame_api(cx: &mut Cx) -> R {
    use ass_renderer::renderer::Frame as F;
    let (w, h) = (cx.rng.u(0, 9) as u32, cx.rng.u(0, 9) as u32);
    let n = (w * h) as usize;
    let bytes = |r: &mut Rng, n: usize| (0..n).map(|_| if r.pct(40) { 0 } else { r.below(256) as u8 }).collect::<Vec<u8>>();
    let t = cx.rng.below(1000) as u32;
    let data = bytes(&mut cx.rng, n * 4);
    cx.set_input(format!("{w}x{h} {data:?}"));
    let f = F::new(data.clone(), w, h, t);
    ensure!(f.data() == &data[..] && f.pixels() == &data[..] && f.width() == w && f.height() == h && f.timestamp() == t, "frame-new", "accessors");
    ensure!(f.stride() == w as usize * 4 && f.bytes_per_pixel() == 4, "stride", "{}", f.stride());
    ensure!(f.is_empty() == data.chunks_exact(4).all(|p| p[3] == 0), "is-empty", "is_empty {}", f.is_empty());
    let g = f.with_timestamp(t + 1);
    ensure!(g.timestamp() == t + 1 && g.data() == f.data() && f.timestamp() == t, "with-timestamp", "");
    let mut k = f.clone();
    if n > 0 {
        let i = cx.rng.below(n * 4);
        k.data_mut()[i] ^= 0x55;
        ensure!(f.data() == &data[..] && g.data() == &data[..], "copy-on-write", "writing to a clone changed the original");
        let mut want = data.clone();
        want[i] ^= 0x55;
        ensure!(k.data() == &want[..], "data-mut", "write lost");
        ensure!(k.into_buffer() == want, "into-buffer", "");
    }
    ensure!(f.clone().into_buffer() == data, "into-buffer", "shared");
    let e = F::empty(w, h, t);
    ensure!(e.is_empty() && e.data().len() == n * 4 && e.data().iter().all(|b| *b == 0) && e.timestamp() == t, "empty", "");
    use ass_renderer::renderer::Frame;
    let _ = Frame::from_rgba(data.clone(), w, h);
    cx.obs("frames", 1);
    cx.state(&data);
    Ok(())
}

// ---------------------------------------------------------------- R09

fn incremental(cx: &mut Cx) -> R {
    let m = rgen::script(&mut cx.rng, ALL, 4);
    let text = m.text();
    let sz = rgen::size(&mut cx.rng, &m);
    let (w, h) = (sz.w.min(200), sz.h.min(140));
    cx.set_input(format!("{w}x{h}\n{text}"));
    let s = Script::parse(&text).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
    let mut rd = renderer(w, h);
    let t0 = rgen::time(&mut cx.rng, &m);
    let mut prev = err(rd.render_frame(&s, t0), "render_frame")?;
    cx.note(&format!("start {t0}"));
    for _ in 0..cx.rng.u(1, 5) {
        let t = match cx.rng.below(3) {
            0 => prev.timestamp() + cx.rng.below(20) as u32,
            _ => rgen::time(&mut cx.rng, &m),
        };
        cx.note(&format!("then {t}"));
        let inc = err(rd.render_frame_incremental(&s, t, &prev), "incremental")?;
        let full = frame(&s, t, w, h)?;
        ensure!(inc.timestamp() == t, "timestamp", "incremental frame for {t} is stamped {}", inc.timestamp());
        if let Some(d) = diff(inc.data(), full.data(), w) {
            return fail("incremental", format!("incremental frame at {t} (from {}) is not the full frame: {d}", prev.timestamp()));
        }
        cx.obs("incremental_frames", 1);
        if inc.data() == prev.data() {
            cx.obs("unchanged", 1);
        }
        cx.state(&(hash_of(full.data()), hash_of(prev.data())));
        prev = inc;
    }
    Ok(())
}

// ---------------------------------------------------------------- R10

fn concurrent(cx: &mut Cx) -> R {
    let ms: Vec<RScript> = (0..2).map(|_| rgen::script(&mut cx.rng, ALL, 4)).collect();
    let texts: Vec<String> = ms.iter().map(RScript::text).collect();
    cx.set_input(texts.join("\n====\n"));
    let scripts: Vec<Script> = texts.iter().filter_map(|t| Script::parse(t).ok()).collect();
    let (w, h) = (cx.rng.u(60, 200) as u32, cx.rng.u(60, 140) as u32);
    let jobs: Vec<(usize, u32)> = (0..10)
        .map(|_| {
            let i = cx.rng.below(scripts.len());
            (i, rgen::time(&mut cx.rng, &ms[i]))
        })
        .collect();
    let want: Vec<Vec<u8>> = jobs.iter().map(|(i, t)| frame(&scripts[*i], *t, w, h).map(|f| f.data().to_vec())).collect::<R<_>>()?;
    // a renderer is Send: one is handed from thread to thread, others run at the same time
    let shared = std::sync::Mutex::new(renderer(w, h));
    let bad = std::sync::Mutex::new(None::<String>);
    std::thread::scope(|sc| {
        for k in 0..4usize {
            let (jobs, want, scripts, bad, shared) = (&jobs, &want, &scripts, &bad, &shared);
            let rot = cx.rng.below(jobs.len());
            sc.spawn(move || {
                let mut own = renderer(w, h);
                for j in 0..jobs.len() {
                    let n = (j + rot) % jobs.len();
                    let (i, t) = jobs[n];
                    let r = if (j + k) % 3 == 0 {
                        shared.lock().unwrap().render_frame(&scripts[i], t)
                    } else {
                        own.render_frame(&scripts[i], t)
                    };
                    match r {
                        Ok(f) => {
                            if let Some(d) = diff(f.data(), &want[n], w) {
                                *bad.lock().unwrap() = Some(format!("script {i} at {t} on thread {k}: {d}"));
                            }
                        }
                        Err(e) => *bad.lock().unwrap() = Some(format!("thread {k}: {e}")),
                    }
                    if (j + k) % 4 == 0 {
                        std::thread::yield_now();
                    }
                }
            });
        }
    });
    if let Some(b) = bad.into_inner().unwrap() {
        return fail("concurrent", b);
    }
    cx.obs("threads", 4);
    cx.obs("frames", 40);
    cx.state(&want);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "R01",
            rule: "a distinct frame produced from a hostile script, time and size",
            assumptions: &["fonts come from /verif/fonts-home"],
            monitors: vec![mon("totality", 5_000, 60_000, totality)],
            must_observe: &["frames", "painted_frames", "bitmaps", "incremental"],
        },
        Property {
            id: "R02",
            rule: "a distinct frame compared between a used and a fresh renderer",
            assumptions: &[],
            monitors: vec![mon("history", 5_000, 40_000, history), mon("caches", 3_000, 30_000, caches), mon("embedded_fonts", 400, 6_000, embedded_fonts), mon("blur_colour", 1, 1, blur_colour)],
            must_observe: &["frames", "painted_frames", "bitmaps", "blurred_probes", "twins", "embedded_font_frames"],
        },
        Property {
            id: "R04",
            rule: "a distinct frame whose bitmap list was painted and compared",
            assumptions: &[],
            monitors: vec![mon("bitmaps", 6_000, 60_000, bitmaps)],
            must_observe: &["frames", "rgba_bitmaps", "coverage_bitmaps"],
        },
        Property {
            id: "R05",
            rule: "a distinct clipped frame or frame buffer",
            assumptions: &["clip rectangles on whole pixels"],
            monitors: vec![mon("clip", 6_000, 60_000, clip_case), mon("frame_api", 20_000, 300_000, frame_api)],
            must_observe: &["clipped_frames", "painted_pixels", "frames"],
        },
        Property {
            id: "R09",
            rule: "a distinct (previous frame, next frame) pair",
            assumptions: &[],
            monitors: vec![mon("incremental", 5_000, 40_000, incremental)],
            must_observe: &["incremental_frames", "unchanged"],
        },
        Property {
            id: "R10",
            rule: "a distinct job list rendered by four threads at once",
            assumptions: &[],
            monitors: vec![mon_serial("concurrent", 200, 3_000, concurrent)],
            must_observe: &["threads", "frames"],
        },
    ]
}
