//! Monitors of the pipeline's output: what each stretch of text looks like (R11),
//! how that changes over time (R06), where it stands (R12) and how events avoid each
//! other (R07). The expected values come from the generator's model.

use crate::frames::{ctx, db, err, frame};
use crate::rgen::{self, EvOpts, REvent, RScript, RStyle, Run, Tag};
use ass_core::parser::{Event, Script, Section};
use ass_renderer::pipeline::shaping::shape_text_cached;
use ass_renderer::pipeline::{IntermediateLayer, Pipeline, SoftwarePipeline, TextData, TextEffect};
use hcommon::*;
use std::cell::RefCell;

thread_local! {
    static PIPE: RefCell<Option<SoftwarePipeline>> = const { RefCell::new(None) };
}

/// The layers of the named events of a script.
pub fn layers(text: &str, t: u32, w: u32, h: u32, which: Option<&[usize]>) -> R<Vec<IntermediateLayer>> {
    let s = Script::parse(text).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
    let evs: Vec<&Event> = s
        .sections()
        .iter()
        .filter_map(|x| if let Section::Events(e) = x { Some(e) } else { None })
        .flatten()
        .collect();
    let evs: Vec<&Event> = match which {
        Some(ix) => ix.iter().map(|i| evs[*i]).collect(),
        None => evs,
    };
    PIPE.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.get_or_insert_with(SoftwarePipeline::new);
        err(p.prepare_script(&s, None), "prepare_script")?;
        err(p.process_events(&evs, t, &ctx(w, h)), "process_events")
    })
}

pub fn texts(l: Vec<IntermediateLayer>) -> Vec<TextData> {
    l.into_iter().filter_map(|l| if let IntermediateLayer::Text(t) = l { Some(t) } else { None }).collect()
}

// ------------------------------------------------------------------ the model

fn f<T: Into<f64>>(v: T) -> f64 {
    v.into()
}

/// A run in words: `TextData` has no `Debug`.
fn show(g: &TextData) -> String {
    format!("{:?} {} {} {:?} at {},{} spacing {} {:?}", g.text, g.font_family, g.font_size, g.color, g.x, g.y, g.spacing, g.effects)
}

#[derive(Clone, Debug)]
pub struct Look {
    style: usize,
    font: Option<String>,
    fs: Option<f64>,
    rgb: [Option<[f64; 3]>; 4],
    al: [Option<f64>; 4],
    flags: [Option<bool>; 4],
    fscx: Option<f64>,
    fscy: Option<f64>,
    fsp: Option<f64>,
    bord: [Option<f64>; 2],
    shad: [Option<f64>; 2],
    blur: Option<f64>,
    be: Option<f64>,
    rot: [Option<f64>; 3],
    shear: [Option<f64>; 2],
    ts: Vec<(Option<(u32, u32)>, Option<f32>, Vec<Tag>)>,
    kara: Option<(&'static str, u32, u32)>,
}

impl Look {
    fn new(style: usize) -> Self {
        Look {
            style,
            font: None,
            fs: None,
            rgb: [None; 4],
            al: [None; 4],
            flags: [None; 4],
            fscx: None,
            fscy: None,
            fsp: None,
            bord: [None; 2],
            shad: [None; 2],
            blur: None,
            be: None,
            rot: [None; 3],
            shear: [None; 2],
            ts: vec![],
            kara: None,
        }
    }
    fn apply(&mut self, t: &Tag, base: usize) {
        match t {
            Tag::C(n, c, _) => self.rgb[*n as usize - 1] = Some([f(c[0]), f(c[1]), f(c[2])]),
            Tag::A(n, a) => self.al[*n as usize - 1] = Some(255.0 - f(*a)),
            Tag::Alpha(a) => self.al = [Some(255.0 - f(*a)); 4],
            Tag::Fs(v) => self.fs = Some(f(*v)),
            Tag::Fn(n) => self.font = Some(n.clone()),
            Tag::B(b) => self.flags[0] = Some(*b),
            Tag::I(b) => self.flags[1] = Some(*b),
            Tag::U(b) => self.flags[2] = Some(*b),
            Tag::S(b) => self.flags[3] = Some(*b),
            Tag::Fscx(v) => self.fscx = Some(f(*v)),
            Tag::Fscy(v) => self.fscy = Some(f(*v)),
            Tag::Fsp(v) => self.fsp = Some(f(*v)),
            Tag::Bord(v) => self.bord = [Some(f(*v)); 2],
            Tag::XBord(v) => self.bord[0] = Some(f(*v)),
            Tag::YBord(v) => self.bord[1] = Some(f(*v)),
            Tag::Shad(v) => self.shad = [Some(f(*v)); 2],
            Tag::XShad(v) => self.shad[0] = Some(f(*v)),
            Tag::YShad(v) => self.shad[1] = Some(f(*v)),
            Tag::Blur(v) => self.blur = Some(f(*v)),
            Tag::Be(v) => self.be = Some(f(*v)),
            Tag::Frx(v) => self.rot[0] = Some(f(*v)),
            Tag::Fry(v) => self.rot[1] = Some(f(*v)),
            Tag::Frz(v) => self.rot[2] = Some(f(*v)),
            Tag::Fax(v) => self.shear[0] = Some(f(*v)),
            Tag::Fay(v) => self.shear[1] = Some(f(*v)),
            Tag::R => {
                let k = self.kara;
                *self = Look::new(base);
                self.kara = k;
            }
            Tag::T(tt, a, v) => self.ts.push((*tt, *a, v.clone())),
            Tag::K(k, d) => {
                let start = self.kara.map_or(0, |(_, s, d)| s + d);
                self.kara = Some((k, start, *d));
            }
            _ => {}
        }
    }
}

/// A look with the style's values and the animations filled in.
#[derive(Clone, Debug)]
struct Full {
    font: String,
    fs: f64,
    rgb: [[f64; 3]; 4],
    al: [f64; 4],
    flags: [bool; 4],
    fscx: f64,
    fscy: f64,
    fsp: f64,
    bord: [f64; 2],
    shad: [f64; 2],
    blur: f64,
    be: f64,
    rot: [f64; 3],
    shear: [f64; 2],
    boxed: bool,
}

fn ease(p: f64, acc: f64) -> f64 {
    p.powf(acc)
}

fn full(l: &Look, st: &RStyle, t_ms: f64, dur_ms: f64) -> Full {
    let c = |i: usize| l.rgb[i].unwrap_or([f(st.col[i][0]), f(st.col[i][1]), f(st.col[i][2])]);
    let a = |i: usize| l.al[i].unwrap_or(255.0 - f(st.col[i][3]));
    let mut o = Full {
        font: l.font.clone().unwrap_or_else(|| st.font.clone()),
        fs: l.fs.unwrap_or(f(st.size)),
        rgb: [c(0), c(1), c(2), c(3)],
        al: [a(0), a(1), a(2), a(3)],
        flags: [
            l.flags[0].unwrap_or(st.bold),
            l.flags[1].unwrap_or(st.italic),
            l.flags[2].unwrap_or(st.underline),
            l.flags[3].unwrap_or(st.strike),
        ],
        fscx: l.fscx.unwrap_or(f(st.sx)),
        fscy: l.fscy.unwrap_or(f(st.sy)),
        fsp: l.fsp.unwrap_or(f(st.spacing)),
        bord: [l.bord[0].unwrap_or(f(st.outline)), l.bord[1].unwrap_or(f(st.outline))],
        shad: [l.shad[0].unwrap_or(f(st.shadow)), l.shad[1].unwrap_or(f(st.shadow))],
        blur: l.blur.unwrap_or(0.0),
        be: l.be.unwrap_or(0.0),
        rot: [l.rot[0].unwrap_or(0.0), l.rot[1].unwrap_or(0.0), l.rot[2].unwrap_or(f(st.angle))],
        shear: [l.shear[0].unwrap_or(0.0), l.shear[1].unwrap_or(0.0)],
        boxed: st.border_style == 3,
    };
    for (tt, acc, tags) in &l.ts {
        let (t1, t2) = tt.map_or((0.0, dur_ms), |(a, b)| (f(a), f(b)));
        let p = if t_ms <= t1 {
            0.0
        } else if t_ms >= t2 {
            1.0
        } else {
            ease((t_ms - t1) / (t2 - t1), f64::from(acc.unwrap_or(1.0)))
        };
        if p == 0.0 {
            continue;
        }
        let go = |x: &mut f64, to: f64| *x += (to - *x) * p;
        for t in tags {
            match t {
                Tag::C(n, c, _) => {
                    for k in 0..3 {
                        go(&mut o.rgb[*n as usize - 1][k], f(c[k]));
                    }
                }
                Tag::Alpha(v) => {
                    for k in 0..4 {
                        go(&mut o.al[k], 255.0 - f(*v));
                    }
                }
                Tag::Fs(v) => go(&mut o.fs, f(*v)),
                Tag::Fscx(v) => go(&mut o.fscx, f(*v)),
                Tag::Fscy(v) => go(&mut o.fscy, f(*v)),
                Tag::Fsp(v) => go(&mut o.fsp, f(*v)),
                Tag::Bord(v) => {
                    go(&mut o.bord[0], f(*v));
                    go(&mut o.bord[1], f(*v));
                }
                Tag::Shad(v) => {
                    go(&mut o.shad[0], f(*v));
                    go(&mut o.shad[1], f(*v));
                }
                Tag::Blur(v) => go(&mut o.blur, f(*v)),
                Tag::Frx(v) => go(&mut o.rot[0], f(*v)),
                Tag::Fry(v) => go(&mut o.rot[1], f(*v)),
                Tag::Frz(v) => go(&mut o.rot[2], f(*v)),
                _ => {}
            }
        }
    }
    o
}

/// What is left of the opacity by the event's fade.
fn fade(e: &REvent, t: u32) -> f64 {
    let Some(tag) = e.runs.iter().flat_map(|r| &r.tags).find(|t| matches!(t, Tag::Fad(..) | Tag::Fade(..))) else {
        return 1.0;
    };
    let rel = (f64::from(t) - f64::from(e.start)) * 10.0;
    let dur = f64::from(e.end - e.start) * 10.0;
    match tag {
        Tag::Fad(a, b) => {
            let (a, b) = (f64::from(*a), f64::from(*b));
            if rel < a {
                rel / a
            } else if b > 0.0 && rel >= dur - b {
                ((dur - rel) / b).min(1.0)
            } else {
                1.0
            }
        }
        Tag::Fade(al, tt) => {
            let a: Vec<f64> = al.iter().map(|v| f64::from(*v)).collect();
            let p: Vec<f64> = tt.iter().map(|v| f64::from(*v)).collect();
            let v = if rel <= p[0] {
                a[0]
            } else if rel < p[1] {
                a[0] + (a[1] - a[0]) * (rel - p[0]) / (p[1] - p[0])
            } else if rel <= p[2] {
                a[1]
            } else if rel < p[3] {
                a[1] + (a[2] - a[1]) * (rel - p[2]) / (p[3] - p[2])
            } else {
                a[2]
            };
            1.0 - v / 255.0
        }
        _ => 1.0,
    }
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 0.01 + b.abs() * 2e-3
}

fn near_col(got: [u8; 4], rgb: [f64; 3], al: f64, f: f64, exact: bool) -> bool {
    let tol = if exact { 0.01 } else { 4.1 };
    let tol_a = if exact && f == 1.0 { 0.01 } else { 4.1 };
    (0..3).all(|i| (f64::from(got[i]) - rgb[i]).abs() <= tol) && (f64::from(got[3]) - al * f).abs() <= tol_a
}

/// Runs of the event as (line, text, look), in order. `\N` and `\h` are the escapes.
fn expected_runs(e: &REvent, m: &RScript) -> Vec<(usize, String, Look)> {
    let base = m.styles.iter().rposition(|s| s.name == e.style).unwrap_or(0);
    let mut look = Look::new(base);
    let mut line = 0;
    let mut out: Vec<(usize, String, Look)> = vec![];
    for r in &e.runs {
        for t in &r.tags {
            if let Tag::RStyle(n) = t {
                let k = m.styles.iter().rposition(|s| &s.name == n).unwrap_or(base);
                look.apply(&Tag::R, k);
            } else {
                look.apply(t, base);
            }
        }
        for (i, part) in r.text.split("\\N").enumerate() {
            line += usize::from(i > 0);
            let part = part.replace("\\h", "\u{a0}");
            // without an override block the text simply goes on
            match out.last_mut() {
                Some(last) if i == 0 && r.tags.is_empty() && last.0 == line => last.1.push_str(&part),
                _ if part.is_empty() => {}
                _ => out.push((line, part, look.clone())),
            }
        }
    }
    out
}

struct Frame0 {
    w: u32,
    h: u32,
    k: f64,
}

fn one_event(cx: &mut Cx, anim: bool) -> (RScript, Frame0, u32) {
    let r = &mut cx.rng;
    let mut m = rgen::script(
        r,
        EvOpts { anim, drawing: false, positioned: None, karaoke: anim, multiline: true, transforms: true },
        1,
    );
    m.wrap = Some(2);
    for s in &mut m.styles {
        if r.pct(15) {
            s.angle = rgen::num(r, -90, 90);
        }
    }
    let names: Vec<String> = m.styles.iter().map(|s| s.name.clone()).collect();
    let e = &mut m.events[0];
    e.comment = false;
    let mut animated = false;
    for run in &mut e.runs {
        if animated {
            // a plain tag after an animation of the same thing is left open
            run.tags.retain(|t| matches!(t, Tag::R | Tag::T(..) | Tag::K(..) | Tag::B(_) | Tag::I(_) | Tag::U(_) | Tag::S(_) | Tag::Fn(_) | Tag::Be(_)));
        }
        animated |= run.tags.iter().any(|t| matches!(t, Tag::T(..)));
        if r.pct(8) {
            let n = if r.pct(80) { r.pick(&names).clone() } else { "Nowhere".into() };
            run.tags.insert(0, Tag::RStyle(n));
        }
        if r.pct(10) {
            run.text.push_str("\\h.");
        }
        // animated tags must come last in their block as well
        let (mut a, b): (Vec<Tag>, Vec<Tag>) = run.tags.drain(..).partition(|t| !matches!(t, Tag::T(..)));
        a.extend(b);
        run.tags = a;
    }
    let play = m.play.unwrap();
    let k = *r.pick(&[1.0f64, 2.0, 0.5, 1.5]);
    let (w, h) = ((f64::from(play.0) * k) as u32, (f64::from(play.1) * k) as u32);
    // the same scale on both axes
    let (w, h, k) = if (f64::from(w), f64::from(h)) == (f64::from(play.0) * k, f64::from(play.1) * k) {
        (w, h, k)
    } else {
        (play.0, play.1, 1.0)
    };
    let t = {
        let e = &m.events[0];
        let t = rgen::time(r, &m);
        t.clamp(e.start, e.end.saturating_sub(1).max(e.start))
    };
    (m, Frame0 { w, h, k }, t)
}

fn check_look(cx: &mut Cx, m: &RScript, fr: &Frame0, t: u32) -> R {
    let e = &m.events[0];
    let text = m.text();
    cx.set_input(format!("{}x{} at {t}\n{text}", fr.w, fr.h));
    let got = texts(layers(&text, t, fr.w, fr.h, None)?);
    let want = expected_runs(e, m);
    ensure!(
        got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.text == w.1),
        "runs",
        "the runs are {:?}, expected {:?}",
        got.iter().map(|g| &g.text).collect::<Vec<_>>(),
        want.iter().map(|w| &w.1).collect::<Vec<_>>()
    );
    let t_ms = (f64::from(t) - f64::from(e.start)) * 10.0;
    let dur_ms = f64::from(e.end - e.start) * 10.0;
    let fade = fade(e, t);
    let sb = if m.sbas == Some(false) { 1.0 } else { fr.k };
    let clip = e.runs.iter().flat_map(|r| &r.tags).filter_map(|t| if let Tag::Clip(c, i) = t { Some((*c, *i)) } else { None }).last();
    let org = e.runs.iter().flat_map(|r| &r.tags).find_map(|t| if let Tag::Org(x, y) = t { Some((*x, *y)) } else { None });
    for (g, (_, txt, look)) in got.iter().zip(&want) {
        let f = full(look, &m.styles[look.style], t_ms, dur_ms);
        let exact = look.ts.is_empty();
        let d = |what: &str, got: String, want: String| format!("{what} of {txt:?} is {got}, expected {want}");
        ensure!(g.font_family == f.font, "font", "{}", d("font", g.font_family.clone(), f.font.clone()));
        let size = f.fs * fr.k * f.fscy / 100.0 * 0.9;
        ensure!(near(f64::from(g.font_size), size), "size", "{}", d("size", g.font_size.to_string(), size.to_string()));
        // stretched by fscx/fscy when drawn, of which only the fscx is meant
        let sp = f.fsp * fr.k * f.fscy / 100.0;
        ensure!(near(f64::from(g.spacing), sp), "spacing", "{}", d("spacing", g.spacing.to_string(), sp.to_string()));
        ensure!(near_col(g.color, f.rgb[0], f.al[0], fade, exact), "colour", "{} fade {fade}", d("colour", format!("{:?}", g.color), format!("{:?} {}", f.rgb[0], f.al[0])));
        let fx = &g.effects;
        let has = |p: fn(&TextEffect) -> bool| fx.iter().any(p);
        let flags = [
            has(|e| matches!(e, TextEffect::Bold)),
            has(|e| matches!(e, TextEffect::Italic)),
            has(|e| matches!(e, TextEffect::Underline)),
            has(|e| matches!(e, TextEffect::Strikethrough)),
        ];
        ensure!(flags == f.flags, "flags", "{}", d("bold/italic/underline/strikeout", format!("{flags:?}"), format!("{:?}", f.flags)));
        // outline or box
        let bw = [f.bord[0] * sb, f.bord[1] * sb];
        let out = fx.iter().find_map(|e| match e {
            TextEffect::Outline { color, width_x, width_y } => Some((false, *color, [*width_x, *width_y])),
            TextEffect::OpaqueBox { color, padding_x, padding_y } => Some((true, *color, [*padding_x, *padding_y])),
            _ => None,
        });
        match out {
            // an outline that comes with the syllable
            None if look.kara.is_some_and(|(k, start, _)| k == "ko" && i64::from(t) <= i64::from(e.start) + i64::from(start)) => {}
            None => ensure!(!f.boxed && bw[0] <= 0.011 && bw[1] <= 0.011, "outline", "{}", d("outline", "none".into(), format!("{bw:?}"))),
            Some((b, c, w)) => {
                ensure!(
                    b == f.boxed && near(f64::from(w[0]), bw[0]) && near(f64::from(w[1]), bw[1]),
                    "outline",
                    "{}",
                    d("outline", format!("{w:?} box {b}"), format!("{bw:?} box {}", f.boxed))
                );
                ensure!(near_col(c, f.rgb[2], f.al[2], fade, exact), "outline-colour", "{} fade {fade}", d("outline colour", format!("{c:?}"), format!("{:?} {}", f.rgb[2], f.al[2])));
            }
        }
        let sw = [f.shad[0] * sb, f.shad[1] * sb];
        let sh = fx.iter().find_map(|e| if let TextEffect::Shadow { color, x_offset, y_offset } = e { Some((*color, [*x_offset, *y_offset])) } else { None });
        match sh {
            None => ensure!(sw[0].abs() <= 0.011 && sw[1].abs() <= 0.011, "shadow", "{}", d("shadow", "none".into(), format!("{sw:?}"))),
            Some((c, w)) => {
                ensure!(near(f64::from(w[0]), sw[0]) && near(f64::from(w[1]), sw[1]), "shadow", "{}", d("shadow", format!("{w:?}"), format!("{sw:?}")));
                ensure!(near_col(c, f.rgb[3], f.al[3], fade, exact), "shadow-colour", "{} fade {fade}", d("shadow colour", format!("{c:?}"), format!("{:?} {}", f.rgb[3], f.al[3])));
            }
        }
        let one = |p: fn(&TextEffect) -> Option<f32>| f64::from(fx.iter().find_map(p).unwrap_or(0.0));
        let blur = one(|e| if let TextEffect::Blur { radius } = e { Some(*radius) } else { None });
        ensure!(near(blur, f.blur.clamp(0.0, 100.0) * fr.k), "blur", "{}", d("blur", blur.to_string(), f.blur.to_string()));
        let be = one(|e| if let TextEffect::EdgeBlur { radius } = e { Some(*radius) } else { None });
        ensure!(near(be, f.be.max(0.0)), "edge-blur", "{}", d("edge blur", be.to_string(), f.be.to_string()));
        let (rot, got_org) = fx
            .iter()
            .find_map(|e| if let TextEffect::Rotation { x, y, z, origin } = e { Some(([*x, *y, *z], *origin)) } else { None })
            .unwrap_or(([0.0; 3], None));
        ensure!((0..3).all(|i| near(f64::from(rot[i]), f.rot[i])), "rotation", "{}", d("rotation", format!("{rot:?}"), format!("{:?}", f.rot)));
        if f.rot.iter().any(|v| v.abs() > 0.02) {
            if let Some((x, y)) = org {
                let ok = got_org.is_some_and(|o| near(f64::from(o.0), f64::from(x) * fr.k) && near(f64::from(o.1), f64::from(y) * fr.k));
                ensure!(ok, "origin", "{}", d("origin", format!("{got_org:?}"), format!("{x},{y}")));
            }
        }
        let shear = fx.iter().find_map(|e| if let TextEffect::Shear { x, y } = e { Some([*x, *y]) } else { None }).unwrap_or([0.0; 2]);
        ensure!((0..2).all(|i| near(f64::from(shear[i]), f.shear[i])), "shear", "{}", d("shear", format!("{shear:?}"), format!("{:?}", f.shear)));
        let sc = fx.iter().find_map(|e| if let TextEffect::Scale { x, y } = e { Some([*x, *y]) } else { None }).unwrap_or([100.0; 2]);
        ensure!(near(f64::from(sc[0]), f.fscx) && near(f64::from(sc[1]), f.fscy), "scale", "{}", d("scale", format!("{sc:?}"), format!("{} {}", f.fscx, f.fscy)));
        let gc = fx.iter().find_map(|e| if let TextEffect::Clip { x1, y1, x2, y2, inverse } = e { Some(([*x1, *y1, *x2, *y2], *inverse)) } else { None });
        let okc = match (gc, clip) {
            (None, None) => true,
            (Some((g, gi)), Some((c, i))) => gi == i && (0..4).all(|n| near(f64::from(g[n]), f64::from(c[n]) * fr.k)),
            _ => false,
        };
        ensure!(okc, "clip", "{}", d("clip", format!("{gc:?}"), format!("{clip:?}")));
        // karaoke
        let gk = fx.iter().find_map(|e| if let TextEffect::Karaoke { progress, style, secondary } = e { Some((*progress, *style, *secondary)) } else { None });
        match (gk, look.kara) {
            (None, None) => {}
            (Some((p, s, c)), Some((k, start, d0))) => {
                let rel = f64::from(t) - f64::from(e.start) - f64::from(start);
                let at_once = k == "k" || k == "ko";
                let want = if rel < 0.0 {
                    0.0
                } else if rel >= f64::from(d0) || at_once {
                    1.0
                } else {
                    rel / f64::from(d0)
                };
                let ws = match k { "k" => 0, "kf" => 1, "ko" => 2, _ => 3 };
                // at the very instant of its start a syllable may be taken as sung or not
                let on_start = rel == 0.0 && (p == 0.0 || p == 1.0);
                ensure!((on_start || (f64::from(p) - want).abs() < 1e-3) && s == ws, "karaoke", "{}", d("karaoke progress", format!("{p} style {s}"), format!("{want} style {ws}")));
                ensure!(near_col(c, f.rgb[1], f.al[1], fade, exact), "secondary", "{} fade {fade}", d("secondary colour", format!("{c:?}"), format!("{:?} {}", f.rgb[1], f.al[1])));
                cx.obs("syllables", 1);
            }
            _ => return fail("karaoke", d("karaoke", format!("{gk:?}"), format!("{:?}", look.kara))),
        }
        cx.obs("runs", 1);
        cx.obs("effects", fx.len() as u64);
        cx.obs("animated_runs", u64::from(!look.ts.is_empty()));
        cx.obs("faded_runs", u64::from(fade < 1.0));
    }
    cx.state(&text);
    Ok(())
}

fn look(cx: &mut Cx) -> R {
    let (m, fr, t) = one_event(cx, false);
    check_look(cx, &m, &fr, t)
}

fn look_over_time(cx: &mut Cx) -> R {
    let (m, fr, t) = one_event(cx, true);
    check_look(cx, &m, &fr, t)
}

/// Ways of writing the same override, which must give the same layers.
fn spelling(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = rgen::style(r, "Default");
    let mut m = RScript { play: Some((320, 180)), layout: None, wrap: Some(2), sbas: None, styles: vec![st.clone()], events: vec![] };
    let c = rgen::rgb(r);
    let n = rgen::num(r, 0, 30);
    let al = r.u(1, 9) as u8;
    let legacy = [1, 2, 3, 9, 10, 11, 5, 6, 7][al as usize - 1];
    let v = rgen::num(r, 1, 40);
    let a = rgen::alpha(r);
    let bgr = format!("{:02X}{:02X}{:02X}", c[2], c[1], c[0]);
    let tag = *r.pick(&["fs", "fscx", "fscy", "fsp", "bord", "shad", "blur", "frz", "xbord", "yshad", "b", "u", "1c", "3a"]);
    // values that cannot be read or that are missing leave or restore the style's
    let junk = *r.pick(&["", "abc", "nan", "inf", "--1", "1e99"]);
    let junk = if matches!(tag, "b" | "u") { "" } else { junk };
    let pairs: Vec<(String, String)> = vec![
        (format!("{{\\c&H{bgr}&}}x"), format!("{{\\1c&H{bgr}&}}x")),
        (format!("{{\\c&H{bgr}&}}x"), format!("{{\\c&h{}&}}x", bgr.to_lowercase())),
        (format!("{{\\c&H{bgr}&}}x"), format!("{{\\c&H{bgr}}}x")),
        (format!("{{\\3c&H{bgr}&}}x"), format!("{{\\3c{bgr}}}x")),
        (format!("{{\\alpha&H{a:02X}&}}x"), format!("{{\\1a&H{a:02X}&\\2a&H{a:02X}&\\3a&H{a:02X}&\\4a&H{a:02X}&}}x")),
        (format!("{{\\1a&H00&\\alpha&H{a:02X}&}}x"), format!("{{\\alpha&H{a:02X}&}}x")),
        (format!("{{\\bord{n}}}x"), format!("{{\\xbord{n}\\ybord{n}}}x")),
        (format!("{{\\xbord3\\bord{n}}}x"), format!("{{\\bord{n}}}x")),
        (format!("{{\\shad{n}}}x"), format!("{{\\xshad{n}\\yshad{n}}}x")),
        (format!("{{\\frz{v}}}x"), format!("{{\\fr{v}}}x")),
        (format!("{{\\an{al}}}x"), format!("{{\\a{legacy}}}x")),
        (format!("{{\\an{al}\\an5}}x"), format!("{{\\an{al}}}x")),
        (format!("{{\\pos({v},{n})\\pos(1,1)}}x"), format!("{{\\pos({v},{n})}}x")),
        (format!("{{\\pos({v},{n})\\move(1,1,2,2)}}x"), format!("{{\\pos({v},{n})}}x")),
        (format!("{{\\pos({v},{n})}}x"), format!("{{\\pos( {v} , {n} )}}x")),
        (format!("x{{\\pos({v},{n})}}"), format!("{{\\pos({v},{n})}}x")),
        (format!("x{{\\an{al}}}"), format!("{{\\an{al}}}x")),
        (format!("{{\\{tag}{junk}}}x"), "x".to_string()),
        (format!("{{\\fs{v}\\c&H{bgr}&\\b1\\r}}x"), "x".to_string()),
        (format!("{{\\fs{v}}}{{\\b1}}x"), format!("{{\\fs{v}\\b1}}x")),
        (format!("{{a comment}}x{{another}}"), "x".to_string()),
        (format!("{{\\nosuchtag5}}x"), "x".to_string()),
        (format!("{{\\fs{v}\\fs}}x"), "x".to_string()),
        (format!("{{\\bord{n}\\bord}}x"), "x".to_string()),
        (format!("{{\\fn{}\\fn}}x", "Go Mono"), "x".to_string()),
        (format!("{{\\fs-5}}x"), "x".to_string()),
        (format!("{{\\pos({v},{n})\\r}}x"), format!("{{\\pos({v},{n})}}x")),
    ];
    let (p, q) = r.pick(&pairs).clone();
    let (w, h) = (320, 180);
    let mut go = |text: &str, runs: &mut Vec<Vec<String>>| -> R {
        m.events = vec![REvent { comment: false, layer: 0, start: 0, end: 100, style: "Default".into(), ml: 0, mr: 0, mv: 0, runs: vec![Run { tags: vec![], text: text.into() }] }];
        let mut v: Vec<String> = vec![];
        for mut l in texts(layers(&m.text(), 50, w, h, None)?) {
            l.effects.sort_by_key(|e| format!("{e:?}"));
            v.push(show(&l));
        }
        runs.push(v);
        Ok(())
    };
    let mut v = vec![];
    go(&p, &mut v)?;
    go(&q, &mut v)?;
    cx.set_input(format!("{}\n{p}\n{q}", st.line()));
    ensure!(v[0] == v[1], "spelling", "{p} gives\n{}\nbut {q} gives\n{}", v[0].join("\n"), v[1].join("\n"));
    cx.obs("spellings", 1);
    cx.state(&(p, q));
    Ok(())
}

/// An SSA script numbers the rows of the screen its own way, and stands where the same
/// script in ASS stands.
fn ssa(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut styles = vec![];
    for n in ["Default", "A", "B"] {
        if n == "Default" || r.bool() {
            styles.push(rgen::style(r, n));
        }
    }
    let events: Vec<REvent> = (0..r.u(1, 3))
        .map(|i| {
            let tag = match r.below(4) {
                0 => format!("{{\\an{}}}", r.u(1, 9)),
                1 => format!("{{\\pos({},{})}}", r.u(0, 320), r.u(0, 180)),
                _ => String::new(),
            };
            REvent { comment: false, layer: i as _, start: 0, end: 100, style: (*r.pick(&["Default", "A", "B", "None"])).into(), ml: 0, mr: 0, mv: r.u(0, 30) as _, runs: vec![Run { tags: vec![], text: format!("{tag}x{i}") }] }
        })
        .collect();
    let m = RScript { play: Some((320, 180)), layout: None, wrap: Some(2), sbas: None, styles, events };
    let ass = m.text();
    let mut old = m.clone();
    for s in &mut old.styles {
        s.align = [1, 2, 3, 9, 10, 11, 5, 6, 7][s.align as usize - 1];
    }
    let text = old.text().replace("v4.00+", "v4.00").replace("[V4+ Styles]", "[V4 Styles]");
    cx.set_input(text.clone());
    let go = |t: &str| -> R<Vec<String>> { Ok(texts(layers(t, 50, 320, 180, None)?).iter().map(show).collect()) };
    let (a, b) = (go(&ass)?, go(&text)?);
    ensure!(a == b, "ssa-place", "SSA gives\n{}\nbut ASS gives\n{}", b.join("\n"), a.join("\n"));
    cx.obs("ssa_scripts", 1);
    cx.state(&text);
    Ok(())
}

/// Ways of writing the same style value.
fn style_values(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let c = rgen::rgb(r);
    let a = rgen::alpha(r);
    let v = u32::from_be_bytes([a, c[2], c[1], c[0]]);
    let forms = if a == 0 {
        vec![format!("&H{v:08X}"), format!("&h{v:08x}"), format!("{v}"), format!("&H{:06X}&", v), format!("&H{v:X}")]
    } else {
        vec![format!("&H{v:08X}"), format!("&h{v:08x}"), format!("{v}"), format!("&H{v:08X}&"), format!("{}", v as i32)]
    };
    let which = r.below(4);
    let flag = r.bool();
    let fl = if flag { *r.pick(&["-1", "1", " -1"]) } else { *r.pick(&["0", "", " 0"]) };
    let form = r.pick(&forms).clone();
    let size = rgen::num(r, 6, 50);
    let size_s = *r.pick(&["", " "]);
    let cols: Vec<String> = (0..4).map(|i| if i == which { form.clone() } else { "&H00112233".into() }).collect();
    let flag_ix = r.below(4);
    let flags: Vec<&str> = (0..4).map(|i| if i == flag_ix { fl } else { "0" }).collect();
    let angle = rgen::num(r, -50, 50);
    let text = format!(
        "[Script Info]\nScriptType: v4.00+\nPlayResX: 320\nPlayResY: 180\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\nStyle: Default,Go,{size_s}{size},{},{},100,100,0,{angle},1,2,2,2,0,0,0,1\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,{{\\k10}}x\n",
        cols.join(","),
        flags.join(",")
    );
    cx.set_input(text.clone());
    let l = texts(layers(&text, 50, 320, 180, None)?);
    ensure!(l.len() == 1, "runs", "{} runs", l.len());
    let l = &l[0];
    let mut got = [[0u8; 4]; 4];
    got[0] = l.color;
    let mut fs = [false; 4];
    let mut rot = 0.0;
    for e in &l.effects {
        match e {
            TextEffect::Karaoke { secondary, .. } => got[1] = *secondary,
            TextEffect::Outline { color, .. } => got[2] = *color,
            TextEffect::Shadow { color, .. } => got[3] = *color,
            TextEffect::Bold => fs[0] = true,
            TextEffect::Italic => fs[1] = true,
            TextEffect::Underline => fs[2] = true,
            TextEffect::Strikethrough => fs[3] = true,
            TextEffect::Rotation { z, .. } => rot = *z,
            _ => {}
        }
    }
    let want = [c[0], c[1], c[2], 255 - a];
    ensure!(got[which] == want, "style-colour", "{form} is {:?}, expected {want:?}", got[which]);
    for i in 0..4 {
        ensure!(fs[i] == (flag && i == flag_ix), "style-flag", "flag {i} of {flags:?} is {}", fs[i]);
        ensure!(i == which || got[i] == [0x33, 0x22, 0x11, 255], "style-colour", "colour {i} is {:?}", got[i]);
    }
    ensure!(near(f64::from(l.font_size), f64::from(size) * 0.9), "style-size", "size {}", l.font_size);
    ensure!(near(f64::from(rot), f64::from(angle)), "style-angle", "angle {rot}, expected {angle}");
    cx.obs("style_values", 1);
    cx.state(&text);
    Ok(())
}

/// A script written for a layout resolution looks as one written for the
/// resolution it plays in with every length of its styles converted.
fn layout_res(cx: &mut Cx) -> R {
    let (mut m, _, t) = one_event(cx, true);
    let r = &mut cx.rng;
    let k = [*r.pick(&[1.0f32, 2.0, 0.5, 4.0]), *r.pick(&[1.0f32, 2.0, 0.5, 0.25])];
    let l = (r.u(40, 200) as u32 * 4, r.u(40, 150) as u32 * 4);
    let play = ((l.0 as f32 * k[0]) as u32, (l.1 as f32 * k[1]) as u32);
    m.play = Some(play);
    m.wrap = Some(r.below(4) as u8);
    m.sbas = match r.below(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    for s in &mut m.styles {
        s.ml *= 4;
        s.mr *= 4;
        s.mv *= 4;
    }
    let mut plain = m.clone();
    m.layout = Some(l);
    let scaled = m.sbas != Some(false);
    for s in &mut plain.styles {
        s.size *= k[1];
        s.spacing *= k[0];
        s.ml = (s.ml as f32 * k[0]) as u32;
        s.mr = (s.mr as f32 * k[0]) as u32;
        s.mv = (s.mv as f32 * k[1]) as u32;
        if scaled {
            s.outline *= k[1];
            s.shadow *= k[1];
        }
    }
    for tag in plain.events[0].runs.iter_mut().flat_map(|r| &mut r.tags) {
        match tag {
            Tag::Pos(x, y) => (*x, *y) = (*x * k[0], *y * k[1]),
            Tag::Move(p, _) => *p = [p[0] * k[0], p[1] * k[1], p[2] * k[0], p[3] * k[1]],
            _ => {}
        }
    }
    let (w, h) = if r.bool() { play } else { (r.u(60, 600) as u32, r.u(60, 400) as u32) };
    let (a, b) = (m.text(), plain.text());
    cx.set_input(format!("{w}x{h} at {t}\n{a}\n=====\n{b}"));
    let a = texts(layers(&a, t, w, h, None)?);
    let b = texts(layers(&b, t, w, h, None)?);
    ensure!(a.len() == b.len(), "layout-runs", "{} runs with a layout resolution, {} without", a.len(), b.len());
    for (x, y) in a.iter().zip(&b) {
        ensure!(x.text == y.text && x.font_family == y.font_family, "layout-text", "{:?} and {:?}", x.text, y.text);
        let tol = |p: f32, q: f32| (p - q).abs() <= 0.02 + 1e-4 * q.abs();
        ensure!(tol(x.font_size, y.font_size), "layout-size", "{} and {}", x.font_size, y.font_size);
        ensure!(tol(x.spacing, y.spacing), "layout-spacing", "{} and {}", x.spacing, y.spacing);
        ensure!(tol(x.x, y.x) && tol(x.y, y.y), "layout-place", "{:?} stands at {},{} and at {},{}", x.text, x.x, x.y, y.x, y.y);
        ensure!(x.color == y.color, "layout-colour", "{:?} and {:?}", x.color, y.color);
        let nums = |g: &TextData| -> Vec<f32> {
            let s = format!("{:?}", g.effects);
            s.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-')).filter_map(|v| v.parse().ok()).collect()
        };
        let (p, q) = (nums(x), nums(y));
        ensure!(p.len() == q.len() && p.iter().zip(&q).all(|(a, b)| tol(*a, *b)), "layout-effects", "{:?} and {:?}", x.effects, y.effects);
    }
    cx.obs("converted_runs", a.len() as u64);
    cx.state(&(k[0].to_bits(), k[1].to_bits(), play, a.len(), w, h));
    Ok(())
}

// ------------------------------------------------------------------ R06

/// A finished animation is the static text; a moving event stands where the move is.
fn freeze(cx: &mut Cx) -> R {
    let (mut m, fr, _) = one_event(cx, true);
    m.play = Some((200, 120));
    let (w, h) = (200, 120);
    let _ = fr;
    let e = &mut m.events[0];
    let dur = (e.end - e.start) * 10;
    let t = e.start + cx.rng.below((e.end - e.start) as usize) as u32;
    let rel = (t - e.start) * 10;
    let mut frozen = e.clone();
    let mut moved = 0;
    let mut ended = 0;
    for (a, b) in e.runs.iter_mut().zip(&mut frozen.runs) {
        let mut ta = vec![];
        let mut tb = vec![];
        for tag in a.tags.drain(..) {
            match tag {
                Tag::T(_, acc, v) => {
                    // over at t
                    let t2 = cx.rng.below(rel as usize + 1) as u32;
                    // at its very start an animation has not begun
                    let t1 = cx.rng.below(t2.min(rel.max(1) - 1) as usize + 1) as u32;
                    if t2 == 0 {
                        continue;
                    }
                    tb.extend(v.clone());
                    ta.push(Tag::T(Some((t1, t2)), acc, v));
                    ended += 1;
                }
                Tag::Move(p, tt) => {
                    let (t1, t2) = tt.unwrap_or((0, dur));
                    let (t1, t2) = (t1 / 10 * 10, t2 / 10 * 10);
                    let f = if rel <= t1 {
                        0.0
                    } else if rel >= t2 {
                        1.0
                    } else {
                        (rel - t1) as f32 / (t2 - t1) as f32
                    };
                    tb.push(Tag::Pos(p[0] + (p[2] - p[0]) * f, p[1] + (p[3] - p[1]) * f));
                    ta.push(Tag::Move(p, tt));
                    moved += 1;
                }
                t => {
                    tb.push(t.clone());
                    ta.push(t);
                }
            }
        }
        a.tags = ta;
        b.tags = tb;
    }
    let x = m.text();
    let y = RScript { events: vec![frozen], ..m.clone() }.text();
    cx.set_input(format!("{w}x{h} at {t}\n{x}\n----\n{y}"));
    let s = |x: &str| -> R<Vec<String>> {
        Ok(texts(layers(x, t, w, h, None)?)
            .into_iter()
            .map(|mut l| {
                l.effects.sort_by_key(|e| format!("{e:?}"));
                // positions up to rounding
                l.x = (l.x * 16.0).round() / 16.0;
                l.y = (l.y * 16.0).round() / 16.0;
                show(&l)
            })
            .collect())
    };
    let (a, b) = (s(&x)?, s(&y)?);
    ensure!(a == b, "freeze", "animated\n{}\nstatic\n{}", a.join("\n"), b.join("\n"));
    if moved == 0 && cx.rng.pct(20) {
        let pic = |x: &str| -> R<Vec<u8>> {
            let s = Script::parse(x).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
            Ok(frame(&s, t, w, h)?.data().to_vec())
        };
        let (p, q) = (pic(&x)?, pic(&y)?);
        ensure!(p == q, "freeze-frame", "the pictures of a finished animation and of the static text differ by {}", crate::frames::max_diff(&p, &q));
        cx.obs("frozen_frames", 1);
    }
    cx.obs("ended_animations", ended);
    cx.obs("moves", moved);
    cx.state(&x);
    Ok(())
}

/// Between its ends an animation stays between its values and runs one way.
fn monotone(cx: &mut Cx) -> R {
    use ass_renderer::pipeline::animation::{calculate_fade_progress, calculate_move_progress};
    let r = &mut cx.rng;
    let t1 = r.below(500) as u32;
    let t2 = t1 + r.below(500) as u32;
    let mut last = 0.0;
    let mut lastf = 0.0;
    for t in 0..(t2 + 20) {
        let p = calculate_move_progress(t, t1, t2);
        let q = calculate_fade_progress(t, t1, t2);
        let want = if t <= t1 { 0.0 } else if t >= t2 { 1.0 } else { f64::from(t - t1) / f64::from(t2 - t1) };
        ensure!((f64::from(p) - want).abs() < 1e-5 && p >= last, "move-progress", "progress at {t} of {t1}..{t2} is {p}, expected {want}");
        ensure!((f64::from(q) - want).abs() < 1e-5 && q >= lastf, "fade-progress", "progress at {t} of {t1}..{t2} is {q}, expected {want}");
        last = p;
        lastf = q;
    }
    use ass_renderer::pipeline::transform::{AnimatableTag, TransformAnimation};
    let acc = *r.pick(&[0.3f32, 0.5, 0.9, 1.0, 1.7, 2.0, 3.0, 5.0]);
    let v = rgen::num(r, 1, 90);
    let (src, want) = match r.below(4) {
        0 => (format!("(\\fs{v})"), (0, 0, 1.0)),
        1 => (format!("({acc},\\fs{v})"), (0, 0, acc)),
        2 => (format!("({t1},{t2},\\fs{v})"), (t1, t2, 1.0)),
        _ => (format!("({t1},{t2},{acc},\\fs{v})"), (t1, t2, acc)),
    };
    cx.set_input(src.clone());
    let Some(a) = TransformAnimation::parse(&src) else { return fail("t-parse", format!("{src} is no transform")) };
    ensure!((a.start_ms, a.end_ms, a.accel) == want, "t-parse", "{src} is {a:?}");
    ensure!(matches!(a.target_tags[..], [AnimatableTag::FontSize(x)] if x == v), "t-parse", "{src} is {a:?}");
    let full = 1000 + t2;
    let mut last = 0.0f32;
    let end = if a.end_ms > 0 { a.end_ms } else { full };
    for t in (0..full + 100).step_by(7) {
        let p = a.calculate_progress(t, full);
        ensure!((0.0..=1.0).contains(&p) && p >= last, "t-progress", "{src} goes from {last} to {p} at {t}");
        ensure!(t > a.start_ms || p == 0.0, "t-progress", "{src} has begun at {t}: {p}");
        ensure!(t < end || t <= a.start_ms || p == 1.0, "t-progress", "{src} has not ended at {t}: {p}");
        if a.accel == 1.0 && t > a.start_ms && t < end {
            let want = f64::from(t - a.start_ms) / f64::from(end - a.start_ms);
            ensure!((f64::from(p) - want).abs() < 1e-5, "t-linear", "{src} is {p} at {t}, expected {want}");
        }
        last = p;
    }
    cx.obs("progress_curves", 1);
    cx.state(&(src, t1, t2));
    Ok(())
}

// ------------------------------------------------------------------ R12

fn shape(g: &TextData) -> R<ass_renderer::pipeline::shaping::ShapedText> {
    let has = |p: fn(&TextEffect) -> bool| g.effects.iter().any(p);
    err(
        shape_text_cached(
            &g.text,
            &g.font_family,
            g.font_size,
            has(|e| matches!(e, TextEffect::Bold)),
            has(|e| matches!(e, TextEffect::Italic)),
            db(),
        ),
        "shape",
    )
}

/// Width of a run on screen: advances and spacing, times the horizontal scale.
fn run_width(g: &TextData) -> R<f64> {
    let s = shape(g)?;
    let adv: f64 = s.glyphs.iter().map(|g| f64::from(g.x_advance)).sum();
    let (sx, sy) = g.effects.iter().find_map(|e| if let TextEffect::Scale { x, y } = e { Some((f64::from(*x), f64::from(*y))) } else { None }).unwrap_or((100.0, 100.0));
    Ok((adv + f64::from(g.spacing) * s.glyphs.len() as f64) * sx / sy)
}

fn effective<'a>(m: &'a RScript, e: &REvent) -> &'a RStyle {
    m.style(&e.style).unwrap_or(&m.styles[0])
}

fn margins(m: &RScript, e: &REvent) -> (f64, f64, f64) {
    let s = effective(m, e);
    let p = |a: u32, b: u32| f64::from(if a == 0 { b } else { a });
    (p(e.ml, s.ml), p(e.mr, s.mr), p(e.mv, s.mv))
}

fn layout(cx: &mut Cx) -> R {
    let mut m = rgen::script(
        &mut cx.rng,
        EvOpts { anim: false, drawing: false, positioned: None, karaoke: false, multiline: true, transforms: false },
        1,
    );
    let play = m.play.unwrap();
    let (w, h) = if cx.rng.bool() { play } else { (cx.rng.u(100, 500) as u32, cx.rng.u(80, 400) as u32) };
    let wrap = cx.rng.below(4) as u8;
    m.wrap = Some(wrap);
    let e = &mut m.events[0];
    e.comment = false;
    if cx.rng.pct(10) {
        e.style = "Nowhere".into();
    }
    if cx.rng.pct(40) {
        let w = rgen::words(&mut cx.rng, 12);
        e.runs.last_mut().unwrap().text.push_str(&format!(" {w}"));
    }
    for r in &mut e.runs {
        // one size and face where lines are measured: wrapping measures by the first run
        r.tags.retain(|t| !matches!(t, Tag::Clip(..) | Tag::R | Tag::Blur(_)));
    }
    let e = m.events[0].clone();
    let text = m.text();
    let t = e.start;
    cx.set_input(format!("{w}x{h} at {t} wrap {wrap}\n{text}"));
    let got = texts(layers(&text, t, w, h, None)?);
    let want = expected_runs(&e, &m);
    let st = effective(&m, &e);
    let (kx, ky) = (f64::from(w) / f64::from(play.0), f64::from(h) / f64::from(play.1));
    let (ml, mr, mv) = margins(&m, &e);
    let (ml, mr, mv) = (ml * kx, mr * kx, mv * ky);
    let an = e.runs.iter().flat_map(|r| &r.tags).find_map(|t| if let Tag::An(a) = t { Some(*a) } else { None }).unwrap_or(st.align);
    let pos = e.runs.iter().flat_map(|r| &r.tags).find_map(|t| if let Tag::Pos(x, y) = t { Some((f64::from(*x) * kx, f64::from(*y) * ky)) } else { None });
    // baselines group the runs into lines
    let mut lines: Vec<Vec<(f64, &TextData)>> = vec![];
    let mut it = got.iter().peekable();
    let mut line_of: Vec<usize> = vec![];
    let mut x_end = f64::MAX;
    while let Some(g) = it.next() {
        let b = f64::from(g.y) + f64::from(shape(g)?.baseline);
        let same = lines.last().is_some_and(|l: &Vec<(f64, &TextData)>| (l[0].0 - b).abs() < 0.05) && (f64::from(g.x) - x_end).abs() < 0.3;
        if !same {
            lines.push(vec![]);
        }
        lines.last_mut().unwrap().push((b, g));
        line_of.push(lines.len() - 1);
        x_end = f64::from(g.x) + run_width(g)?;
    }
    // the text is all there, in order: what was broken is spaces
    let flat: Vec<(usize, char)> = want.iter().flat_map(|(l, s, _)| s.chars().map(move |c| (*l, c))).collect();
    let mut k = 0;
    let mut hard_line: Vec<usize> = vec![0; lines.len()];
    let mut breaks = 0;
    let mut prev = None;
    for (g, li) in got.iter().zip(&line_of) {
        if prev.is_some_and(|p| p != *li) && k < flat.len() && flat[k].1 == ' ' && flat[k - 1].0 == flat[k].0 && !g.text.starts_with(' ') {
            k += 1; // the space a soft break replaced
        }
        if prev.is_some_and(|p| p != *li) {
            breaks += u64::from(k < flat.len() && k > 0 && flat[k].0 == flat[k - 1].0);
        }
        if k < flat.len() {
            hard_line[*li] = flat[k].0;
        }
        for c in g.text.chars() {
            ensure!(k < flat.len() && flat[k].1 == c, "text", "the layers say {:?}, expected {:?}", got.iter().map(|g| &g.text).collect::<Vec<_>>(), want.iter().map(|w| &w.1).collect::<Vec<_>>());
            k += 1;
        }
        prev = Some(*li);
    }
    ensure!(k == flat.len(), "text", "text missing: {:?}", got.iter().map(|g| &g.text).collect::<Vec<_>>());
    let hard = want.last().map_or(0, |w| w.0);
    let soft = pos.is_none() && wrap != 2;
    // a break falls between lines that were apart, or at a space if wrapping is on
    ensure!(soft || breaks == 0, "wrap-off", "{breaks} soft breaks with wrap style {wrap}, positioned {}", pos.is_some());
    {
        let mut seen: Vec<usize> = hard_line.clone();
        seen.dedup();
        let mut expect: Vec<usize> = want.iter().map(|w| w.0).collect();
        expect.dedup();
        ensure!(seen == expect, "hard-breaks", "lines {hard_line:?} of hard lines {expect:?} ({hard})");
    }
    // each line is aligned as a whole, by its width
    let n = lines.len();
    let widths: Vec<f64> = lines.iter().map(|l| l.iter().map(|(_, g)| run_width(g)).sum::<R<f64>>()).collect::<R<_>>()?;
    let col = (an - 1) % 3;
    for (l, width) in lines.iter().zip(&widths) {
        let x = match (pos, col) {
            (Some(p), 0) => p.0,
            (Some(p), 1) => p.0 - width / 2.0,
            (Some(p), _) => p.0 - width,
            (None, 0) => ml,
            (None, 1) => (ml + f64::from(w) - mr) / 2.0 - width / 2.0,
            (None, _) => f64::from(w) - mr - width,
        };
        let gx = f64::from(l[0].1.x);
        ensure!((gx - x).abs() < 0.25, "align-x", "line {:?} starts at {gx}, expected {x} (alignment {an})", l.iter().map(|(_, g)| &g.text).collect::<Vec<_>>());
    }
    // the block of lines stands at its anchor, the lines evenly below each other
    let size = want
        .iter()
        .map(|(_, _, l)| l.fs.unwrap_or(f64::from(m.styles[l.style].size)))
        .fold(f64::from(st.size), f64::max);
    let lh = size * ky;
    let tops: Vec<f64> = lines
        .iter()
        .map(|l| {
            let asc = l.iter().map(|(_, g)| shape(g).map(|s| f64::from(s.baseline))).collect::<R<Vec<_>>>()?;
            Ok(l[0].0 - asc.into_iter().fold(0.0, f64::max))
        })
        .collect::<R<_>>()?;
    let height = if n > 1 {
        lh
    } else {
        let hs = lines[0].iter().map(|(_, g)| shape(g).map(|s| f64::from(s.height))).collect::<R<Vec<_>>>()?;
        hs.into_iter().fold(0.0, f64::max)
    };
    let block = lh * (n - 1) as f64 + height;
    let row = (an - 1) / 3;
    let top = match (pos, row) {
        (Some(p), 0) => p.1 - block,
        (Some(p), 1) => p.1 - block / 2.0,
        (Some(p), _) => p.1,
        (None, 0) => f64::from(h) - mv - block,
        (None, 1) => f64::from(h) / 2.0 - block / 2.0,
        (None, _) => mv,
    };
    // what leaves the frame is moved back into it
    let dy = tops[0] - top;
    if pos.is_some() || (top >= 0.0 && top + block <= f64::from(h)) {
        // boxes count their glyphs' scale, which may reach past the frame
        let tall = got.iter().any(|g| f64::from(g.y) + f64::from(g.font_size) / 0.9 > f64::from(h) - 1.0 || g.y < 1.0);
        ensure!(dy.abs() < 0.3 || (pos.is_none() && tall), "align-y", "the text begins at {}, expected {top} (alignment {an}, {n} lines of {lh})", tops[0]);
        cx.obs("placed_blocks", 1);
    }
    for i in 1..n {
        ensure!((tops[i] - tops[i - 1] - lh).abs() < 0.3, "line-height", "lines {} apart, expected {lh}", tops[i] - tops[i - 1]);
    }
    cx.obs("lines", n as u64);
    cx.obs("soft_breaks", breaks);
    cx.obs("runs", got.len() as u64);
    cx.state(&text);
    Ok(())
}

/// Lines are broken only where they must be, and then as early as the style says.
fn wrapping(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut st = rgen::style(r, "Default");
    st.align = r.u(1, 9) as u8;
    let wrap = *r.pick(&[0u8, 1, 3]);
    let ev_wrap = if r.pct(30) { Some(*r.pick(&[0u8, 1, 2, 3])) } else { None };
    let (w, h) = (r.u(120, 500) as u32, 300);
    let n = r.u(2, 16);
    let txt: Vec<String> = (0..n).map(|_| rgen::words(r, 1)).collect();
    let mut tags = vec![];
    if let Some(q) = ev_wrap {
        tags.push(Tag::Q(q));
    }
    // colours split the text into runs without changing its measure
    let mut runs = vec![];
    for (i, x) in txt.iter().enumerate() {
        let mut tg = std::mem::take(&mut tags);
        if r.pct(20) {
            tg.push(Tag::C(1, rgen::rgb(r), false));
        }
        let t = if i + 1 < n { format!("{x} ") } else { x.clone() };
        runs.push(Run { tags: tg, text: t });
    }
    let e = REvent { comment: false, layer: 0, start: 0, end: 100, style: "Default".into(), ml: 0, mr: 0, mv: 0, runs };
    let m = RScript { play: Some((w, h)), layout: None, wrap: Some(wrap), sbas: None, styles: vec![st.clone()], events: vec![e] };
    let text = m.text();
    cx.set_input(format!("{w}x{h} wrap {wrap} {ev_wrap:?}\n{text}"));
    let got = texts(layers(&text, 0, w, h, None)?);
    let wrap = ev_wrap.unwrap_or(wrap);
    let mut lines: Vec<String> = vec![];
    let mut y = f32::MIN;
    for g in &got {
        if (g.y - y).abs() > 0.01 {
            lines.push(String::new());
            y = g.y;
        }
        lines.last_mut().unwrap().push_str(&g.text);
    }
    let all = txt.join(" ");
    ensure!(lines.join(" ") == all, "wrap-text", "{lines:?}");
    let avail = f64::from(w - st.ml.min(w) - st.mr.min(w)).max(1.0);
    // width of what is inked, as the wrapping measures it
    // a gap is counted per character or, with ligatures, per glyph
    let width_by = |s: &str, chars: bool| -> R<f64> {
        let sh = err(shape_text_cached(s, &st.font, st.size * st.sy / 100.0 * 0.9, st.bold, st.italic, db()), "shape")?;
        let adv: f64 = f64::from(sh.width) + f64::from(st.spacing * st.sy / 100.0) * (if chars { s.chars().count() } else { sh.glyphs.len() }).saturating_sub(1) as f64;
        let ink = adv - f64::from(sh.ink_min) - f64::from((sh.width - sh.ink_max).max(0.0));
        Ok(ink * f64::from(st.sx) / f64::from(st.sy))
    };
    let width = |s: &str| width_by(s, false);
    let wide = |s: &str| width_by(s, true);
    let slack = 1.5 + f64::from(st.size) * 0.12 * f64::from(st.sx) / 100.0;
    if wrap == 2 {
        ensure!(lines.len() == 1, "wrap-none", "{lines:?}");
    } else {
        for l in &lines {
            ensure!(!l.contains(' ') || width(l)? <= avail + slack, "wrap-overflow", "{l:?} is {} wide, {avail} available", width(l)?);
        }
        // the fewest lines that fit
        let mut fewest = 1;
        let mut cur = String::new();
        for x in &txt {
            let next = if cur.is_empty() { x.clone() } else { format!("{cur} {x}") };
            if !cur.is_empty() && width(&next)? > avail + slack {
                fewest += 1;
                cur = x.clone();
            } else {
                cur = next;
            }
        }
        let mut most = 1;
        let mut cur = String::new();
        for x in &txt {
            let next = if cur.is_empty() { x.clone() } else { format!("{cur} {x}") };
            if !cur.is_empty() && wide(&next)? > avail - slack {
                most += 1;
                cur = x.clone();
            } else {
                cur = next;
            }
        }
        ensure!((fewest..=most).contains(&lines.len()), "wrap-count", "{} lines, {fewest} to {most} would do: {lines:?} in {avail}", lines.len());
        if wrap == 1 {
            for p in lines.windows(2) {
                let word = p[1].split(' ').next().unwrap();
                let both = format!("{} {word}", p[0]);
                ensure!(wide(&both)? > avail - slack, "wrap-greedy", "{word:?} would have fitted on {:?}", p[0]);
            }
        } else if lines.len() > 1 {
            // balanced: no line is longer than the longest of the plain breaking
            let mut greedy: Vec<String> = vec![String::new()];
            for x in &txt {
                let c = greedy.last().unwrap();
                let next = if c.is_empty() { x.clone() } else { format!("{c} {x}") };
                if !c.is_empty() && wide(&next)? > avail {
                    greedy.push(x.clone());
                } else {
                    *greedy.last_mut().unwrap() = next;
                }
            }
            // the longest line of the best breaking into as many lines
            let n = txt.len();
            let mut best = vec![f64::MAX; n + 1];
            let mut next = vec![f64::MAX; n + 1];
            best[0] = 0.0;
            for _ in 0..lines.len() {
                next.fill(f64::MAX);
                for a in 0..n {
                    if best[a] == f64::MAX {
                        continue;
                    }
                    for b in a + 1..=n {
                        let x = wide(&txt[a..b].join(" "))?;
                        next[b] = next[b].min(best[a].max(x));
                        if x > 2.0 * avail && b > a + 1 {
                            break;
                        }
                    }
                }
                std::mem::swap(&mut best, &mut next);
            }
            let longest = |v: &[String]| v.iter().map(|l| wide(l)).collect::<R<Vec<_>>>().map(|v| v.into_iter().fold(0.0, f64::max));
            let (a, b) = (longest(&lines)?, longest(&greedy)?);
            ensure!(a <= best[n] + slack, "wrap-even", "the longest line is {a} wide, {} would do for {} lines: {lines:?}", best[n], lines.len());
            cx.obs("balanced", 1);
            ensure!(lines.len() != greedy.len() || a <= b + slack, "wrap-balance", "the longest line is {a} wide, {b} without balance: {lines:?}");
        }
    }
    cx.obs("wrapped_lines", lines.len() as u64);
    cx.state(&text);
    Ok(())
}

/// What is painted is where the layout put it.
fn ink(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut st = RStyle::plain("Default");
    st.font = r.pick(rgen::FONTS).to_string();
    st.size = rgen::num(r, 12, 40);
    st.bold = r.pct(30);
    st.sx = if r.bool() { 100.0 } else { rgen::num(r, 50, 200) };
    st.sy = if r.bool() { 100.0 } else { rgen::num(r, 50, 200) };
    st.spacing = if r.bool() { 0.0 } else { rgen::num(r, 0, 6) };
    st.align = r.u(1, 9) as u8;
    let (w, h) = (640, 240);
    let mut txt = rgen::words(r, 2);
    if r.pct(20) {
        txt.push_str(" Wo");
    }
    let pos = (r.range(200, 440) as f32, r.range(80, 160) as f32);
    let mut tags = vec![Tag::Pos(pos.0, pos.1)];
    let split = r.pct(40);
    let mut runs = vec![Run { tags: std::mem::take(&mut tags), text: txt.clone() }];
    if split {
        runs.push(Run { tags: vec![Tag::C(1, [255, 255, 255], false), Tag::Fs(rgen::num(r, 12, 40))], text: rgen::words(r, 1) });
    }
    let e = REvent { comment: false, layer: 0, start: 0, end: 100, style: "Default".into(), ml: 0, mr: 0, mv: 0, runs };
    let m = RScript { play: Some((w, h)), layout: None, wrap: Some(2), sbas: None, styles: vec![st], events: vec![e] };
    let text = m.text();
    cx.set_input(text.clone());
    let got = texts(layers(&text, 0, w, h, None)?);
    let s = Script::parse(&text).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
    let f = frame(&s, 0, w, h)?;
    let (mut x0, mut x1, mut y0, mut y1) = (w, 0, h, 0);
    for y in 0..h {
        for x in 0..w {
            if f.data()[((y * w + x) * 4 + 3) as usize] > 8 {
                x0 = x0.min(x);
                x1 = x1.max(x + 1);
                y0 = y0.min(y);
                y1 = y1.max(y + 1);
            }
        }
    }
    if x0 >= x1 {
        cx.mark_trivial();
        return Ok(());
    }
    let (mut l, mut rr) = (f64::MAX, f64::MIN);
    let (mut top, mut bot) = (f64::MAX, f64::MIN);
    for g in &got {
        let s = shape(g)?;
        let wid = run_width(g)?;
        let k = g.effects.iter().find_map(|e| if let TextEffect::Scale { x, y } = e { Some(f64::from(*x / *y)) } else { None }).unwrap_or(1.0);
        let gx = f64::from(g.x);
        l = l.min(gx + f64::from(s.ink_min) * k);
        // trailing advance and side bearing
        rr = rr.max(gx + wid - (f64::from(g.spacing) + f64::from(s.width - s.ink_max)) * k);
        top = top.min(f64::from(g.y));
        bot = bot.max(f64::from(g.y) + f64::from(s.height));
    }
    if l < 0.0 || rr > f64::from(w) {
        cx.mark_trivial();
        return Ok(());
    }
    ensure!((f64::from(x0) - l).abs() < 2.5 && (f64::from(x1) - rr).abs() < 2.5, "ink-x", "painted from {x0} to {x1}, laid out from {l} to {rr}");
    ensure!(f64::from(y0) > top - 3.0 && f64::from(y1) < bot + 3.0, "ink-y", "painted from {y0} to {y1}, laid out from {top} to {bot}");
    cx.obs("inked_texts", 1);
    cx.obs("inked_runs", got.len() as u64);
    cx.state(&text);
    Ok(())
}

/// A picture moves with its position, and scales with its frame.
fn translate(cx: &mut Cx) -> R {
    let mut m = rgen::script(&mut cx.rng, EvOpts { anim: false, drawing: true, positioned: Some(true), karaoke: false, multiline: true, transforms: true }, 1);
    let (w, h) = (300u32, 200u32);
    m.play = Some((w, h));
    let e = &mut m.events[0];
    e.comment = false;
    for r in &mut e.runs {
        r.tags.retain(|t| !matches!(t, Tag::Clip(..) | Tag::Org(..) | Tag::Frx(_) | Tag::Fry(_)));
    }
    // shears both ways may flatten the text to a line, which is painted by chance
    if e.runs.iter().any(|r| r.tags.iter().any(|t| matches!(t, Tag::Fax(_)))) {
        for r in &mut e.runs {
            r.tags.retain(|t| !matches!(t, Tag::Fay(_)));
        }
    }
    let (x, y) = (cx.rng.range(60, 240) as f32, cx.rng.range(40, 160) as f32);
    let (dx, dy) = (cx.rng.range(-40, 40), cx.rng.range(-30, 30));
    let t = e.start;
    let mut at = |px: f32, py: f32| {
        for r in &mut m.events[0].runs {
            for t in &mut r.tags {
                if let Tag::Pos(a, b) = t {
                    (*a, *b) = (px, py);
                }
            }
        }
        m.text()
    };
    // a place exactly between two parts of a pixel may be rounded either way: a wrong
    // picture is wrong a little further on too
    let mut wrong = None;
    for nudge in [0.0, 0.03, 0.055] {
        let a = at(x + nudge, y + nudge);
        let b = at(x + nudge + dx as f32, y + nudge + dy as f32);
        cx.set_input(format!("{w}x{h} at {t}, by {dx},{dy}\n{a}"));
        let pic = |x: &str| -> R<Vec<u8>> {
            let s = Script::parse(x).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
            Ok(frame(&s, t, w, h)?.data().to_vec())
        };
        let (p, q) = (pic(&a)?, pic(&b)?);
        // a curve that the frame cuts is flattened differently
        let cut = |p: &[u8]| (0..h).any(|y| (0..w).any(|x| (x == 0 || y == 0 || x + 1 == w || y + 1 == h) && p[((y * w + x) * 4 + 3) as usize] > 0));
        if cut(&p) || cut(&q) {
            cx.mark_trivial();
            return Ok(());
        }
        let mut bad = 0u32;
        let mut worst = (0u8, 0, 0);
        let mut painted = 0u64;
        for yy in 0..h as i64 {
            for xx in 0..w as i64 {
                let (ux, uy) = (xx + dx, yy + dy);
                if ux < 0 || uy < 0 || ux >= w as i64 || uy >= h as i64 {
                    continue;
                }
                let i = ((yy * w as i64 + xx) * 4) as usize;
                let j = ((uy * w as i64 + ux) * 4) as usize;
                let d = (0..4).map(|k| p[i + k].abs_diff(q[j + k])).max().unwrap();
                painted += u64::from(p[i + 3] > 0);
                if d > 40 {
                    bad += 1;
                }
                if d > worst.0 {
                    worst = (d, xx, yy);
                }
            }
        }
        if u64::from(bad) <= painted / 50 + 3 {
            cx.obs("moved_pixels", painted);
            cx.max("worst_difference", u64::from(worst.0));
            cx.state(&a);
            return Ok(());
        }
        wrong.get_or_insert((bad, painted, worst));
        cx.obs("rounded_places_tried_again", 1);
    }
    let (bad, painted, worst) = wrong.unwrap();
    fail("translate", format!("{bad} of {painted} painted pixels differ after moving by {dx},{dy}; worst {worst:?}"))
}

// ------------------------------------------------------------------ R07

fn collide(cx: &mut Cx) -> R {
    let mut m = rgen::script(
        &mut cx.rng,
        EvOpts { anim: false, drawing: false, positioned: None, karaoke: false, multiline: true, transforms: false },
        6,
    );
    if cx.rng.pct(70) {
        m.play = Some((640, 480));
    }
    let (w, h) = m.play.unwrap();
    let same = cx.rng.pct(60);
    let al = cx.rng.u(1, 9) as u8;
    for s in &mut m.styles {
        if same {
            s.align = al;
        }
        s.size = s.size.min(24.0);
        s.sy = 100.0;
    }
    for e in &mut m.events {
        e.comment = false;
        e.start = 100;
        e.end = 200;
        if same {
            e.layer = 0;
        }
        if cx.rng.pct(30) {
            e.start = 100 - cx.rng.below(50) as u32;
        }
        for r in &mut e.runs {
            r.tags.retain(|t| !matches!(t, Tag::Clip(..) | Tag::Fscy(_) | Tag::R) && !(same && matches!(t, Tag::An(_))));
            for t in &mut r.tags {
                if let Tag::Fs(v) = t {
                    *v = v.min(24.0);
                }
            }
        }
    }
    let text = m.text();
    let t = 150;
    cx.set_input(format!("{w}x{h} at {t}\n{text}"));
    let all = texts(layers(&text, t, w, h, None)?);
    let mut order: Vec<usize> = (0..m.events.len()).collect();
    order.sort_by_key(|i| (m.events[*i].layer, m.events[*i].start));
    // alone, in the order of drawing
    struct Box0 {
        ev: usize,
        layer: i32,
        x0: f64,
        x1: f64,
        y0: f64,
        y1: f64,
    }
    let mut at = 0;
    let mut placed: Vec<Box0> = vec![];
    for i in order {
        let alone = texts(layers(&text, t, w, h, Some(&[i]))?);
        ensure!(at + alone.len() <= all.len(), "order", "event {i} is missing");
        let here = &all[at..at + alone.len()];
        at += alone.len();
        let positioned = m.events[i].has(|t| matches!(t, Tag::Pos(..)));
        let Some(first) = alone.first() else { continue };
        let dy = f64::from(here[0].y) - f64::from(first.y);
        let mut b = Box0 { ev: i, layer: m.events[i].layer, x0: f64::MAX, x1: f64::MIN, y0: f64::MAX, y1: f64::MIN };
        let mut alone_y = (f64::MAX, f64::MIN);
        for (a, g) in alone.iter().zip(here) {
            ensure!(
                a.text == g.text && a.x == g.x && (f64::from(g.y) - f64::from(a.y) - dy).abs() < 0.1 && a.color == g.color && a.font_size == g.font_size,
                "moved-whole",
                "event {i} alone has {}, among others {}",
                show(a),
                show(g)
            );
            let lh = f64::from(g.font_size) / 0.9;
            b.x0 = b.x0.min(f64::from(g.x));
            b.x1 = b.x1.max(f64::from(g.x) + run_width(g)?);
            b.y0 = b.y0.min(f64::from(g.y));
            b.y1 = b.y1.max(f64::from(g.y) + lh);
            alone_y = (alone_y.0.min(f64::from(a.y)), alone_y.1.max(f64::from(a.y) + lh));
        }
        if positioned {
            ensure!(dy.abs() < 0.01, "positioned", "event {i} has a \\pos but moved by {dy}");
            cx.obs("positioned", 1);
            continue;
        }
        let hits = |b: &Box0, y: (f64, f64), m: f64| {
            placed.iter().find(|p| p.layer == b.layer && p.x0 < b.x1 + m && b.x0 < p.x1 + m && p.y0 < y.1 + m && y.0 < p.y1 + m).map(|p| p.ev)
        };
        let inside = b.y0 > 0.6 && b.y1 < f64::from(h) - 0.6;
        if inside {
            if let Some(o) = hits(&b, (b.y0, b.y1), -0.1) {
                return fail("overlap", format!("events {i} and {o} overlap: {} to {}", b.y0, b.y1));
            }
        } else {
            cx.obs("at_the_edge", 1);
        }
        if dy.abs() > 0.6 {
            // it had to move, and moved away from its edge
            ensure!(hits(&b, alone_y, 4.5).is_some(), "moved-for-nothing", "event {i} moved by {dy} with nothing in its way");
            let an = m.events[i].runs.iter().flat_map(|r| &r.tags).find_map(|t| if let Tag::An(a) = t { Some(*a) } else { None }).unwrap_or(effective(&m, &m.events[i]).align);
            ensure!((an <= 3) == (dy < 0.0) || !inside, "direction", "event {i} with alignment {an} moved by {dy}");
            cx.obs("moved_events", 1);
        }
        placed.push(b);
    }
    ensure!(at == all.len(), "order", "{} layers more than the events have", all.len() - at);
    cx.obs("events", placed.len() as u64);
    cx.state(&text);
    Ok(())
}

/// The resolvers on boxes of their own.
fn resolver(cx: &mut Cx) -> R {
    use ass_renderer::collision::{BoundingBox, CollisionResolver, PositionedEvent, SmartCollisionResolver};
    let r = &mut cx.rng;
    let (w, h) = (r.u(50, 400) as f32, r.u(50, 400) as f32);
    let n = r.u(1, 8);
    let mk = |r: &mut Rng| {
        let bh = rgen::num(r, 1, 30);
        PositionedEvent {
            bbox: BoundingBox::new(rgen::num(r, 0, w as i64), rgen::num(r, 0, (h - bh) as i64), rgen::num(r, 1, 100), bh),
            layer: r.below(2) as i32,
            margin_v: 0,
            margin_l: 0,
            margin_r: 0,
            alignment: r.u(1, 9) as u8,
            priority: if r.pct(3) { i32::MIN } else { r.range(-5, 200) as i32 },
        }
    };
    let evs: Vec<PositionedEvent> = (0..n).map(|_| mk(r)).collect();
    let margin = *r.pick(&[0.0f32, 2.0, 5.0]);
    cx.set_input(format!("{w}x{h} margin {margin} {evs:?}"));
    let over = |a: &BoundingBox, b: &BoundingBox| a.x < b.x + b.width && b.x < a.x + a.width && a.y < b.y + b.height && b.y < a.y + a.height;
    for i in 0..n {
        for k in 0..n {
            let (a, b) = (&evs[i].bbox, &evs[k].bbox);
            let ix = (a.x + a.width).min(b.x + b.width) - a.x.max(b.x);
            let iy = (a.y + a.height).min(b.y + b.height) - a.y.max(b.y);
            let area = if ix > 0.0 && iy > 0.0 { ix * iy } else { 0.0 };
            ensure!(a.intersects(b) == (area > 0.0) && (a.overlap_area(b) - area).abs() < 1e-3, "box", "{a:?} {b:?}");
        }
    }
    let mut c = CollisionResolver::new(w, h);
    c.set_collision_margin(margin);
    let mut done: Vec<(BoundingBox, i32)> = vec![];
    for e in &evs {
        let b = c.find_position(e.clone());
        ensure!(b.x == e.bbox.x && b.width == e.bbox.width && b.height == e.bbox.height, "resolver-size", "{e:?} became {b:?}");
        ensure!(b.y >= 0.0 && b.y + b.height <= h.max(b.height) + 0.01, "resolver-screen", "{e:?} became {b:?}");
        let edge = b.y <= 0.0 || b.y + b.height >= h - 0.01;
        if !edge {
            for (d, l) in &done {
                ensure!(*l != e.layer || !over(d, &b), "resolver-overlap", "{e:?} became {b:?}, which is over {d:?}");
            }
        }
        let near = |d: &BoundingBox| over(&d.expand(margin), &e.bbox.expand(margin));
        if !done.iter().any(|(d, l)| *l == e.layer && near(d)) {
            ensure!(b.y == e.bbox.y, "resolver-moved", "{e:?} moved to {b:?} with nothing in its way");
        } else {
            cx.obs("box_collisions", 1);
        }
        done.push((b, e.layer));
    }
    ensure!(c.positioned_events().len() == n, "resolver-list", "{} events", c.positioned_events().len());
    c.clear();
    ensure!(c.positioned_events().is_empty(), "resolver-clear", "");
    let mut smart = SmartCollisionResolver::new(w, h);
    let mut v = evs.clone();
    smart.process_events(&mut v);
    ensure!(v.len() == n && v.windows(2).all(|p| p[0].priority >= p[1].priority), "priority", "{:?}", v.iter().map(|e| e.priority).collect::<Vec<_>>());
    let mut fixed: Vec<String> = evs.iter().filter(|e| e.priority >= 100).map(|e| format!("{e:?}")).collect();
    let mut now: Vec<String> = v.iter().filter(|e| e.priority >= 100).map(|e| format!("{e:?}")).collect();
    fixed.sort();
    now.sort();
    ensure!(fixed == now, "priority-fixed", "an event of high priority moved: {fixed:?} {now:?}");
    cx.obs("boxes", n as u64);
    cx.state(&format!("{evs:?}"));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "R11",
            rule: "a distinct script whose runs were compared with the model",
            assumptions: &["one scale on both axes"],
            monitors: vec![mon("look", 200000, 2000000, look), mon("spelling", 100000, 1000000, spelling), mon("style_values", 60000, 600000, style_values), mon("layout_res", 60000, 600000, layout_res)],
            must_observe: &["runs", "effects", "spellings", "style_values", "converted_runs"],
        },
        Property {
            id: "R06",
            rule: "a distinct script and time compared with the model",
            assumptions: &["one scale on both axes"],
            monitors: vec![mon("look_over_time", 200000, 2000000, look_over_time), mon("freeze", 30000, 300000, freeze), mon("curves", 10000, 100000, monotone)],
            must_observe: &["animated_runs", "faded_runs", "syllables", "ended_animations", "moves", "frozen_frames", "progress_curves"],
        },
        Property {
            id: "R12",
            rule: "a distinct script whose layout or picture was measured",
            assumptions: &["widths by the renderer's own shaping"],
            monitors: vec![mon("layout", 120000, 1200000, layout), mon("wrapping", 60000, 600000, wrapping), mon("ink", 6000, 60000, ink), mon("translate", 6000, 60000, translate), mon("ssa", 20000, 200000, ssa)],
            must_observe: &["lines", "soft_breaks", "placed_blocks", "wrapped_lines", "balanced", "inked_texts", "moved_pixels", "ssa_scripts"],
        },
        Property {
            id: "R07",
            rule: "a distinct set of simultaneous events",
            assumptions: &[],
            monitors: vec![mon("collide", 100000, 1000000, collide), mon("resolver", 300000, 3000000, resolver)],
            must_observe: &["events", "moved_events", "positioned", "boxes", "box_collisions"],
        },
    ]
}
