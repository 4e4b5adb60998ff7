//! Monitors of painted pixels against geometry and real arithmetic: drawings (R08),
//! coverage and blending (R13), and the effects of a text (R14).

use crate::frames::{err, frame};
use crate::rgen::{self, EvOpts, REvent, RScript, RStyle, Run, Tag};
use ass_core::parser::Script;
use ass_renderer::backends::coverage::{composite, composite_bitmap, CoverageTile, RenderBitmap};
use ass_renderer::pipeline::drawing::process_drawing_commands;
use hcommon::*;
use std::fmt::Write;
use std::sync::Arc;

type P = (f64, f64);

#[derive(Clone, Debug)]
enum Seg {
    L(P),
    B(P, P, P),
}

#[derive(Clone, Debug)]
struct Sub {
    start: P,
    segs: Vec<Seg>,
    closed: bool,
    /// The point moved to and the commands after it, if not those of `segs`.
    written: Option<(P, Vec<(char, Vec<P>)>)>,
}

fn cubic(a: P, b: P, c: P, d: P, t: f64) -> P {
    let m = 1.0 - t;
    let k = [m * m * m, 3.0 * m * m * t, 3.0 * m * t * t, t * t * t];
    (k[0] * a.0 + k[1] * b.0 + k[2] * c.0 + k[3] * d.0, k[0] * a.1 + k[1] * b.1 + k[2] * c.1 + k[3] * d.1)
}

impl Sub {
    fn map(&self, f: impl Fn(P) -> P) -> Sub {
        Sub {
            start: f(self.start),
            segs: self
                .segs
                .iter()
                .map(|s| match s {
                    Seg::L(p) => Seg::L(f(*p)),
                    Seg::B(a, b, c) => Seg::B(f(*a), f(*b), f(*c)),
                })
                .collect(),
            closed: self.closed,
            written: self.written.as_ref().map(|(p, v)| (f(*p), v.iter().map(|(c, w)| (*c, w.iter().map(|p| f(*p)).collect())).collect())),
        }
    }
    /// A contour with a uniform cubic B-spline of `pen` (the last point of `lines`) and
    /// `pts`; `c` closes the spline.
    fn spline(r: &mut Rng, pen: P, lines: Vec<P>, pts: Vec<P>, after: Vec<P>, closed: bool) -> Sub {
        let mut text: Vec<(char, Vec<P>)> = lines.iter().map(|p| ('l', vec![*p])).collect();
        let mut left = &pts[..];
        let mut letter = 's';
        while !left.is_empty() {
            let k = if letter == 's' { r.u(3, left.len()) } else { r.u(1, left.len()) };
            text.push((letter, left[..k].to_vec()));
            left = &left[k..];
            letter = if left.len() >= 3 && r.bool() { 's' } else { 'p' };
        }
        text.extend(after.iter().map(|p| ('l', vec![*p])));
        let mut all = vec![*lines.last().unwrap_or(&pen)];
        all.extend(pts);
        if closed {
            all.extend_from_within(..3);
        }
        let mut start = pen;
        let mut segs: Vec<Seg> = lines.iter().map(|p| Seg::L(*p)).collect();
        for w in all.windows(4) {
            let at = |a: f64, b: f64, c: f64, d: f64| (a * w[0].0 + b * w[1].0 + c * w[2].0 + d * w[3].0, a * w[0].1 + b * w[1].1 + c * w[2].1 + d * w[3].1);
            if segs.is_empty() {
                start = at(1.0 / 6.0, 4.0 / 6.0, 1.0 / 6.0, 0.0);
            }
            segs.push(Seg::B(at(0.0, 2.0 / 3.0, 1.0 / 3.0, 0.0), at(0.0, 1.0 / 3.0, 2.0 / 3.0, 0.0), at(0.0, 1.0 / 6.0, 4.0 / 6.0, 1.0 / 6.0)));
        }
        segs.extend(after.iter().map(|p| Seg::L(*p)));
        Sub { start, segs, closed, written: Some((pen, text)) }
    }
    /// The closed polygon this contour fills.
    fn flat(&self, n: usize) -> Vec<P> {
        let mut v = vec![self.start];
        let mut cur = self.start;
        for s in &self.segs {
            match s {
                Seg::L(p) => {
                    v.push(*p);
                    cur = *p;
                }
                Seg::B(a, b, c) => {
                    for i in 1..=n {
                        v.push(cubic(cur, *a, *b, *c, i as f64 / n as f64));
                    }
                    cur = *c;
                }
            }
        }
        v
    }
    fn points(&self) -> Vec<P> {
        let mut v = vec![self.start];
        for s in &self.segs {
            match s {
                Seg::L(p) => v.push(*p),
                Seg::B(a, b, c) => v.extend([*a, *b, *c]),
            }
        }
        v
    }
    fn curved(&self) -> bool {
        self.segs.iter().any(|s| matches!(s, Seg::B(..)))
    }
}

/// The box of all points, control points included.
fn bounds(v: &[Sub]) -> (f64, f64, f64, f64) {
    let mut b = (f64::MAX, f64::MAX, f64::MIN, f64::MIN);
    for p in v.iter().flat_map(Sub::points) {
        b = (b.0.min(p.0), b.1.min(p.1), b.2.max(p.0), b.3.max(p.1));
    }
    b
}

/// The winding number of the polygons about a point, and the distance to the nearest edge
/// (with whether the nearest point is inside an edge and not a corner).
fn about(polys: &[Vec<P>], q: P) -> (i32, f64, bool) {
    let mut w = 0;
    let mut best = (f64::MAX, true);
    for v in polys {
        for i in 0..v.len() {
            let (a, b) = (v[i], v[(i + 1) % v.len()]);
            let cross = (b.0 - a.0) * (q.1 - a.1) - (q.0 - a.0) * (b.1 - a.1);
            if a.1 <= q.1 && b.1 > q.1 && cross > 0.0 {
                w += 1;
            }
            if a.1 > q.1 && b.1 <= q.1 && cross < 0.0 {
                w -= 1;
            }
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            let l = dx * dx + dy * dy;
            let t = if l > 0.0 { ((q.0 - a.0) * dx + (q.1 - a.1) * dy) / l } else { -1.0 };
            let c = t.clamp(0.0, 1.0);
            let d = ((q.0 - a.0 - c * dx).powi(2) + (q.1 - a.1 - c * dy).powi(2)).sqrt();
            if d < best.0 {
                best = (d, t > 0.0 && t < 1.0);
            }
        }
    }
    (w, best.0, best.1)
}

fn pic(text: &str, t: u32, w: u32, h: u32) -> R<Vec<u8>> {
    let s = Script::parse(text).map_err(|e| Fail { sig: "parse".into(), detail: format!("{e:?}") })?;
    Ok(frame(&s, t, w, h)?.data().to_vec())
}

fn px(p: &[u8], w: u32, x: u32, y: u32) -> [u8; 4] {
    let i = ((y * w + x) * 4) as usize;
    [p[i], p[i + 1], p[i + 2], p[i + 3]]
}

fn premul(c: [u8; 3], a: f64) -> [f64; 4] {
    [f64::from(c[0]) * a / 255.0, f64::from(c[1]) * a / 255.0, f64::from(c[2]) * a / 255.0, a]
}

fn off(p: [u8; 4], e: [f64; 4]) -> f64 {
    (0..4).map(|i| (f64::from(p[i]) - e[i]).abs()).fold(0.0, f64::max)
}

// ------------------------------------------------------------------ R08

fn subs(r: &mut Rng, w: f64, h: f64, curves: bool, step: f64) -> Vec<Sub> {
    let mut out = vec![];
    for _ in 0..r.u(1, 3) {
        let (ox, oy) = (r.f64() * w * 0.3, r.f64() * h * 0.3);
        let p = |r: &mut Rng| {
            let q = |v: f64| (v / step).round() * step;
            (q(ox + r.f64() * w * 0.7), q(oy + r.f64() * h * 0.7))
        };
        let start = p(r);
        let mut segs = vec![];
        if curves && r.pct(20) {
            let lines: Vec<P> = (0..[0, 0, 1, 2][r.below(4)]).map(|_| p(r)).collect();
            let pts: Vec<P> = (0..r.u(3, 7)).map(|_| p(r)).collect();
            let closed = r.bool();
            let after: Vec<P> = (0..if closed { 0 } else { [0, 0, 1][r.below(3)] }).map(|_| p(r)).collect();
            out.push(Sub::spline(r, start, lines, pts, after, closed));
            continue;
        }
        if r.pct(35) {
            // an upright box: exact corners
            let e = p(r);
            let v = [(e.0, start.1), e, (start.0, e.1)];
            let back = r.bool();
            for i in 0..3 {
                segs.push(Seg::L(v[if back { 2 - i } else { i }]));
            }
        } else {
            for _ in 0..r.u(2, 6) {
                if curves && r.pct(35) {
                    segs.push(Seg::B(p(r), p(r), p(r)));
                } else {
                    segs.push(Seg::L(p(r)));
                }
            }
        }
        out.push(Sub { start, segs, closed: r.bool(), written: None });
    }
    out
}

/// The commands of the shapes, in one of the ways of writing them.
fn commands(r: &mut Rng, v: &[Sub]) -> String {
    let mut o = String::new();
    let upper = r.pct(10);
    let tight = r.pct(15);
    let num = |x: f64| {
        let s = format!("{x:.4}");
        s.trim_end_matches('0').trim_end_matches('.').to_string()
    };
    let gap = |o: &mut String| {
        if !o.is_empty() && !o.ends_with(' ') {
            o.push(' ');
        }
    };
    for (i, s) in v.iter().enumerate() {
        if !tight {
            gap(&mut o);
        }
        let own = || {
            let items = s.segs.iter().map(|g| match g {
                Seg::L(p) => ('l', vec![*p]),
                Seg::B(a, b, c) => ('b', vec![*a, *b, *c]),
            });
            (s.start, items.collect::<Vec<_>>())
        };
        let (pen, items) = s.written.clone().unwrap_or_else(own);
        let _ = write!(o, "{}{}{} {}", if r.pct(15) && i > 0 { "n" } else { "m" }, if tight { "" } else { " " }, num(pen.0), num(pen.1));
        let mut last = ' ';
        for (c, pts) in items {
            // a command repeats without its letter
            if c != last || r.pct(40) {
                if !tight {
                    gap(&mut o);
                }
                o.push(c);
                if !tight {
                    o.push(' ');
                }
            } else {
                o.push(' ');
            }
            last = c;
            for (k, p) in pts.iter().enumerate() {
                if k > 0 {
                    o.push(' ');
                }
                let _ = write!(o, "{} {}", num(p.0), num(p.1));
            }
        }
        if s.closed {
            if !tight {
                gap(&mut o);
            }
            o.push('c');
        }
    }
    if upper {
        o = o.to_uppercase();
    }
    if r.pct(10) {
        o = format!(" {} ", o.replace(' ', "  "));
    }
    o
}

/// The path of a command text has exactly the segments it names.
fn draw_commands(cx: &mut Cx) -> R {
    use tiny_skia::PathSegment as S;
    let step = 0.25;
    let v: Vec<Sub> = subs(&mut cx.rng, 600.0, 400.0, true, step).iter().map(|s| s.map(|p| (p.0 - 200.0, p.1 - 150.0))).collect();
    let text = commands(&mut cx.rng, &v);
    cx.set_input(text.clone());
    let path = err(process_drawing_commands(&text), "process_drawing_commands")?;
    let Some(path) = path else { return fail("no-path", format!("no path for {text:?}")) };
    let mut want: Vec<(char, Vec<f64>)> = vec![];
    for s in &v {
        want.push(('m', vec![s.start.0, s.start.1]));
        for g in &s.segs {
            want.push(match g {
                Seg::L(p) => ('l', vec![p.0, p.1]),
                Seg::B(a, b, c) => ('b', vec![a.0, a.1, b.0, b.1, c.0, c.1]),
            });
        }
        if s.closed {
            want.push(('c', vec![]));
        }
    }
    let sp = |p: &[tiny_skia::Point]| p.iter().flat_map(|p| [f64::from(p.x), f64::from(p.y)]).collect::<Vec<f64>>();
    let got: Vec<(char, Vec<f64>)> = path
        .segments()
        .map(|s| match s {
            S::MoveTo(p) => ('m', sp(&[p])),
            S::LineTo(p) => ('l', sp(&[p])),
            S::QuadTo(a, b) => ('q', sp(&[a, b])),
            S::CubicTo(a, b, c) => ('b', sp(&[a, b, c])),
            S::Close => ('c', vec![]),
        })
        .collect();
    // the curves of a spline are computed in single precision
    let splines = v.iter().filter(|s| s.written.is_some()).count();
    let slack = if splines > 0 { 1e-3 } else { 0.0 };
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1.iter().zip(&b.1).all(|(x, y)| (x - y).abs() <= slack));
    ensure!(same, "segments", "the path is {got:?}, the commands say {want:?}");
    cx.obs("splines", splines as u64);
    cx.obs("segments", want.len() as u64);
    cx.state(&text);
    Ok(())
}

/// A drawing is painted where its commands, scales and alignment put it.
fn shapes(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let play = (200u32, 150u32);
    let k = *r.pick(&[(1u32, 1u32), (1, 1), (2, 2), (1, 2)]);
    let (w, h) = (play.0 * k.0, play.1 * k.1);
    let level = *r.pick(&[1u32, 1, 1, 2, 3, 4]);
    let unit = 0.5f64.powi(level as i32 - 1);
    let (fx, fy) = if r.bool() { (100.0, 100.0) } else { (r.range(30, 220) as f64, r.range(30, 220) as f64) };
    // scales come from tags or from the style
    let by_style = r.bool();
    let scale = (unit * fx / 100.0, unit * fy / 100.0);
    let an = r.u(1, 9) as u8;
    let bord = if r.pct(40) { r.range(1, 8) as f64 } else { 0.0 };
    let (bw, bh) = (r.range(12, 110) as f64, r.range(12, 90) as f64);
    let curves = r.pct(45);
    let (ox, oy) = if r.bool() { (0.0, 0.0) } else { (r.range(-300, 300) as f64, r.range(-300, 300) as f64) };
    // in drawing units, on a grid that is exact in binary
    let local: Vec<Sub> = subs(r, bw / scale.0, bh / scale.1, curves, 0.25)
        .iter()
        .map(|s| s.map(|p| (p.0 + ox, p.1 + oy)))
        .collect();
    let sc: Vec<Sub> = local.iter().map(|s| s.map(|p| (p.0 * scale.0, p.1 * scale.1))).collect();
    let b = bounds(&sc);
    let (dw, dh) = (b.2 - b.0, b.3 - b.1);
    if dw < 1.0 || dh < 1.0 {
        cx.mark_trivial();
        return Ok(());
    }
    // the drawing's own origin stands at the anchor, less its width and height as aligned
    let ax = [0.0, -dw / 2.0, -dw][usize::from((an - 1) % 3)];
    let ay = [-dh, -dh / 2.0, 0.0][usize::from((an - 1) / 3)];
    let room = bord * 4.5 + 3.0;
    let lo = (room - b.0 - ax, room - b.1 - ay);
    let hi = (f64::from(play.0) - room - b.2 - ax, f64::from(play.1) - room - b.3 - ay);
    if hi.0 < lo.0 || hi.1 < lo.1 {
        cx.mark_trivial();
        return Ok(());
    }
    let at = (((lo.0 + r.f64() * (hi.0 - lo.0)) * 4.0).round() / 4.0, ((lo.1 + r.f64() * (hi.1 - lo.1)) * 4.0).round() / 4.0);
    let col = rgen::rgb(r);
    let ocol = rgen::rgb(r);
    let alpha = if bord == 0.0 && r.bool() { r.below(256) as u8 } else { 0 };
    let mut st = RStyle::plain("Default");
    st.outline = 0.0;
    st.align = an;
    if by_style {
        (st.sx, st.sy) = (fx as f32, fy as f32);
    }
    let mut tags = vec![Tag::Pos(at.0 as f32, at.1 as f32), Tag::C(1, col, false), Tag::C(3, ocol, false)];
    if !by_style {
        tags.extend([Tag::Fscx(fx as f32), Tag::Fscy(fy as f32)]);
    }
    if alpha > 0 {
        tags.push(Tag::A(1, alpha));
    }
    if bord > 0.0 {
        tags.push(Tag::Bord(bord as f32));
    }
    r.shuffle(&mut tags);
    tags.push(Tag::P(level as u8));
    let cmd = commands(r, &local);
    let e = REvent { comment: false, layer: 0, start: 0, end: 100, style: "Default".into(), ml: 0, mr: 0, mv: 0, runs: vec![Run { tags, text: cmd }] };
    let m = RScript { play: Some(play), layout: None, wrap: None, sbas: Some(true), styles: vec![st], events: vec![e] };
    let text = m.text();
    cx.set_input(format!("{w}x{h}\n{text}"));
    let p = pic(&text, 0, w, h)?;
    let (kx, ky) = (f64::from(k.0), f64::from(k.1));
    let placed: Vec<Sub> = sc.iter().map(|s| s.map(|q| ((q.0 + at.0 + ax) * kx, (q.1 + at.1 + ay) * ky))).collect();
    let polys: Vec<Vec<P>> = placed.iter().map(|s| s.flat(48)).collect();
    let near = if placed.iter().any(Sub::curved) { 1.5 } else { 1.1 };
    let fill = premul(col, 255.0 - f64::from(alpha));
    let line = premul(ocol, 255.0);
    let bmin = bord * kx.min(ky);
    let bmax = bord * kx.max(ky);
    let (mut inside, mut outside, mut ring, mut turns) = (0u64, 0u64, 0u64, 0u64);
    for y in 0..h {
        for x in 0..w {
            let (wn, d, edge) = about(&polys, (f64::from(x) + 0.5, f64::from(y) + 0.5));
            let g = px(&p, w, x, y);
            if d <= near {
                continue;
            }
            if wn != 0 {
                inside += 1;
                ensure!(off(g, fill) <= 2.0, "inside", "pixel {x},{y} is inside the drawing but {g:?}, not {fill:?}");
            } else if bord == 0.0 || d > bmax * 4.0 + near {
                outside += 1;
                ensure!(g == [0; 4], "outside", "pixel {x},{y} is outside the drawing but painted {g:?}");
            } else if d < bmin - near
                && edge
                && [(0.1, 0.1), (0.9, 0.1), (0.1, 0.9), (0.9, 0.9)].iter().all(|c| {
                    // all of it beside an edge: beyond a sharp corner the outline ends
                    let (_, d, edge) = about(&polys, (f64::from(x) + c.0, f64::from(y) + c.1));
                    d < bmin && edge
                })
            {
                ring += 1;
                if off(g, line) > 36.0 && curves {
                    // a curve may turn as sharply as a corner
                    turns += 1;
                    continue;
                }
                // of the 16 samples of a pixel, up to two may fall between the pieces of an outline
                ensure!(off(g, line) <= 36.0, "outline", "pixel {x},{y} is {d:.2} from the drawing, in its outline of {bord}, but {g:?}, not {line:?}");
            }
        }
    }
    ensure!(turns * 20 <= ring + 60, "outline", "{turns} of {ring} pixels beside the drawing are not in its outline");
    cx.obs("pixels_inside", inside);
    cx.obs("pixels_outside", outside);
    cx.obs("pixels_in_outline", ring);
    cx.obs("drawings", 1);
    if inside == 0 {
        cx.mark_trivial();
    }
    cx.state(&text);
    Ok(())
}

// ------------------------------------------------------------------ R13

/// Twice the signed area of a polygon within `lo..hi` along one axis, as the clipped polygon.
fn band(v: &[P], lo: f64, hi: f64, vertical: bool) -> Vec<P> {
    let clip = |v: &[P], at: f64, keep_above: bool| -> Vec<P> {
        let c = |p: &P| if vertical { p.1 } else { p.0 };
        let ok = |p: &P| if keep_above { c(p) >= at } else { c(p) <= at };
        let mut o = vec![];
        for i in 0..v.len() {
            let (a, b) = (v[i], v[(i + 1) % v.len()]);
            if ok(&a) {
                o.push(a);
            }
            if ok(&a) != ok(&b) {
                let t = (at - c(&a)) / (c(&b) - c(&a));
                o.push((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)));
            }
        }
        o
    };
    let a = clip(v, lo, true);
    clip(&a, hi, false)
}

fn area(v: &[P]) -> f64 {
    let mut s = 0.0;
    for i in 0..v.len() {
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        s += (a.0 - v[0].0) * (b.1 - v[0].1) - (b.0 - v[0].0) * (a.1 - v[0].1);
    }
    s / 2.0
}

fn coverage(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let curves = r.pct(35);
    let size = *r.pick(&[2.0, 6.0, 25.0, 25.0, 60.0]);
    let step = *r.pick(&[1.0 / 64.0, 0.25, 1.0]);
    let far = *r.pick(&[0.0, 0.0, 0.0, -40.0, 900.0, -5000.0]);
    let v: Vec<Sub> = subs(r, size, size, curves, step)
        .iter()
        .map(|s| s.map(|p| ((p.0 + far) as f32 as f64, (p.1 - far) as f32 as f64)))
        .collect();
    let mut b = tiny_skia::PathBuilder::new();
    let q = |p: P| (p.0 as f32, p.1 as f32);
    for s in &v {
        let a = q(s.start);
        b.move_to(a.0, a.1);
        for g in &s.segs {
            match g {
                Seg::L(p) => {
                    let p = q(*p);
                    b.line_to(p.0, p.1);
                }
                Seg::B(x, y, z) => {
                    let (x, y, z) = (q(*x), q(*y), q(*z));
                    b.cubic_to(x.0, x.1, y.0, y.1, z.0, z.1);
                }
            }
        }
        if s.closed {
            b.close();
        }
    }
    let Some(path) = b.finish() else {
        cx.mark_trivial();
        return Ok(());
    };
    cx.set_input(format!("{v:?}"));
    let Some((tile, tx, ty)) = CoverageTile::rasterize(&path) else { return fail("no-tile", format!("no tile for {v:?}")) };
    ensure!(tile.data.len() == (tile.width * tile.height) as usize, "tile-size", "{} bytes for {}x{}", tile.data.len(), tile.width, tile.height);
    let bb = bounds(&v);
    ensure!(
        f64::from(tx) <= bb.0 && f64::from(ty) <= bb.1 && f64::from(tx) + f64::from(tile.width) >= bb.2 && f64::from(ty) + f64::from(tile.height) >= bb.3,
        "tile-place",
        "tile at {tx},{ty} of {}x{} does not hold {bb:?}",
        tile.width,
        tile.height
    );
    let polys: Vec<Vec<P>> = v.iter().map(|s| s.flat(96)).collect();
    let curved = v.iter().any(Sub::curved);
    // how far apart the curve and its chords may be, near the curve itself
    let loose = if curved { 165.0 } else { 2.5 };
    let mut worst = 0.0f64;
    let mut sum = (0.0f64, 0.0f64);
    for y in 0..tile.height {
        let fy = f64::from(ty) + f64::from(y);
        let rows: Vec<Vec<P>> = polys.iter().map(|p| band(p, fy, fy + 1.0, true)).filter(|p| p.len() > 2).collect();
        for x in 0..tile.width {
            let fx = f64::from(tx) + f64::from(x);
            let a: f64 = rows.iter().map(|p| area(&band(p, fx, fx + 1.0, false))).sum();
            let want = a.abs().min(1.0) * 255.0;
            let got = f64::from(tile.data[(y * tile.width + x) as usize]);
            let tol = if curved && about(&polys, (fx + 0.5, fy + 0.5)).1 < 1.6 { loose } else { 2.5 };
            worst = worst.max((want - got).abs());
            sum = (sum.0 + want, sum.1 + got);
            ensure!((want - got).abs() <= tol, "coverage", "pixel {x},{y} of the tile at {tx},{ty} is covered {got}, the path covers {want:.2}");
        }
    }
    ensure!((sum.0 - sum.1).abs() <= sum.0 * if curved { 0.15 } else { 0.02 } + 255.0 * 0.1 * f64::from(tile.width + tile.height), "coverage-sum", "covered {} in all, the path covers {}", sum.1, sum.0);
    cx.obs("pixels", u64::from(tile.width * tile.height));
    cx.max("worst_coverage_error", worst as u64);
    cx.state(&format!("{v:?}"));
    Ok(())
}

fn blend_real(dst: [u8; 4], src: [f64; 4]) -> [f64; 4] {
    let k = 1.0 - src[3] / 255.0;
    [0, 1, 2, 3].map(|i| src[i] + f64::from(dst[i]) * k)
}

/// Compositing a bitmap anywhere, against real arithmetic.
fn blend(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let (w, h) = (r.u(1, 24) as u32, r.u(1, 12) as u32);
    let (tw, th) = (r.u(1, 30) as u32, r.u(1, 14) as u32);
    let place = |r: &mut Rng, n: u32| -> i32 {
        match r.below(12) {
            0 => *r.pick(&[i32::MIN, i32::MAX, i32::MAX - 1, -(n as i32), 1 << 20, -(1 << 20)]),
            _ => r.range(-(n as i64) - 2, 26) as i32,
        }
    };
    let (x, y) = (place(r, tw), place(r, th));
    let level = |r: &mut Rng| match r.below(4) {
        0 => 0u8,
        1 => 255,
        _ => r.below(256) as u8,
    };
    let mut dst = vec![0u8; (w * h * 4) as usize];
    for p in dst.chunks_exact_mut(4) {
        let a = level(r);
        for c in &mut p[..3] {
            *c = r.below(usize::from(a) + 1) as u8;
        }
        p[3] = a;
    }
    let before = dst.clone();
    let cov = r.pct(60);
    let color = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, level(r)];
    let mut data: Vec<u8> = vec![];
    if cov {
        data = (0..tw * th).map(|_| level(r)).collect();
    } else {
        for _ in 0..tw * th {
            let a = level(r);
            for _ in 0..3 {
                data.push(r.below(usize::from(a) + 1) as u8);
            }
            data.push(a);
        }
    }
    let direct = r.bool();
    cx.set_input(format!("{w}x{h} frame {before:?}\n{tw}x{th} {} at {x},{y} colour {color:?} {data:?}", if cov { "coverage" } else { "rgba" }));
    let d = Arc::new(data.clone());
    if cov && direct {
        composite(&mut dst, w, h, &CoverageTile { width: tw, height: th, data: d }, x, y, color);
    } else if cov {
        composite_bitmap(&mut dst, w, h, &RenderBitmap::Coverage { width: tw, height: th, coverage: d, x, y, color });
    } else {
        composite_bitmap(&mut dst, w, h, &RenderBitmap::Rgba { width: tw, height: th, pixels: d, x, y });
    }
    let mut hit = 0u64;
    for py in 0..h {
        for qx in 0..w {
            let (sx, sy) = (i64::from(qx) - i64::from(x), i64::from(py) - i64::from(y));
            let b = px(&before, w, qx, py);
            let g = px(&dst, w, qx, py);
            let inside = sx >= 0 && sy >= 0 && sx < i64::from(tw) && sy < i64::from(th);
            let src = if inside {
                let i = (sy * i64::from(tw) + sx) as usize;
                if cov {
                    let k = f64::from(data[i]) / 255.0;
                    let a = f64::from(color[3]);
                    let mut s = premul([color[0], color[1], color[2]], a);
                    s.iter_mut().for_each(|v| *v *= k);
                    s
                } else {
                    [0, 1, 2, 3].map(|c| f64::from(data[i * 4 + c]))
                }
            } else {
                [0.0; 4]
            };
            if src == [0.0; 4] {
                ensure!(g == b, "untouched", "pixel {qx},{py} went from {b:?} to {g:?} though nothing covers it");
                continue;
            }
            hit += 1;
            let e = blend_real(b, src);
            ensure!(off(g, e) <= 2.0, "blended", "pixel {qx},{py}: {src:?} over {b:?} gives {g:?}, expected {e:?}");
        }
    }
    cx.obs("blended_pixels", hit);
    if hit == 0 {
        cx.mark_trivial();
    }
    cx.state(&(x, y, hash_of(&data)));
    Ok(())
}

/// A frame is its events, each painted alone, one over the other by layer and then by order.
fn stacking(cx: &mut Cx) -> R {
    let mut m = rgen::script(
        &mut cx.rng,
        EvOpts { anim: true, drawing: true, positioned: Some(true), karaoke: true, multiline: true, transforms: true },
        5,
    );
    let (w, h) = (240u32, 160u32);
    m.play = Some((w, h));
    for e in &mut m.events {
        e.start = e.start.min(100);
        e.end = e.end.max(e.start + 400);
        e.layer = if cx.rng.pct(50) { 0 } else { cx.rng.range(-2, 4) as i32 };
        for r in &mut e.runs {
            r.tags.retain(|t| !matches!(t, Tag::Blur(_) | Tag::Be(_) | Tag::T(..)));
            for t in &mut r.tags {
                if let Tag::Pos(x, y) = t {
                    *x = cx.rng.range(60, 180) as f32;
                    *y = cx.rng.range(40, 120) as f32;
                }
            }
        }
    }
    let t = cx.rng.range(100, 400) as u32;
    let text = m.text();
    cx.set_input(format!("{w}x{h} at {t}\n{text}"));
    let all = pic(&text, t, w, h)?;
    let mut order: Vec<usize> = (0..m.events.len()).collect();
    order.sort_by_key(|i| (m.events[*i].layer, m.events[*i].start));
    let mut want: Vec<[f64; 4]> = vec![[0.0; 4]; (w * h) as usize];
    let mut painted = 0u64;
    let mut both = 0u64;
    for i in order {
        let mut one = m.clone();
        one.events = vec![m.events[i].clone()];
        let p = pic(&one.text(), t, w, h)?;
        for (e, s) in want.iter_mut().zip(p.chunks_exact(4)) {
            if s[3] == 0 {
                continue;
            }
            painted += 1;
            both += u64::from(e[3] > 0.0);
            let k = 1.0 - f64::from(s[3]) / 255.0;
            for c in 0..4 {
                e[c] = f64::from(s[c]) + e[c] * k;
            }
        }
    }
    for (i, e) in want.iter().enumerate() {
        let (x, y) = (i as u32 % w, i as u32 / w);
        let g = px(&all, w, x, y);
        ensure!(off(g, *e) <= 8.0, "stacked", "pixel {x},{y} is {g:?}, the events over each other give {e:?}");
    }
    cx.obs("painted_pixels", painted);
    cx.obs("overlapping_pixels", both);
    cx.obs("events", m.events.len() as u64);
    if both == 0 {
        cx.mark_trivial();
    }
    cx.state(&text);
    Ok(())
}

// ------------------------------------------------------------------ R14

struct Text {
    st: RStyle,
    text: String,
    pos: (f32, f32),
    an: u8,
    wh: (u32, u32),
    k: u32,
}

impl Text {
    fn new(r: &mut Rng) -> Text {
        let mut st = RStyle::plain("Default");
        st.font = r.pick(rgen::FONTS).to_string();
        st.size = r.range(14, 44) as f32;
        st.bold = r.pct(25);
        st.italic = r.pct(15);
        st.outline = 0.0;
        st.shadow = 0.0;
        let text = match r.below(5) {
            0 => "Io".to_string(),
            1 => "HAMBURG".to_string(),
            2 => "a b".to_string(),
            _ => rgen::words(r, 2),
        };
        Text { st, text, pos: (r.range(110, 190) as f32, r.range(70, 110) as f32), an: r.u(1, 9) as u8, wh: (300, 180), k: if r.pct(25) { 2 } else { 1 } }
    }
    fn script(&self, tags: &str, at: (f32, f32)) -> String {
        self.script_of(&format!("{{\\an{}\\pos({},{}){tags}}}{}", self.an, at.0, at.1, self.text))
    }
    fn script_of(&self, body: &str) -> String {
        let mut st = self.st.clone();
        st.align = self.an;
        let m = RScript { play: Some(self.wh), layout: None, wrap: Some(2), sbas: Some(true), styles: vec![st], events: vec![] };
        format!("{}Dialogue: 0,0:00:00.00,0:00:10.00,Default,,0,0,0,,{body}\n", m.text())
    }
    fn pic_of(&self, body: &str, t: u32) -> R<Pic> {
        let (w, h) = (self.wh.0 * self.k, self.wh.1 * self.k);
        Ok(Pic { p: pic(&self.script_of(body), t, w, h)?, w, h })
    }
    fn pic(&self, tags: &str, at: (f32, f32)) -> R<Pic> {
        let (w, h) = (self.wh.0 * self.k, self.wh.1 * self.k);
        Ok(Pic { p: pic(&self.script(tags, at), 0, w, h)?, w, h })
    }
    /// The picture of a run at sub-run level is only comparable when nothing is cut off.
    fn plain(&self, tags: &str) -> R<Option<Pic>> {
        let p = self.pic(tags, self.pos)?;
        Ok((!p.cut() && p.sum() > 0.0).then_some(p))
    }
}

struct Pic {
    p: Vec<u8>,
    w: u32,
    h: u32,
}

impl Pic {
    fn at(&self, x: i64, y: i64) -> [u8; 4] {
        if x < 0 || y < 0 || x >= i64::from(self.w) || y >= i64::from(self.h) {
            [0; 4]
        } else {
            px(&self.p, self.w, x as u32, y as u32)
        }
    }
    fn alpha(&self, x: i64, y: i64) -> f64 {
        f64::from(self.at(x, y)[3])
    }
    fn sum(&self) -> f64 {
        self.p.chunks_exact(4).map(|p| f64::from(p[3])).sum()
    }
    fn cut(&self) -> bool {
        let (w, h) = (i64::from(self.w), i64::from(self.h));
        // the frame's edge may fall between two letters
        let near = |x: i64, y: i64| y == 0 || y == h - 1 || x < w / 8 || x >= w - w / 8;
        (0..h).any(|y| (0..w).any(|x| near(x, y) && self.alpha(x, y) > 0.0))
    }
    /// Centre of mass and variances of the alpha.
    fn moments(&self) -> (P, f64, f64, f64) {
        let (mut s, mut sx, mut sy, mut xx, mut yy, mut xy) = (0.0, 0.0, 0.0, 0.0, 0.0, 0.0);
        for y in 0..self.h {
            for x in 0..self.w {
                let a = f64::from(self.p[((y * self.w + x) * 4 + 3) as usize]);
                if a > 0.0 {
                    let (fx, fy) = (f64::from(x) + 0.5, f64::from(y) + 0.5);
                    s += a;
                    sx += a * fx;
                    sy += a * fy;
                    xx += a * fx * fx;
                    yy += a * fy * fy;
                    xy += a * fx * fy;
                }
            }
        }
        let (mx, my) = (sx / s, sy / s);
        ((mx, my), xx / s - mx * mx, yy / s - my * my, xy / s - mx * my)
    }
    fn count(&self) -> u64 {
        self.p.chunks_exact(4).filter(|p| p[3] > 0).count() as u64
    }
    /// Pixels of two pictures, the second moved by whole pixels, that differ by more than `tol`.
    fn differ(&self, o: &Pic, d: (i64, i64), tol: u8) -> (u64, String) {
        let mut n = 0;
        let mut first = String::new();
        for y in -30..i64::from(self.h) + 30 {
            for x in -30..i64::from(self.w) + 30 {
                let (a, b) = (self.at(x, y), o.at(x + d.0, y + d.1));
                if (0..4).any(|i| a[i].abs_diff(b[i]) > tol) {
                    if n == 0 {
                        first = format!("{x},{y}: {a:?} and {b:?}");
                    }
                    n += 1;
                }
            }
        }
        (n, first)
    }
}

/// A shadow is the text and its outline, moved by the offset, in the shadow's colour, behind.
fn shadow(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let t = Text::new(r);
    let c = rgen::rgb(r);
    let bord = if r.bool() { 0 } else { r.range(1, 5) };
    let (dx, dy) = (r.range(-9, 9), r.range(-9, 9));
    let off_tag = match r.below(3) {
        0 => format!("\\xshad{dx}\\yshad{dy}"),
        1 => format!("\\shad3\\xshad{dx}\\yshad{dy}"),
        _ => format!("\\yshad{dy}\\xshad{dx}"),
    };
    let (dx, dy, off_tag) = if r.pct(40) { let d = r.range(1, 9); (d, d, format!("\\shad{d}")) } else { (dx, dy, off_tag) };
    let al = if r.bool() { 0u8 } else { r.below(200) as u8 };
    let hc = rgen::hex(c);
    cx.set_input(format!("{} x{} shadow {off_tag} bord {bord}", t.script("", t.pos), t.k));
    if dx == 0 && dy == 0 {
        cx.mark_trivial();
        return Ok(());
    }
    // the text itself in the shadow's look
    let Some(me) = t.plain(&format!("\\bord{bord}\\1c{hc}\\3c{hc}\\1a&H{al:02X}&\\3a&HFF&"))? else {
        cx.mark_trivial();
        return Ok(());
    };
    let both = t.pic(&format!("\\bord{bord}\\1c{hc}\\3c{hc}"), t.pos)?;
    let only = t.pic(&format!("\\bord{bord}{off_tag}\\1a&HFF&\\3a&HFF&\\4c{hc}\\4a&H{al:02X}&"), t.pos)?;
    let d = (dx * i64::from(t.k), dy * i64::from(t.k));
    // its shape
    let full = if bord == 0 { &me } else { &both };
    if full.cut() || only.cut() {
        cx.mark_trivial();
        return Ok(());
    }
    let k = if bord == 0 { 1.0 } else { (255.0 - f64::from(al)) / 255.0 };
    let mut bad = 0u64;
    let mut first = String::new();
    let n = full.count();
    for y in 0..i64::from(full.h) {
        for x in 0..i64::from(full.w) {
            let (a, b) = (full.alpha(x, y) * k, only.alpha(x + d.0, y + d.1));
            if (a - b).abs() > 48.0 {
                if bad == 0 {
                    first = format!("{x},{y}: {a} of the text, {b} of the shadow");
                }
                bad += 1;
            }
            let g = only.at(x, y);
            if g[3] == 255 {
                ensure!((0..3).all(|i| g[i].abs_diff(c[i]) <= 1), "shadow-colour", "the shadow is {g:?} at {x},{y}, its colour is {c:?}");
            }
        }
    }
    ensure!(bad <= n / 40 + 4, "shadow-place", "{bad} of {n} pixels of the shadow are not the text moved by {dx},{dy}; first {first}");
    // with the text over it, the text is what it is without it
    let over = t.pic(&format!("\\bord{bord}{off_tag}\\4c{hc}"), t.pos)?;
    let alone = t.pic(&format!("\\bord{bord}"), t.pos)?;
    for y in 0..i64::from(over.h) {
        for x in 0..i64::from(over.w) {
            let (a, b) = (alone.at(x, y), over.at(x, y));
            if a[3] == 255 {
                ensure!((0..4).all(|i| a[i].abs_diff(b[i]) <= 2), "shadow-order", "at {x},{y} the text is {a:?} alone and {b:?} over its shadow");
            }
        }
    }
    cx.obs("shadow_pixels", only.count());
    cx.state(&(hash_of(&only.p), dx, dy));
    Ok(())
}

/// An outline surrounds the text by its width, behind the text, in its own colour.
fn outline(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let t = Text::new(r);
    let (bx, by) = if r.pct(70) { let b = r.range(1, 8); (b, b) } else { (r.range(1, 8), r.range(1, 8)) };
    let tag = if bx == by { format!("\\bord{bx}") } else { format!("\\xbord{bx}\\ybord{by}") };
    let (c, oc) = (rgen::rgb(r), rgen::rgb(r));
    cx.set_input(format!("{} x{} {tag}", t.script("", t.pos), t.k));
    let col = format!("\\1c{}\\3c{}", rgen::hex(c), rgen::hex(oc));
    let Some(fill) = t.plain(&col)? else {
        cx.mark_trivial();
        return Ok(());
    };
    let lined = t.pic(&format!("{col}{tag}"), t.pos)?;
    if lined.cut() {
        cx.mark_trivial();
        return Ok(());
    }
    let k = i64::from(t.k);
    let (rx, ry) = (bx * k, by * k);
    let (w, h) = (i64::from(fill.w), i64::from(fill.h));
    let (mut ring, mut short) = (0u64, 0u64);
    // the miter of a corner reaches four times as far
    let (mx, my) = (rx * 4 + 3, ry * 4 + 3);
    let mut any = vec![false; (w * h) as usize];
    for y in 0..h {
        for x in 0..w {
            if fill.alpha(x, y) > 0.0 {
                let g = lined.at(x, y);
                if fill.alpha(x, y) == 255.0 {
                    ensure!((0..3).all(|i| g[i].abs_diff(c[i]) <= 1) && g[3] == 255, "text-over-outline", "pixel {x},{y} of the text is {g:?} over its outline, its colour is {c:?}");
                }
                for yy in (y - my).max(0)..(y + my + 1).min(h) {
                    let row = (yy * w) as usize;
                    any[row + (x - mx).max(0) as usize..row + (x + mx + 1).min(w) as usize].fill(true);
                }
                if fill.alpha(x, y) == 255.0 {
                    for dy in -ry..=ry {
                        for dx in -rx..=rx {
                            let e = (dx as f64 / (rx as f64 - 0.6).max(0.1)).powi(2) + (dy as f64 / (ry as f64 - 0.6).max(0.1)).powi(2);
                            if e > 1.0 {
                                continue;
                            }
                            let q = lined.at(x + dx, y + dy);
                            if bx != by && q[3] < 200 {
                                // beyond a sharp corner the outline ends
                                short += 1;
                                continue;
                            }
                            ensure!(q[3] >= 200, "outline-width", "{},{} is {dx},{dy} from the text's {x},{y}, within {bx},{by}, but {q:?}", x + dx, y + dy);
                            if fill.alpha(x + dx, y + dy) == 0.0 && q[3] == 255 {
                                ring += 1;
                                ensure!((0..3).all(|i| q[i].abs_diff(oc[i]) <= 1), "outline-colour", "the outline is {q:?} at {},{}, its colour is {oc:?}", x + dx, y + dy);
                            }
                        }
                    }
                }
            }
        }
    }
    for y in 0..h {
        for x in 0..w {
            ensure!(any[(y * w + x) as usize] || lined.alpha(x, y) == 0.0, "outline-reach", "pixel {x},{y} is painted, far from any text, for an outline of {bx},{by}");
        }
    }
    ensure!(short * 100 <= ring + 400, "outline-width", "{short} of {ring} pixels within {bx},{by} of the text are not in its outline");
    cx.obs("outline_pixels", ring);
    cx.state(&hash_of(&lined.p));
    Ok(())
}

/// A blur spreads the paint evenly: nothing is gained or lost, and its centre stays.
fn blurred(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let t = Text::new(r);
    let mut s: Vec<f64> = (0..3).map(|_| r.range(2, 40) as f64 / 4.0).collect();
    s.sort_by(f64::total_cmp);
    let bord = if r.bool() { 0 } else { r.range(1, 4) };
    let hc = rgen::hex(rgen::rgb(r));
    let base = format!("\\bord{bord}\\1c{hc}\\3c{hc}");
    cx.set_input(format!("{} x{} blurs {s:?}", t.script(&base, t.pos), t.k));
    let Some(a) = t.plain(&base)? else {
        cx.mark_trivial();
        return Ok(());
    };
    let (c0, vx0, vy0, _) = a.moments();
    let total = a.sum();
    let mut last: Option<(f64, f64, f64)> = None;
    for b in s {
        let p = t.pic(&format!("{base}\\blur{b}"), t.pos)?;
        if p.cut() {
            cx.mark_trivial();
            return Ok(());
        }
        let n = p.count() as f64;
        // whole levels: up to half a level is lost at every pixel
        // and a stem is as wide as whole quarters of pixels
        let slack = total * 0.12 + n * 0.8;
        // outline and text are blurred apart when they are painted apart: more of both shows
        if bord == 0 {
            ensure!((p.sum() - total).abs() <= slack, "blur-conserves", "blurred by {b} the alpha is {} in all, {total} without", p.sum());
        }
        let (c, vx, vy, _) = p.moments();
        ensure!((c.0 - c0.0).abs() < 1.0 && (c.1 - c0.1).abs() < 1.0, "blur-centre", "blurred by {b} the centre is {c:?}, {c0:?} without");
        ensure!(vx >= vx0 * 0.94 - 0.3 && vy >= vy0 * 0.94 - 0.3, "blur-spreads", "blurred by {b} the spread is {vx},{vy}, {vx0},{vy0} without");
        if let Some((lb, lx, ly)) = last {
            if b > lb + 0.9 {
                ensure!(vx > lx * 0.97 && vy > ly * 0.97 && (bord > 0 || (vx > lx && vy > ly)), "blur-grows", "blurred by {b} the spread is {vx},{vy}, but {lx},{ly} for {lb}");
            }
        }
        last = Some((b, vx, vy));
        cx.obs("blurs", 1);
    }
    cx.state(&hash_of(&a.p));
    Ok(())
}

/// An underline and a strike-out are bars along the whole text.
fn bars(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let t = Text::new(r);
    let strike = r.bool();
    let hc = rgen::rgb(r);
    let base = format!("\\1c{}", rgen::hex(hc));
    cx.set_input(format!("{} x{} strike {strike}", t.script(&base, t.pos), t.k));
    let Some(a) = t.plain(&base)? else {
        cx.mark_trivial();
        return Ok(());
    };
    let b = t.pic(&format!("{base}\\{}1", if strike { "s" } else { "u" }), t.pos)?;
    if b.cut() {
        cx.mark_trivial();
        return Ok(());
    }
    let (w, h) = (i64::from(a.w), i64::from(a.h));
    let (mut x0, mut x1, mut y0, mut y1) = (w, -1, h, -1);
    let (mut ix0, mut ix1, mut iy0, mut iy1) = (w, -1, h, -1);
    for y in 0..h {
        for x in 0..w {
            let (p, q) = (a.alpha(x, y), b.alpha(x, y));
            // the text itself may be painted by another way, up to subpixel rounding
            let solid = (-1..2).all(|dy| (-1..2).all(|dx| a.alpha(x + dx, y + dy) == 255.0));
            ensure!(q >= p - if solid { 2.0 } else { 255.0 }, "bar-adds", "pixel {x},{y} is {p} without and {q} with the bar");
            // clear of the text
            let clear = (-2..3).all(|dy| (-2..3).all(|dx| a.alpha(x + dx, y + dy) == 0.0));
            if clear && q > 64.0 {
                (x0, x1, y0, y1) = (x0.min(x), x1.max(x), y0.min(y), y1.max(y));
                let g = b.at(x, y);
                if g[3] == 255 {
                    ensure!((0..3).all(|i| g[i].abs_diff(hc[i]) <= 2), "bar-colour", "the bar is {g:?} at {x},{y}, the text is {hc:?}");
                }
            }
            if p > 64.0 {
                (ix0, ix1, iy0, iy1) = (ix0.min(x), ix1.max(x), iy0.min(y), iy1.max(y));
            }
        }
    }
    if x1 < 0 {
        // no gap between letters to see a strike-out in
        ensure!(strike || t.st.size * (t.k as f32) < 26.0, "bar-missing", "no bar is painted");
        cx.mark_trivial();
        return Ok(());
    }
    let size = f64::from(t.st.size) * f64::from(t.k);
    ensure!(((y1 - y0) as f64) < size * 0.16 + 2.0, "bar-height", "the bar takes rows {y0} to {y1} of a text of size {size}");
    let over = 2 + (size * 0.14) as i64;
    ensure!(x0 >= ix0 - over && x1 <= ix1 + over, "bar-width", "the bar goes from {x0} to {x1}, the text from {ix0} to {ix1}");
    let slant = 2 + (size * if t.st.italic { 0.3 } else { 0.15 }) as i64;
    if strike {
        ensure!(y0 > iy0 - 2 && y1 < iy1 + 2, "strike-place", "the strike-out takes rows {y0} to {y1}, the text {iy0} to {iy1}");
    }
    // the bar is whole
    let my = (y0 + y1) / 2;
    for x in (x0 + 1).min(ix0 + slant)..x1.max(ix1 - slant) {
        ensure!(b.alpha(x, my) > 100.0, "bar-whole", "the bar is missing at {x},{my}");
    }
    cx.obs(if strike { "strikes" } else { "underlines" }, 1);
    cx.state(&hash_of(&b.p));
    Ok(())
}

/// Sung text has the primary colour and unsung text the secondary, parted by the sweep.
fn karaoke(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut t = Text::new(r);
    let n = r.u(1, 4);
    let kind = *r.pick(&["k", "kf", "K", "ko"]);
    let syl: Vec<(u32, String)> = (0..n).map(|_| (r.u(10, 120) as u32, rgen::words(r, 1).trim().to_string() + "n")).collect();
    let (c1, c2) = (rgen::rgb(r), rgen::rgb(r));
    let bord = if kind == "ko" { 3 } else { *r.pick(&[0, 0, 2]) };
    t.st.col[0] = [c1[0], c1[1], c1[2], 0];
    t.st.col[1] = [c2[0], c2[1], c2[2], 0];
    t.text.clear();
    let total: u32 = syl.iter().map(|s| s.0).sum::<u32>();
    let at = match r.below(6) {
        0 => 0,
        1 => total + 5,
        _ => r.below(total as usize) as u32,
    };
    let head = format!("{{\\an{}\\pos({},{})\\bord{bord}}}", t.an, t.pos.0, t.pos.1);
    let body: String = format!("{head}{}", syl.iter().map(|s| format!("{{\\{kind}{}}}{}", s.0, s.1)).collect::<String>());
    // the same stretches of text, coloured by hand; `upto` of them in the primary colour
    let by_hand = |upto: usize| -> String {
        let mut o = head.clone();
        for (i, s) in syl.iter().enumerate() {
            let sung = i < upto;
            // an equal number of tag blocks, so that the text is split at the same places
            let b = if kind != "ko" || sung { bord } else { 0 };
            let _ = write!(o, "{{\\1c{}\\bord{b}}}{}", rgen::hex(if sung { c1 } else { c2 }), s.1);
        }
        o
    };
    cx.set_input(format!("{} x{} at {at}", t.script_of(&body), t.k));
    let got = t.pic_of(&body, at)?;
    if got.cut() {
        cx.mark_trivial();
        return Ok(());
    }
    let mut start = 0;
    let mut done = 0;
    let mut inside = None;
    for (i, s) in syl.iter().enumerate() {
        if at > start {
            done = i + 1;
            if at < start + s.0 {
                inside = Some((i, f64::from(at - start) / f64::from(s.0)));
            }
        }
        start += s.0;
    }
    let sweep = kind == "kf" || kind == "K";
    // at the very instant of its start a syllable may be taken as sung or not
    let mut begin = 0;
    for s in &syl {
        if at == begin && !sweep {
            cx.mark_trivial();
            return Ok(());
        }
        begin += s.0;
    }
    match inside {
        Some((i, part)) if sweep => {
            // swept: left of one column the picture with the syllable sung, right of it unsung
            let (l, rr) = (t.pic_of(&by_hand(i + 1), 0)?, t.pic_of(&by_hand(i), 0)?);
            let (w, h) = (i64::from(got.w), i64::from(got.h));
            let same = |p: &Pic, x: i64| (0..h).all(|y| (0..4).all(|c| p.at(x, y)[c].abs_diff(got.at(x, y)[c]) <= 3));
            let (sung, unsung): (Vec<bool>, Vec<bool>) = (0..w).map(|x| (same(&l, x), same(&rr, x))).unzip();
            let first_not = sung.iter().position(|v| !v).unwrap_or(w as usize);
            let last_not = unsung.iter().rposition(|v| !v).map_or(0, |v| v + 1);
            ensure!(last_not <= first_not + 3, "sweep", "columns from {first_not} are not sung, but columns to {last_not} are not unsung either");
            // the extent of the syllable
            let dif: Vec<i64> = (0..w).filter(|x| (0..h).any(|y| (0..4).any(|c| l.at(*x, y)[c].abs_diff(rr.at(*x, y)[c]) > 8))).collect();
            if let (Some(a), Some(b)) = (dif.first(), dif.last()) {
                let len = (b - a + 1) as f64;
                let want = *a as f64 + part * len;
                // anywhere between the last column surely sung and the first surely unsung
                let tol = 3.0 + f64::from(t.st.size) * f64::from(t.k) * 0.2;
                ensure!((first_not as f64) >= want - tol && (last_not as f64) <= want + tol, "sweep-place", "{part:.2} through a syllable from {a} to {b} the sweep is between {last_not} and {first_not}, not at {want:.1}");
            }
            cx.obs("sweeps", 1);
        }
        _ => {
            let upto = done;
            let hand = t.pic_of(&by_hand(upto), 0)?;
            let (bad, first) = hand.differ(&got, (0, 0), 3);
            ensure!(bad == 0, "sung", "with {upto} syllables begun at {at} {bad} pixels differ from the same text coloured by hand: {first}");
            cx.obs("switches", 1);
        }
    }
    cx.state(&(body, at));
    Ok(())
}

/// Rotations, shears and mirrorings act on the picture about its origin.
fn turned(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let t = Text::new(r);
    let org = (t.pos.0 + r.range(-20, 20) as f32, t.pos.1 + r.range(-15, 15) as f32);
    let bord = if r.bool() { 0 } else { 2 };
    let hc = rgen::hex(rgen::rgb(r));
    let base = format!("\\bord{bord}\\1c{hc}\\3c{hc}\\org({},{})", org.0, org.1);
    let what = r.below(3);
    let ang = r.range(-180, 180) as f64;
    let (tag, m): (String, [f64; 4]) = match what {
        0 => {
            let (s, c) = ang.to_radians().sin_cos();
            // counter-clockwise on a frame whose rows run downwards
            (format!("\\{}{ang}", r.pick(&["frz", "fr"])), [c, s, -s, c])
        }
        1 => ("\\fry180".into(), [-1.0, 0.0, 0.0, 1.0]),
        _ => ("\\frx180".into(), [1.0, 0.0, 0.0, -1.0]),
    };
    cx.set_input(format!("{} x{} {tag}", t.script(&base, t.pos), t.k));
    let Some(a) = t.plain(&base)? else {
        cx.mark_trivial();
        return Ok(());
    };
    let b = t.pic(&format!("{base}{tag}"), t.pos)?;
    // is all of it still in the frame?
    let k = f64::from(t.k);
    let o = (f64::from(org.0) * k, f64::from(org.1) * k);
    let out = (0..i64::from(a.h)).any(|y| {
        (0..i64::from(a.w)).any(|x| {
            let d = (x as f64 + 0.5 - o.0, y as f64 + 0.5 - o.1);
            let q = (o.0 + m[0] * d.0 + m[1] * d.1, o.1 + m[2] * d.0 + m[3] * d.1);
            a.alpha(x, y) > 0.0 && (q.0 < 3.0 || q.1 < 3.0 || q.0 > f64::from(a.w) - 3.0 || q.1 > f64::from(a.h) - 3.0)
        })
    });
    if out {
        cx.mark_trivial();
        return Ok(());
    }
    ensure!(b.sum() > 0.0, "turned-away", "nothing is painted after {tag}");
    let (ca, vx, vy, vxy) = a.moments();
    let (cb, wx, wy, _) = b.moments();
    let d = (ca.0 - o.0, ca.1 - o.1);
    let want = (o.0 + m[0] * d.0 + m[1] * d.1, o.1 + m[2] * d.0 + m[3] * d.1);
    ensure!((want.0 - cb.0).abs() < 1.3 && (want.1 - cb.1).abs() < 1.3, "turned-centre", "after {tag} about {org:?} the centre {ca:?} goes to {cb:?}, not {want:?}");
    ensure!((a.sum() - b.sum()).abs() < a.sum() * 0.12 + 255.0 * 2.0, "turned-area", "after {tag} the alpha is {} in all, {} before", b.sum(), a.sum());
    let ex = m[0] * m[0] * vx + 2.0 * m[0] * m[1] * vxy + m[1] * m[1] * vy;
    let ey = m[2] * m[2] * vx + 2.0 * m[2] * m[3] * vxy + m[3] * m[3] * vy;
    ensure!((ex - wx).abs() < ex * 0.08 + 2.0 && (ey - wy).abs() < ey * 0.08 + 2.0, "turned-spread", "after {tag} the spread is {wx},{wy}, not {ex},{ey}");
    cx.obs("turned", 1);
    cx.state(&hash_of(&b.p));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "R08",
            rule: "a distinct drawing whose path segments were compared, or whose painted pixels were judged by winding number and distance",
            assumptions: &["pixels nearer than about one pixel to an edge are not judged"],
            must_observe: &["segments", "splines", "pixels_inside", "pixels_outside", "pixels_in_outline"],
            monitors: vec![mon("drawing_commands", 100_000, 2_000_000, draw_commands), mon("drawn_shapes", 4000, 100_000, shapes)],
        },
        Property {
            id: "R13",
            rule: "a distinct path rasterized, bitmap composited or set of overlapping events, every pixel of which was compared",
            assumptions: &["two levels of 255 of rounding per step; curves are judged to a fifth of a pixel"],
            must_observe: &["pixels", "blended_pixels", "overlapping_pixels"],
            monitors: vec![mon("coverage", 30_000, 600_000, coverage), mon("blending", 100_000, 2_000_000, blend), mon("stacking", 3000, 60_000, stacking)],
        },
        Property {
            id: "R14",
            rule: "a distinct picture whose pixels were compared with the picture of the same text without the effect",
            assumptions: &["pictures that the frame cuts are not judged"],
            must_observe: &["shadow_pixels", "outline_pixels", "blurs", "underlines", "strikes", "sweeps", "switches", "turned"],
            monitors: vec![
                mon("shadow", 1500, 30_000, shadow),
                mon("outline", 1500, 30_000, outline),
                mon("blur", 1000, 20_000, blurred),
                mon("bars", 1500, 30_000, bars),
                mon("karaoke_pictures", 1500, 30_000, karaoke),
                mon("turned", 2000, 40_000, turned),
            ],
        },
    ]
}
