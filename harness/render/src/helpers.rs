//! R15: what the renderer offers beside rendering: animation tracks, layout and
//! positions, tags of an event, caches, regions, transforms, limits, set-up.

use ass_renderer::animation::{AnimatedResult, AnimatedValue, AnimationController, AnimationInterpolation, AnimationTag, AnimationTiming, AnimationTrack};
use ass_renderer::backends::BackendType;
use ass_renderer::collision::{BoundingBox as Box2, CollisionDetector, CollisionResolver, PositionedEvent, SmartCollisionResolver};
use ass_renderer::layout::positioning::PositionConfig;
use ass_renderer::layout::{convert_ssa_alignment, scale_coordinates, Alignment, BoundingBox, LayoutContext, MultiLineLayout, PositionInfo, TextMetrics};
use ass_renderer::pipeline::tag_processor::{process_event_tags, LineBreakType};
use ass_renderer::pipeline::validation as val;
use ass_renderer::plugin::{EffectParams, EffectPlugin, EffectValue, PluginRegistry};
use ass_renderer::renderer::{BackendProber};
use ass_renderer::utils::{cubic_bezier, lerp, DirtyRegion, Matrix3x3, TextureAtlas, Transform2D};
use ass_renderer::{RenderContext, RenderError};
use fontdb::Database;
use hcommon::*;
use std::collections::BTreeMap;
use std::sync::Arc;

fn f(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => 0.0,
        1 => r.u(0, 100) as f32,
        _ => (r.u(0, 8_000) as f32 - 4_000.0) / 8.0,
    }
}
fn near(a: f32, b: f64, size: f64) -> bool {
    (f64::from(a) - b).abs() <= 1e-4 * (1.0 + size.abs() + b.abs())
}

// ---------------------------------------------------------------- animation

#[derive(Clone, Debug)]
enum V {
    F(f32, f32),
    I(i32, i32),
    C([u8; 4], [u8; 4]),
    P((f32, f32), (f32, f32)),
    S((f32, f32), (f32, f32)),
}
fn progress(t: u32, a: u32, b: u32, accel: f32) -> f64 {
    if t <= a {
        0.0
    } else if t >= b {
        1.0
    } else {
        (f64::from(t - a) / f64::from(b - a)).powf(f64::from(accel))
    }
}
fn value_ok(got: &AnimatedResult, v: &V, p: f64) -> bool {
    let at = |a: f64, b: f64| a + (b - a) * p;
    let fl = |g: f32, a: f32, b: f32| near(g, at(a.into(), b.into()), f64::from(a).abs() + f64::from(b).abs());
    match (got, v) {
        (AnimatedResult::Float(g), V::F(a, b)) => fl(*g, *a, *b),
        // whole numbers: the next below or above
        (AnimatedResult::Integer(g), V::I(a, b)) => {
            let w = at(f64::from(*a), f64::from(*b));
            (f64::from(*g) - w).abs() < 1.0 + (f64::from(*b) - f64::from(*a)).abs() * 1e-5 && *g >= *a.min(b) && *g <= *a.max(b)
        }
        (AnimatedResult::Color(g), V::C(a, b)) => (0..4).all(|i| (f64::from(g[i]) - at(a[i].into(), b[i].into())).abs() < 1.01),
        (AnimatedResult::Position(g), V::P(a, b)) | (AnimatedResult::Scale(g), V::S(a, b)) => fl(g.0, a.0, b.0) && fl(g.1, a.1, b.1),
        _ => false,
    }
}
fn ends_ok(got: &AnimatedResult, v: &V, p: f64) -> bool {
    let end = p == 1.0;
    match (got, v) {
        (AnimatedResult::Integer(g), V::I(a, b)) => *g == if end { *b } else { *a },
        (AnimatedResult::Color(g), V::C(a, b)) => g == if end { b } else { a },
        _ => true,
    }
}
fn colour(r: &mut Rng) -> (String, [u8; 4]) {
    let c = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8];
    if r.bool() {
        (format!("&H{:02X}{:02X}{:02X}&", c[2], c[1], c[0]), [c[0], c[1], c[2], 255])
    } else {
        let a = r.below(256) as u8;
        (format!("&H{a:02x}{:02x}{:02x}{:02x}&", c[2], c[1], c[0]), [c[0], c[1], c[2], 255 - a])
    }
}

/// Tracks have the value of the moment; the last track of a property counts.
fn tracks(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    // (property, start, end, accel, value, easing)
    let mut model: Vec<(String, u32, u32, f32, V, usize)> = vec![];
    let mut c = AnimationController::new();
    let mut show = vec![];
    for _ in 0..r.u(0, 5) {
        let accel = *r.pick(&[1.0f32, 1.0, 2.0, 0.5, 3.0, 0.25, 1.5]);
        if r.bool() {
            let name = (*r.pick(&["fs", "fscx", "fscy", "frz", "c", "glow", "x"])).to_string();
            let v = match r.below(5) {
                0 => V::F(f(r), f(r)),
                1 => V::I(r.u(0, 500) as i32 - 250, if r.pct(5) { i32::MAX } else { r.u(0, 500) as i32 - 250 }),
                2 => V::C(colour(r).1, colour(r).1),
                3 => V::P((f(r), f(r)), (f(r), f(r))),
                _ => V::S((f(r), f(r)), (f(r), f(r))),
            };
            let a = r.u(0, 300) as u32;
            let b = if r.pct(10) { r.u(0, 300) as u32 } else { a + r.u(0, 300) as u32 };
            let ease = r.below(3);
            let av = match v.clone() {
                V::F(from, to) => AnimatedValue::Float { from, to },
                V::I(from, to) => AnimatedValue::Integer { from, to },
                V::C(from, to) => AnimatedValue::Color { from, to },
                V::P(from, to) => AnimatedValue::Position { from, to },
                V::S(from, to) => AnimatedValue::Scale { from, to },
            };
            let how = [AnimationInterpolation::Linear, AnimationInterpolation::Smooth, AnimationInterpolation::Smoother][ease];
            c.add_track(AnimationTrack::new(name.clone(), AnimationTiming::new(a, b, accel), av, how));
            show.push(format!("track {name} {a}..{b} {accel} {v:?} {how:?}"));
            model.push((name, a, b, accel, v, ease));
        } else {
            let (es, ee) = (r.u(0, 200) as u32, r.u(200, 600) as u32);
            let t1 = r.bool().then(|| r.u(0, 200) as u32);
            let t2 = r.bool().then(|| r.u(0, 400) as u32);
            let acc = r.bool().then_some(accel);
            let (a, b) = (es + t1.unwrap_or(0), es + t2.unwrap_or(ee - es));
            let mut mods = vec![];
            for _ in 0..r.u(0, 3) {
                let sp = *r.pick(&["", " "]);
                let name = *r.pick(&["fscx", "fscy", "fs", "frz", "fr", "c", "1c", "alpha", "fsp", "frx", "fry", "clip", "bord", "fscx1", "cx", "fsx"]);
                let (m, v) = match name {
                    "c" | "1c" => {
                        let (x, y) = (colour(r), colour(r));
                        (format!("\\{name}({}{sp},{sp}{})", x.0, y.0), Some(("c", V::C(x.1, y.1))))
                    }
                    "alpha" => {
                        let (x, y) = (r.below(256), r.below(256));
                        (format!("\\alpha(&H{x:02X}&,{sp}&H{y:02X}&)"), Some(("alpha", V::I(255 - x as i32, 255 - y as i32))))
                    }
                    _ => {
                        let (x, y) = (f(r), f(r));
                        let p = match name {
                            "fscx" => Some("fscx"),
                            "fscy" => Some("fscy"),
                            "fs" => Some("fs"),
                            "frz" | "fr" => Some("frz"),
                            _ => None,
                        };
                        (format!("\\{name}({sp}{x},{sp}{y})"), p.map(|p| (p, V::F(x, y))))
                    }
                };
                if let Some((p, v)) = v {
                    model.push((p.into(), a, b, acc.unwrap_or(1.0), v, 0));
                }
                mods.push(m);
            }
            show.push(format!("tag {t1:?} {t2:?} {acc:?} {mods:?} in {es}..{ee}"));
            let tag = AnimationTag { t1, t2, accel: acc, modifiers: mods };
            ensure!(c.add_from_tag(&tag, es, ee).is_ok(), "tag-refused", "{tag:?}");
        }
    }
    cx.set_input(show.join("\n"));
    for _ in 0..6 {
        let t = match model.is_empty() {
            false if cx.rng.bool() => {
                let m = cx.rng.pick(&model).clone();
                (*cx.rng.pick(&[m.1, m.2, m.1.saturating_add(m.2) / 2])).saturating_add(cx.rng.below(2) as u32)
            }
            _ => cx.rng.u(0, 700) as u32,
        };
        let st = c.evaluate(t);
        let mut names: Vec<&str> = model.iter().map(|m| m.0.as_str()).collect();
        names.extend(["fs", "fscx", "fscy", "frz", "c", "alpha", "fsp", "frx"]);
        for n in names {
            let Some(m) = model.iter().rev().find(|m| m.0 == n) else {
                ensure!(st.get_property(n).is_none(), "track-invented", "{n} at {t}: {:?}", st.get_property(n));
                continue;
            };
            let Some(g) = st.get_property(n) else { return fail("track-lost", format!("{n} at {t}")) };
            let mut p = progress(t, m.1, m.2, m.3);
            p = match m.5 {
                1 => p * p * (3.0 - 2.0 * p),
                2 => p * p * p * (p * (p * 6.0 - 15.0) + 10.0),
                _ => p,
            };
            ensure!(value_ok(g, &m.4, p), "track-value", "{n} at {t} is {g:?}, progress {p} of {m:?}");
            if p == 0.0 || p == 1.0 {
                ensure!(ends_ok(g, &m.4, p), "track-end", "{n} at {t} is {g:?} of {m:?}");
            }
            cx.obs("track_values", 1);
        }
        let fl = |n: &str| match st.get_property(n) {
            Some(AnimatedResult::Float(v)) => Some(*v),
            _ => None,
        };
        let scale = match (fl("fscx"), fl("fscy")) {
            (None, None) => None,
            (x, y) => Some((x.unwrap_or(100.0), y.unwrap_or(100.0))),
        };
        let col = match st.get_property("c") {
            Some(AnimatedResult::Color(c)) => Some(*c),
            _ => None,
        };
        ensure!(st.font_size() == fl("fs") && st.rotation() == fl("frz") && st.scale() == scale && st.color() == col, "state", "{st:?}");
        let on: Vec<&str> = model.iter().filter(|m| m.1 <= t && t <= m.2).map(|m| m.0.as_str()).collect();
        ensure!(c.is_active(t) != on.is_empty(), "active", "at {t}: {on:?}");
        let got: Vec<String> = c.active_tracks(t).iter().map(|x| x.property.clone()).collect();
        ensure!(got == on, "active", "at {t}: {got:?} want {on:?}");
    }
    cx.state(&show);
    Ok(())
}

// ---------------------------------------------------------------- layout

fn row_col(a: u8) -> (u8, u8) {
    // numpad: row 0 bottom, 1 middle, 2 top; column 0 left, 1 centre, 2 right
    ((a - 1) / 3, (a - 1) % 3)
}

/// Positions put the aligned corner where the script says.
fn places(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let an = r.u(1, 9) as u8;
    let (row, col) = row_col(an);
    let (sw, sh) = (r.u(1, 4000) as f32, r.u(1, 3000) as f32);
    let (w, h) = (r.u(0, 2000) as f32 / 2.0, r.u(0, 1000) as f32 / 2.0);
    let (ml, mv) = (r.u(0, 200) as f32, r.u(0, 200) as f32);
    // how unequal margins move centred text is left open
    let mr = if col == 1 { ml } else { r.u(0, 200) as f32 };
    cx.set_input(format!("an {an} box {w}x{h} on {sw}x{sh} margins {ml} {mr} {mv}"));
    let x = match col {
        0 => ml,
        1 => (sw - w) / 2.0,
        _ => sw - mr - w,
    };
    let y = match row {
        0 => sh - mv - h,
        1 => (sh - h) / 2.0,
        _ => mv,
    };
    let big = f64::from(sw + sh + w + h + ml + mr + mv);
    let at = |g: (f32, f32), w: (f32, f32)| near(g.0, w.0.into(), big) && near(g.1, w.1.into(), big);

    let a = Alignment::from_value(an);
    ensure!(a as u8 == an, "alignment", "{a:?}");
    let ssa = [0, 8, 4][row as usize] + col + 1;
    ensure!(Alignment::from_ssa_legacy(ssa) as u8 == an && convert_ssa_alignment(ssa) == an, "ssa", "{ssa}: {:?} {}", Alignment::from_ssa_legacy(ssa), convert_ssa_alignment(ssa));
    let odd = *cx.rng.pick(&[0u8, 10, 11, 77, 255]);
    ensure!(Alignment::from_value(odd) == Alignment::BottomCenter, "alignment-default", "{odd}");

    let mut l = LayoutContext::new(sw, sh);
    (l.margin_left, l.margin_right, l.margin_vertical) = (ml, mr, mv);
    let m = TextMetrics::estimated(w, h);
    ensure!(m.width == w && m.height == h && near(m.ascent + m.descent, h.into(), h.into()) && m.baseline == m.ascent, "metrics", "{m:?}");
    let g = l.calculate_position(a, &m);
    ensure!(at(g, (x, y)), "layout-position", "{g:?} want {:?}", (x, y));
    let (px, py) = (cx.rng.u(1, 2000) as f32, cx.rng.u(1, 2000) as f32);
    (l.play_res_x, l.play_res_y) = (px, py);
    let (ux, uy) = (f(&mut cx.rng), f(&mut cx.rng));
    for g in [l.apply_play_res_scaling(ux, uy), scale_coordinates(ux, uy, px, py, sw, sh)] {
        let w = (f64::from(ux) * f64::from(sw) / f64::from(px), f64::from(uy) * f64::from(sh) / f64::from(py));
        ensure!(near(g.0, w.0, w.0) && near(g.1, w.1, w.1), "scaling", "{g:?} want {w:?}");
    }

    // an event's tags
    let r = &mut cx.rng;
    let bb = BoundingBox { x: 0.0, y: 0.0, width: w, height: h };
    let other = r.u(1, 9) as u8;
    let by_tag = r.bool();
    let cfg = PositionConfig { screen_width: sw, screen_height: sh, margin_left: ml, margin_right: mr, margin_vertical: mv, default_alignment: if by_tag { other } else { an } };
    let (p, q, o) = ((f(r), f(r)), (f(r), f(r)), (f(r), f(r)));
    let how = r.below(3);
    let with_org = r.bool();
    let (t1, t2) = (r.u(0, 100) as u32, r.u(101, 300) as u32);
    let mut text = String::from("{");
    if by_tag {
        text += &format!("\\an{an}");
    }
    match how {
        0 => {}
        1 => text += &format!("\\pos({},{})", p.0, p.1),
        _ => text += &format!("\\move({},{},{},{},{},{})", p.0, p.1, q.0, q.1, t1 * 10, t2 * 10),
    }
    if with_org {
        text += &format!("\\org({},{})", o.0, o.1);
    }
    text += "}x";
    let tags = match process_event_tags(&text, None) {
        Ok((t, s)) => {
            ensure!(s == "x", "text", "{s:?}");
            t
        }
        Err(e) => return fail("tags", format!("{e}")),
    };
    let corner = |p: (f32, f32)| (p.0 - w * f32::from(col) / 2.0, p.1 - h * (1.0 - f32::from(row) / 2.0));
    let i = PositionInfo::calculate(&tags, &bb, &cfg);
    ensure!(at((i.anchor_x, i.anchor_y), (x, y)), "anchor", "{i:?} want {:?} ({text})", (x, y));
    let want = if how == 0 { (x, y) } else { corner(p) };
    ensure!(at((i.render_x, i.render_y), want) && i.explicit_position == (how > 0), "position", "{i:?} want {want:?} ({text})");
    let org = if with_org { o } else { (x + w / 2.0, y + h / 2.0) };
    ensure!(at((i.origin_x, i.origin_y), org), "origin", "{i:?} want {org:?} ({text})");
    // times as the tags hold them
    let start = cx.rng.u(0, 500) as u32;
    let now = start + cx.rng.u(0, 400) as u32;
    let i = PositionInfo::calculate_with_movement(&tags, &bb, &cfg, now, start);
    let want = if how == 2 {
        let k = ((now - start) as f32 - t1 as f32).max(0.0) / (t2 - t1) as f32;
        let k = k.min(1.0);
        corner((p.0 + (q.0 - p.0) * k, p.1 + (q.1 - p.1) * k))
    } else {
        want
    };
    ensure!(at((i.render_x, i.render_y), want), "movement", "{i:?} want {want:?} at {now} from {start} ({text})");
    ensure!(at((i.anchor_x, i.anchor_y), (x, y)) && at((i.origin_x, i.origin_y), org), "anchor", "{i:?}");

    // lines of a text
    let n = cx.rng.u(1, 5);
    let lines: Vec<String> = (0..n).map(|_| (0..cx.rng.below(4)).map(|_| gen::word(&mut cx.rng)).collect::<Vec<_>>().join(" ").replace(['\n', '\r'], "")).collect();
    let gap = cx.rng.u(0, 20) as f32;
    let ml = MultiLineLayout::new(&lines.join("\n"), &l, a, gap);
    ensure!(ml.lines.iter().map(|x| x.text.as_str()).eq(lines.iter().map(|x| x.as_str())), "lines", "{lines:?}");
    for (i, x) in ml.lines.iter().enumerate() {
        ensure!(near(x.x, f64::from(ml.total_width - x.width) * f64::from(col) / 2.0, big), "line-x", "{} of {} in {}", x.x, x.width, ml.total_width);
        let top = ml.lines[..i].iter().map(|l| l.height + gap).sum::<f32>();
        ensure!(near(x.y, top.into(), top.into()), "line-y", "line {i} at {}, want {top}", x.y);
        ensure!(x.baseline >= 0.0 && x.baseline <= x.height, "baseline", "{}", x.baseline);
    }
    let widest = ml.lines.iter().map(|l| l.width).fold(0.0, f32::max);
    let last = ml.lines.last().unwrap();
    ensure!(ml.total_width == widest && near(ml.total_height, (last.y + last.height).into(), 1.0), "lines-size", "{} x {}", ml.total_width, ml.total_height);
    cx.obs("positions", 1);
    cx.state(&(an, how, with_org, by_tag, w.to_bits(), sw.to_bits()));
    Ok(())
}

// ---------------------------------------------------------------- tags of an event

/// The last tag of a kind is the value of that kind, and the text is what is shown.
fn tags(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut text = String::new();
    let mut clean = String::new();
    let mut m: BTreeMap<&'static str, String> = BTreeMap::new();
    let mut nbsp = vec![];
    let mut breaks = vec![];
    for _ in 0..r.u(0, 5) {
        text.push('{');
        for _ in 0..r.u(0, 4) {
            let n = f(r);
            let k = r.u(0, 200);
            let (c, rgba) = {
                let c = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8];
                (format!("&H{:02X}{:02X}{:02X}&", c[2], c[1], c[0]), [c[0], c[1], c[2]])
            };
            let num: &[(&str, &'static str)] = &[
                ("fs", "size"), ("fscx", "scale_x"), ("fscy", "scale_y"), ("fsp", "spacing"), ("frz", "rz"), ("fr", "rz"), ("frx", "rx"), ("fry", "ry"),
                ("fax", "shear_x"), ("fay", "shear_y"), ("bord", "border"), ("xbord", "border_x"), ("ybord", "border_y"), ("shad", "shadow"),
                ("xshad", "shadow_x"), ("yshad", "shadow_y"), ("be", "be"), ("blur", "blur"), ("pbo", "pbo"),
            ];
            match r.below(12) {
                0..=3 => {
                    let (t, s) = *r.pick(num);
                    text += &format!("\\{t}{n}");
                    m.insert(s, format!("{n:?}"));
                }
                4 => {
                    let (t, s) = *r.pick(&[("c", "c1"), ("1c", "c1"), ("2c", "c2"), ("3c", "c3"), ("4c", "c4")]);
                    text += &format!("\\{t}{c}");
                    m.insert(s, format!("{rgba:?}"));
                }
                5 => {
                    let (t, s) = *r.pick(&[("alpha", "a"), ("1a", "a1"), ("2a", "a2"), ("3a", "a3"), ("4a", "a4")]);
                    let a = k as u8;
                    text += &format!("\\{t}&H{a:02X}&");
                    m.insert(s, format!("{:?}", 255 - a));
                }
                6 => {
                    let (t, s) = *r.pick(&[("b", "bold"), ("i", "italic"), ("u", "underline"), ("s", "strikeout")]);
                    match r.below(3) {
                        0 => {
                            text += &format!("\\{t}");
                            m.remove(s);
                        }
                        x => {
                            text += &format!("\\{t}{}", x - 1);
                            m.insert(s, format!("{:?}", x == 2));
                        }
                    }
                }
                7 => {
                    let an = r.u(1, 9) as u8;
                    if r.bool() {
                        text += &format!("\\an{an}");
                    } else {
                        text += &format!("\\a{}", [1, 2, 3, 9, 10, 11, 5, 6, 7][an as usize - 1]);
                    }
                    m.insert("an", an.to_string());
                }
                8 => match r.below(4) {
                    0 => {
                        let q = r.below(4);
                        text += &format!("\\q{q}");
                        m.insert("q", q.to_string());
                    }
                    1 => {
                        let q = r.below(5);
                        text += &format!("\\p{q}\\p0");
                        m.insert("p", "0".into());
                    }
                    2 => {
                        text += &format!("\\fe{k}");
                        m.insert("fe", k.to_string());
                    }
                    _ => {
                        let n = *r.pick(&["Go", "Go Mono", "DejaVu Sans"]);
                        text += &format!("\\fn{n}");
                        m.insert("fn", n.into());
                    }
                },
                9 => {
                    let p = (n, f(r));
                    match r.below(3) {
                        0 if !m.contains_key("pos") => {
                            text += &format!("\\pos({},{})", p.0, p.1);
                            m.insert("pos", format!("{p:?}"));
                        }
                        1 if !m.contains_key("org") => {
                            text += &format!("\\org({}, {})", p.0, p.1);
                            m.insert("org", format!("{p:?}"));
                        }
                        _ if !m.contains_key("move") => {
                            let (t1, t2) = (r.u(0, 50) as u32, r.u(51, 99) as u32);
                            text += &format!("\\move({},{},3,4,{},{})", p.0, p.1, t1 * 10, t2 * 10);
                            m.insert("move", format!("{:?}", (p.0, p.1, 3.0f32, 4.0f32, t1, t2)));
                        }
                        _ => {}
                    }
                }
                10 => match r.below(2) {
                    0 => {
                        let inv = r.bool();
                        let v = [n, f(r), f(r), f(r)];
                        text += &format!("\\{}({},{},{},{})", if inv { "iclip" } else { "clip" }, v[0], v[1], v[2], v[3]);
                        m.insert("clip", format!("{v:?} {inv}"));
                    }
                    _ if !m.contains_key("fad") => {
                        let (a, b) = (r.u(0, 100) as u32, r.u(0, 100) as u32);
                        if r.bool() {
                            text += &format!("\\fad({},{})", a * 10, b * 10);
                            m.insert("fad", format!("{a} {b} None"));
                        } else {
                            let v = [r.below(256), r.below(256), r.below(256)];
                            let t = [a, a + 5, a + b + 5, a + b + 9];
                            text += &format!("\\fade({},{},{},{},{},{},{})", v[0], v[1], v[2], t[0] * 10, t[1] * 10, t[2] * 10, t[3] * 10);
                            m.insert("fad", format!("{} {} Some(({}, {}, {}, 5, 4))", t[0], t[3], v[0], v[1], v[2]));
                        }
                    }
                    _ => {}
                },
                _ => {
                    let t = *r.pick(&["k", "kf", "ko", "K"]);
                    text += &format!("\\{t}{k}");
                    m.insert("k", format!("{t} {k}"));
                }
            }
        }
        text.push('}');
        for _ in 0..r.u(0, 3) {
            match r.below(4) {
                0 => {
                    text += "\\N";
                    breaks.push(clean.len());
                    clean.push('\n');
                }
                1 => {
                    text += "\\h";
                    nbsp.push(clean.len());
                    clean.push('\u{a0}');
                }
                _ => {
                    let w: String = gen::word(r).chars().filter(|c| !"{}\\\n\r\u{a0}".contains(*c)).collect();
                    text += &w;
                    clean += &w;
                }
            }
        }
    }
    cx.set_input(text.clone());
    let (t, s) = match process_event_tags(&text, None) {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("{e}")),
    };
    ensure!(s == clean, "text", "{s:?} want {clean:?}");
    let at: Vec<usize> = t.line_breaks.iter().map(|b| match b { LineBreakType::Hard(i) | LineBreakType::Soft(i) => *i }).collect();
    ensure!(at == breaks && t.nbsp_positions == nbsp, "breaks", "{:?} {:?} want {breaks:?} {nbsp:?}", t.line_breaks, t.nbsp_positions);
    let mut g: BTreeMap<&'static str, String> = BTreeMap::new();
    let mut put = |k: &'static str, v: Option<String>| {
        if let Some(v) = v {
            g.insert(k, v);
        }
    };
    let d = |v: Option<f32>| v.map(|v| format!("{v:?}"));
    put("size", d(t.font.size));
    put("scale_x", d(t.font.scale_x));
    put("scale_y", d(t.font.scale_y));
    put("spacing", d(t.font.spacing));
    put("rz", d(t.font.rotation_z));
    put("rx", d(t.font.rotation_x));
    put("ry", d(t.font.rotation_y));
    put("shear_x", d(t.shear_x));
    put("shear_y", d(t.shear_y));
    put("border", d(t.formatting.border));
    put("border_x", d(t.formatting.border_x));
    put("border_y", d(t.formatting.border_y));
    put("shadow", d(t.formatting.shadow));
    put("shadow_x", d(t.formatting.shadow_x));
    put("shadow_y", d(t.formatting.shadow_y));
    put("be", d(t.formatting.blur_edges));
    put("blur", d(t.formatting.blur));
    put("pbo", d(t.baseline_offset));
    for (k, v) in [("c1", t.colors.primary), ("c2", t.colors.secondary), ("c3", t.colors.outline), ("c4", t.colors.shadow)] {
        put(k, v.map(|v| format!("{:?}", &v[..3])));
    }
    for (k, v) in [("a", t.colors.alpha), ("a1", t.colors.alpha1), ("a2", t.colors.alpha2), ("a3", t.colors.alpha3), ("a4", t.colors.alpha4)] {
        put(k, v.map(|v| v.to_string()));
    }
    for (k, v) in [("bold", t.formatting.bold), ("italic", t.formatting.italic), ("underline", t.formatting.underline), ("strikeout", t.formatting.strikeout)] {
        put(k, v.map(|v| v.to_string()));
    }
    put("an", t.formatting.alignment.map(|v| v.to_string()));
    put("q", t.formatting.wrap_style.map(|v| v.to_string()));
    put("p", t.drawing_mode.map(|v| v.to_string()));
    put("fe", t.font.encoding.map(|v| v.to_string()));
    put("fn", t.font.name.clone());
    put("pos", t.position.map(|v| format!("{v:?}")));
    put("org", t.origin.map(|v| format!("{v:?}")));
    put("move", t.movement.map(|v| format!("{v:?}")));
    put("clip", t.clip.as_ref().map(|c| format!("{:?} {}", [c.x1, c.y1, c.x2, c.y2], c.inverse)));
    put(
        "fad",
        t.fade.as_ref().map(|x| {
            let more = x.alpha_middle.map(|mid| (x.alpha_start, mid, x.alpha_end, x.time_fade_in.unwrap_or(0), x.time_fade_out.unwrap_or(0)));
            format!("{} {} {more:?}", x.time_start, x.time_end)
        }),
    );
    put("k", t.karaoke.as_ref().map(|k| format!("{} {}", match format!("{:?}", k.style).as_str() { "Basic" => "k", "Fill" => "kf", "Outline" => "ko", _ => "K" }, k.duration)));
    // how \p acts on the text after it is decided by R08
    g.remove("p");
    m.remove("p");
    ensure!(g == m, "tags", "{g:?}\nwant {m:?}");
    cx.obs("tags_read", g.len() as u64);
    cx.state(&text);
    Ok(())
}

// ---------------------------------------------------------------- arithmetic

fn maths(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let g = |r: &mut Rng| (r.u(0, 2000) as f32 - 1000.0) / 100.0;
    let t = Transform2D { tx: g(r), ty: g(r), sx: g(r), sy: g(r), rotation: g(r), shear_x: g(r) / 5.0, shear_y: g(r) / 5.0 };
    let u = Transform2D { tx: g(r), ty: g(r), sx: g(r), sy: g(r), rotation: g(r), shear_x: 0.0, shear_y: g(r) };
    let (x, y) = (g(r), g(r));
    cx.set_input(format!("{t:?} {u:?} {x} {y}"));
    let p = (f64::from(x) * f64::from(t.sx), f64::from(y) * f64::from(t.sy));
    let p = (p.0 + p.1 * f64::from(t.shear_x), p.1 + p.0 * f64::from(t.shear_y));
    let (s, c) = f64::from(t.rotation).sin_cos();
    let p = (p.0 * c - p.1 * s + f64::from(t.tx), p.0 * s + p.1 * c + f64::from(t.ty));
    let m = t.to_matrix();
    let q = m.transform_point(x, y);
    ensure!(near(q.0, p.0, 500.0) && near(q.1, p.1, 500.0), "transform", "{q:?} want {p:?}");
    let n = u.to_matrix();
    let a = m.multiply(&n).transform_point(x, y);
    let b = n.transform_point(x, y);
    let b = m.transform_point(b.0, b.1);
    ensure!(near(a.0, b.0.into(), 1e4) && near(a.1, b.1.into(), 1e4), "product", "{a:?} {b:?}");
    let id = Matrix3x3::identity().multiply(&m);
    ensure!(id.m == m.m && m.multiply(&Matrix3x3::default()).m == m.m, "identity", "{id:?}");
    ensure!(Transform2D::default().to_matrix().transform_point(x, y) == (x, y), "identity", "{x} {y}");
    ensure!(Matrix3x3::translate(x, y).transform_point(1.0, 2.0) == (x + 1.0, y + 2.0) && Matrix3x3::scale(x, y).transform_point(1.0, 2.0) == (x, y * 2.0), "matrix", "");
    let k = cx.rng.u(0, 100) as f32 / 100.0;
    let l = t.lerp(&u, k);
    for (a, b, g) in [(t.tx, u.tx, l.tx), (t.ty, u.ty, l.ty), (t.sx, u.sx, l.sx), (t.sy, u.sy, l.sy), (t.rotation, u.rotation, l.rotation), (t.shear_x, u.shear_x, l.shear_x), (t.shear_y, u.shear_y, l.shear_y), (x, y, lerp(x, y, k))] {
        let w = f64::from(a) + (f64::from(b) - f64::from(a)) * f64::from(k);
        ensure!(near(g, w, 20.0), "lerp", "{g} want {w}");
    }
    let (p1, p2) = (g(&mut cx.rng), g(&mut cx.rng));
    let kk = f64::from(k);
    let w = 3.0 * (1.0 - kk).powi(2) * kk * f64::from(p1) + 3.0 * (1.0 - kk) * kk * kk * f64::from(p2) + kk.powi(3);
    ensure!(near(cubic_bezier(k, p1, p2), w, 20.0), "bezier", "{k} {p1} {p2}");

    // regions
    let r = &mut cx.rng;
    let reg = |r: &mut Rng| DirtyRegion::new(r.u(0, 40) as u32, r.u(0, 40) as u32, r.u(0, 30) as u32, r.u(0, 30) as u32);
    let (a, b) = (reg(r), reg(r));
    let m = a.merge(&b);
    let (x2, y2) = ((a.x + a.width).max(b.x + b.width), (a.y + a.height).max(b.y + b.height));
    ensure!((m.x, m.y, m.x + m.width, m.y + m.height) == (a.x.min(b.x), a.y.min(b.y), x2, y2), "merge", "{a:?} {b:?}: {m:?}");
    ensure!(a.area() == u64::from(a.width) * u64::from(a.height), "area", "{a:?}");
    let shares = (0..75u32).any(|x| (0..75u32).any(|y| a.contains_point(x, y) && b.contains_point(x, y)));
    let hit = a.intersects((b.x, b.y, b.x + b.width, b.y + b.height));
    let apart = a.x + a.width < b.x || b.x + b.width < a.x || a.y + a.height < b.y || b.y + b.height < a.y;
    ensure!(hit || !shares, "intersects", "{a:?} {b:?} share a pixel");
    ensure!(!(hit && apart), "intersects", "{a:?} {b:?} lie apart");
    // regions that end at or past the last coordinate end there
    let far = |r: &mut Rng| *r.pick(&[0u32, 1, 5, 1 << 31, u32::MAX - 7, u32::MAX]);
    let (p, q) = (DirtyRegion::new(far(r), far(r), far(r), far(r)), DirtyRegion::new(far(r), far(r), far(r), far(r)));
    let far = p.merge(&q);
    for (o, s, po, ps, qo, qs) in [(far.x, far.width, p.x, p.width, q.x, q.width), (far.y, far.height, p.y, p.height, q.y, q.height)] {
        let end = po.saturating_add(ps).max(qo.saturating_add(qs));
        ensure!(o == po.min(qo) && o.checked_add(s) == Some(end), "merge-far", "{p:?} {q:?}: {far:?}");
    }
    ensure!(p.intersects((p.x, p.y, u32::MAX, u32::MAX)) && p.area() == u64::from(p.width) * u64::from(p.height), "far", "{p:?}");
    let full = DirtyRegion::full_screen();
    ensure!(full.contains_point(a.x, a.y) && full.merge(&a) == full && a.merge(&full) == full, "full", "");
    cx.obs("transforms", 1);
    cx.state(&(t.tx.to_bits(), a.x, a.width, b.x));
    Ok(())
}

// ---------------------------------------------------------------- stores

fn stores(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    // atlas
    let (w, h) = (r.u(0, 24) as u32, r.u(0, 24) as u32);
    let mut a = TextureAtlas::new(w, h);
    let mut log = vec![format!("atlas {w}x{h}")];
    let mut model = vec![0u8; (w * h * 4) as usize];
    let mut got: Vec<(u32, u32, u32, u32)> = vec![];
    ensure!(a.data() == &model[..], "atlas-size", "{}", a.data().len());
    let n = r.u(0, 14);
    for i in 0..n {
        let r = &mut cx.rng;
        let (rw, rh) = (r.u(1, 12) as u32 * if r.pct(5) { 4 } else { 1 }, r.u(1, 10) as u32);
        log.push(format!("{rw}x{rh}"));
        let Some(g) = a.allocate(rw, rh) else {
            let none = got.is_empty() && rw <= w && rh <= h;
            ensure!(!none, "atlas-refused", "{log:?}");
            continue;
        };
        let b = (g.x, g.y, g.width, g.height);
        ensure!((g.width, g.height) == (rw, rh) && g.x + rw <= w && g.y + rh <= h, "atlas-outside", "{b:?}\n{log:?}");
        let clash = got.iter().find(|o| g.x < o.0 + o.2 && o.0 < g.x + rw && g.y < o.1 + o.3 && o.1 < g.y + rh);
        ensure!(clash.is_none(), "atlas-overlap", "{b:?} {clash:?}\n{log:?}");
        got.push(b);
        let data: Vec<u8> = (0..rw * rh * 4).map(|k| (k as u8).wrapping_mul(7).wrapping_add(i as u8 + 1)).collect();
        a.write_region(&g, &data);
        for y in 0..rh {
            for k in 0..rw * 4 {
                model[((g.y + y) * w * 4 + g.x * 4 + k) as usize] = data[(y * rw * 4 + k) as usize];
            }
        }
        ensure!(a.data() == &model[..], "atlas-data", "{b:?}\n{log:?}");
        cx.obs("atlas_regions", 1);
    }
    a.clear();
    ensure!(a.data().iter().all(|b| *b == 0) && a.data().len() == model.len(), "atlas-clear", "");
    ensure!(w == 0 || h == 0 || a.allocate(w, h).is_some_and(|g| (g.x, g.y) == (0, 0)), "atlas-clear", "{log:?}");

    // plugins
    struct P(String, u8);
    impl EffectPlugin for P {
        fn name(&self) -> &str {
            &self.0
        }
        fn version(&self) -> &str {
            "1"
        }
        fn apply_cpu(&self, px: &mut [u8], _: u32, _: u32, p: &EffectParams) -> Result<(), RenderError> {
            px[0] = self.1 + p.strength as u8;
            Ok(())
        }
    }
    let mut reg = PluginRegistry::new();
    let mut m: BTreeMap<String, u8> = BTreeMap::new();
    let mut par = EffectParams::new(3.0);
    let mut pm: BTreeMap<String, usize> = BTreeMap::new();
    for i in 0..12u8 {
        let n = (*cx.rng.pick(&["a", "b", "c"])).to_string();
        match cx.rng.below(8) {
            0 => {
                ensure!(reg.unregister_effect(&n).is_some() == m.remove(&n).is_some(), "plugin-removed", "{n}");
            }
            1 if cx.rng.pct(20) => {
                reg.clear();
                m.clear();
            }
            _ => {
                reg.register_effect(Arc::new(P(n.clone(), i)));
                m.insert(n.clone(), i);
            }
        }
        let mut l = reg.list_effects();
        l.sort();
        ensure!(l.iter().eq(m.keys()), "plugins", "{l:?} want {m:?}");
        let which = reg.get_effect(&n).map(|p| {
            let mut px = [0u8];
            let _ = p.apply_cpu(&mut px, 1, 1, &par);
            (p.name().to_string(), px[0], p.supports_gpu())
        });
        ensure!(which == m.get(&n).map(|i| (n.clone(), i + 3, false)), "plugin", "{which:?}");
        let kind = cx.rng.below(5);
        par.set(n.clone(), match kind {
            0 => EffectValue::Float(f32::from(i)),
            1 => EffectValue::Integer(i32::from(i)),
            2 => EffectValue::Color([i; 4]),
            3 => EffectValue::Boolean(true),
            _ => EffectValue::String(i.to_string()),
        });
        pm.insert(n.clone(), kind * 100 + i as usize);
        for (k, v) in &pm {
            let (kind, i) = (v / 100, v % 100);
            ensure!(par.get(k).is_some(), "parameter", "{k}");
            ensure!(par.get_float(k) == (kind == 0).then_some(i as f32), "parameter", "{k} {:?}", par.get(k));
            ensure!(par.get_int(k) == (kind == 1).then_some(i as i32), "parameter", "{k} {:?}", par.get(k));
            ensure!(par.get_color(k) == (kind == 2).then_some([i as u8; 4]), "parameter", "{k} {:?}", par.get(k));
        }
    }
    cx.state(&log);
    Ok(())
}

// ---------------------------------------------------------------- limits

fn limits(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let v = match r.below(10) {
        0 => *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN]),
        1 => *r.pick(&[0.0f32, -0.0, 1.0, 2.0, -2.0, 99.999, 100.0, 999.99, 1000.0, 1000.1, 360.0, -360.0, 2.001, -2.001]),
        2 => f(r) * 1000.0,
        _ => f(r),
    };
    let (x, y, z) = (if r.pct(5) { f32::NAN } else { f(r) }, f(r), f(r));
    let b = r.below(256) as u8;
    let n = if r.bool() { r.u(0, 200_000) as u32 } else { *r.pick(&[0, 99_999, 100_000, u32::MAX]) };
    cx.set_input(format!("{v} {x} {y} {z} {b} {n}"));
    let same = |g: Result<f32, RenderError>, ok: bool, what: &str| -> R {
        match g {
            Ok(g) => ensure!(ok && g == v, "limit", "{what} {v} gives {g}"),
            Err(_) => ensure!(!ok, "limit", "{what} refuses {v}"),
        }
        Ok(())
    };
    same(val::validate_font_size(v), v > 0.0 && v < 1000.0, "font size")?;
    same(val::validate_scale(v), (0.0..=1000.0).contains(&v), "scale")?;
    same(val::validate_border_width(v), (0.0..100.0).contains(&v), "border")?;
    same(val::validate_blur(v), (0.0..100.0).contains(&v), "blur")?;
    same(val::validate_shear(v), (-2.0..=2.0).contains(&v), "shear")?;
    same(val::validate_acceleration(v), v > 0.0 && v < 100.0, "acceleration")?;
    let byte = |g: Result<u8, RenderError>, ok: bool, what: &str| -> R {
        ensure!(g.as_ref().ok().copied() == ok.then_some(b), "limit", "{what} {b} gives {g:?}");
        Ok(())
    };
    byte(val::validate_alignment(b), (1..=9).contains(&b), "alignment")?;
    byte(val::validate_wrap_style(b), b <= 3, "wrap style")?;
    byte(val::validate_drawing_mode(b), b <= 4, "drawing mode")?;
    byte(val::validate_alpha(b), true, "alpha")?;
    byte(val::validate_font_encoding(b), true, "encoding")?;
    ensure!(val::validate_karaoke_duration(n).ok() == (n < 100_000).then_some(n), "limit", "karaoke {n}");
    ensure!(val::validate_time_ms(n).ok() == Some(n) && val::validate_color([b, 1, 2, 3]).ok() == Some([b, 1, 2, 3]), "limit", "");
    if v.is_finite() {
        let Ok(a) = val::validate_rotation(v) else { return fail("limit", format!("rotation {v}")) };
        let k = (f64::from(v) - f64::from(a)) / 360.0;
        ensure!((0.0..=360.0).contains(&a) && (k - k.round()).abs() < 1e-4 * (1.0 + f64::from(v).abs() / 360.0), "rotation", "{v} gives {a}");
    }
    ensure!(val::validate_position(x, v).ok() == (x.is_finite() && v.is_finite()).then_some((x, v)), "limit", "position");
    let c = val::validate_clip_rect(x, v, y, z).ok();
    let want = (x.is_finite() && v.is_finite()).then(|| (x.min(y), v.min(z), x.max(y), v.max(z)));
    ensure!(c == want, "limit", "clip {c:?} want {want:?}");
    cx.obs("limits", 1);
    cx.state(&(v.to_bits(), b, n));
    Ok(())
}

// ---------------------------------------------------------------- boxes

fn boxes(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let bx = |r: &mut Rng| Box2::new(r.u(0, 60) as f32 * 10.0, r.u(0, 40) as f32 * 10.0, r.u(1, 20) as f32 * 10.0, r.u(1, 10) as f32 * 10.0);
    let d = SmartCollisionResolver::new(800.0, 600.0);
    let b = bx(r);
    let n = r.below(6);
    let others: Vec<Box2> = (0..n).map(|_| bx(r)).collect();
    let bounds = if r.bool() { Box2::new(0.0, 0.0, 800.0, 600.0) } else { Box2::new(0.0, r.u(0, 20) as f32 * 10.0, 800.0, r.u(0, 40) as f32 * 10.0) };
    cx.set_input(format!("{b:?} among {others:?} in {bounds:?}"));
    let hits = |a: &Box2, o: &Box2| a.x < o.x + o.width && o.x < a.x + a.width && a.y < o.y + o.height && o.y < a.y + a.height;
    ensure!(d.check_collision(&b, &others) == others.iter().any(|o| hits(&b, o)), "collision", "");
    for o in &others {
        ensure!(b.intersects(o) == hits(&b, o) && o.intersects(&b) == hits(&b, o), "intersects", "{o:?}");
        let area = ((b.x + b.width).min(o.x + o.width) - b.x.max(o.x)).max(0.0) * ((b.y + b.height).min(o.y + o.height) - b.y.max(o.y)).max(0.0);
        ensure!(b.overlap_area(o) == area && o.overlap_area(&b) == area, "overlap", "{o:?}: {} want {area}", b.overlap_area(o));
    }
    ensure!(b.center() == (b.x + b.width / 2.0, b.y + b.height / 2.0), "centre", "{:?}", b.center());
    let e = b.expand(5.0);
    ensure!((e.x, e.y, e.width, e.height) == (b.x - 5.0, b.y - 5.0, b.width + 10.0, b.height + 10.0), "expand", "{e:?}");
    let fits = |y: f32| y >= bounds.y && y + b.height <= bounds.y + bounds.height && !others.iter().any(|o| hits(&Box2::new(b.x, y, b.width, b.height), o));
    match d.find_free_position(&b, &others, &bounds) {
        Some((x, y)) => {
            ensure!(x == b.x && fits(y), "free-position", "{x} {y}");
            ensure!(!fits(b.y) || y == b.y, "free-position-moved", "{y}, though {} is free", b.y);
            cx.obs("free_positions", 1);
        }
        None => ensure!(!fits(b.y), "free-position-missed", "{} is free", b.y),
    }

    // a box that was placed overlaps no earlier one of its layer while there is room
    let mut s = SmartCollisionResolver::new(800.0, 600.0);
    let thr = cx.rng.u(0, 100) as i32;
    s.set_priority_threshold(thr);
    let mut ev: Vec<PositionedEvent> = (0..cx.rng.u(0, 6))
        .map(|i| PositionedEvent { bbox: bx(&mut cx.rng), layer: cx.rng.below(2) as i32, margin_v: i as i32, margin_l: 0, margin_r: 0, alignment: cx.rng.u(1, 9) as u8, priority: cx.rng.below(100) as i32 })
        .collect();
    let old = ev.clone();
    s.process_events(&mut ev);
    ensure!(ev.windows(2).all(|w| w[0].priority >= w[1].priority) && ev.len() == old.len(), "priority", "{ev:?}");
    // by its own rules: the plain resolver, given the same events
    let mut plain = CollisionResolver::new(800.0, 600.0);
    for e in &ev {
        let Some(o) = old.iter().find(|o| o.margin_v == e.margin_v) else { return fail("priority", format!("{e:?}")) };
        if e.priority >= thr {
            let same = (e.bbox.x, e.bbox.y) == (o.bbox.x, o.bbox.y);
            ensure!(same, "fixed-moved", "{e:?} from {o:?}");
            plain.add_fixed(o.clone());
        } else {
            let w = plain.find_position(o.clone());
            ensure!((w.x, w.y) == (e.bbox.x, e.bbox.y), "smart", "{e:?} want {w:?}");
        }
        ensure!((e.bbox.width, e.bbox.height, e.bbox.x) == (o.bbox.width, o.bbox.height, o.bbox.x), "resized", "{e:?}");
    }
    ensure!(plain.positioned_events().len() == ev.len(), "placed", "");
    plain.clear();
    ensure!(plain.positioned_events().is_empty(), "placed", "");
    cx.state(&format!("{b:?}{others:?}"));
    Ok(())
}

// ---------------------------------------------------------------- set-up

fn setup(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = |r: &mut Rng| r.u(1, 4000) as u32;
    let (w, h, px, py, sx, sy) = (n(r), n(r), n(r), n(r), n(r), n(r));
    let mut c = RenderContext::with_font_database(w, h, Database::new());
    ensure!((c.width(), c.height(), c.playback_res_x(), c.playback_res_y(), c.storage_res_x(), c.storage_res_y()) == (w, h, w, h, w, h), "context", "");
    ensure!((c.scale_x(), c.scale_y(), c.render_scale_x(), c.render_scale_y()) == (1.0, 1.0, 1.0, 1.0), "context", "");
    c.set_playback_resolution(px, py);
    c.set_storage_resolution(sx, sy);
    c.set_frame_rate(25.0);
    c.set_pixel_aspect_ratio(1.25);
    cx.set_input(format!("{w}x{h} playback {px}x{py} storage {sx}x{sy}"));
    ensure!((c.playback_res_x(), c.playback_res_y(), c.storage_res_x(), c.storage_res_y()) == (px, py, sx, sy), "context", "");
    ensure!((c.frame_rate(), c.pixel_aspect_ratio()) == (25.0, 1.25) && c.font_database().is_empty(), "context", "");
    let q = |a: u32, b: u32| f64::from(a) / f64::from(b);
    for (g, want) in [(c.scale_x(), q(px, sx)), (c.scale_y(), q(py, sy)), (c.render_scale_x(), q(w, px)), (c.render_scale_y(), q(h, py))] {
        ensure!(near(g, want, want), "context-scale", "{g} want {want}");
    }
    c.set_playback_resolution(0, 0);
    c.set_storage_resolution(0, 0);
    ensure!(c.render_scale_x().is_finite() && c.render_scale_y().is_finite() && c.scale_x().is_finite() && c.scale_y().is_finite(), "context-zero", "");

    // backends
    let c = RenderContext::with_font_database(4, 4, Database::new());
    let p = BackendProber::default();
    ensure!(p.available_backends().contains(&BackendType::Software) && p.is_backend_available(BackendType::Software), "backends", "");
    ensure!(p.probe_best_backend(&c).is_ok_and(|b| p.is_backend_available(b.backend_type())), "backends", "");
    let mut prefer = vec![BackendType::Gpu, BackendType::Software];
    cx.rng.shuffle(&mut prefer);
    prefer.truncate(cx.rng.below(3));
    let p = BackendProber::with_preference(prefer.clone());
    let on: Vec<BackendType> = prefer.iter().copied().filter(|b| p.is_backend_available(*b)).collect();
    ensure!(p.available_backends() == on, "backends", "{prefer:?}");
    if on.is_empty() || on[0] == BackendType::Software {
        let got = p.probe_best_backend(&c).ok().map(|b| b.backend_type());
        ensure!(got == on.first().copied(), "backends", "{prefer:?} gives {got:?}");
    }
    cx.obs("setups", 1);
    cx.state(&(w, px, sx));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "R15",
        rule: "a distinct set of tracks, position, tagged text, transform, atlas history, limit, set of boxes or set-up",
        assumptions: &["where centred text with unequal margins stands, and the widths of a MultiLineLayout, are left open"],
        monitors: vec![
            mon("tracks", 200_000, 2_000_000, tracks),
            mon("places", 200_000, 2_000_000, places),
            mon("tags", 200_000, 2_000_000, tags),
            mon("maths", 100_000, 1_000_000, maths),
            mon("stores", 100_000, 1_000_000, stores),
            mon("limits", 200_000, 2_000_000, limits),
            mon("boxes", 100_000, 1_000_000, boxes),
            mon("setup", 50_000, 500_000, setup),
        ],
        must_observe: &["track_values", "positions", "tags_read", "transforms", "atlas_regions", "limits", "free_positions", "setups"],
    }]
}
