//! C11 style resolution, C12 linting and whole-script analysis.
use crate::events::{dialogue, read_text, scores};
use ass_core::analysis::linting::{lint_script, IssueCategory, IssueSeverity, LintConfig};
use ass_core::analysis::linting::rules::BuiltinRules;
use ass_core::analysis::styles::{ConflictType, ResolvedStyle, StyleAnalyzer};
use ass_core::analysis::ScriptAnalysis;
use ass_core::parser::ast::Section;
use ass_core::parser::{Script, Style};
use ass_core::utils::{parse_ass_time, parse_bgr_color};
use hcommon::{ensure, fail, gen, mon, Cx, Property, Rng, R};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
struct M {
    font: String,
    size: f32,
    col: [[u8; 4]; 4],
    flags: [bool; 4],
    sx: f32,
    sy: f32,
    spacing: f32,
    angle: f32,
    outline: f32,
    shadow: f32,
    /// l r t b
    m: [u16; 4],
}

fn fnum(s: &str) -> Option<f32> {
    s.parse().ok()
}
fn size(s: &str) -> Option<f32> {
    fnum(s).filter(|v| *v > 0.0 && *v <= 1000.0)
}
fn pct(s: &str) -> Option<f32> {
    fnum(s).filter(|v| *v >= 0.0 && *v <= 1000.0)
}
fn colour(s: &str) -> Option<[u8; 4]> {
    if s.trim().is_empty() {
        Some([255; 4])
    } else {
        parse_bgr_color(s).ok()
    }
}
fn flag(s: &str) -> Option<bool> {
    match s {
        "0" => Some(false),
        "1" => Some(true),
        _ => None,
    }
}

/// A style on its own; None if a value is unusable.
fn alone(s: &Style) -> Option<M> {
    let v = |a: &str| a.parse::<u16>().ok();
    let b = |a: &str| a.parse::<u8>().ok();
    b(s.border_style)?;
    b(s.alignment)?;
    b(s.encoding)?;
    let (t, bt) = match (s.margin_t, s.margin_b) {
        (Some(t), Some(b)) => (v(t)?, v(b)?),
        _ => (v(s.margin_v)?, v(s.margin_v)?),
    };
    Some(M {
        font: if s.fontname.is_empty() { "Arial".into() } else { s.fontname.into() },
        size: size(s.fontsize)?,
        col: [colour(s.primary_colour)?, colour(s.secondary_colour)?, colour(s.outline_colour)?, colour(s.back_colour)?],
        flags: [flag(s.bold)?, flag(s.italic)?, flag(s.underline)?, flag(s.strikeout)?],
        sx: pct(s.scale_x)?,
        sy: pct(s.scale_y)?,
        spacing: fnum(s.spacing)?,
        angle: fnum(s.angle)?,
        outline: fnum(s.outline)?,
        shadow: fnum(s.shadow)?,
        m: [v(s.margin_l)?, v(s.margin_r)?, t, bt],
    })
}

/// A style over its parent: empty (and default-looking) values are taken from the parent.
fn over(s: &Style, p: &M) -> Option<M> {
    let mut m = p.clone();
    if !s.fontname.is_empty() {
        m.font = s.fontname.into();
    }
    if !matches!(s.fontsize, "" | "0") {
        m.size = size(s.fontsize)?;
    }
    for (i, c) in [s.primary_colour, s.secondary_colour, s.outline_colour, s.back_colour].iter().enumerate() {
        if !c.is_empty() {
            m.col[i] = colour(c)?;
        }
    }
    for (i, c) in [s.bold, s.italic, s.underline, s.strikeout].iter().enumerate() {
        if let Some(f) = flag(c) {
            m.flags[i] = f;
        }
    }
    if !matches!(s.scale_x, "" | "100") {
        m.sx = pct(s.scale_x)?;
    }
    if !matches!(s.scale_y, "" | "100") {
        m.sy = pct(s.scale_y)?;
    }
    for (d, v) in [(&mut m.spacing, s.spacing), (&mut m.angle, s.angle), (&mut m.outline, s.outline), (&mut m.shadow, s.shadow)] {
        if !matches!(v, "" | "0") {
            *d = fnum(v)?;
        }
    }
    for v in [s.border_style, s.alignment, s.encoding] {
        if !v.is_empty() {
            v.parse::<u8>().ok()?;
        }
    }
    for (i, v) in [s.margin_l, s.margin_r].iter().enumerate() {
        if !v.is_empty() {
            m.m[i] = v.parse().ok()?;
        }
    }
    match (s.margin_t, s.margin_b) {
        (Some(t), Some(b)) => {
            if !t.is_empty() {
                m.m[2] = t.parse().ok()?;
            }
            if !b.is_empty() {
                m.m[3] = b.parse().ok()?;
            }
        }
        _ if !matches!(s.margin_v, "" | "0") => {
            let v = s.margin_v.parse().ok()?;
            m.m[2] = v;
            m.m[3] = v;
        }
        _ => {}
    }
    Some(m)
}

fn near(a: f32, b: f64) -> bool {
    let a = f64::from(a);
    (a == b) || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-4 * b.abs().max(1e-3)
}
fn margin_ok(got: u16, want: f64) -> bool {
    if want.is_nan() {
        return got == 0;
    }
    let lo = (want - 1e-3 - want.abs() * 1e-5).clamp(0.0, 65535.0) as u16;
    let hi = (want + 1e-3 + want.abs() * 1e-5).clamp(0.0, 65535.0) as u16;
    (lo..=hi).contains(&got)
}

fn check_style(g: &ResolvedStyle, m: &M, scale: Option<(f64, f64)>) -> R {
    let (x, y) = scale.unwrap_or((1.0, 1.0));
    let a = (x + y) / 2.0;
    ensure!(g.font_name() == m.font, "font-name", "{:?} want {:?}", g.font_name(), m.font);
    let pairs = [
        ("font size", g.font_size(), f64::from(m.size) * a),
        ("spacing", g.spacing(), f64::from(m.spacing) * x),
        ("angle", g.angle(), f64::from(m.angle)),
        ("outline", g.outline(), f64::from(m.outline) * a),
        ("shadow", g.shadow(), f64::from(m.shadow) * a),
    ];
    for (n, got, want) in pairs {
        ensure!(near(got, want) || !want.is_finite() || want.abs() > 1e30 || f64::from(got) == want, "value", "{}: {n} {got} want {want}", g.name);
    }
    ensure!([g.primary_color(), g.secondary_color(), g.outline_color()] == m.col[..3], "colour", "{}: {:?} {:?} {:?} want {:?}", g.name, g.primary_color(), g.secondary_color(), g.outline_color(), m.col);
    ensure!([g.is_bold(), g.is_italic(), g.is_underline(), g.is_strike_out()] == m.flags, "flags", "{}: {:?} want {:?}", g.name, g.formatting(), m.flags);
    for (i, got) in [g.margin_l(), g.margin_r(), g.margin_t(), g.margin_b()].into_iter().enumerate() {
        let want = f64::from(m.m[i]) * if i < 2 { x } else { y };
        ensure!(margin_ok(got, want), "margin", "{}: margin {i} is {got} want {want}", g.name);
    }
    // cost classes of the (scaled) style
    let mut s = 0;
    let fs = f64::from(g.font_size());
    s += if fs > 72.0 { 20 } else if fs > 48.0 { 10 } else { 0 };
    s += if g.outline() > 4.0 { 15 } else if g.outline() > 2.0 { 8 } else { 0 };
    s += if g.shadow() > 3.0 { 10 } else if g.shadow() > 1.0 { 5 } else { 0 };
    if (m.sx - 100.0).abs() > 0.001 || (m.sy - 100.0).abs() > 0.001 {
        s += 10;
    }
    if g.angle().abs() > 0.001 {
        s += 15;
    }
    s += 2 * u8::from(m.flags[0]) + 2 * u8::from(m.flags[1]) + 5 * u8::from(m.flags[2] || m.flags[3]);
    ensure!(g.complexity_score() == s && g.has_performance_issues() == (s > 70), "style-complexity", "{}: {} want {s}", g.name, g.complexity_score());
    Ok(())
}

fn style_value(r: &mut Rng, c: &str, inherit: bool) -> String {
    if inherit && r.pct(45) {
        return String::new();
    }
    if r.pct(2) {
        return (*r.pick(&["x", "-1", "70000", "1e9", "NaN", "256", " 1", "1.5", "inf", "2", "&HXX&", "1001"])).to_string();
    }
    match c {
        "Fontname" => (*r.pick(&["Arial", "DejaVu Sans", "日本", "", "F"])).into(),
        "Fontsize" => (*r.pick(&["20", "48", "72", "73", "12.5", "49", "0", "1000", "7"])).into(),
        x if x.ends_with("Colour") => if r.pct(8) { String::new() } else { format!("&H{:08X}", r.u64() as u32) },
        "Bold" | "Italic" | "Underline" | "StrikeOut" => (*r.pick(&["0", "1"])).into(),
        "ScaleX" | "ScaleY" => (*r.pick(&["100", "100", "50", "33.3", "200", "0"])).into(),
        "Spacing" | "Angle" => (*r.pick(&["0", "0", "1.5", "-3", "45"])).into(),
        "BorderStyle" => (*r.pick(&["1", "3", "4"])).into(),
        "Outline" | "Shadow" => (*r.pick(&["0", "1", "2", "2.5", "3", "4", "4.5"])).into(),
        "Alignment" => format!("{}", r.u(1, 9)),
        "Encoding" => (*r.pick(&["0", "1", "128"])).into(),
        _ => format!("{}", r.below(300)),
    }
}

const NAMES: [&str; 8] = ["Default", "A", "B", "C", "Ünï", "Sign 2", "d", "Z"];

fn resolve(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut t = String::from("[Script Info]\nTitle: x\n");
    let res = |r: &mut Rng| *r.pick(&["640", "1280", "1920", "480", "720", "1080", "1", "333", "10000"]);
    let mode = r.below(4);
    let mut scale = None;
    if mode > 0 {
        let (px, py, lx, ly) = (res(r), res(r), res(r), res(r));
        if mode > 1 || r.bool() {
            t += &format!("PlayResX: {px}\nPlayResY: {py}\n");
        }
        if mode == 1 && r.bool() || mode == 3 {
            t += &format!("LayoutResX: {lx}\nLayoutResY: {ly}\n");
        }
        if t.contains("PlayResX") && t.contains("LayoutResX") && (px != lx || py != ly) {
            let f = |a: &str, b: &str| a.parse::<f64>().unwrap() / b.parse::<f64>().unwrap();
            scale = Some((f(px, lx), f(py, ly)));
        }
    }
    let tb = r.pct(25);
    t += "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, ";
    let mut cols: Vec<&str> = gen::STYLE_COLS[..21].to_vec();
    if tb {
        cols.extend(["MarginT", "MarginB", "Encoding"]);
        t += "MarginT, MarginB, Encoding\n";
    } else {
        cols.extend(["MarginV", "Encoding"]);
        t += "MarginV, Encoding\n";
    }
    let n = r.below(9);
    let names: Vec<&str> = {
        let mut v = NAMES.to_vec();
        if !r.pct(25) {
            r.shuffle(&mut v);
        } else {
            // duplicates
            v = (0..8).map(|_| *r.pick(&NAMES[..4])).collect();
        }
        v
    };
    let cyc = r.pct(12);
    for i in 0..n.min(8) {
        t += "Style: ";
        let parent = if r.pct(60) {
            if r.pct(6) {
                Some("Nobody".to_string())
            } else if cyc {
                Some(names[r.below(n.min(8))].to_string())
            } else if i + 1 < n.min(8) {
                // a forest: parents lie later or earlier in the file depending on a permutation of names
                let k = r.u(i + 1, n.min(8) - 1);
                Some(names[k].to_string())
            } else {
                None
            }
        } else {
            None
        };
        if let Some(p) = &parent {
            t += &format!("*{p},");
        }
        let vals: Vec<String> = cols.iter().map(|c| if *c == "Name" { names[i].to_string() } else { style_value(r, c, parent.is_some()) }).collect();
        t += &vals.join(",");
        t.push('\n');
    }
    if r.pct(10) {
        t += "\n[V4+ Styles]\nStyle: Late,Arial,20,,,,,0,0,0,0,100,100,0,0,1,0,0,2,0,0,0,1\n";
    }
    // declaration order independent of the dependency order
    if r.bool() {
        let (head, tail) = t.split_at(t.find("Encoding\n").unwrap() + 9);
        let (body, rest) = tail.split_at(tail.find("\n[").unwrap_or(tail.len()));
        let mut l: Vec<&str> = body.lines().collect();
        l.reverse();
        let mut body = l.join("\n");
        body.push('\n');
        t = format!("{head}{body}{rest}");
    }
    cx.set_input(t.clone());
    let script = match Script::parse(&t) {
        Ok(s) => s,
        Err(e) => return fail("parse-error", format!("{e}")),
    };
    let Some(Section::Styles(styles)) = script.sections().iter().find(|s| matches!(s, Section::Styles(_))) else {
        cx.mark_trivial();
        return Ok(());
    };
    let a = StyleAnalyzer::new(&script);
    let last: BTreeMap<&str, &Style> = styles.iter().map(|s| (s.name, s)).collect();
    // parents of every definition of a name
    let mut deps: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    let mut missing = vec![];
    for s in styles {
        let e = deps.entry(s.name).or_default();
        if let Some(p) = s.parent {
            if last.contains_key(p) {
                e.insert(p);
            } else {
                missing.push((s.name, p));
            }
        }
    }
    // peel names without pending parents; what stays is cyclic
    let mut left: BTreeSet<&str> = last.keys().copied().collect();
    let mut order = vec![];
    loop {
        let free: Vec<&str> = left.iter().copied().filter(|n| deps[n].iter().all(|p| !left.contains(p))).collect();
        if free.is_empty() {
            break;
        }
        for f in free {
            left.remove(f);
            order.push(f);
        }
    }
    let cyclic = !left.is_empty();
    let mut want: BTreeMap<&str, M> = BTreeMap::new();
    if cyclic {
        for s in styles {
            if let Some(m) = alone(s) {
                want.insert(s.name, m);
            }
        }
        cx.obs("cycles", 1);
    } else {
        for n in &order {
            let s = last[n];
            let m = match s.parent.and_then(|p| want.get(p)) {
                Some(p) => {
                    cx.obs("inherited", 1);
                    over(s, p)
                }
                None => alone(s),
            };
            if let Some(m) = m {
                want.insert(s.name, m);
            }
        }
    }
    let got: Vec<&str> = a.resolved_styles().keys().copied().collect();
    let w: Vec<&str> = want.keys().copied().collect();
    ensure!(got == w, "resolved-set", "resolved {got:?} want {w:?} (cyclic: {cyclic})");
    for (n, m) in &want {
        let g = a.resolve_style(n).unwrap();
        ensure!(g.name == *n, "resolved-name", "{} under {n}", g.name);
        check_style(g, m, scale)?;
        cx.obs("resolved", 1);
    }
    cx.obs("unresolved", (last.len() - want.len()) as u64);
    if scale.is_some() {
        cx.obs("scaled", 1);
    }
    ensure!(a.resolve_style("no such style").is_none(), "resolve-unknown", "");
    // conflicts
    let count = |t: ConflictType| a.conflicts().iter().filter(|c| c.conflict_type == t).count();
    ensure!(count(ConflictType::CircularInheritance) == usize::from(cyclic), "conflict-circular", "{:?}", a.conflicts());
    let mr: Vec<(&str, bool)> = a.conflicts().iter().filter(|c| c.conflict_type == ConflictType::MissingReference).map(|c| (c.styles[0], true)).collect();
    ensure!(mr.iter().map(|x| x.0).collect::<Vec<_>>() == missing.iter().map(|x| x.0).collect::<Vec<_>>(), "conflict-missing", "{mr:?} want {missing:?}");
    let mut dup: BTreeMap<&str, usize> = BTreeMap::new();
    for s in styles {
        *dup.entry(s.name).or_default() += 1;
    }
    let wd: BTreeMap<&str, usize> = dup.into_iter().filter(|x| x.1 > 1).collect();
    let gd: BTreeMap<&str, usize> = a.conflicts().iter().filter(|c| c.conflict_type == ConflictType::DuplicateName).map(|c| (c.styles[0], c.styles.len())).collect();
    ensure!(gd == wd && count(ConflictType::DuplicateName) == wd.len(), "conflict-duplicate", "{gd:?} want {wd:?}");
    cx.obs("duplicates", wd.len() as u64);
    cx.obs("missing_parents", missing.len() as u64);
    // inheritance table: the last definition's parent, where both exist
    for (n, s) in &last {
        if let Some(i) = a.inheritance_info().get(n) {
            if let Some(p) = s.parent.filter(|p| last.contains_key(p)) {
                ensure!(i.parents == [p], "inheritance-info", "{n}: {:?} want {p}", i.parents);
            }
            ensure!(i.is_root() == i.parents.is_empty(), "inheritance-root", "{n}");
        } else {
            ensure!(s.parent.is_some_and(|p| !last.contains_key(p)), "inheritance-info", "{n} has no entry");
        }
    }
    // validation follows the resolved values
    let v = a.validate_styles();
    let large = a.resolved_styles().values().filter(|s| s.font_size() > 50.0).count();
    ensure!(v.iter().filter(|i| i.message.contains("Large font")).count() == large, "validate-large", "{v:?} want {large}");
    let heavy = a.resolved_styles().values().filter(|s| s.complexity_score() > 70).count();
    ensure!(v.iter().filter(|i| i.field == "complexity").count() == heavy, "validate-complexity", "{v:?} want {heavy}");
    let sa = match ScriptAnalysis::analyze(&script) {
        Ok(s) => s,
        Err(e) => return fail("analyze", format!("{e}")),
    };
    let names: BTreeSet<&str> = sa.resolved_styles().iter().map(|s| s.name).collect();
    ensure!(names.iter().copied().eq(want.keys().copied()) && sa.resolved_styles().len() == want.len(), "analysis-styles", "{names:?}");
    for (n, m) in &want {
        check_style(sa.resolve_style(n).unwrap(), m, scale)?;
    }
    cx.state(&t);
    Ok(())
}

// ---- C12 ----
fn lint_text(r: &mut Rng) -> String {
    match r.below(9) {
        0 => format!("{{\\c&H{}&}}x", r.pick(&["FFFFFF", "12345678", "GGG", "", "12", "FFFFFG", "é"])),
        1 => format!("{{\\{}c&H{}&\\t(\\c&H{}&)}}x", r.u(1, 5), r.pick(&["FFFFFF", "12345678", "XYZ", "1"]), r.pick(&["00FF00", "zz"])),
        2 => format!("a{}b", r.pick(&["\u{0}", "\u{7f}", "\u{FFFD}", "\u{85}", "\t", "\u{200b}", "\u{1b}[0m"])),
        3 => "😀".repeat(r.below(5)),
        4 => "x".repeat(*r.pick(&[9usize, 10, 11, 19, 20, 21, 200, 201, 500, 501])),
        5 => format!("{{{}}}x", "\\b1".repeat(*r.pick(&[1usize, 19, 20, 21, 40]))),
        6 => "{}".repeat(r.below(3)) + "{\\}",
        _ => dialogue(r).replace(['\n', '\r'], " "),
    }
}

type Row = (String, IssueSeverity, IssueCategory, String);

fn lint(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut t = String::from("[Script Info]\nTitle: x\n");
    for _ in 0..r.below(3) {
        t += &format!("Key{}: v{}w\n", r.below(5), r.pick(&["", "\u{1}", "\t", "é", "\u{7f}", "\u{9b}"]));
    }
    let styles = r.u(0, 4);
    if r.pct(90) {
        t += "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n";
        for i in 0..styles {
            let c: Vec<String> = (0..4).map(|_| (*r.pick(&["&H00FFFFFF", "&HFFFFFF&", "", "&HZZ&", "FFFFFF", "&H123&"])).to_string()).collect();
            t += &format!("Style: {},Arial,{},{},0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n", NAMES[i], r.pick(&["20", "80", "bad"]), c.join(","));
        }
        if r.pct(15) {
            t += "\n[V4+ Styles]\nStyle: Z,Arial,20,,,,,0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n";
        }
    }
    let many = r.pct(1);
    let n = if many { r.u(998, 1004) } else { r.below(8) };
    if r.pct(95) {
        t += "\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
        for i in 0..n {
            let a = if many { i as u32 * 100 } else { r.below(400) as u32 };
            let d = *r.pick(&[0u32, 1, 49, 50, 51, 100, 99, 500]);
            let (mut s, mut e) = (gen::time_str(a), gen::time_str(a + if many { 99 } else { d }));
            if r.pct(5) && !many {
                std::mem::swap(&mut s, &mut e);
            }
            if r.pct(2) && !many {
                e = "bad".into();
            }
            let txt = if many { "x".to_string() } else { lint_text(r) };
            t += &format!("{}: 0,{s},{e},{},,0,0,0,,{txt}\n", r.pick(&["Dialogue", "Dialogue", "Comment"]), r.pick(&NAMES[..5]));
        }
        if r.pct(10) {
            t += "\n[Events]\nDialogue: 0,0:00:00.00,0:00:00.00,Nope,,0,0,0,,second section\n";
        }
    }
    cx.set_input(if many { format!("{n} events") } else { t.clone() });
    let script = match Script::parse(&t) {
        Ok(s) => s,
        Err(e) => return fail("parse-error", format!("{e}")),
    };
    let rows = |v: &[ass_core::analysis::LintIssue]| -> Vec<Row> { v.iter().map(|i| (i.rule_id().to_string(), i.severity(), i.category(), i.message().to_string())).collect() };
    let full = match lint_script(&script, &LintConfig::default()) {
        Ok(v) => rows(&v),
        Err(e) => return fail("lint-error", format!("{e}")),
    };
    // expected findings
    let evs: &[ass_core::parser::Event] = script.sections().iter().find_map(|s| if let Section::Events(e) = s { Some(&e[..]) } else { None }).unwrap_or(&[]);
    let has_events = script.sections().iter().any(|s| matches!(s, Section::Events(_)));
    let mut want: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let mut add = |k: &'static str, s: String| want.entry(k).or_default().push(s);
    let times: Vec<Option<(u32, u32)>> = evs.iter().map(|e| Some((parse_ass_time(e.start).ok()?, parse_ass_time(e.end).ok()?))).collect();
    if times.iter().any(Option::is_none) && evs.len() > 1 {
        add("timing-overlap", String::new());
    } else if !many {
        for i in 0..evs.len() {
            for j in i + 1..evs.len() {
                if let (Some(a), Some(b)) = (times[i], times[j]) {
                    if a.0 < a.1 && b.0 < b.1 && a.0.max(b.0) < a.1.min(b.1) {
                        add("timing-overlap", String::new());
                    }
                }
            }
        }
    }
    let defined: BTreeSet<&str> = script.sections().iter().flat_map(|s| if let Section::Styles(v) = s { v.iter().map(|s| s.name).collect() } else { vec![] }).collect();
    if let Some(Section::Styles(v)) = script.sections().iter().find(|s| matches!(s, Section::Styles(_))) {
        for s in v {
            for c in [s.primary_colour, s.secondary_colour, s.outline_colour, s.back_colour] {
                if parse_bgr_color(c).is_err() {
                    add("invalid-color", c.into());
                }
            }
        }
    }
    let mut infos = 0;
    let mut anim = 0;
    for (e, tm) in evs.iter().zip(&times) {
        if !defined.contains(e.style) {
            add("missing-style", e.style.into());
        }
        let m = read_text(e.text);
        if let Some((a, b)) = tm {
            if a >= b {
                add("negative-duration", e.start.into());
            }
            if b >= a && (b - a) < 50 {
                add("accessibility", format!("{}ms", (b - a) * 10));
            }
            if b > a && !m.too_deep {
                let cs = m.plain.chars().count() + usize::from(m.dangling) * 0;
                if cs as f64 / (f64::from(b - a) / 100.0) > 20.0 {
                    add("accessibility", String::new());
                }
                infos += 1;
                if scores(&m).0 > 3 {
                    anim += 1;
                }
                if cs > 500 {
                    add("performance", format!("{cs}"));
                }
                if m.tags.len() > 20 {
                    add("performance", format!("{}", m.tags.len()));
                }
            }
        }
        if !m.too_deep {
            if m.plain.chars().count() > 200 {
                add("accessibility", format!("{}", m.plain.chars().count()));
            }
            for _ in &m.diags {
                add("invalid-tag", String::new());
            }
            for tag in &m.tags {
                for part in format!("{}{}", tag.name, tag.args).split('\\') {
                    let body = part.strip_prefix("c&H").or_else(|| part.strip_prefix("c&h")).or_else(|| part.get(1..).filter(|_| b"1234".contains(&part.as_bytes()[0])).and_then(|p| p.strip_prefix("c&H")));
                    if let Some((v, _)) = body.and_then(|b| b.split_once('&')) {
                        if parse_bgr_color(&format!("&H{v}&")).is_err() {
                            add("invalid-color", v.into());
                        }
                    }
                }
            }
        }
        if e.text.chars().any(|c| c.is_control() && !matches!(c, '\n' | '\r' | '\t')) {
            add("encoding", "control".into());
        }
        if e.text.contains('\u{fffd}') {
            add("encoding", "replacement".into());
        }
        if !e.text.is_empty() && e.text.len() > 3 * e.text.chars().count() {
            add("encoding", "multi-byte".into());
        }
    }
    if infos > 1000 {
        add("performance", format!("{infos}"));
        cx.obs("large_scripts", 1);
    }
    if let Some(Section::ScriptInfo(i)) = script.sections().iter().find(|s| matches!(s, Section::ScriptInfo(_))) {
        for (k, v) in &i.fields {
            if v.chars().any(|c| c.is_control() && c != '\n' && c != '\r') {
                add("encoding", (*k).into());
            }
        }
    }
    let dangling = evs.iter().any(|e| read_text(e.text).dangling);
    for id in BuiltinRules::all_rule_ids() {
        let g: Vec<&Row> = full.iter().filter(|r| r.0 == id).collect();
        let w = want.get(id).cloned().unwrap_or_default();
        if !dangling || !matches!(id, "accessibility" | "performance") {
            ensure!(g.len() == w.len(), "findings", "rule {id}: {} findings {g:?}\nwant {}: {w:?}", g.len(), w.len());
            // what is reported names what is wrong, whatever the order
            let mut free: Vec<&Row> = g.clone();
            let mut keys = w.clone();
            keys.sort_by_key(|k| std::cmp::Reverse(k.len()));
            for k in &keys {
                match free.iter().position(|x| x.3.contains(k.as_str())) {
                    Some(p) => {
                        free.remove(p);
                    }
                    None => return fail("finding-text", format!("rule {id}: nothing reported about {k:?}: {g:?}")),
                }
            }
        }
        for x in &g {
            let rule = BuiltinRules::rule_by_id(id).unwrap();
            ensure!(x.2 == rule.category(), "finding-category", "{x:?}");
            let exp = if x.3.contains("multi-byte") { IssueSeverity::Hint } else { rule.default_severity() };
            ensure!(x.1 == exp, "finding-severity", "{x:?}");
        }
        cx.obs(id, g.len() as u64);
    }
    let _ = has_events;
    ensure!(full.iter().all(|r| BuiltinRules::all_rule_ids().contains(&r.0.as_str())), "rule-ids", "{full:?}");
    // configuration: a selection of the full list
    for _ in 0..4 {
        let r = &mut cx.rng;
        let ids = BuiltinRules::all_rule_ids();
        let mut c = LintConfig::default();
        let sev = *r.pick(&[IssueSeverity::Info, IssueSeverity::Hint, IssueSeverity::Warning, IssueSeverity::Error, IssueSeverity::Critical]);
        c = c.with_min_severity(sev).with_strict_compliance(r.bool());
        for id in &ids {
            if r.pct(20) {
                c.enabled_rules.push(id);
            }
            if r.pct(15) {
                c.disabled_rules.push(id);
            }
        }
        let max = if r.bool() { 0 } else { r.u(1, full.len() + 2) };
        c = c.with_max_issues(max);
        let mut w: Vec<Row> = full
            .iter()
            .filter(|i| !c.disabled_rules.contains(&i.0.as_str()) && (c.enabled_rules.is_empty() || c.enabled_rules.contains(&i.0.as_str())))
            .filter(|i| i.1 >= sev)
            .cloned()
            .collect();
        if max > 0 {
            w.truncate(max);
        }
        let g = match lint_script(&script, &c) {
            Ok(v) => rows(&v),
            Err(e) => return fail("lint-error", format!("{e}")),
        };
        ensure!(g == w, "config", "with {c:?}: {g:?}\nwant {w:?}");
        for id in &ids {
            ensure!(c.is_rule_enabled(id) == (!c.disabled_rules.contains(id) && (c.enabled_rules.is_empty() || c.enabled_rules.contains(id))), "rule-enabled", "{id} {c:?}");
        }
        cx.obs("configurations", 1);
    }
    ensure!(IssueSeverity::Info < IssueSeverity::Hint && IssueSeverity::Hint < IssueSeverity::Warning && IssueSeverity::Warning < IssueSeverity::Error && IssueSeverity::Error < IssueSeverity::Critical, "severity-order", "");
    // whole-script analysis
    let a = match ScriptAnalysis::analyze(&script) {
        Ok(a) => a,
        Err(e) => return fail("analyze", format!("{e}")),
    };
    ensure!(rows(a.lint_issues()) == full, "analysis-issues", "analysis reports {:?}\nlinting {full:?}", rows(a.lint_issues()));
    ensure!(a.dialogue_info().len() == infos, "analysis-infos", "{} want {infos}", a.dialogue_info().len());
    ensure!(a.has_critical_issues() == full.iter().any(|i| i.1 == IssueSeverity::Critical), "critical", "");
    if !many {
        let s = a.performance_summary();
        let ov = {
            let v: Vec<(u32, u32)> = a.dialogue_info().iter().map(|d| (d.start_time_cs(), d.end_time_cs())).collect();
            (0..v.len()).map(|i| (i + 1..v.len()).filter(|&j| v[i].0.max(v[j].0) < v[i].1.min(v[j].1)).count()).sum::<usize>()
        };
        let lf = a.resolved_styles().iter().filter(|s| s.font_size() > 72.0).count();
        ensure!((s.total_events, s.overlapping_events, s.large_fonts) == (infos, ov, lf), "summary", "{s:?} want {infos} {ov} {lf}");
        if !dangling {
            ensure!(s.complex_animations == anim, "summary-animations", "{s:?} want {anim}");
        }
        let mut score = 100;
        score -= if ov > 50 { 15 } else if ov > 20 { 8 } else { 0 };
        score -= if s.complex_animations > 100 { 10 } else if s.complex_animations > 50 { 5 } else { 0 };
        ensure!(s.performance_score == score && s.has_performance_issues() == (score < 80), "summary-score", "{s:?} want {score}");
        cx.state(&t);
    }
    Ok(())
}

/// Whole-script summary, with counts on either side of every threshold.
fn summary(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let near = |r: &mut Rng, v: &[usize]| {
        let t = *r.pick(v);
        (t + r.below(3)).saturating_sub(1)
    };
    let events = near(r, &[1, 500, 500, 1000]);
    let overlaps = near(r, &[1, 10, 20, 50]).min(events / 2);
    let anims = near(r, &[1, 20, 50, 100]).min(events);
    let fonts = near(r, &[1, 5, 10]);
    let mut t = String::from("[Script Info]\nTitle: x\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n");
    for i in 0..fonts {
        t += &format!("Style: L{i},Arial,{},&H00FFFFFF,&H00FFFFFF,&H00000000,&H00000000,0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n", r.pick(&["73", "72.5", "200"]));
    }
    for i in 0..r.below(4) {
        t += &format!("Style: S{i},Arial,{},&H00FFFFFF,&H00FFFFFF,&H00000000,&H00000000,0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n", r.pick(&["72", "71", "10"]));
    }
    t += "\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
    let busy = "{\\move(0,0,9,9)\\t(0,100,\\fscx200)\\t(0,100,\\frz9)\\fad(1,1)}x";
    let quiet = "{\\b1}x";
    ensure!(scores(&read_text(busy)).0 > 3 && scores(&read_text(quiet)).0 <= 3, "model", "");
    // pairs (2i, 2i+1) overlap for the first `overlaps` pairs; every event has its own second
    let mut lines: Vec<String> = (0..events)
        .map(|i| {
            let (a, b) = if i % 2 == 1 && i / 2 < overlaps { (i * 100 - 1, i * 100 + 60) } else { (i * 100, i * 100 + 100) };
            format!("Dialogue: 0,{},{},L0,,0,0,0,,{}\n", gen::time_str(a as u32), gen::time_str(b as u32), if i < anims { busy } else { quiet })
        })
        .collect();
    for i in (1..lines.len()).rev() {
        if r.bool() {
            lines.swap(i, r.below(i + 1));
        }
    }
    t += &lines.concat();
    cx.set_input(format!("{events} events, {overlaps} overlapping pairs, {anims} busy, {fonts} large fonts"));
    let script = match Script::parse(&t) {
        Ok(s) => s,
        Err(e) => return fail("parse-error", format!("{e}")),
    };
    let a = match ScriptAnalysis::analyze(&script) {
        Ok(a) => a,
        Err(e) => return fail("analyze", format!("{e}")),
    };
    let s = a.performance_summary();
    ensure!((s.total_events, s.overlapping_events, s.complex_animations, s.large_fonts) == (events, overlaps, anims, fonts), "summary", "{s:?}");
    let mut score = 100;
    score -= if events > 1000 { 20 } else if events > 500 { 10 } else { 0 };
    score -= if overlaps > 50 { 15 } else if overlaps > 20 { 8 } else { 0 };
    score -= if anims > 100 { 10 } else if anims > 50 { 5 } else { 0 };
    score -= if fonts > 10 { 5 } else { 0 };
    ensure!(s.performance_score == score, "summary-score", "{s:?}: want {score}");
    ensure!(s.has_performance_issues() == (score < 80), "summary-issues", "{s:?}");
    let (o, an, f, n) = (overlaps > 10, anims > 20, fonts > 5, events > 1000);
    let w = if o { Some("overlap") } else if an { Some("animation") } else if f { Some("font") } else if n { Some("large script") } else { None };
    let g = s.recommendation().map(str::to_lowercase);
    ensure!(g.is_some() == w.is_some() && w.is_none_or(|w| g.as_ref().is_some_and(|g| g.contains(w))), "recommendation", "{s:?} {g:?} want {w:?}");
    cx.obs("summaries", 1);
    cx.state(&(events, overlaps, anims, fonts));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C11",
            rule: "a distinct case is a distinct styles section (values, parents, resolution) whose every resolved style was compared with the reference resolution",
            assumptions: &["Flags are 0 or 1: an existing test fixes that -1 is not accepted as a resolved flag.", "When styles form a cycle no style inherits."],
            monitors: vec![mon("resolve", 800_000, 4_000_000, resolve)],
            must_observe: &["resolved", "inherited", "cycles", "scaled", "duplicates", "missing_parents", "unresolved"],
        },
        Property {
            id: "C12",
            rule: "a distinct case is a distinct script whose findings (per rule) and their selection under random configurations were compared with the reference",
            assumptions: &["Only the first events section and, for colours, the first styles section are linted."],
            monitors: vec![mon("lint", 400_000, 2_000_000, lint), mon("summary", 1_500, 40_000, summary)],
            must_observe: &["timing-overlap", "negative-duration", "invalid-color", "missing-style", "invalid-tag", "performance", "encoding", "accessibility", "large_scripts", "configurations", "summaries"],
        },
    ]
}
