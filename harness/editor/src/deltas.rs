//! E15 script deltas, E16 builders.
use crate::doc::{pos, rng};
use ass_core::parser::ast::{Event, EventType, Section, SectionType, Span, Style};
use ass_core::parser::script::ScriptDeltaOwned;
use ass_core::{Script, ScriptVersion};
use ass_editor::core::incremental::IncrementalParser;
use ass_editor::{EditorDocument, EventBuilder, StyleBuilder};
use hcommon::gen::{self, Opts};
use hcommon::*;

type Sec = (SectionType, Vec<String>);
/// What a section says, wherever it stands.
fn says(s: &Section) -> Sec {
    let z = Span::new(0, 0, 0, 0);
    let items = match s {
        Section::ScriptInfo(i) => i.fields.iter().map(|(k, v)| format!("{k}={v}")).collect(),
        Section::Styles(v) => v.iter().map(|x| format!("{:?}", Style { span: z, ..x.clone() })).collect(),
        Section::Events(v) => v.iter().map(|x| format!("{:?}", Event { span: z, ..x.clone() })).collect(),
        Section::Fonts(v) => v.iter().map(|x| format!("{:?} {:?}", x.filename, x.data_lines)).collect(),
        Section::Graphics(v) => v.iter().map(|x| format!("{:?} {:?}", x.filename, x.data_lines)).collect(),
    };
    (s.section_type(), items)
}
fn all(text: &str) -> Vec<Sec> {
    Script::parse(text).map(|s| s.sections().iter().map(says).collect()).unwrap_or_default()
}
fn once(v: &[Sec]) -> bool {
    v.iter().enumerate().all(|(i, x)| v[..i].iter().all(|y| y.0 != x.0))
}
fn by_kind(mut v: Vec<Sec>) -> Vec<Sec> {
    v.sort_by_key(|x| format!("{:?}", x.0));
    v
}

/// Text that mentions headers where they are none.
fn mention(r: &mut Rng) -> String {
    format!("{}{}", r.pick(&["see ", "", "a, ", "; "]), r.pick(&["[Events]", "[Script Info]", "[V4+ Styles]", "[Fonts]", "[Graphics]"]))
}
fn body(r: &mut Rng, k: SectionType) -> String {
    let n = r.u(0, 3);
    let mut s = String::new();
    match k {
        SectionType::ScriptInfo => {
            s += "[Script Info]\n";
            for i in 0..n {
                s += &format!("Key{i}: {}\n", if r.pct(30) { mention(r) } else { gen::word(r) });
            }
        }
        SectionType::Styles => {
            s += r.pick(&["[V4+ Styles]\nFormat: Name, Fontname, Fontsize\n", "[V4 Styles]\nFormat: Fontsize, Name, Fontname\n", "[ V4++ Styles ]\nFormat: Name, Fontsize, Fontname\n"]);
            for _ in 0..n {
                s += &format!("Style: {},{},{}\n", gen::word(r).replace(',', ""), gen::word(r).replace(',', ""), r.u(1, 90));
            }
        }
        SectionType::Events => {
            s += "[Events]\nFormat: Start, End, Text\n";
            for _ in 0..n {
                let t = if r.pct(30) { mention(r) } else { gen::event_text(r) };
                s += &format!("{}: 0:00:0{}.00,0:00:10.00,{t}\n", r.pick(&["Dialogue", "Comment"]), r.u(0, 9));
            }
        }
        SectionType::Fonts => {
            s += "[Fonts]\n";
            for i in 0..n {
                s += &format!("fontname: f{i}.ttf\nAF81;.N\n");
            }
        }
        SectionType::Graphics => {
            s += "[Graphics]\n";
            for i in 0..n {
                s += &format!("filename: g{i}.png\nAF81;.N\n");
            }
        }
    }
    s
}
const KINDS: [SectionType; 5] = [SectionType::ScriptInfo, SectionType::Styles, SectionType::Events, SectionType::Fonts, SectionType::Graphics];

/// A delta names sections; applying it changes those and leaves the rest of the text alone.
fn apply(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.u(0, 6);
    let kinds: Vec<SectionType> = (0..n).map(|_| *r.pick(&KINDS)).collect();
    let mut pieces: Vec<(Option<usize>, String)> = vec![];
    if r.pct(10) {
        pieces.push((None, "\u{feff}".into()));
    }
    for (i, k) in kinds.iter().enumerate() {
        let mut s = body(r, *k);
        if r.pct(40) {
            s += "\n";
        }
        if r.pct(20) {
            s = s.replace('\n', "\r\n");
        }
        if r.pct(15) {
            s = format!("  {s}");
        }
        pieces.push((Some(i), s));
        if r.pct(20) {
            pieces.push((None, "[Extra]\nData: 1,2\n".into()));
        }
    }
    let mut text: String = pieces.iter().map(|x| x.1.as_str()).collect();
    if r.pct(15) {
        while text.ends_with(['\n', '\r']) {
            text.pop();
        }
    }
    let sections = all(&text);
    let removed: Vec<usize> = (0..n + 1).filter(|_| r.pct(25)).collect();
    let mut modified: Vec<(usize, String)> = vec![];
    for i in 0..n + 1 {
        if r.pct(30) && !removed.contains(&i) {
            let mut s = body(r, kinds.get(i).copied().unwrap_or(SectionType::Events));
            if r.pct(30) {
                s.pop();
            }
            modified.push((i, s));
        }
    }
    let added: Vec<String> = (0..r.below(3))
        .map(|_| {
            let k = *r.pick(&KINDS);
            let mut s = body(r, k);
            if r.pct(30) {
                s.pop();
            }
            s
        })
        .collect();
    let delta = ScriptDeltaOwned { added: added.clone(), modified: modified.clone(), removed: removed.clone(), new_issues: vec![] };
    cx.set_input(format!("{text}\n---- {delta:?}"));
    ensure!(sections.iter().map(|x| x.0).eq(kinds.iter().copied()), "sections", "{sections:?}");
    let mut want: Vec<Sec> = vec![];
    for (i, s) in sections.iter().enumerate() {
        if let Some((_, m)) = modified.iter().find(|x| x.0 == i) {
            want.extend(all(m));
        } else if !removed.contains(&i) {
            want.push(s.clone());
        }
    }
    for a in &added {
        want.extend(all(a));
    }
    let mut d = match EditorDocument::from_content(&text) {
        Ok(d) => d,
        Err(e) => return fail("refused", format!("{e}")),
    };
    if let Err(e) = d.apply_script_delta(delta) {
        return fail("delta-refused", format!("{e}"));
    }
    let got = d.text();
    ensure!(all(&got) == want, "delta-applied", "the text became\n{got}\nwhich says {:?}\nwant {want:?}", all(&got));
    // everything else is still there, in order
    let mut at = 0;
    for (i, p) in &pieces {
        if i.is_some_and(|i| removed.contains(&i) || modified.iter().any(|m| m.0 == i)) {
            continue;
        }
        match got[at..].find(p.trim()) {
            Some(k) => at += k + p.trim().len(),
            None => return fail("delta-touched", format!("{p:?} is gone from\n{got}")),
        }
    }
    let changed = got != text;
    ensure!(d.can_undo() == changed, "delta-history", "changed {changed}");
    if changed {
        ensure!(d.undo().is_ok() && d.text() == text, "delta-undo", "{:?}", d.text());
        ensure!(d.redo().is_ok() && d.text() == got, "delta-redo", "{:?}", d.text());
        cx.obs("deltas_undone", 1);
    }
    cx.obs("deltas_applied", 1);
    cx.obs("sections_named", (removed.iter().filter(|i| **i < n).count() + modified.iter().filter(|m| m.0 < n).count()) as u64);
    cx.obs("sections_added", added.len() as u64);
    cx.state(&(text, got));
    Ok(())
}

/// The delta of an edit, applied to the old text, says what the new text says.
fn carried(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut o = Opts::random(r);
    o.max_items = 4;
    o.repeat_sections = false;
    let text = gen::script(r, o).text;
    let range = gen::boundary_range(r, &text, 80);
    let new = match r.below(8) {
        0 => String::new(),
        1 | 2 => gen::word(r),
        3 => mention(r),
        4 => format!("\n{}", { let k = *r.pick(&KINDS); body(r, k) }),
        5 => "Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,new\n".into(),
        6 => "\n".into(),
        _ => gen::soup(r, 4),
    };
    let after = format!("{}{}{}", &text[..range.start], new, &text[range.end..]);
    cx.set_input(format!("{text}\n---- {range:?} {new:?}"));
    let (a, b) = (all(&text), all(&after));
    if !once(&a) || !once(&b) || unclosed(&text) || unclosed(&after) {
        cx.obs("skipped", 1);
        return Ok(());
    }
    let s = match Script::parse(&text) {
        Ok(s) => s,
        Err(e) => return fail("parse", format!("{e}")),
    };
    let delta = match cx.rng.below(3) {
        0 => {
            let mut p = IncrementalParser::new();
            let _ = p.full_reparse(&text);
            if cx.rng.bool() {
                p.full_reparse(&after).map_err(|e| e.to_string())
            } else {
                p.apply_change(&text, rng(range.start, range.end), &new).map_err(|e| e.to_string())
            }
        }
        _ => s.parse_partial(range.clone(), &new).map_err(|e| e.to_string()),
    };
    let delta = match delta {
        Ok(d) => d,
        Err(e) => return fail("delta", e),
    };
    let mut d = match EditorDocument::from_content(&text) {
        Ok(d) => d,
        Err(e) => return fail("refused", format!("{e}")),
    };
    if let Err(e) = d.apply_script_delta(delta.clone()) {
        return fail("delta-refused", format!("{e}"));
    }
    let got = all(&d.text());
    ensure!(by_kind(got.clone()) == by_kind(b.clone()), "delta-carried", "{delta:?}\napplied gives\n{}\nwhich says {got:?}\nwant {b:?}", d.text());
    ensure!(a != b || d.text() == text, "delta-of-nothing", "{delta:?}\n{}", d.text());
    cx.obs("deltas_carried", 1);
    if a != b {
        cx.obs("deltas_with_changes", 1);
    }
    // and so does the delta a document reports for its own edit
    let mut e = EditorDocument::from_content(&text).unwrap();
    let long = range.len() > 50 || new.len() > 100 || new.contains('[') || new.matches('\n').count() > 1;
    match e.edit_incremental(rng(range.start, range.end), &new) {
        Ok(_) => ensure!(e.text() == after, "edit", "{:?}", e.text()),
        Err(x) => return fail("edit", format!("{x}")),
    }
    if long {
        cx.obs("parsed_edits", 1);
    }
    // tracked parsing gives the same delta
    let same = e.undo().is_ok()
        && e.parse_with_delta_tracking(Some(range.clone()), Some(&new), |_, x| x.map(|x| (x.added.clone(), x.modified.clone(), x.removed.clone()))).ok().flatten()
            == s.parse_partial(range, &new).ok().map(|x| (x.added, x.modified, x.removed));
    ensure!(same, "delta-tracked", "");
    cx.state(&(text, after));
    Ok(())
}
/// Headers that are not closed swallow the lines after them.
fn unclosed(t: &str) -> bool {
    t.lines().any(|l| l.trim_start_matches('\u{feff}').trim_start().starts_with('[') && !l.contains(']'))
}

// ---------------------------------------------------------------- E16

fn value(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1 => (*r.pick(&["a,b", "\n", "x\r", "Banner;10;0", "fade(1,2)", "fade(1,2", "f(1,(2,3)),", " padded ", "[Events]", "x: y"])).to_string(),
        2 => gen::soup(r, 3),
        _ => gen::word(r),
    }
}
/// The value a column gets back, or None when the column cannot hold it.
fn holds(v: &str, last: bool, effect: bool) -> Option<bool> {
    if v.contains(['\n', '\r']) {
        return Some(false);
    }
    if last || !v.contains(',') {
        return Some(true);
    }
    if !effect {
        return Some(false);
    }
    // commas in the parentheses of an effect: whether they fit depends on the rest of the line
    None
}

const EV: [&str; 12] = ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "MarginT", "MarginB", "Effect", "Text"];

fn events(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut set: Vec<(&str, String)> = vec![];
    let mut b = match r.below(3) {
        0 => EventBuilder::dialogue(),
        1 => EventBuilder::comment(),
        _ => EventBuilder::new(),
    };
    let kind = if b_is_comment(&b) { "Comment" } else { "Dialogue" };
    let num = |r: &mut Rng| {
        let top = if r.pct(10) { u32::MAX as usize } else { 400 };
        r.u(0, top) as u32
    };
    for _ in 0..r.u(0, 14) {
        let c = *r.pick(&EV);
        let v = match c {
            "Layer" | "MarginL" | "MarginR" | "MarginV" | "MarginT" | "MarginB" => {
                let n = num(r);
                b = match c {
                    "Layer" => b.layer(n),
                    "MarginL" => b.margin_left(n),
                    "MarginR" => b.margin_right(n),
                    "MarginV" => b.margin_vertical(n),
                    "MarginT" => b.margin_top(n),
                    _ => b.margin_bottom(n),
                };
                n.to_string()
            }
            "Start" | "End" => {
                let t = gen::time_str(r.u(0, 3_000_000) as u32);
                b = if c == "Start" { b.start_time(t.clone()) } else { b.end_time(t.clone()) };
                t
            }
            _ => {
                let v = if c == "Text" && r.bool() { gen::event_text(r) } else { value(r) };
                b = match c {
                    "Style" => b.style(v.clone()),
                    "Name" => b.speaker(v.clone()),
                    "Effect" => b.effect(v.clone()),
                    _ => b.text(v.clone()),
                };
                v
            }
        };
        set.retain(|x| x.0 != c);
        set.push((c, v));
    }
    let get = |c: &str| -> String {
        set.iter().find(|x| x.0 == c).map(|x| x.1.clone()).unwrap_or_else(|| {
            match c {
                "End" => "0:00:05.00",
                "Start" => "0:00:00.00",
                "Style" => "Default",
                "Name" | "Effect" | "Text" => "",
                _ => "0",
            }
            .to_string()
        })
    };
    // the columns written
    let (mut cols, how): (Vec<&str>, usize) = match r.below(5) {
        0 => (vec![], 0),
        1 => (vec!["Marked"], 1),
        2 => (vec![], 2),
        3 => (vec![], 3),
        _ => (vec![], 4),
    };
    if how < 4 {
        if how != 1 {
            cols.push("Layer");
        }
        cols.extend(["Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"]);
    } else {
        cols = EV.to_vec();
        r.shuffle(&mut cols);
        cols.truncate(r.u(0, 12) as usize);
        cols.retain(|c| *c != "Text");
        if r.pct(90) {
            cols.push("Text");
        }
    }
    let written: Vec<String> = cols
        .iter()
        .map(|c| match r.below(6) {
            0 if how == 4 => c.to_ascii_lowercase(),
            1 if how == 4 => c.to_ascii_uppercase(),
            2 if how == 4 && *c == "Name" => "Actor".into(),
            _ => c.to_string(),
        })
        .collect();
    let unknown = how == 4 && r.pct(5);
    cx.set_input(format!("{kind} {set:?} as {written:?} ({how})"));
    let refs: Vec<&str> = written.iter().map(|s| s.as_str()).collect();
    let out = match how {
        0 => b.build(),
        1 => b.build_with_version(ScriptVersion::SsaV4),
        2 => b.build_with_version(ScriptVersion::AssV4),
        3 => b.build_with_version(ScriptVersion::AssV4Plus),
        _ if unknown => {
            let mut v = refs.clone();
            v.push("Colour");
            let x = b.build_with_format(&v);
            ensure!(x.is_err(), "unknown-column", "{x:?}");
            cx.obs("unknown_columns", 1);
            return Ok(());
        }
        _ => b.build_with_format(&refs),
    };
    if cols.is_empty() {
        ensure!(out.is_err(), "no-columns", "{out:?}");
        return Ok(());
    }
    let fits: Vec<Option<bool>> = cols.iter().enumerate().map(|(i, c)| holds(&get(c), i + 1 == cols.len(), *c == "Effect")).collect();
    let line = match out {
        Err(e) => {
            ensure!(fits.iter().any(|f| *f != Some(true)), "good-refused", "{e}");
            cx.obs("refused", 1);
            return Ok(());
        }
        Ok(l) => l,
    };
    ensure!(fits.iter().all(|f| *f != Some(false)), "bad-accepted", "{line:?}");
    ensure!(line.starts_with(&format!("{kind}: ")) && line.lines().count() == 1, "line", "{line:?}");
    if fits.contains(&None) || !cols.contains(&"Text") {
        cx.obs("not_read_back", 1);
        return Ok(());
    }
    // reading it back gives what was set
    let script = format!("[Events]\nFormat: {}\n{line}\n", written.join(", "));
    let s = match Script::parse(&script) {
        Ok(s) => s,
        Err(e) => return fail("parse", format!("{e}")),
    };
    let e = match s.sections().first() {
        Some(Section::Events(v)) if v.len() == 1 => v[0].clone(),
        x => return fail("read-back", format!("{line:?} reads as {x:?}")),
    };
    ensure!(e.event_type == if kind == "Comment" { EventType::Comment } else { EventType::Dialogue }, "kind", "{:?}", e.event_type);
    for c in &cols {
        let got = match *c {
            "Layer" => e.layer,
            "Start" => e.start,
            "End" => e.end,
            "Style" => e.style,
            "Name" => e.name,
            "MarginL" => e.margin_l,
            "MarginR" => e.margin_r,
            "MarginV" => e.margin_v,
            "MarginT" => e.margin_t.unwrap_or("?"),
            "MarginB" => e.margin_b.unwrap_or("?"),
            "Effect" => e.effect,
            "Text" => e.text,
            _ => continue,
        };
        ensure!(got.trim() == get(c).trim(), "value", "{c} of {line:?} reads {got:?}, was set to {:?}", get(c));
    }
    cx.obs("events_built", 1);
    cx.state(&line);
    Ok(())
}
fn b_is_comment(b: &EventBuilder) -> bool {
    format!("{b:?}").contains("Some(Comment)")
}

const ST: [&str; 27] = [
    "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle",
    "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "MarginT", "MarginB", "Encoding", "AlphaLevel", "RelativeTo",
];
fn style_default(c: &str) -> &'static str {
    match c {
        "Name" => "NewStyle",
        "Fontname" => "Arial",
        "Fontsize" => "20",
        "PrimaryColour" => "&Hffffff",
        "SecondaryColour" => "&Hff0000",
        "OutlineColour" | "BackColour" => "&H0",
        "ScaleX" | "ScaleY" => "100",
        "Outline" | "Alignment" => "2",
        "BorderStyle" | "Encoding" => "1",
        "MarginL" | "MarginR" | "MarginV" => "10",
        _ => "0",
    }
}

fn styles(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut b = if r.bool() { StyleBuilder::new() } else { StyleBuilder::default_style() };
    let mut set: Vec<(&str, String)> = vec![];
    for _ in 0..r.u(0, 30) {
        let c = *r.pick(&ST);
        let v = match c {
            "Name" | "Fontname" | "RelativeTo" => {
                let v = value(r);
                b = match c {
                    "Name" => b.name(&v),
                    "Fontname" => b.font(&v),
                    _ => b.relative_to(&v),
                };
                v
            }
            "PrimaryColour" | "SecondaryColour" | "OutlineColour" | "BackColour" => {
                let v = if r.pct(90) { format!("&H{:08X}", r.u(0, u32::MAX as usize)) } else { value(r) };
                b = match c {
                    "PrimaryColour" => b.color(&v),
                    "SecondaryColour" => b.secondary_color(&v),
                    "OutlineColour" => b.outline_color(&v),
                    _ => b.back_color(&v),
                };
                v
            }
            "Bold" | "Italic" | "Underline" | "StrikeOut" => {
                let on = r.bool();
                b = match c {
                    "Bold" => b.bold(on),
                    "Italic" => b.italic(on),
                    "Underline" => b.underline(on),
                    _ => b.strikeout(on),
                };
                if on { "-1" } else { "0" }.into()
            }
            "ScaleX" | "ScaleY" | "Spacing" | "Angle" | "Outline" | "Shadow" => {
                let x = *r.pick(&[0.0, 0.5, -3.25, 100.0, 1e-3, 12345.678, 33.3, 1e7]);
                b = match c {
                    "ScaleX" => b.scale_x(x),
                    "ScaleY" => b.scale_y(x),
                    "Spacing" => b.spacing(x),
                    "Angle" => b.angle(x),
                    "Outline" => b.outline(x),
                    _ => b.shadow(x),
                };
                format!("{x}")
            }
            _ => {
                let n = if r.pct(10) { u32::MAX } else { r.u(0, 400) as u32 };
                b = match c {
                    "Fontsize" => b.size(n),
                    "BorderStyle" => b.border_style(n),
                    "Alignment" => b.align(n),
                    "MarginL" => b.margin_left(n),
                    "MarginR" => b.margin_right(n),
                    "MarginV" => b.margin_vertical(n),
                    "MarginT" => b.margin_top(n),
                    "MarginB" => b.margin_bottom(n),
                    "AlphaLevel" => b.alpha_level(n),
                    _ => b.encoding(n),
                };
                n.to_string()
            }
        };
        set.retain(|x| x.0 != c);
        set.push((c, v));
    }
    let get = |c: &str| set.iter().find(|x| x.0 == c).map_or_else(|| style_default(c).to_string(), |x| x.1.clone());
    let how = r.below(5);
    let mut cols: Vec<&str> = ST.to_vec();
    match how {
        0 | 1 => cols.retain(|c| !matches!(*c, "MarginT" | "MarginB" | "AlphaLevel" | "RelativeTo")),
        2 => {
            cols.retain(|c| !matches!(*c, "MarginT" | "MarginB" | "RelativeTo" | "Underline" | "StrikeOut" | "ScaleX" | "ScaleY" | "Spacing" | "Angle"));
            let n = cols.len();
            cols.swap(n - 1, n - 2);
        }
        3 => cols.retain(|c| *c != "AlphaLevel"),
        _ => {
            r.shuffle(&mut cols);
            cols.truncate(r.u(0, 27) as usize);
        }
    }
    let written: Vec<String> = cols
        .iter()
        .map(|c| match r.below(5) {
            0 if how == 4 => c.to_ascii_lowercase(),
            1 if how == 4 && *c == "OutlineColour" => "TertiaryColour".into(),
            _ => c.to_string(),
        })
        .collect();
    cx.set_input(format!("{set:?} as {written:?} ({how})"));
    let refs: Vec<&str> = written.iter().map(|s| s.as_str()).collect();
    let out = match how {
        0 => b.build(),
        1 => b.build_with_version(ScriptVersion::AssV4),
        2 => b.build_with_version(ScriptVersion::SsaV4),
        3 => b.build_with_version(ScriptVersion::AssV4Plus),
        _ => {
            let mut v = refs.clone();
            v.push("Effect");
            ensure!(b.build_with_format(&v).is_err(), "unknown-column", "");
            b.build_with_format(&refs)
        }
    };
    if cols.is_empty() {
        ensure!(out.is_err(), "no-columns", "{out:?}");
        return Ok(());
    }
    let good = cols.iter().all(|c| !get(c).contains([',', '\n', '\r']));
    ensure!(out.is_ok() == good, "accepted", "{out:?}");
    let Ok(line) = out else {
        cx.obs("refused", 1);
        return Ok(());
    };
    ensure!(line.strip_prefix("Style: ").is_some_and(|l| l.split(',').map(str::trim).eq(cols.iter().map(|c| get(c).trim().to_string()))), "values", "{line:?}");
    if get(cols[0]).trim().starts_with('*') {
        // the parser's notation for a parent
        cx.obs("not_read_back", 1);
        return Ok(());
    }
    let script = format!("[V4+ Styles]\nFormat: {}\n{line}\n", written.join(", "));
    let s = match Script::parse(&script) {
        Ok(s) => s,
        Err(e) => return fail("parse", format!("{e}")),
    };
    let st = match s.sections().first() {
        Some(Section::Styles(v)) if v.len() == 1 => v[0].clone(),
        x => return fail("read-back", format!("{line:?} reads as {x:?}")),
    };
    for c in &cols {
        let got = match *c {
            "Name" => st.name,
            "Fontname" => st.fontname,
            "Fontsize" => st.fontsize,
            "PrimaryColour" => st.primary_colour,
            "BackColour" => st.back_colour,
            "Bold" => st.bold,
            "StrikeOut" => st.strikeout,
            "Angle" => st.angle,
            "Shadow" => st.shadow,
            "Alignment" => st.alignment,
            "MarginV" => st.margin_v,
            "MarginT" => st.margin_t.unwrap_or("?"),
            "MarginB" => st.margin_b.unwrap_or("?"),
            "RelativeTo" => st.relative_to.unwrap_or("?"),
            "Encoding" => st.encoding,
            _ => continue,
        };
        ensure!(got.trim() == get(c).trim(), "value", "{c} of {line:?} reads {got:?}, was set to {:?}", get(c));
    }
    // in a document it is the style of its name
    if how < 2 && !get("Name").trim().is_empty() {
        let mut d = EditorDocument::new();
        let _ = d.insert(pos(0), "[Script Info]\nTitle: x\n\n[Events]\n");
        ensure!(d.add_style_line(&line).is_ok(), "add-line", "");
        let n = d.parse_script_with(|s| s.sections().iter().filter(|x| matches!(x, Section::Styles(v) if v.len() == 1 && v[0].name == get("Name").trim())).count());
        ensure!(n.as_ref().ok() == Some(&1), "in-document", "{n:?}\n{}", d.text());
    }
    cx.obs("styles_built", 1);
    cx.state(&line);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "E15",
            rule: "a distinct case is a distinct pair of texts before and after a delta",
            assumptions: &["A delta carries a script over completely when each kind of section occurs at most once, because it compares sections by kind.", "Added sections stand at the end."],
            monitors: vec![mon("apply", 150_000, 2_000_000, apply), mon("carried", 100_000, 1_500_000, carried)],
            must_observe: &["deltas_applied", "deltas_undone", "sections_named", "sections_added", "deltas_carried", "deltas_with_changes", "parsed_edits"],
        },
        Property {
            id: "E16",
            rule: "a distinct case is a distinct line built",
            assumptions: &["Space around a value is not part of it.", "A style line that starts with an asterisk is the parser's notation for a parent.", "AssV4Plus event lines have the columns of AssV4, as the builder documents."],
            monitors: vec![mon("events", 200_000, 3_000_000, events), mon("styles", 150_000, 2_000_000, styles)],
            must_observe: &["events_built", "styles_built", "refused", "unknown_columns"],
        },
    ]
}
