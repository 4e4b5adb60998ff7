//! C09 dialogue text and override tags, C10 event timing.
use crate::codec::time_text;
use ass_core::analysis::events as ev;
use ass_core::analysis::events::{DiagnosticKind, DialogueInfo, LineBreakType, PerformanceImpact, TextAnalysis, TextWithLineBreaks, TimingRelation};
use ass_core::parser::ast::{Event, EventType, Span};
use ass_core::utils::parse_ass_time;
use hcommon::{ensure, fail, gen, mon, Cx, Property, Rng, R};

#[derive(Debug, PartialEq, Clone)]
pub struct MTag {
    pub name: String,
    pub args: String,
    pub pos: usize,
}
#[derive(Debug, PartialEq, Clone)]
pub struct MDiag {
    pub span: String,
    pub pos: usize,
}
#[derive(Debug, Default)]
pub struct MText {
    pub plain: String,
    pub tags: Vec<MTag>,
    pub diags: Vec<MDiag>,
    /// the text ends in a backslash outside a block
    pub dangling: bool,
    pub too_deep: bool,
}

/// Reference reading of dialogue text, by byte cursor over the string.
pub fn read_text(s: &str) -> MText {
    let mut m = MText::default();
    let mut drawing = false;
    let mut i = 0;
    while i < s.len() {
        let c = s[i..].chars().next().unwrap();
        match c {
            '{' => {
                let body = i + 1;
                let mut depth = 1;
                let mut end = None;
                for (k, c) in s[body..].char_indices() {
                    if c == '{' {
                        depth += 1;
                        if depth > 100 {
                            m.too_deep = true;
                            return m;
                        }
                    } else if c == '}' {
                        depth -= 1;
                        if depth == 0 {
                            end = Some(body + k);
                            break;
                        }
                    }
                }
                let stop = end.unwrap_or(s.len());
                if stop == body {
                    m.diags.push(MDiag { span: if end.is_some() { "}".into() } else { String::new() }, pos: body });
                } else {
                    block(&s[body..stop], body, &mut m);
                    if let Some(d) = last_drawing(&s[body..stop]) {
                        drawing = d;
                    }
                }
                i = end.map_or(s.len(), |e| e + 1);
                continue;
            }
            '\\' => {
                let Some(n) = s[i + 1..].chars().next() else {
                    m.dangling = true;
                    break;
                };
                if !drawing {
                    match n {
                        'n' | 'N' => m.plain.push('\n'),
                        'h' => m.plain.push('\u{a0}'),
                        _ => {
                            m.plain.push('\\');
                            m.plain.push(n);
                        }
                    }
                }
                i += 1 + n.len_utf8();
                continue;
            }
            _ => {
                if !drawing {
                    m.plain.push(c);
                }
            }
        }
        i += c.len_utf8();
    }
    m
}

/// Effect of the `\p<number>` tags of a block on drawing mode.
fn last_drawing(b: &str) -> Option<bool> {
    let mut r = None;
    for (i, _) in b.match_indices("\\p") {
        let n: String = b[i + 2..].chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
        if let Ok(v) = n.parse::<i32>() {
            r = Some(v > 0);
        }
    }
    r
}

pub fn block(b: &str, base: usize, m: &mut MText) {
    let mut i = 0;
    while i < b.len() {
        let c = b[i..].chars().next().unwrap();
        if c != '\\' {
            i += c.len_utf8();
            continue;
        }
        let at = i;
        let rest = &b[i + 1..];
        let mut n = 0;
        for c in rest.chars() {
            if n == 0 && c.is_ascii_digit() {
                n += 1;
            } else if c.is_ascii_alphabetic() {
                n += 1;
                if &rest[..n] == "r" || &rest[..n] == "fn" {
                    break;
                }
            } else {
                break;
            }
        }
        if n == 0 {
            let k = rest.chars().next().map_or(0, char::len_utf8);
            m.diags.push(MDiag { span: b[at..at + 1 + k].to_string(), pos: base + at });
            i = at + 1 + k;
            continue;
        }
        let name = &rest[..n];
        let tail = &rest[n..];
        let len = if name == "t" && tail.starts_with('(') {
            let mut d = 0i32;
            tail.char_indices()
                .find_map(|(k, c)| {
                    match c {
                        '(' => d += 1,
                        ')' => d -= 1,
                        _ => {}
                    }
                    (c == ')' && d == 0).then_some(k + 1)
                })
                .unwrap_or(tail.len())
        } else {
            tail.find('\\').unwrap_or(tail.len())
        };
        m.tags.push(MTag { name: name.to_string(), args: tail[..len].to_string(), pos: base + at });
        i = at + 1 + n + len;
    }
}

pub fn weight(n: &str) -> u32 {
    match n {
        "b" | "i" | "u" | "s" | "c" | "alpha" | "1c" | "2c" | "3c" | "4c" | "1a" | "2a" | "3a" | "4a" => 1,
        "frx" | "fry" | "frz" | "fscx" | "fscy" | "fsp" | "fad" | "fade" | "clip" | "iclip" => 3,
        "move" => 4,
        "t" | "pbo" => 5,
        "p" => 8,
        _ => 2,
    }
}
pub fn tag_cost(n: &str) -> u8 {
    match n {
        "fn" | "fs" => 1,
        "t" | "pbo" => 4,
        "p" => 5,
        n if weight(n) == 1 => 1,
        n if weight(n) == 3 => 3,
        "move" => 3,
        _ => 2,
    }
}
pub fn scores(m: &MText) -> (u8, u8) {
    let a = m.tags.iter().map(|t| weight(&t.name)).sum::<u32>().min(10);
    (a as u8, complexity(a, m.plain.chars().count(), m.tags.len()))
}
fn band(v: usize, t: &[(usize, u32)], top: u32) -> u32 {
    t.iter().find(|x| v <= x.0).map_or(top, |x| x.1)
}
fn complexity(a: u32, chars: usize, tags: usize) -> u8 {
    (a * 5 + band(chars, &[(50, 0), (200, 5), (500, 15), (1000, 30)], 50) + band(tags, &[(0, 0), (5, 5), (15, 15), (30, 25)], 35)).min(100) as u8
}
fn impact(s: u8) -> PerformanceImpact {
    match s {
        0..=20 => PerformanceImpact::Minimal,
        21..=40 => PerformanceImpact::Low,
        41..=60 => PerformanceImpact::Medium,
        61..=80 => PerformanceImpact::High,
        _ => PerformanceImpact::Critical,
    }
}

pub fn dialogue(r: &mut Rng) -> String {
    match r.below(7) {
        0 => gen::event_text(r),
        1 => gen::soup(r, 12),
        2 => {
            let t = gen::event_text(r);
            gen::mutate(r, &t)
        }
        3 => {
            // tag-dense
            let mut s = String::new();
            for _ in 0..r.below(6) {
                s.push('{');
                for _ in 0..r.below(6) {
                    s.push_str(*r.pick(&[
                        "\\", "\\b1", "\\t(0,1,\\fs(2)\\c&H1&)", "\\t(", "\\t", "\\rStyle", "\\r", "\\fnArial Black", "\\fn", "\\1c&H0&", "\\1", "\\12", "\\é", "\\ ", "\\p1", "\\p0",
                        "\\p", "\\p-1", "\\pbo5", "\\pos(1,2)", "\\move(1,2,3,4)", "\\fad(1,2)", "\\k10", "\\kf5", "\\clip(m 0 0 l 1 1)", "note", "*", "\\\\b1", ")", "(", "\\fs", "\\alpha&H80&", "\\fscx110",
                        "\\x日本", "\\t(\\t(1))\\i1", "\\iclip(1,1,2,2)", "\\frz1", "\\fsp2", "\\rn1",
                    ]));
                }
                if r.pct(85) {
                    s.push('}');
                }
                s.push_str(*r.pick(&["", "text", "日本", "m 0 0 l 10 10", "\\N", "\\n\\h", "\\x", "é\\", "}", "a\nb"]));
            }
            s
        }
        4 => {
            // sizes around the score bands
            let n = *r.pick(&[0usize, 49, 50, 51, 199, 200, 201, 499, 500, 501, 999, 1000, 1001]);
            let k = *r.pick(&[0usize, 1, 5, 6, 15, 16, 30, 31, 300]);
            let t = *r.pick(&["\\b1", "\\q2", "\\t(1)", "\\p0", "\\move(1)", "\\frx1"]);
            format!("{{{}}}{}", t.repeat(k), "é".repeat(n))
        }
        5 => {
            let d = *r.pick(&[1usize, 2, 3, 99, 100, 101, 150]);
            format!("x{}\\b1{}y", "{".repeat(d), "}".repeat(r.below(d + 2)))
        }
        _ => "a".repeat(r.below(3)) + &gen::soup(r, 3),
    }
}

fn lines(p: &str) -> usize {
    // number of lines shown; a trailing break does not open a new line unless there is nothing else
    let n = p.matches('\n').count();
    if n == 0 {
        1
    } else if p.chars().all(|c| c == '\n') {
        n + 1
    } else if p.ends_with('\n') {
        n
    } else {
        n + 1
    }
}

fn text(cx: &mut Cx) -> R {
    let s = dialogue(&mut cx.rng);
    cx.set_input(s.clone());
    let m = read_text(&s);
    let got = TextAnalysis::analyze(&s);
    cx.state(&s);
    if m.too_deep {
        ensure!(got.is_err(), "depth", "blocks nested deeper than 100 were accepted");
        cx.obs("too_deep", 1);
        return Ok(());
    }
    let g = match got {
        Ok(g) => g,
        Err(e) => return fail("text-error", format!("{e}")),
    };
    let plain = g.plain_text();
    ensure!(plain == m.plain || (m.dangling && plain.strip_suffix('\\') == Some(&m.plain)), "plain", "plain text {plain:?} want {:?}", m.plain);
    ensure!(g.char_count() == plain.chars().count(), "char-count", "{} of {plain:?}", g.char_count());
    ensure!(g.line_count() == lines(plain), "line-count", "{} of {plain:?} want {}", g.line_count(), lines(plain));
    let bidi = plain.chars().any(|c| ('\u{590}'..='\u{6ff}').contains(&c) || ('\u{750}'..='\u{77f}').contains(&c) || ('\u{8a0}'..='\u{8ff}').contains(&c));
    ensure!(g.has_bidi_text() == bidi, "bidi", "{plain:?}: {}", g.has_bidi_text());
    let cu = plain.chars().any(|c| c > '\u{ff}' || c.is_control());
    ensure!(g.has_complex_unicode() == cu, "complex-unicode", "{plain:?}: {}", g.has_complex_unicode());
    let tags: Vec<MTag> = g.override_tags().iter().map(|t| MTag { name: t.name().into(), args: t.args().into(), pos: t.position() }).collect();
    ensure!(tags == m.tags, "tags", "tags {tags:?}\nwant {:?}", m.tags);
    for t in g.override_tags() {
        ensure!(t.complexity() == tag_cost(t.name()), "tag-complexity", "{t:?}");
        ensure!(s[t.position()..].starts_with(&format!("\\{}{}", t.name(), t.args())), "tag-position", "{t:?}");
    }
    let d: Vec<MDiag> = g.diagnostics().iter().map(|t| MDiag { span: t.span.into(), pos: t.offset }).collect();
    ensure!(d == m.diags, "diagnostics", "{d:?}\nwant {:?}", m.diags);
    ensure!(g.diagnostics().iter().all(|t| t.kind == DiagnosticKind::EmptyOverride && s[t.offset..].starts_with(t.span)), "diagnostic-kind", "{:?}", g.diagnostics());
    cx.obs("tags", m.tags.len() as u64);
    cx.obs("diagnostics", m.diags.len() as u64);
    cx.obs("texts", 1);
    let (a, c) = scores(&m);
    ensure!(ev::calculate_animation_score(g.override_tags()) == a, "animation-score", "{} want {a}", ev::calculate_animation_score(g.override_tags()));
    let e = Event { start: "0:00:00.00", end: "0:00:01.00", text: &s, ..Event::default() };
    let di = match DialogueInfo::analyze(&e) {
        Ok(d) => d,
        Err(e) => return fail("dialogue-error", format!("{e}")),
    };
    ensure!(di.animation_score() == a && (di.complexity_score() == c || m.dangling), "scores", "{}/{} want {a}/{c}", di.animation_score(), di.complexity_score());
    ensure!(di.performance_impact() == impact(di.complexity_score()), "impact", "{:?}", di.performance_impact());
    ensure!(di.override_count() == m.tags.len(), "override-count", "{}", di.override_count());
    cx.max("complexity", u64::from(c));
    // single block API
    let mut tags = vec![];
    let mut diags = vec![];
    let at = cx.rng.below(1000);
    ev::parse_override_block(&s, at, &mut tags, &mut diags);
    let mut w = MText::default();
    block(&s, at, &mut w);
    let t: Vec<MTag> = tags.iter().map(|t| MTag { name: t.name().into(), args: t.args().into(), pos: t.position() }).collect();
    let d: Vec<MDiag> = diags.iter().map(|t| MDiag { span: t.span.into(), pos: t.offset }).collect();
    ensure!(t == w.tags && d == w.diags, "block", "as one block: {t:?} {d:?}\nwant {w:?}");
    Ok(())
}

fn breaks(cx: &mut Cx) -> R {
    let s = dialogue(&mut cx.rng);
    let drawing = cx.rng.pct(30);
    cx.set_input(format!("drawing={drawing} {s}"));
    let g = TextWithLineBreaks::from_text(&s, drawing);
    let (mut t, mut lb, mut nb) = (String::new(), vec![], vec![]);
    let mut i = 0;
    while i < s.len() {
        let c = s[i..].chars().next().unwrap();
        i += c.len_utf8();
        if c != '\\' {
            t.push(c);
            continue;
        }
        let n = s[i..].chars().next();
        i += n.map_or(0, char::len_utf8);
        match n {
            Some('N' | 'n' | 'h') if drawing => {}
            Some('N') => {
                lb.push((t.len(), LineBreakType::Hard));
                t.push('\n');
            }
            Some('n') => {
                lb.push((t.len(), LineBreakType::Soft));
                t.push('\n');
            }
            Some('h') => {
                nb.push(t.len());
                t.push('\u{a0}');
            }
            Some(x) => {
                t.push('\\');
                t.push(x);
            }
            None => t.push('\\'),
        }
    }
    ensure!(g.text == t, "break-text", "{:?} want {t:?}", g.text);
    let gl: Vec<_> = g.line_breaks.iter().map(|b| (b.position, b.break_type)).collect();
    ensure!(gl == lb && g.nbsp_positions == nb, "break-positions", "{gl:?} {:?} want {lb:?} {nb:?}", g.nbsp_positions);
    for p in 0..t.len() + 2 {
        ensure!(g.get_break_type_at(p) == lb.iter().find(|b| b.0 == p).map(|b| b.1) && g.is_nbsp_at(p) == nb.contains(&p), "break-query", "position {p}");
    }
    cx.obs("breaks", lb.len() as u64);
    cx.obs("nbsp", nb.len() as u64);
    wrap(cx, &t)?;
    cx.state(&(s, drawing));
    Ok(())
}

#[cfg(feature = "full")]
fn wrap(cx: &mut Cx, t: &str) -> R {
    let w = ev::wrap_opportunities(t);
    let mut last = 0;
    for o in &w {
        ensure!(o.offset > last && o.offset <= t.len() && t.is_char_boundary(o.offset), "wrap-offset", "{:?} in {t:?}", o);
        // a line never starts inside a word of letters
        if !o.mandatory && o.offset < t.len() {
            let a = t[..o.offset].chars().next_back().unwrap();
            let b = t[o.offset..].chars().next().unwrap();
            ensure!(!(a.is_ascii_alphabetic() && b.is_ascii_alphabetic()), "wrap-inside-word", "{o:?} in {t:?}");
            ensure!(a != '\u{a0}', "wrap-nbsp", "{o:?} in {t:?}");
        }
        last = o.offset;
    }
    // every line feed forces a break behind it; the end of text is one
    for (i, _) in t.match_indices('\n') {
        ensure!(w.iter().any(|o| o.offset == i + 1 && o.mandatory), "wrap-mandatory", "no break behind the line feed at {i} of {t:?}");
    }
    if !t.is_empty() {
        ensure!(w.last().is_some_and(|o| o.offset == t.len() && o.mandatory), "wrap-end", "{t:?}");
    }
    let soft: Vec<usize> = w.iter().filter(|o| !o.mandatory).map(|o| o.offset).collect();
    ensure!(ev::soft_wrap_offsets(t) == soft, "wrap-soft", "{t:?}");
    cx.obs("wraps", w.len() as u64);
    Ok(())
}
#[cfg(not(feature = "full"))]
fn wrap(cx: &mut Cx, _t: &str) -> R {
    cx.obs("wraps", 1);
    Ok(())
}

// ---- C10 ----
fn timing(cx: &mut Cx) -> R {
    let n = match cx.rng.below(10) {
        0 => 0,
        1 => 1,
        2 => cx.rng.u(20, 60),
        _ => cx.rng.u(2, 14),
    };
    let span = *cx.rng.pick(&[6usize, 20, 200, 100_000]);
    let bad = cx.rng.pct(10);
    let mut v: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let base = if cx.rng.pct(3) { u32::MAX - 300_000 } else { 0 };
        let a = base + cx.rng.below(span) as u32;
        let d = match cx.rng.below(6) {
            0 => 0,
            1 => 1,
            _ => cx.rng.below(span / 2 + 2) as u32,
        };
        let (mut s, mut e) = (gen::time_str(a), gen::time_str(a + d));
        if cx.rng.pct(6) {
            std::mem::swap(&mut s, &mut e);
        }
        if cx.rng.pct(1) {
            e = gen::time_str(u32::MAX);
        }
        if bad && cx.rng.pct(20) {
            e = time_text(&mut cx.rng);
        }
        v.push((s, e));
    }
    cx.set_input(format!("{v:?}"));
    let evs: Vec<Event> = v
        .iter()
        .enumerate()
        .map(|(i, (s, e))| Event {
            event_type: if i % 5 == 4 { EventType::Comment } else { EventType::Dialogue },
            start: s,
            end: e,
            text: "t",
            span: Span::new(i, i + 1, 1, 1),
            ..Event::default()
        })
        .collect();
    let times: Vec<Option<(u32, u32)>> = v.iter().map(|(s, e)| Some((parse_ass_time(s).ok()?, parse_ass_time(e).ok()?))).collect();
    for (i, e) in evs.iter().enumerate() {
        let a = parse_ass_time(&v[i].0).ok();
        let b = parse_ass_time(&v[i].1).ok();
        ensure!(e.start_time_cs().ok() == a && e.end_time_cs().ok() == b, "event-times", "{i}");
        ensure!(e.duration_cs().ok() == a.zip(b).map(|(a, b)| b.saturating_sub(a)), "event-duration", "{:?}", e.duration_cs());
    }
    let shares = |a: (u32, u32), b: (u32, u32)| a.0 < a.1 && b.0 < b.1 && a.0.max(b.0) < a.1.min(b.1);
    let norm = |p: &[(usize, usize)]| {
        let mut q: Vec<(usize, usize)> = p.iter().map(|x| (x.0.min(x.1), x.0.max(x.1))).collect();
        q.sort_unstable();
        q
    };
    let got = ev::find_overlapping_events(&evs);
    let refs: Vec<&Event> = evs.iter().collect();
    let got2 = ev::find_overlapping_event_refs(&refs);
    let cnt = ev::count_overlapping_events(&evs);
    if times.iter().all(Option::is_some) || n < 2 {
        let mut want = vec![];
        for i in 0..n {
            for j in i + 1..n {
                if let (Some(a), Some(b)) = (times[i], times[j]) {
                    if shares(a, b) {
                        want.push((i, j));
                    }
                }
            }
        }
        for g in [&got, &got2] {
            match g {
                Ok(g) => ensure!(norm(g) == want, "overlaps", "pairs {:?} want {want:?}", norm(g)),
                Err(e) => return fail("overlap-error", format!("{e}")),
            }
        }
        ensure!(cnt.as_ref().ok() == Some(&want.len()), "overlap-count", "{cnt:?} want {}", want.len());
        cx.obs("overlap_pairs", want.len() as u64);
        cx.obs("pairs_checked", (n * n / 2) as u64);
    } else {
        ensure!(got.is_err() && got2.is_err() && cnt.is_err(), "overlap-unparsable", "{got:?}");
        cx.obs("unparsable", 1);
    }
    // analysed events
    let mut infos: Vec<DialogueInfo> = vec![];
    let mut it: Vec<(u32, u32, usize)> = vec![];
    for (i, e) in evs.iter().enumerate() {
        let d = DialogueInfo::analyze(e);
        match (times[i], d) {
            (Some((a, b)), Ok(d)) if a < b => {
                ensure!((d.start_time_cs(), d.end_time_cs(), d.duration_cs()) == (a, b, b - a), "info-times", "{d:?}");
                ensure!(u64::from(d.duration_ms()) == (u64::from(b - a) * 10).min(u64::from(u32::MAX)), "info-ms", "{} for {} cs", d.duration_ms(), b - a);
                ensure!(std::ptr::eq(d.event(), e), "info-event", "");
                infos.push(d);
                it.push((a, b, i));
            }
            (Some((a, b)), Err(_)) if a >= b => cx.obs("rejected_infos", 1),
            (None, Err(_)) => cx.obs("rejected_infos", 1),
            (t, d) => return fail("info-accept", format!("event {t:?}: analysed {}", d.is_ok())),
        }
    }
    let k = infos.len();
    let want: Vec<(usize, usize)> = (0..k).flat_map(|i| (i + 1..k).map(move |j| (i, j))).filter(|&(i, j)| it[i].0.max(it[j].0) < it[i].1.min(it[j].1)).collect();
    ensure!(norm(&ev::find_overlapping_dialogue_events(&infos)) == want, "info-overlaps", "{:?} want {want:?}", ev::find_overlapping_dialogue_events(&infos));
    ensure!(ev::count_overlapping_dialogue_events(&infos) == want.len(), "info-overlap-count", "");
    for i in 0..k.min(12) {
        for j in 0..k.min(12) {
            let (a, b) = (it[i], it[j]);
            let w = if (a.0, a.1) == (b.0, b.1) {
                TimingRelation::Identical
            } else if a.0.max(b.0) >= a.1.min(b.1) {
                TimingRelation::NoOverlap
            } else if (a.0 <= b.0 && b.1 <= a.1) || (b.0 <= a.0 && a.1 <= b.1) {
                TimingRelation::FullOverlap
            } else {
                TimingRelation::PartialOverlap
            };
            ensure!(infos[i].timing_relation(&infos[j]) == w, "relation", "{a:?} {b:?}: {:?} want {w:?}", infos[i].timing_relation(&infos[j]));
            cx.obs("relations", 1);
        }
    }
    for _ in 0..5 {
        let a = cx.rng.below(span + 5) as u32;
        let b = if cx.rng.pct(10) { a.saturating_sub(1) } else { a + cx.rng.below(span / 2 + 2) as u32 };
        if a < b {
            let w: Vec<usize> = (0..k).filter(|&i| it[i].0.max(a) < it[i].1.min(b)).collect();
            let g = ev::find_events_in_range(&infos, a, b);
            ensure!(g == w, "range", "in {a}..{b}: {g:?} want {w:?}");
            for i in 0..k {
                ensure!(infos[i].overlaps_time_range(a, b) == w.contains(&i), "range-one", "{i} in {a}..{b}");
            }
            cx.obs("range_hits", w.len() as u64);
        } else {
            let _ = ev::find_events_in_range(&infos, a, b);
        }
    }
    let tot = it.iter().map(|x| x.1).max().zip(it.iter().map(|x| x.0).min()).map(|(b, a)| b - a);
    ensure!(ev::calculate_total_duration(&infos) == tot, "total", "{:?} want {tot:?}", ev::calculate_total_duration(&infos));
    let avg = if k == 0 { None } else { Some((it.iter().map(|x| u64::from(x.1 - x.0)).sum::<u64>() / k as u64) as u32) };
    ensure!(ev::calculate_average_duration(&infos) == avg, "average", "{:?} want {avg:?}", ev::calculate_average_duration(&infos));
    ev::sort_events_by_time(&mut infos);
    let mut w = it.clone();
    w.sort();
    let g: Vec<(u32, u32, usize)> = infos.iter().map(|d| (d.start_time_cs(), d.end_time_cs(), d.event().span.start)).collect();
    ensure!(g == w, "sort", "{g:?} want {w:?}");
    cx.obs("infos", k as u64);
    cx.max("events", n as u64);
    cx.state(&v);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "a distinct case is a distinct dialogue text whose reading (plain text, tags, diagnostics, breaks, scores) was compared with the reference reader",
            assumptions: &["A single backslash at the very end of a text may be kept or dropped in the plain text."],
            monitors: vec![mon("text", 1_600_000, 10_000_000, text), mon("breaks", 800_000, 5_000_000, breaks)],
            must_observe: &["tags", "diagnostics", "texts", "too_deep", "breaks", "nbsp", "wraps"],
        },
        Property {
            id: "C10",
            rule: "a distinct case is a distinct list of event times on which overlaps, ranges, order and durations were compared with brute force",
            assumptions: &["Intervals are half open; an event whose end is not after its start occupies no time."],
            monitors: vec![mon("timing", 800_000, 4_000_000, timing)],
            must_observe: &["overlap_pairs", "pairs_checked", "unparsable", "rejected_infos", "relations", "range_hits", "infos"],
        },
    ]
}
