//! E03 event commands, E06 event queries.
use ass_core::parser::ast::EventType;
use ass_editor::commands::{
    BatchDeleteEventsCommand, DeleteEventCommand, EffectOperation, EventEffectCommand, MergeEventsCommand, SplitEventCommand, TimingAdjustCommand, ToggleEventTypeCommand,
};
use ass_editor::core::fluent::{EventFilter, EventInfo, EventSortCriteria, EventSortOptions};
use ass_editor::{CommandResult, EditorCommand, EditorDocument, EditorError};
use hcommon::gen::{self, ExpItem, ExpScript, ExpSection, Opts};
use hcommon::*;

#[derive(Clone, Debug, PartialEq)]
pub(crate) struct Ev {
    pub kind: String,
    pub head: String,
    pub raw: Vec<String>,
}
impl Ev {
    pub fn read(line: &str, cols: &[String]) -> Ev {
        let c = line.find(':').unwrap() + 1;
        let data = line[c..].trim_start();
        Ev { kind: line[..c - 1].to_string(), head: line[..line.len() - data.len()].to_string(), raw: columns(data, cols) }
    }
    pub fn line(&self) -> String {
        format!("{}{}", self.head, self.raw.join(","))
    }
    pub fn get(&self, cols: &[String], c: &str) -> Option<&str> {
        gen::column(cols, c).map(|i| self.raw[i].trim())
    }
    /// The event with columns changed, None when that is not possible.
    pub fn with(&self, cols: &[String], ch: &[(&str, String)]) -> Option<Ev> {
        let mut e = self.clone();
        for (c, v) in ch {
            let i = gen::column(cols, c)?;
            e.raw[i] = v.clone();
        }
        let line = e.line();
        if line.contains(['\n', '\r']) {
            return None;
        }
        let again = columns(&e.raw.join(","), cols);
        if again.len() != e.raw.len() || again.iter().zip(&e.raw).any(|(a, b)| a.trim() != b.trim()) {
            return None;
        }
        Some(e)
    }
}
/// Columns as the editor documents them: commas inside the parentheses of an effect belong to it.
fn columns(data: &str, cols: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let parts: Vec<&str> = data.split(',').collect();
    let mut i = 0;
    while out.len() + 1 < cols.len() && i < parts.len() {
        let mut v = parts[i].to_string();
        i += 1;
        if cols[out.len()].eq_ignore_ascii_case("Effect") {
            let left = cols.len() - out.len() - 1;
            let open = |s: &str| {
                let mut d = 0i64;
                for c in s.chars() {
                    match c {
                        '(' => d += 1,
                        ')' => d = (d - 1).max(0),
                        _ => {}
                    }
                }
                d > 0
            };
            let (mut w, mut k) = (v.clone(), i);
            while open(&w) && k < parts.len() {
                w = format!("{w},{}", parts[k]);
                k += 1;
            }
            if !open(&w) && parts.len() - k >= left {
                v = w;
                i = k;
            }
        }
        out.push(v);
    }
    out.push(parts[i.min(parts.len())..].join(","));
    out
}

/// The document as events with the text between them.
#[derive(Clone, Debug)]
struct Model {
    gaps: Vec<String>,
    evs: Vec<Ev>,
    cols: Vec<String>,
    section: bool,
}
impl Model {
    fn new(x: &ExpScript) -> Model {
        let cols = x.events_format.clone().unwrap_or_else(|| gen::EVENT_COLS.iter().map(|s| s.to_string()).collect());
        let mut m = Model { gaps: vec![], evs: vec![], cols, section: false };
        let mut at = 0;
        for s in &x.sections {
            if let ExpSection::Events(v) = s {
                m.section = true;
                for it in v {
                    let line = x.text[it.start..it.end].trim_end();
                    m.gaps.push(x.text[at..it.start].to_string());
                    m.evs.push(Ev::read(line, &m.cols));
                    at = it.start + line.len();
                }
            }
        }
        m.gaps.push(x.text[at..].to_string());
        m
    }
    fn text(&self) -> String {
        let mut s = String::new();
        for (g, e) in self.gaps.iter().zip(&self.evs) {
            s += g;
            s += &e.line();
        }
        s + self.gaps.last().unwrap()
    }
    /// White space at the end of an event belongs to the gap after it.
    fn settle(&mut self) {
        for i in 0..self.evs.len() {
            let l = self.evs[i].line();
            let t = l.trim_end();
            if t.len() != l.len() {
                self.gaps[i + 1].insert_str(0, &l[t.len()..]);
            }
            self.evs[i] = Ev::read(t, &self.cols);
        }
    }
    fn remove(&mut self, i: usize) {
        self.evs.remove(i);
        let after = self.gaps.remove(i + 1);
        let before = &mut self.gaps[i];
        let k = before.rfind('\n').map_or(0, |n| n + 1);
        if before[k..].trim().is_empty() {
            before.truncate(k);
        }
        *before += after.split_once('\n').map_or("", |x| x.1);
    }
    fn at(&self, i: usize) -> Option<&Ev> {
        self.evs.get(i)
    }
}

fn cs(s: &str) -> Option<u32> {
    // H:MM:SS.CC as the generator and the commands write it
    let p: Vec<&str> = s.split([':', '.']).collect();
    if p.len() != 4 {
        return None;
    }
    let n: Vec<u64> = p.iter().filter_map(|x| x.parse().ok()).collect();
    if n.len() != 4 {
        return None;
    }
    u32::try_from(n[0] * 360_000 + n[1] * 6000 + n[2] * 100 + n[3]).ok()
}
fn text_value(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => gen::event_text(r),
        2 => r.pick(&["a,b", "x\ny", "(1,2)", "é", "Fade(255,0)", "Banner;1;2", "\r", "f(", "),", " pad "]).to_string(),
        _ => gen::word(r),
    }
}
fn indices(r: &mut Rng, n: usize) -> Vec<usize> {
    (0..r.below(4)).map(|_| r.below(n + 2)).collect()
}

const FIELDS: [(&str, &str); 10] = [
    ("layer", "Layer"),
    ("start", "Start"),
    ("end", "End"),
    ("style", "Style"),
    ("name", "Name"),
    ("margin_l", "MarginL"),
    ("margin_r", "MarginR"),
    ("margin_v", "MarginV"),
    ("effect", "Effect"),
    ("text", "Text"),
];

fn commands(cx: &mut Cx) -> R {
    let mut o = Opts::random(&mut cx.rng);
    o.max_items = 5;
    o.bad_lines = cx.rng.pct(15);
    let x = gen::script(&mut cx.rng, o);
    cx.set_input(x.text.clone());
    let mut m = Model::new(&x);
    ensure!(m.text() == x.text, "model", "");
    let mut d = EditorDocument::from_content(&x.text).map_err(|e| Fail { sig: "content-refused".into(), detail: e.to_string() })?;
    let steps = cx.rng.u(1, 8);
    for _ in 0..steps {
        m.settle();
        let before = m.text();
        let n = m.evs.len();
        let i = cx.rng.below(n + 1);
        let all: Vec<usize> = (0..n).collect();
        let idx = indices(&mut cx.rng, n);
        let chosen: Vec<usize> = if idx.is_empty() { all.clone() } else { all.iter().copied().filter(|k| idx.contains(k)).collect() };
        let mut want: Option<Model> = m.section.then(|| m.clone());
        let fluent = cx.rng.bool();
        let op = cx.rng.below(11);
        let mut log = format!("op {op} event {i} of {n} {idx:?} ");
        let run = |d: &mut EditorDocument, c: &dyn EditorCommand, direct: bool| -> Result<Option<CommandResult>, EditorError> {
            if direct {
                c.execute(d).map(Some)
            } else {
                d.execute_command(c).map(Some)
            }
        };
        // several edits made by a bare execute are undone one by one: not used for refusals
        let res: Result<Option<CommandResult>, EditorError> = match op {
            0 => {
                let t = match m.at(i).map(|e| (cs(e.get(&m.cols, "Start").unwrap_or("")), cs(e.get(&m.cols, "End").unwrap_or("")))) {
                    Some((Some(a), Some(b))) if cx.rng.pct(80) => {
                        let (a, b) = (a.min(b), a.max(b));
                        let t = match cx.rng.below(6) {
                            0 => a,
                            1 => b,
                            2 => a.saturating_sub(1),
                            3 => b.saturating_add(1),
                            _ => a + cx.rng.below((b - a).max(1) as usize) as u32,
                        };
                        gen::time_str(t)
                    }
                    _ => cx.rng.pick(&["", "abc", "0:00:01.00", "1:00"]).to_string(),
                };
                log += &t;
                want = want.and_then(|mut w| {
                    let e = w.at(i)?.clone();
                    let (a, b, c) = (cs(e.get(&w.cols, "Start")?)?, cs(e.get(&w.cols, "End")?)?, cs(&t)?);
                    if c <= a || c >= b {
                        return None;
                    }
                    let one = e.with(&w.cols, &[("End", t.clone())])?;
                    let two = e.with(&w.cols, &[("Start", t.clone())])?;
                    w.evs[i] = one;
                    w.evs.insert(i + 1, two);
                    w.gaps.insert(i + 1, "\n".into());
                    Some(w)
                });
                if fluent {
                    d.events().split(i, &t).map(|_| None)
                } else {
                    let direct = cx.rng.bool();
                    run(&mut d, &SplitEventCommand::new(i, t), direct)
                }
            }
            1 => {
                let j = if cx.rng.pct(80) { i + 1 + cx.rng.below(2) } else { cx.rng.below(n + 2) };
                let sep = cx.rng.pick(&[" ", "\\N", "", " | ", "日", ",", "\n"]).to_string();
                log += &format!("with {j} by {sep:?}");
                want = want.and_then(|mut w| {
                    if i >= j {
                        return None;
                    }
                    let (a, b) = (w.at(i)?.clone(), w.at(j)?.clone());
                    let t = format!("{}{sep}{}", a.get(&w.cols, "Text")?, b.get(&w.cols, "Text")?);
                    w.evs[i] = a.with(&w.cols, &[("End", b.get(&w.cols, "End")?.to_string()), ("Text", t)])?;
                    w.remove(j);
                    Some(w)
                });
                if fluent {
                    d.events().merge(i, j).with_separator(&sep).apply().map(|_| None)
                } else {
                    run(&mut d, &MergeEventsCommand::new(i, j).with_separator(sep), false)
                }
            }
            2 | 3 => {
                let off = |r: &mut Rng| match r.below(6) {
                    0 => 0,
                    1 => i32::MAX - r.below(3) as i32,
                    2 => i32::MIN + r.below(3) as i32,
                    _ => r.range(-5000, 5000) as i32,
                };
                let (a, b) = (off(&mut cx.rng), off(&mut cx.rng));
                let b = if cx.rng.bool() { a } else { b };
                let scale = (op == 3).then(|| *cx.rng.pick(&[0.5, 2.0, 1.0, 0.0, 1.25, 3.0]));
                log += &format!("by {a} {b} {scale:?}");
                want = want.and_then(|mut w| {
                    for &k in &chosen {
                        let e = w.evs[k].clone();
                        let (Some(s), Some(t)) = (e.get(&w.cols, "Start").and_then(cs), e.get(&w.cols, "End").and_then(cs)) else { continue };
                        let (s, t) = (i64::from(s), i64::from(t));
                        let (ns, nt) = match scale {
                            Some(f) => (s, s + ((t - s).max(0) as f64 * f).round() as i64),
                            None => (s + i64::from(a), t + i64::from(b)),
                        };
                        let last = i64::from(u32::MAX - 1);
                        let ns = ns.clamp(0, last);
                        let nt = nt.clamp(0, last).max(ns + 1);
                        w.evs[k] = e.with(&w.cols, &[("Start", gen::time_str(ns as u32)), ("End", gen::time_str(nt as u32))])?;
                    }
                    Some(w)
                });
                let c = match scale {
                    Some(f) => TimingAdjustCommand::scale_duration(idx.clone(), f),
                    None => TimingAdjustCommand::new(idx.clone(), a, b),
                };
                if fluent {
                    let t = d.events().timing().events(idx.clone());
                    match scale {
                        Some(f) => t.scale_duration(f),
                        None if a == b => t.shift(a),
                        None if b == 0 => t.shift_start(a),
                        None if a == 0 => t.shift_end(b),
                        None => t.adjust(a, b),
                    }
                    .map(|_| None)
                } else {
                    run(&mut d, &c, false)
                }
            }
            4 => {
                if let Some(w) = &mut want {
                    for &k in &chosen {
                        let e = &mut w.evs[k];
                        let to = match e.kind.as_str() {
                            "Dialogue" => "Comment",
                            "Comment" => "Dialogue",
                            _ => continue,
                        };
                        e.head = e.head.replacen(&e.kind, to, 1);
                        e.kind = to.into();
                    }
                }
                if fluent {
                    d.events().toggle_type().events(idx.clone()).apply().map(|_| None)
                } else {
                    run(&mut d, &ToggleEventTypeCommand::new(idx.clone()), false)
                }
            }
            5 | 6 => {
                let v = text_value(&mut cx.rng);
                let k = cx.rng.below(4);
                log += &format!("effect {k} {v:?}");
                want = want.and_then(|mut w| {
                    for &e in &chosen {
                        let old = w.evs[e].get(&w.cols, "Effect")?.to_string();
                        let new = match k {
                            0 => v.clone(),
                            1 => String::new(),
                            _ if old.is_empty() => v.clone(),
                            2 => format!("{old} {v}"),
                            _ => format!("{v} {old}"),
                        };
                        w.evs[e] = w.evs[e].with(&w.cols, &[("Effect", new)])?;
                    }
                    Some(w)
                });
                let opk = [EffectOperation::Set, EffectOperation::Clear, EffectOperation::Append, EffectOperation::Prepend][k].clone();
                if fluent && k != 1 {
                    let e = d.events().effects().events(idx.clone());
                    match k {
                        0 => e.set(&v),
                        2 => e.append(&v),
                        _ => e.prepend(&v),
                    }
                    .map(|_| None)
                } else if fluent {
                    d.events().effects().events(idx.clone()).clear().map(|_| None)
                } else {
                    run(&mut d, &EventEffectCommand::new(idx.clone(), v, opk), false)
                }
            }
            7 => {
                want = want.and_then(|mut w| {
                    w.at(i)?;
                    w.remove(i);
                    Some(w)
                });
                if fluent {
                    d.events().delete(i).map(|_| None)
                } else {
                    run(&mut d, &DeleteEventCommand::new(i), false)
                }
            }
            8 => {
                if let Some(w) = &mut want {
                    for k in (0..n).rev().filter(|k| idx.contains(k)) {
                        w.remove(k);
                    }
                } else if idx.is_empty() {
                    want = Some(m.clone());
                }
                match (fluent, cx.rng.bool()) {
                    (true, true) => d.events().delete_query().by_indices(idx.clone()).execute().map(|_| None),
                    (true, false) => d.events().delete_multiple(idx.clone()).map(|_| None),
                    _ => run(&mut d, &BatchDeleteEventsCommand::new(idx.clone()), false),
                }
            }
            9 => {
                let mut ch: Vec<(&'static str, String)> = vec![];
                for _ in 0..cx.rng.below(4) {
                    let (f, c) = *cx.rng.pick(&FIELDS);
                    let v = if cx.rng.bool() { gen::col_value(&mut cx.rng, c) } else { text_value(&mut cx.rng) };
                    ch.push((f, v));
                }
                if cx.rng.pct(5) {
                    ch.push(("colour", "x".into()));
                }
                log += &format!("{ch:?}");
                want = want.and_then(|mut w| {
                    let mut c = vec![];
                    for (f, v) in &ch {
                        c.push((FIELDS.iter().find(|x| x.0 == *f)?.1, v.clone()));
                    }
                    w.evs[i] = w.at(i)?.with(&w.cols, &c)?;
                    Some(w)
                });
                let mut seen = None;
                let r = d.edit_event_by_index(i, |e| {
                    seen = Some((e.event_type.as_str().to_string(), e.start.to_string(), e.style.to_string()));
                    ch
                });
                if let (Some(e), Some((k, s, st))) = (m.at(i), &seen) {
                    let g = |c: &str| e.get(&m.cols, c).unwrap_or("").to_string();
                    ensure!((&e.kind, &g("Start"), &g("Style")) == (k, s, st), "wrong-event", "{log}: callback saw {seen:?}\n{before:?}");
                }
                if let (Ok(l), Some(w)) = (&r, &want) {
                    ensure!(*l == w.evs[i].line(), "returned-line", "{log}: {l:?}, expected {:?}", w.evs[i].line());
                }
                r.map(|_| None)
            }
            _ => {
                let (t, st, sp) = (text_value(&mut cx.rng).replace(['\n', '\r', ','], ""), gen::word(&mut cx.rng), gen::word(&mut cx.rng));
                let lay = cx.rng.below(50) as u32;
                let mask = cx.rng.below(16);
                let cols = m.cols.clone();
                log += &format!("builder {t:?} {st} {sp} {lay} mask {mask}");
                want = want.and_then(|mut w| {
                    if cols.iter().any(|c| c == "Xtra") {
                        return None;
                    }
                    let e = w.at(i)?;
                    let vals: Vec<String> = cols
                        .iter()
                        .map(|c| match c.as_str() {
                            "Text" if mask & 1 > 0 => t.clone(),
                            "Style" if mask & 2 > 0 => st.clone(),
                            "Name" | "Actor" if mask & 4 > 0 => sp.clone(),
                            "Layer" if mask & 8 > 0 => lay.to_string(),
                            c => e.get(&cols, c).unwrap_or("").to_string(),
                        })
                        .collect();
                    w.evs[i] = Ev { kind: e.kind.clone(), head: format!("{}: ", e.kind), raw: vals };
                    Some(w)
                });
                d.edit_event_with_builder(i, |b| {
                    let b = if mask & 1 > 0 { b.text(t) } else { b };
                    let b = if mask & 2 > 0 { b.style(st) } else { b };
                    let b = if mask & 4 > 0 { b.speaker(sp) } else { b };
                    if mask & 8 > 0 {
                        b.layer(lay)
                    } else {
                        b
                    }
                })
                .map(|_| None)
            }
        };
        let got = d.text();
        match want {
            None => {
                ensure!(res.is_err(), "bad-command-accepted", "{log}\n{before:?}\nbecame {got:?}");
                ensure!(got == before, "refused-changed-text", "{log}\n{before:?}\nbecame {got:?}");
                cx.obs("refused", 1);
            }
            Some(w) => {
                ensure!(res.is_ok(), "command-refused", "{log}: {:?}\n{before:?}", res.err());
                let t = w.text();
                ensure!(got == t, "command-text", "{log}\nbefore {before:?}\nafter  {got:?}\nwanted {t:?}");
                if let Ok(Some(r)) = &res {
                    ensure!(r.success, "not-success", "{log}");
                    ensure!(!(got != before && !r.content_changed), "change-not-reported", "{log} {r:?}");
                    if let Some(mr) = r.modified_range {
                        ensure!(mr.start <= mr.end && mr.end.offset <= got.len(), "modified-range", "{log} {mr:?} of {}", got.len());
                        // nothing changed outside the reported range
                        let tail = got.len() - mr.end.offset;
                        let head = mr.start.offset;
                        ensure!(got.as_bytes()[..head] == before.as_bytes()[..head.min(before.len())], "modified-range-start", "{log} {mr:?}\n{before:?}\n{got:?}");
                        ensure!(tail <= before.len() && (op == 1 || op == 8 || got.as_bytes()[got.len() - tail..] == before.as_bytes()[before.len() - tail..]), "modified-range-end", "{log} {mr:?}\n{before:?}\n{got:?}");
                    }
                }
                cx.obs("applied", 1);
                const NAMES: [&str; 11] = ["splits", "merges", "shifts", "scales", "toggles", "effects", "effects", "deletes", "batch_deletes", "field_edits", "builder_edits"];
                if got != before {
                    cx.obs(NAMES[op], 1);
                    if !res.as_ref().is_ok_and(|r| r.is_some()) && d.can_undo() {
                        // fluent calls and edits are one undoable step
                        ensure!(d.undo().is_ok() && d.text() == before, "undo-command", "{log}\n{before:?}\n{:?}", d.text());
                        ensure!(d.redo().is_ok() && d.text() == got, "redo-command", "{log}");
                    }
                }
                m = w;
            }
        }
        cx.state(&(op, m.evs.len(), got.len()));
        // the parser splits an effect at its commas, the commands do not
        if m.evs.iter().any(|e| e.get(&m.cols, "Effect").is_some_and(|v| v.contains(','))) {
            cx.obs("effects_with_comma", 1);
            return Ok(());
        }
    }
    // what the parser reads agrees with the model
    m.settle();
    let got = d.events().all().map_err(|e| Fail { sig: "query".into(), detail: e.to_string() })?;
    ensure!(got.len() == m.evs.len(), "event-count", "{} events, model {}\n{:?}", got.len(), m.evs.len(), d.text());
    {
        for (g, e) in got.iter().zip(&m.evs) {
            ensure!(g.event.text == e.get(&m.cols, "Text").unwrap_or("") && g.event.start == e.get(&m.cols, "Start").unwrap_or(""), "event-read-back", "{g:?}\n{e:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- queries

fn items(x: &ExpScript) -> Vec<ExpItem> {
    x.sections.iter().filter_map(|s| if let ExpSection::Events(v) = s { Some(v.clone()) } else { None }).flatten().collect()
}

fn queries(cx: &mut Cx) -> R {
    let mut o = Opts::random(&mut cx.rng);
    o.max_items = 10;
    let x = gen::script(&mut cx.rng, o);
    cx.set_input(x.text.clone());
    let mut d = EditorDocument::from_content(&x.text).map_err(|e| Fail { sig: "content-refused".into(), detail: e.to_string() })?;
    let evs = items(&x);
    for _ in 0..3 {
        let mut f = EventFilter::default();
        let r = &mut cx.rng;
        let pat = |r: &mut Rng, col: &str| -> String {
            let v = if evs.is_empty() || r.pct(20) { gen::word(r) } else { r.pick(&evs).get(col).unwrap_or("").to_string() };
            let rg = gen::boundary_range(r, &v, 6);
            let s = if r.bool() { v[rg].to_string() } else { v };
            match r.below(3) {
                0 => s.to_uppercase(),
                1 => s.to_lowercase(),
                _ => s,
            }
        };
        if r.pct(30) {
            f.event_type = Some(*r.pick(&[EventType::Dialogue, EventType::Comment, EventType::Picture]));
        }
        if r.pct(25) {
            f.style_pattern = Some(pat(r, "Style"));
        }
        if r.pct(20) {
            f.speaker_pattern = Some(pat(r, "Name"));
        }
        if r.pct(25) {
            f.text_pattern = Some(pat(r, "Text"));
        }
        if r.pct(15) {
            f.effect_pattern = Some(pat(r, "Effect"));
        }
        if r.pct(15) {
            f.layer = Some(r.below(12) as u32);
        }
        if r.pct(25) {
            let a = r.below(4_000_000) as u32;
            f.time_range = Some((a, *r.pick(&[u32::MAX, a, 4_000_000, a.saturating_add(2_000_000)])));
        }
        f.case_sensitive = r.bool();
        let regex = r.pct(20);
        f.use_regex = regex;
        if regex {
            // literal patterns, sometimes with a class around them
            for p in [&mut f.style_pattern, &mut f.speaker_pattern, &mut f.text_pattern, &mut f.effect_pattern] {
                if let Some(s) = p {
                    *s = s.chars().map(|c| if c.is_alphanumeric() { c.to_string() } else { ".".into() }).collect();
                }
            }
        }
        let matches = |v: &str, p: &Option<String>| -> bool {
            let Some(p) = p else { return true };
            if regex {
                return regex::RegexBuilder::new(p).case_insensitive(!f.case_sensitive).build().unwrap().is_match(v);
            }
            if f.case_sensitive {
                v.contains(p.as_str())
            } else {
                v.to_lowercase().contains(&p.to_lowercase())
            }
        };
        let g = |e: &ExpItem, c: &str| e.get(c).unwrap_or("").trim().to_string();
        let mut want: Vec<usize> = (0..evs.len())
            .filter(|&i| {
                let e = &evs[i];
                let (s, t) = (cs(&g(e, "Start")), cs(&g(e, "End")));
                f.event_type.is_none_or(|k| k.as_str() == e.kind)
                    && matches(&g(e, "Style"), &f.style_pattern)
                    && matches(&g(e, "Name"), &f.speaker_pattern)
                    && matches(&g(e, "Text"), &f.text_pattern)
                    && matches(&g(e, "Effect"), &f.effect_pattern)
                    && f.layer.is_none_or(|l| g(e, "Layer").parse() == Ok(l))
                    && f.time_range.is_none_or(|(a, b)| matches!((s, t), (Some(s), Some(t)) if s >= a && t <= b))
            })
            .collect();
        let r = &mut cx.rng;
        let sort = r.pct(60).then(|| {
            let c = |r: &mut Rng| {
                r.pick(&[
                    EventSortCriteria::StartTime,
                    EventSortCriteria::EndTime,
                    EventSortCriteria::Duration,
                    EventSortCriteria::Style,
                    EventSortCriteria::Speaker,
                    EventSortCriteria::Layer,
                    EventSortCriteria::Index,
                    EventSortCriteria::Text,
                ])
                .clone()
            };
            EventSortOptions { criteria: c(r), secondary: r.bool().then(|| c(r)), ascending: r.bool() }
        });
        let limit = r.pct(30).then(|| r.below(6));
        #[derive(PartialEq, Eq, PartialOrd, Ord)]
        enum Key {
            N(u64),
            S(String),
        }
        let key = |i: usize, c: &EventSortCriteria| {
            let e = &evs[i];
            let t = |c: &str| u64::from(cs(&g(e, c)).unwrap_or(0));
            match c {
                EventSortCriteria::StartTime => Key::N(t("Start")),
                EventSortCriteria::EndTime => Key::N(t("End")),
                EventSortCriteria::Duration => Key::N(t("End").saturating_sub(t("Start"))),
                EventSortCriteria::Style => Key::S(g(e, "Style")),
                EventSortCriteria::Speaker => Key::S(g(e, "Name")),
                EventSortCriteria::Layer => Key::N(g(e, "Layer").parse::<u32>().unwrap_or(0).into()),
                EventSortCriteria::Index => Key::N(i as u64),
                EventSortCriteria::Text => Key::S(g(e, "Text")),
            }
        };
        if let Some(s) = &sort {
            want.sort_by(|&a, &b| {
                let mut o = key(a, &s.criteria).cmp(&key(b, &s.criteria));
                if let Some(x) = &s.secondary {
                    o = o.then(key(a, x).cmp(&key(b, x)));
                }
                if s.ascending {
                    o
                } else {
                    o.reverse()
                }
            });
        }
        let unlimited = want.len();
        if let Some(l) = limit {
            want.truncate(l);
        }
        let mut q = d.events().query();
        q = if r.bool() {
            q.filter(f.clone())
        } else {
            // the same filter through its builder
            if let Some(k) = f.event_type {
                q = q.filter_by_type(k);
            }
            if let Some(p) = &f.style_pattern {
                q = q.filter_by_style(p);
            }
            if let Some(p) = &f.speaker_pattern {
                q = q.filter_by_speaker(p);
            }
            if let Some(p) = &f.text_pattern {
                q = q.filter_by_text(p);
            }
            if let Some(p) = &f.effect_pattern {
                q = q.filter_by_effect(p);
            }
            if let Some(l) = f.layer {
                q = q.filter_by_layer(l);
            }
            if let Some((a, b)) = f.time_range {
                q = q.filter_by_time_range(a, b);
            }
            q.with_regex(f.use_regex).case_sensitive(f.case_sensitive)
        };
        if let Some(s) = &sort {
            q = q.sort_by(s.clone());
        }
        if let Some(l) = limit {
            q = if r.bool() { q.limit(l) } else { q.take(l) };
        }
        let log = format!("{f:?} {sort:?} {limit:?}");
        let how = r.below(4);
        let got: Result<Vec<usize>, EditorError> = match how {
            0 => q.indices(),
            1 => q.with_indices().map(|v| v.into_iter().map(|x| x.0).collect()),
            2 => {
                let n = q.count().unwrap_or(usize::MAX);
                ensure!(n == want.len(), "query-count", "{n}, expected {want:?} for {log}");
                Ok(want.clone())
            }
            _ => q.execute().map(|v| v.into_iter().map(|x| x.index).collect()),
        };
        ensure!(got.as_ref().ok() == Some(&want), "query-result", "{got:?}, expected {want:?} for {log}");
        cx.obs("queries", 1);
        cx.obs("selected", want.len() as u64);
        cx.obs("not_selected", (evs.len() - unlimited) as u64);
        cx.obs("sorted", u64::from(sort.is_some() && want.len() > 1));
        if regex {
            cx.obs("regex_queries", 1);
        }
        cx.state(&(log, want));
    }
    // single events and counts
    let all = d.events().all().map_err(|e| Fail { sig: "query".into(), detail: e.to_string() })?;
    ensure!(all.len() == evs.len() && d.events().count().ok() == Some(evs.len()) && d.events_count().ok() == Some(evs.len()), "count", "{} events, expected {}", all.len(), evs.len());
    let opt = |e: &ExpItem, c: &str| e.get(c).map(|v| v.trim().to_string());
    for (i, e) in evs.iter().enumerate() {
        let check = |g: &EventInfo| -> R {
            let w = |c: &str| opt(e, c).unwrap_or_default();
            ensure!(g.index == i && g.event.event_type.as_str() == e.kind, "event-identity", "{g:?} {e:?}");
            let v = &g.event;
            for (c, x) in [
                ("Layer", &v.layer),
                ("Start", &v.start),
                ("End", &v.end),
                ("Style", &v.style),
                ("Name", &v.name),
                ("MarginL", &v.margin_l),
                ("MarginR", &v.margin_r),
                ("MarginV", &v.margin_v),
                ("Effect", &v.effect),
                ("Text", &v.text),
            ] {
                ensure!(*x == w(c), "event-column", "{c} of event {i} is {x:?}, expected {:?}", w(c));
            }
            ensure!(v.margin_t == opt(e, "MarginT") && v.margin_b == opt(e, "MarginB"), "event-column", "{v:?} {e:?}");
            ensure!(g.line_number == e.line as usize, "event-line-number", "event {i} on line {}, expected {}", g.line_number, e.line);
            let line = x.text[e.start..e.end].trim_end();
            ensure!(g.range.start.offset == e.start && g.range.end.offset == e.start + line.len(), "event-range", "event {i} at {:?}, expected {}..{}", g.range, e.start, e.start + line.len());
            Ok(())
        };
        check(&all[i])?;
        match d.events().get(i) {
            Ok(Some(g)) => check(&g)?,
            x => return fail("event-missing", format!("{i} of {}: {x:?}", evs.len())),
        }
        let a = d.events().event(i).text().ok().flatten();
        ensure!(a == Some(opt(e, "Text").unwrap_or_default()), "accessor", "{a:?} {e:?}");
        let tm = d.events().event(i).timing().ok().flatten();
        ensure!(tm == Some((opt(e, "Start").unwrap_or_default(), opt(e, "End").unwrap_or_default())), "accessor", "{tm:?} {e:?}");
        cx.obs("events_described", 1);
    }
    ensure!(matches!(d.events().get(evs.len()), Ok(None)) && d.events().event(evs.len()).exists().ok() == Some(false), "event-beyond", "");
    // deleting what a query selects
    let k = cx.rng.below(5);
    let word = if evs.is_empty() { "a".to_string() } else { cx.rng.pick(&evs).get("Style").unwrap_or("").to_string() };
    let (a, b) = (cx.rng.below(2_000_000) as u32, 3_000_000);
    let del: Vec<usize> = (0..evs.len())
        .filter(|&i| {
            let e = &evs[i];
            match k {
                0 => e.kind == "Dialogue",
                1 => e.kind == "Comment",
                2 => matches!((cs(e.get("Start").unwrap_or("")), cs(e.get("End").unwrap_or(""))), (Some(s), Some(t)) if s >= a && t <= b),
                3 => e.get("Style").unwrap_or("").trim().to_lowercase().contains(&word.to_lowercase()),
                _ => true,
            }
        })
        .collect();
    if !evs.is_empty() {
        let q = d.events().delete_query();
        let res = match k {
            0 => q.dialogues(),
            1 => q.comments(),
            2 => q.in_time_range(a, b),
            3 => q.with_style(&word),
            _ => q.all(),
        };
        ensure!(res.is_ok(), "delete-query", "{:?}", res.err());
        let left: Vec<(String, String)> = d.events().all().unwrap_or_default().into_iter().map(|e| (e.event.event_type.as_str().to_string(), e.event.text)).collect();
        let want: Vec<(String, String)> = (0..evs.len()).filter(|i| !del.contains(i)).map(|i| (evs[i].kind.clone(), opt(&evs[i], "Text").unwrap_or_default())).collect();
        ensure!(left == want, "delete-query", "kind {k} left {left:?}\nexpected {want:?}");
        cx.obs("deleted_by_query", del.len() as u64);
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "E03",
            rule: "a distinct case is a distinct (command, number of events, resulting length) reached by a sequence of event commands on one document",
            assumptions: &["An effect may contain commas inside parentheses, as the existing tests fix.", "A value that would break its column or line is refused."],
            monitors: vec![mon("commands", 120_000, 2_000_000, commands)],
            must_observe: &["splits", "merges", "shifts", "scales", "toggles", "effects", "deletes", "batch_deletes", "field_edits", "builder_edits", "refused"],
        },
        Property {
            id: "E06",
            rule: "a distinct case is a distinct filter, order and selection of events",
            assumptions: &["A time range selects the events that lie inside it."],
            monitors: vec![mon("queries", 120_000, 2_000_000, queries)],
            must_observe: &["queries", "selected", "not_selected", "sorted", "regex_queries", "events_described", "deleted_by_query"],
        },
    ]
}
