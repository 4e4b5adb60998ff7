//! C13 line-level edits of a parsed script, C14 incremental / partial / streaming.
use ass_core::parser::ast::{Section, SectionType, Span};
use ass_core::parser::incremental::{adjust_range_for_change, calculate_line_number, calculate_line_range, find_section_end, find_section_header_start, TextChange};
use ass_core::parser::script::{Change, EventBatch, LineContent, StyleBatch, UpdateOperation};
use ass_core::parser::streaming::{build_modified_source, DeltaBatch, LineProcessor, ParseDelta, ParserState, SectionKind, StreamingParser};
use ass_core::parser::{calculate_delta, Event, ParseError, Script, Style};
use hcommon::gen::{self, Opts};
use hcommon::*;

fn style_str(s: &Style) -> String {
    let mut s = s.clone();
    s.span = Span::new(0, 0, 0, 0);
    format!("{s:?}")
}
fn event_str(e: &Event) -> String {
    let mut e = e.clone();
    e.span = Span::new(0, 0, 0, 0);
    format!("{e:?}")
}
fn field_str(k: &str, v: &str) -> String {
    format!("{k:?}={v:?}")
}
fn line_str(l: &LineContent) -> String {
    match l {
        LineContent::Style(s) => style_str(s),
        LineContent::Event(e) => event_str(e),
        LineContent::Field(k, v) => field_str(k, v),
    }
}
type Place = Option<(usize, usize)>;
#[derive(Clone, PartialEq, Debug)]
struct MSec {
    kind: SectionType,
    place: Place,
    /// content, first and last offset
    items: Vec<(String, Place)>,
}
fn placed(s: Span) -> Place {
    (s.start < s.end).then_some((s.start, s.end))
}
fn look(s: &Section) -> MSec {
    let items = match s {
        Section::ScriptInfo(i) => i.fields.iter().map(|(k, v)| (field_str(k, v), None)).collect(),
        Section::Styles(v) => v.iter().map(|x| (style_str(x), placed(x.span))).collect(),
        Section::Events(v) => v.iter().map(|x| (event_str(x), placed(x.span))).collect(),
        Section::Fonts(v) => v.iter().map(|x| (format!("{:?} {:?}", x.filename, x.data_lines), placed(x.span))).collect(),
        Section::Graphics(v) => v.iter().map(|x| (format!("{:?} {:?}", x.filename, x.data_lines), placed(x.span))).collect(),
    };
    MSec { kind: s.section_type(), place: s.span().and_then(placed), items }
}
fn look_all(s: &Script) -> Vec<MSec> {
    s.sections().iter().map(look).collect()
}

/// What a line says, decided by parsing a one-line file (checked by C02).
#[derive(Clone, Debug, PartialEq)]
enum MLine {
    Style(String),
    Event(String),
    Field(String, String),
    Bad,
}
const STD_STYLE: &str = "Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding";
const STD_EVENT: &str = "Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text";
const EVENT_KINDS: [&str; 6] = ["Dialogue:", "Comment:", "Picture:", "Sound:", "Movie:", "Command:"];
fn read_line(line: &str, sf: &Option<Vec<String>>, ef: &Option<Vec<String>>) -> MLine {
    let t = line.trim();
    let join = |f: &Option<Vec<String>>, d: &str| f.as_ref().map_or(d.to_string(), |v| v.join(", "));
    if t.starts_with("Style:") {
        let doc = format!("[V4+ Styles]\nFormat: {}\n{t}\n", join(sf, STD_STYLE));
        let s = Script::parse(&doc).unwrap();
        match s.sections().first() {
            Some(Section::Styles(v)) if v.len() == 1 => MLine::Style(style_str(&v[0])),
            _ => MLine::Bad,
        }
    } else if EVENT_KINDS.iter().any(|k| t.starts_with(k)) {
        let doc = format!("[Events]\nFormat: {}\n{t}\n", join(ef, STD_EVENT));
        let s = Script::parse(&doc).unwrap();
        match s.sections().first() {
            Some(Section::Events(v)) if v.len() == 1 => MLine::Event(event_str(&v[0])),
            _ => MLine::Bad,
        }
    } else if t.starts_with("Format:") {
        MLine::Bad
    } else if let Some((k, v)) = t.split_once(':') {
        MLine::Field(k.trim().into(), v.trim().into())
    } else {
        MLine::Bad
    }
}

#[derive(Clone, Debug)]
enum Op {
    Update(usize, String, u32),
    Batch(Vec<(usize, String, u32)>),
    Atomic(Vec<(usize, String, u32)>, Option<Vec<String>>, Option<Vec<String>>),
    AddStyle(String),
    AddEvent(String),
    AddStyles(Vec<String>),
    AddEvents(Vec<String>),
    AddSection(usize),
    RemoveSection(usize),
    Track(bool),
    Clear,
    StyleFormat(Vec<String>),
    EventFormat(Vec<String>),
}

#[derive(Clone, PartialEq, Debug)]
enum MChange {
    Modified(usize, String, String, u32),
    Added(usize, String, u32),
    SecAdded(SectionType, usize, usize),
    SecRemoved(SectionType, usize),
}
#[derive(Clone)]
struct Model {
    secs: Vec<MSec>,
    sf: Option<Vec<String>>,
    ef: Option<Vec<String>>,
    log: Vec<MChange>,
    on: bool,
}
impl Model {
    fn at(&self, off: usize) -> Option<usize> {
        self.secs.iter().position(|s| s.place.is_some_and(|(a, b)| a <= off && off < b))
    }
    fn record(&mut self, c: MChange) {
        if self.on {
            self.log.push(c);
        }
    }
    /// Old content, or why not.
    fn update(&mut self, off: usize, line: &str, ln: u32) -> Result<String, &'static str> {
        let i = self.at(off).ok_or("section")?;
        let (kind, new) = match read_line(line, &self.sf, &self.ef) {
            MLine::Style(s) => (SectionType::Styles, s),
            MLine::Event(s) => (SectionType::Events, s),
            MLine::Field(k, v) => {
                if self.secs[i].kind != SectionType::ScriptInfo {
                    return Err("kind");
                }
                let pre = format!("{k:?}=");
                let new = field_str(&k, &v);
                if let Some(f) = self.secs[i].items.iter_mut().find(|f| f.0.starts_with(&pre)) {
                    let old = std::mem::replace(&mut f.0, new.clone());
                    self.record(MChange::Modified(off, old.clone(), new, ln));
                    return Ok(old);
                }
                self.secs[i].items.push((new.clone(), None));
                self.record(MChange::Added(off, new, ln));
                return Ok(field_str(&k, ""));
            }
            MLine::Bad => return Err("line"),
        };
        if self.secs[i].kind != kind {
            return Err("kind");
        }
        let it = self.secs[i].items.iter_mut().find(|x| x.1.is_some_and(|(a, b)| a <= off && off < b)).ok_or("element")?;
        let old = std::mem::replace(&mut it.0, new.clone());
        self.record(MChange::Modified(off, old.clone(), new, ln));
        Ok(old)
    }
    fn add(&mut self, kind: SectionType, items: &[String]) -> Vec<usize> {
        let new = items.iter().map(|s| (s.clone(), None));
        if let Some(s) = self.secs.iter_mut().find(|s| s.kind == kind) {
            let n = s.items.len();
            s.items.extend(new);
            (n..s.items.len()).collect()
        } else {
            self.secs.push(MSec { kind, place: None, items: new.collect() });
            (0..items.len()).collect()
        }
    }
}

fn style_line(r: &mut Rng, cols: &[String]) -> String {
    let mut v: Vec<String> = cols.iter().map(|c| gen::col_value(r, c).replace(['\n', ','], "")).collect();
    if r.pct(8) {
        v.truncate(r.below(v.len() + 1));
    }
    format!("Style: {}", v.join(","))
}
fn event_line(r: &mut Rng, cols: &[String]) -> String {
    let n = cols.len();
    let mut v: Vec<String> = cols
        .iter()
        .map(|c| if c.eq_ignore_ascii_case("text") { gen::event_text(r) } else { gen::col_value(r, c).replace(',', "") })
        .map(|s| s.replace('\n', " "))
        .collect();
    if r.pct(8) {
        v.truncate(r.below(n + 1));
    }
    format!("{} {}", r.pick(&EVENT_KINDS), v.join(","))
}
fn any_line(r: &mut Rng, sc: &[String], ec: &[String]) -> String {
    let s = match r.below(20) {
        0..=6 => style_line(r, sc),
        7..=13 => event_line(r, ec),
        14..=17 => format!("{}: {}", r.pick(&["Title", "PlayResX", "WrapStyle", "New Key", "Original Script", "Collisions"]), gen::word(r)),
        18 => "Format: Name, Fontname".into(),
        _ => "no such line".into(),
    };
    if r.pct(10) { format!("  {s}\t") } else { s }
}

fn edits(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut o = Opts::random(r);
    o.unknown_cols = false;
    o.max_items = r.u(1, 6);
    let e = gen::script(r, o);
    let text = e.text;
    let script = match Script::parse(&text) {
        Ok(s) => s,
        Err(e) => return fail("parse-error", format!("{e}")),
    };
    let own = |f: Option<&[&str]>| f.map(|v| v.iter().map(|s| (*s).to_string()).collect::<Vec<_>>());
    let mut m = Model { secs: look_all(&script), sf: own(script.styles_format()), ef: own(script.events_format()), log: vec![], on: false };
    let std = |s: &str| s.split(", ").map(str::to_string).collect::<Vec<_>>();
    let sc = m.sf.clone().unwrap_or_else(|| std(STD_STYLE));
    let ec = m.ef.clone().unwrap_or_else(|| std(STD_EVENT));
    // places worth aiming at
    let mut spots: Vec<usize> = vec![0, text.len(), text.len() + 7];
    for s in &m.secs {
        for p in s.items.iter().map(|i| i.1).chain([s.place]).flatten() {
            spots.extend([p.0, p.1, p.1.saturating_sub(1), (p.0 + p.1) / 2, p.0.saturating_sub(1)]);
        }
    }
    let spot = |r: &mut Rng| if r.pct(85) { *r.pick(&spots) } else { r.below(text.len() + 3) };
    let extra = "[V4+ Styles]\nStyle: Extra,Arial,20,&H1,&H2,&H3,&H4,0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n[Events]\nDialogue: 0,0:00:00.00,0:00:01.00,Extra,,0,0,0,,extra\n[Script Info]\nExtra: 1\n[Fonts]\nfontname: x.ttf\nM\n";
    let extra_script = Script::parse(extra).unwrap();
    // elements taken from another script have extents in that script
    let extra_secs: Vec<Section> = extra_script
        .sections()
        .iter()
        .cloned()
        .map(|mut s| {
            match &mut s {
                Section::ScriptInfo(i) => i.span = Span::new(0, 0, 0, 0),
                Section::Styles(v) => v.iter_mut().for_each(|x| x.span = Span::new(0, 0, 0, 0)),
                Section::Events(v) => v.iter_mut().for_each(|x| x.span = Span::new(0, 0, 0, 0)),
                Section::Fonts(v) => v.iter_mut().for_each(|x| x.span = Span::new(0, 0, 0, 0)),
                Section::Graphics(v) => v.iter_mut().for_each(|x| x.span = Span::new(0, 0, 0, 0)),
            }
            s
        })
        .collect();
    let n = r.u(1, 10);
    let mut ops = vec![];
    for _ in 0..n {
        let lines = |r: &mut Rng, k: usize| (0..k).map(|_| (spot(r), any_line(r, &sc, &ec), r.below(50) as u32)).collect::<Vec<_>>();
        let many = r.below(4);
        let st = |r: &mut Rng, k: usize| (0..k).map(|_| style_line(r, &sc)).collect::<Vec<_>>();
        let ev = |r: &mut Rng, k: usize| (0..k).map(|_| event_line(r, &ec)).collect::<Vec<_>>();
        ops.push(match r.below(22) {
            0..=7 => {
                let l = lines(r, 1).remove(0);
                Op::Update(l.0, l.1, l.2)
            }
            8 | 9 => Op::Batch(lines(r, many)),
            10..=12 => {
                let (a, b) = (r.bool(), r.bool());
                let ls = if r.pct(60) {
                    // mostly acceptable
                    lines(r, many).into_iter().filter(|l| m.clone().update(l.0, &l.1, l.2).is_ok()).collect()
                } else {
                    lines(r, many)
                };
                let (na, nb) = (r.below(3), r.below(3));
                Op::Atomic(ls, a.then(|| st(r, na)), b.then(|| ev(r, nb)))
            }
            13 => Op::AddStyle(st(r, 1).remove(0)),
            14 => Op::AddEvent(ev(r, 1).remove(0)),
            15 => Op::AddStyles(st(r, many)),
            16 => Op::AddEvents(ev(r, many)),
            17 => Op::AddSection(r.below(extra_secs.len())),
            18 => Op::RemoveSection(r.below(m.secs.len() + 2)),
            19 => Op::Track(r.pct(80)),
            20 if r.pct(30) => Op::Clear,
            20 if r.pct(15) => Op::StyleFormat(vec!["Name".into(), "Fontsize".into()]),
            20 if r.pct(15) => Op::EventFormat(vec!["Start".into(), "End".into(), "Text".into()]),
            _ => Op::Track(true),
        });
    }
    cx.set_input(format!("{text}\n---- then\n{ops:#?}"));
    let original = script.clone();
    let mut script = script;
    let mut reformatted = false;
    let issues = script.issues().len();
    let version = script.version();
    for (k, op) in ops.iter().enumerate() {
        let before = look_all(&script);
        let styles = |s: &Script, v: &'_ [String]| v.iter().filter(|l| matches!(read_line(l, &own(s.styles_format()), &None), MLine::Style(_))).count();
        let _ = styles;
        macro_rules! mk_styles {
            ($v:expr) => {{
                let mut a = vec![];
                let mut b = vec![];
                for l in $v {
                    let got = script.parse_style_line_with_context(l.strip_prefix("Style:").unwrap().trim(), 3);
                    match (read_line(l, &m.sf, &m.ef), got) {
                        (MLine::Style(w), Ok(g)) => {
                            ensure!(style_str(&g) == w, "style-line", "{l}: {}\nwant {w}", style_str(&g));
                            a.push(w);
                            b.push(g);
                        }
                        (MLine::Bad, Err(_)) => cx.obs("rejected_lines", 1),
                        (w, g) => return fail("style-line", format!("{l}: {g:?}\nwant {w:?}")),
                    }
                }
                (a, b)
            }};
        }
        macro_rules! mk_events {
            ($v:expr) => {{
                let mut a = vec![];
                let mut b = vec![];
                for l in $v {
                    let got = script.parse_event_line_with_context(l.trim(), 3);
                    match (read_line(l, &m.sf, &m.ef), got) {
                        (MLine::Event(w), Ok(g)) => {
                            ensure!(event_str(&g) == w, "event-line", "{l}: {}\nwant {w}", event_str(&g));
                            a.push(w);
                            b.push(g);
                        }
                        (MLine::Bad, Err(_)) => cx.obs("rejected_lines", 1),
                        (w, g) => return fail("event-line", format!("{l}: {g:?}\nwant {w:?}")),
                    }
                }
                (a, b)
            }};
        }
        match op {
            Op::Update(off, line, ln) => {
                let w = m.update(*off, line, *ln);
                let g = script.update_line_at_offset(*off, line, *ln);
                match (&w, &g) {
                    (Ok(w), Ok(g)) => {
                        ensure!(&line_str(g) == w, "old-content", "step {k}: returned {}\nwant {w}", line_str(g));
                        cx.obs("updated_lines", 1);
                    }
                    (Err(w), Err(g)) => {
                        ensure!((*w == "section") == matches!(g, ParseError::SectionNotFound), "update-error", "step {k}: {g:?} want {w}");
                        ensure!(look_all(&script) == before, "failed-update-changed-script", "step {k}: {g:?}");
                        cx.obs("refused_updates", 1);
                    }
                    _ => return fail("update-result", format!("step {k}: {g:?}\nwant {w:?}")),
                }
                // the line says the same thing read on its own
                let auto = script.parse_line_auto(line, *ln).map(|x| x.1);
                match (read_line(line, &m.sf, &m.ef), &auto) {
                    (MLine::Style(w), Ok(g)) | (MLine::Event(w), Ok(g)) => ensure!(line_str(g) == w, "auto-line", "{line}: {}\nwant {w}", line_str(g)),
                    (MLine::Field(a, b), Ok(g)) => ensure!(line_str(g) == field_str(&a, &b), "auto-line", "{line}: {g:?}"),
                    (MLine::Bad, Err(_)) => {}
                    (w, g) => return fail("auto-line", format!("{line}: {g:?}\nwant {w:?}")),
                }
            }
            Op::Batch(v) => {
                let mut sorted: Vec<&(usize, String, u32)> = v.iter().collect();
                sorted.sort_by_key(|x| x.0);
                let mut ok = vec![];
                let mut bad = vec![];
                for (off, l, ln) in sorted {
                    match m.update(*off, l, *ln) {
                        Ok(s) => ok.push((*off, s)),
                        Err(_) => bad.push(*off),
                    }
                }
                let g = script.batch_update_lines(v.iter().map(|(o, l, n)| UpdateOperation { offset: *o, new_line: l, line_number: *n }).collect());
                let gok: Vec<(usize, String)> = g.updated.iter().map(|(o, l)| (*o, line_str(l))).collect();
                let gbad: Vec<usize> = g.failed.iter().map(|f| f.0).collect();
                ensure!(gok == ok && gbad == bad, "batch-result", "step {k}: {gok:?} failed {gbad:?}\nwant {ok:?} failed {bad:?}");
                cx.obs("batches", 1);
            }
            Op::Atomic(v, s, e) => {
                let (sw, sb) = match s {
                    Some(x) => {
                        let (a, b) = mk_styles!(x);
                        (Some(a), Some(b))
                    }
                    None => (None, None),
                };
                let (ew, eb) = match e {
                    Some(x) => {
                        let (a, b) = mk_events!(x);
                        (Some(a), Some(b))
                    }
                    None => (None, None),
                };
                let mut t = m.clone();
                let mut ok = true;
                for (off, l, ln) in v {
                    ok &= t.update(*off, l, *ln).is_ok();
                }
                // every line is judged before the first is applied
                ok &= v.iter().all(|(off, l, _)| m.at(*off).is_some() && read_line(l, &m.sf, &m.ef) != MLine::Bad);
                if ok {
                    if let Some(a) = &sw {
                        t.add(SectionType::Styles, a);
                    }
                    if let Some(a) = &ew {
                        t.add(SectionType::Events, a);
                    }
                    m = t;
                }
                let log = script.change_count();
                let g = script.atomic_batch_update(
                    v.iter().map(|(o, l, n)| UpdateOperation { offset: *o, new_line: l, line_number: *n }).collect(),
                    sb.map(|styles| StyleBatch { styles }),
                    eb.map(|events| EventBatch { events }),
                );
                ensure!(g.is_ok() == ok, "atomic-result", "step {k}: {g:?} want ok={ok}");
                if !ok {
                    ensure!(look_all(&script) == before && script.change_count() == log, "failed-atomic-changed-script", "step {k}");
                    cx.obs("atomic_refused", 1);
                } else {
                    cx.obs("atomic_applied", 1);
                }
            }
            Op::AddStyle(l) => {
                let (a, b) = mk_styles!([l]);
                for (a, b) in a.into_iter().zip(b) {
                    let w = m.add(SectionType::Styles, &[a]);
                    let g = script.add_style(b);
                    ensure!(vec![g] == w, "added-index", "step {k}: {g} want {w:?}");
                }
            }
            Op::AddEvent(l) => {
                let (a, b) = mk_events!([l]);
                for (a, b) in a.into_iter().zip(b) {
                    let w = m.add(SectionType::Events, &[a]);
                    let g = script.add_event(b);
                    ensure!(vec![g] == w, "added-index", "step {k}: {g} want {w:?}");
                }
            }
            Op::AddStyles(v) => {
                let (a, b) = mk_styles!(v);
                let w = m.add(SectionType::Styles, &a);
                let g = script.batch_add_styles(StyleBatch { styles: b });
                ensure!(g == w, "added-index", "step {k}: {g:?} want {w:?}");
            }
            Op::AddEvents(v) => {
                let (a, b) = mk_events!(v);
                let w = m.add(SectionType::Events, &a);
                let g = script.batch_add_events(EventBatch { events: b });
                ensure!(g == w, "added-index", "step {k}: {g:?} want {w:?}");
            }
            Op::AddSection(i) => {
                let s = extra_secs[*i].clone();
                let ms = look(&s);
                // elements with other columns than the file's need not survive saving
                reformatted |= matches!(ms.kind, SectionType::Styles | SectionType::Events);
                let at = m.secs.len();
                m.record(MChange::SecAdded(ms.kind, at, ms.items.len()));
                m.secs.push(ms);
                let g = script.add_section(s);
                ensure!(g == at, "added-section", "step {k}: {g} want {at}");
                cx.obs("section_changes", 1);
            }
            Op::RemoveSection(i) => {
                let g = script.remove_section(*i);
                if *i < m.secs.len() {
                    let s = m.secs.remove(*i);
                    m.record(MChange::SecRemoved(s.kind, *i));
                    match g {
                        Ok(g) => ensure!(look(&g) == s, "removed-section", "step {k}: {g:?}\nwant {s:?}"),
                        Err(e) => return fail("removed-section", format!("step {k}: {e:?}")),
                    }
                    cx.obs("section_changes", 1);
                } else {
                    ensure!(g.is_err(), "removed-section", "step {k}: removed section {i} of {}", m.secs.len());
                }
            }
            Op::Track(b) => {
                m.on = *b;
                if *b {
                    script.enable_change_tracking();
                } else {
                    script.disable_change_tracking();
                }
                ensure!(script.is_change_tracking_enabled() == *b, "tracking", "step {k}");
            }
            Op::Clear => {
                m.log.clear();
                script.clear_changes();
            }
            Op::StyleFormat(f) => {
                reformatted = true;
                m.sf = Some(f.clone());
                script.set_styles_format(f.iter().map(String::as_str).collect());
            }
            Op::EventFormat(f) => {
                reformatted = true;
                m.ef = Some(f.clone());
                script.set_events_format(f.iter().map(String::as_str).collect());
            }
        }
        // the script is what the model says, and only that
        let now = look_all(&script);
        if now != m.secs {
            let d = now.iter().zip(&m.secs).enumerate().find(|(_, (a, b))| a != b);
            return fail("content", format!("step {k} {op:?}: sections {} want {}; first difference {d:#?}", now.len(), m.secs.len()));
        }
        ensure!(own(script.styles_format()) == m.sf && own(script.events_format()) == m.ef, "formats", "step {k}");
        ensure!(script.source() == text && script.issues().len() == issues && script.version() == version, "surroundings", "step {k}: source, issues or version changed");
        // the change log
        let log: Vec<MChange> = script
            .changes()
            .iter()
            .map(|c| match c {
                Change::Modified { offset, old_content, new_content, line_number } => MChange::Modified(*offset, line_str(old_content), line_str(new_content), *line_number),
                Change::Added { offset, content, line_number } => MChange::Added(*offset, line_str(content), *line_number),
                Change::SectionAdded { section, index } => MChange::SecAdded(section.section_type(), *index, look(section).items.len()),
                Change::SectionRemoved { section_type, index } => MChange::SecRemoved(*section_type, *index),
                Change::Removed { offset, section_type, .. } => MChange::SecRemoved(*section_type, *offset),
            })
            .collect();
        ensure!(log == m.log && script.change_count() == log.len(), "change-log", "step {k} {op:?}: {log:?}\nwant {:?}", m.log);
        cx.obs("changes_logged", log.len() as u64);
        cx.obs("steps", 1);
    }
    // where things are
    for s in [SectionType::ScriptInfo, SectionType::Styles, SectionType::Events, SectionType::Fonts, SectionType::Graphics] {
        let g = script.find_section(s).map(look);
        let w = m.secs.iter().find(|x| x.kind == s).cloned();
        ensure!(g == w, "find-section", "{s:?}: {g:?} want {w:?}");
    }
    for off in spots {
        let g = script.section_at_offset(off).map(look);
        let w = m.at(off).map(|i| m.secs[i].clone());
        ensure!(g == w, "section-at-offset", "{off}: {g:?} want {w:?}");
    }
    // difference from the original
    let d = script.diff(&original);
    let now: Vec<MSec> = look_all(&script);
    let was: Vec<MSec> = look_all(&original);
    let mut want = vec![];
    for i in 0..now.len().max(was.len()) {
        let same = match (script.sections().get(i), original.sections().get(i)) {
            (Some(a), Some(b)) => a == b,
            _ => false,
        };
        if !same {
            if let Some(b) = was.get(i) {
                want.push(MChange::SecRemoved(b.kind, i));
            }
            if let Some(a) = now.get(i) {
                want.push(MChange::SecAdded(a.kind, i, a.items.len()));
            }
        }
    }
    let got: Vec<MChange> = d
        .iter()
        .map(|c| match c {
            Change::SectionAdded { section, index } => MChange::SecAdded(section.section_type(), *index, look(section).items.len()),
            Change::SectionRemoved { section_type, index } => MChange::SecRemoved(*section_type, *index),
            x => MChange::Added(0, format!("{x:?}"), 0),
        })
        .collect();
    ensure!(got == want, "diff", "{got:?}\nwant {want:?}");
    ensure!(script.diff(&script.clone()).is_empty(), "diff-self", "");
    // an edited script can be saved and read again
    if !reformatted {
        let out = script.to_ass_string();
        let back = match Script::parse(&out) {
            Ok(s) => s,
            Err(e) => return fail("reparse", format!("{e}")),
        };
        let (a, b) = (crate::parse::content(&script), crate::parse::content(&back));
        if a != b {
            let d = a.iter().zip(&b).find(|(a, b)| a != b);
            return fail("saved-content", format!("first difference {d:?} ({} vs {} elements)\nsaved as:\n{out}", a.len(), b.len()));
        }
        cx.obs("saved_after_edit", 1);
    }
    cx.state(&(text, format!("{ops:?}")));
    Ok(())
}

// ---------------------------------------------------------------- C14

fn new_text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => gen::word(r),
        2 => format!("Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,{}\n", gen::event_text(r)),
        3 => "[Events]\n".into(),
        4 => format!("\n[{}]\n", r.pick(&["Fonts", "Graphics", "V4+ Styles", "Script Info", "Other"])),
        5 => gen::soup(r, 6),
        6 => "Format: Start, End, Text\n".into(),
        _ => (*r.pick(&["\n", "x", "é", ",", "]", "[", ":", "Style: A,b\n", "\r\n"])).into(),
    }
}
fn no_place(s: &Section) -> (SectionType, Vec<String>) {
    let m = look(s);
    (m.kind, m.items.into_iter().map(|i| i.0).collect())
}

fn incremental(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut texts = vec![if r.pct(70) {
        let mut o = Opts::random(r);
        o.max_items = 4;
        gen::script(r, o).text
    } else {
        gen::any_script(r)
    }];
    let mut steps = vec![];
    for _ in 0..r.u(1, 5) {
        let t = texts.last().unwrap();
        let range = gen::boundary_range(r, t, 60);
        let n = new_text(r);
        let mut s = t[..range.start].to_string();
        s.push_str(&n);
        s.push_str(&t[range.end..]);
        steps.push((range, n));
        texts.push(s);
    }
    cx.set_input(format!("{}\n---- edits {steps:?}", texts[0]));
    let mut cur = match Script::parse(&texts[0]) {
        Ok(s) => s,
        Err(e) => return fail("parse-error", format!("{e}")),
    };
    for (k, (range, n)) in steps.iter().enumerate() {
        let (old, new) = (&texts[k], &texts[k + 1]);
        ensure!(&build_modified_source(old, range.clone(), n) == new, "modified-source", "edit {k}: {:?}", build_modified_source(old, range.clone(), n));
        let lr = calculate_line_range(old, range.clone());
        let line = |p: usize| 1 + old[..p].matches('\n').count() as u32;
        if range.start < old.len() {
            ensure!(lr == (line(range.start)..line(range.end)), "line-range", "edit {k} {range:?}: {lr:?}");
        }
        ensure!(calculate_line_number(old, range.end) == line(range.end), "line-number", "{}", range.end);
        let change = TextChange { range: range.clone(), new_text: n.clone(), line_range: lr };
        let fresh = match Script::parse(new) {
            Ok(s) => s,
            Err(e) => return fail("parse-error", format!("{e}")),
        };
        // which sections an edit touches
        let aff = cur.affected_sections(&change);
        let want: Vec<SectionType> = cur
            .sections()
            .iter()
            .filter(|s| s.span().is_some_and(|p| (range.start < p.end && range.end > p.start) || (range.is_empty() && range.start == p.end)))
            .map(|s| s.section_type())
            .collect();
        ensure!(aff == want, "affected-sections", "edit {k}: {aff:?} want {want:?}");
        // delta between the two
        let d = calculate_delta(&cur, &fresh);
        let (a, b): (Vec<_>, Vec<_>) = (cur.sections().iter().map(no_place).collect(), fresh.sections().iter().map(no_place).collect());
        let mut wm = vec![];
        let mut wr = vec![];
        for (i, s) in a.iter().enumerate() {
            match b.iter().find(|x| x.0 == s.0) {
                Some(x) if x != s => wm.push((i, x.clone())),
                Some(_) => {}
                None => wr.push(i),
            }
        }
        let wa: Vec<_> = b.iter().filter(|x| !a.iter().any(|y| y.0 == x.0)).cloned().collect();
        let ga: Vec<_> = d.added.iter().map(no_place).collect();
        let gm: Vec<_> = d.modified.iter().map(|(i, s)| (*i, no_place(s))).collect();
        ensure!(ga == wa && gm == wm && d.removed == wr, "delta", "edit {k}: added {ga:?} modified {gm:?} removed {:?}\nwant {wa:?}\n{wm:?}\n{wr:?}", d.removed);
        ensure!(d.new_issues.len() == fresh.issues().len(), "delta-issues", "edit {k}");
        ensure!(d.is_empty() == (wa.is_empty() && wm.is_empty() && wr.is_empty() && fresh.issues().is_empty()), "delta-empty", "edit {k}");
        // partial parsing reports the same difference
        match cur.parse_partial(range.clone(), n) {
            Ok(p) => {
                ensure!(p.added.len() == d.added.len() && p.modified.len() == d.modified.len(), "partial-count", "edit {k}: {p:?}");
                let pairs = p.added.iter().zip(&d.added).chain(p.modified.iter().map(|x| &x.1).zip(d.modified.iter().map(|x| &x.1)));
                let once = b.iter().enumerate().all(|(i, x)| b[..i].iter().all(|y| y.0 != x.0));
                for (src, want) in pairs.filter(|_| once) {
                    let one: Vec<_> = Script::parse(src).map(|s| s.sections().iter().map(no_place).collect()).unwrap_or_default();
                    ensure!(one == [no_place(want)], "partial-source", "edit {k}: the delta holds\n{src}\nwhich reads as {one:?}\nwant {:?}", no_place(want));
                    cx.obs("sections_in_deltas", 1);
                }
                ensure!(p.modified.iter().map(|x| x.0).eq(d.modified.iter().map(|x| x.0)), "partial-modified", "edit {k}: {:?}", p.modified);
                ensure!(p.removed == d.removed && format!("{:?}", p.new_issues) == format!("{:?}", d.new_issues), "partial-removed", "edit {k}: {:?}", p.removed);
            }
            Err(e) => return fail("partial-error", format!("edit {k}: {e}")),
        }
        cx.obs("sections_changed", (wa.len() + wm.len() + wr.len()) as u64);
        // and incremental parsing gives the script of the new text
        let inc = match cur.parse_incremental(new, &change) {
            Ok(s) => s,
            Err(e) => return fail("incremental-error", format!("edit {k}: {e}")),
        };
        ensure!(inc.sections() == fresh.sections(), "incremental-sections", "edit {k}: {:?}\nwant {:?}", inc.sections(), fresh.sections());
        ensure!(inc.version() == fresh.version() && inc.issues() == fresh.issues(), "incremental-issues", "edit {k}: {:?}\nwant {:?}", inc.issues(), fresh.issues());
        ensure!(inc.styles_format() == fresh.styles_format() && inc.events_format() == fresh.events_format() && inc.source() == fresh.source(), "incremental-formats", "edit {k}");
        cur = inc;
        cx.obs("edits", 1);
    }
    // a range that is not one is an error, not a crash
    let t = texts.last().unwrap();
    let r = &mut cx.rng;
    let (a, b) = (r.below(t.len() + 4), r.below(t.len() + 8));
    let good = a <= b && t.get(a..b).is_some();
    ensure!(cur.parse_partial(a..b, "x").is_ok() == good, "bad-range", "{a}..{b} of {} bytes", t.len());
    if !good {
        cx.obs("bad_ranges", 1);
    }
    cx.state(&(&texts[0], format!("{steps:?}")));
    Ok(())
}

fn ranges(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    // an edit moves a marked stretch of text
    let n = r.u(1, 40);
    let text: Vec<u32> = (0..n as u32).collect();
    let a = r.below(n + 1);
    let b = a + r.below(n + 1 - a);
    let c = r.below(n + 1);
    let d = c + r.below(n + 1 - c);
    let k = r.below(12);
    let change = TextChange { range: c..d, new_text: "x".repeat(k), line_range: 1..1 };
    cx.set_input(format!("{n} characters, stretch {a}..{b}, {c}..{d} replaced by {k}"));
    let g = adjust_range_for_change(a..b, &change);
    let mut new: Vec<u32> = text[..c].to_vec();
    new.extend(std::iter::repeat(u32::MAX).take(k));
    new.extend(&text[d..]);
    ensure!(g.start <= g.end && g.end <= new.len(), "range", "{g:?} of {}", new.len());
    let old: Vec<u32> = text[a..b].to_vec();
    let got: Vec<u32> = new[g.clone()].to_vec();
    if d <= a || c >= b {
        ensure!(got == old, "moved", "{g:?}: {got:?} want {old:?}");
        cx.obs("moved", 1);
    } else {
        // what survives of it plus the new text, nothing lost
        let s = a.min(c);
        let e = if d >= b { c + k } else { b + k - (d - c) };
        ensure!(g == (s..e), "grown", "{g:?} want {s}..{e}");
        ensure!(old.iter().filter(|x| new.contains(x)).all(|x| got.contains(x)), "lost", "{g:?}: {got:?}");
        cx.obs("overlapping", 1);
    }
    cx.state(&(n, a, b, c, d, k));
    // bounds of a section around an offset
    let r = &mut cx.rng;
    let t = gen::any_script(r);
    let at = r.below(t.len() + 5);
    cx.set_input(format!("{t}\n---- offset {at}"));
    let heads = [(SectionType::ScriptInfo, "[Script Info]"), (SectionType::Styles, "[V4+ Styles]"), (SectionType::Events, "[Events]"), (SectionType::Fonts, "[Fonts]"), (SectionType::Graphics, "[Graphics]")];
    let mut hint = at.min(t.len());
    while !t.is_char_boundary(hint) {
        hint -= 1;
    }
    let line = |p: usize| t[..p].rfind('\n').map_or(0, |x| x + 1);
    for (k, h) in heads {
        let near = t[..hint].rfind(h);
        match find_section_header_start(&t, at, k) {
            Ok(g) => {
                ensure!(near.is_some_and(|p| line(p) == g), "header-start", "{h}: {g} want the line of {near:?}");
                cx.obs("headers_found", 1);
            }
            // only looked for within 100 characters
            Err(_) => ensure!(!near.is_some_and(|p| p + h.len() + 100 >= at), "header-missed", "{h} at {near:?} not found from {at}"),
        }
        let next = heads.iter().filter_map(|(_, h)| t[hint..].find(h)).min().map_or(t.len(), |p| line(hint + p));
        match find_section_end(&t, at, k) {
            Ok(g) => ensure!(g == next, "section-end", "{g} want {next}"),
            Err(e) => return fail("section-end", format!("{e:?}")),
        }
    }
    Ok(())
}

fn streaming(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut t = gen::any_script(r).into_bytes();
    if r.pct(25) && !t.is_empty() {
        for _ in 0..r.u(1, 3) {
            let i = r.below(t.len());
            t[i] = r.u64() as u8;
        }
    }
    if r.pct(10) {
        t.truncate(r.below(t.len() + 1));
    }
    let chunks: Vec<Vec<u8>> = {
        let mut v = vec![];
        let mut i = 0;
        let big = *r.pick(&[1usize, 3, 16, 200, 4000]);
        while i < t.len() {
            let lo = usize::from(!r.pct(5));
            let n = r.u(lo, big).min(t.len() - i);
            v.push(t[i..i + n].to_vec());
            i += n;
        }
        v
    };
    cx.set_input(format!("{:?}\nin {} chunks", String::from_utf8_lossy(&t), chunks.len()));
    let mut p = if cx.rng.bool() { StreamingParser::new() } else { StreamingParser::with_capacity(3) };
    if cx.rng.pct(20) {
        let _ = p.feed_chunk(b"[Events]\nDialogue: x\xE3\x81");
        p.reset();
    }
    let mut fed = 0;
    let mut failed = false;
    for c in &chunks {
        fed += c.len();
        let g = p.feed_chunk(c);
        let bad = std::str::from_utf8(&t[..fed]).is_err_and(|e| e.error_len().is_some());
        match g {
            Ok(d) => {
                ensure!(!bad, "invalid-accepted", "invalid UTF-8 within the first {fed} bytes accepted");
                cx.obs("deltas", d.len() as u64);
            }
            Err(e) => {
                ensure!(bad, "valid-refused", "{e} after {fed} bytes");
                failed = true;
                cx.obs("invalid_streams", 1);
                break;
            }
        }
        cx.obs("chunks", 1);
    }
    if !failed {
        let ok = std::str::from_utf8(&t).is_ok();
        let g = p.finish();
        ensure!(g.is_ok() == ok, "finish", "{g:?} for a stream that is {}", if ok { "complete" } else { "cut inside a character" });
        if ok && t.is_empty() {
            cx.mark_trivial();
        }
    }
    // the line processor follows sections and formats
    if let Ok(s) = std::str::from_utf8(&t) {
        let mut lp = LineProcessor::new();
        let mut n = 0;
        let mut sec: Option<&'static str> = None;
        let mut in_event = false;
        let (mut sf, mut ef): (Option<String>, Option<String>) = (None, None);
        for l in s.lines() {
            n += 1;
            if let Err(e) = lp.process_line(l) {
                return fail("process-line", format!("{l:?}: {e}"));
            }
            let x = l.trim();
            if x.is_empty() || x.starts_with(';') || x.starts_with("!:") {
            } else if let Some(h) = x.strip_prefix('[').and_then(|y| y.strip_suffix(']')) {
                sec = Some(match h.trim() {
                    "Script Info" => "info",
                    "V4+ Styles" | "V4 Styles" | "V4++ Styles" => "styles",
                    "Events" => "events",
                    "Fonts" => "fonts",
                    "Graphics" => "graphics",
                    _ => "other",
                });
                in_event = false;
                if sec == Some("styles") {
                    sf = None;
                }
                if sec == Some("events") {
                    ef = None;
                }
                cx.obs("section_headers", 1);
            } else if in_event {
                in_event = false;
            } else if let Some(f) = x.strip_prefix("Format:") {
                if sec == Some("styles") {
                    sf = Some(f.trim().into());
                }
                if sec == Some("events") {
                    ef = Some(f.trim().into());
                }
            } else if sec == Some("events") && (x.starts_with("Dialogue:") || x.starts_with("Comment:")) {
                in_event = true;
            }
            let name = |k: SectionKind| match k {
                SectionKind::ScriptInfo => "info",
                SectionKind::Styles => "styles",
                SectionKind::Events => "events",
                SectionKind::Fonts => "fonts",
                SectionKind::Graphics => "graphics",
                SectionKind::Unknown => "other",
            };
            ensure!(lp.state.current_section().map(name) == sec && lp.context.current_section.map(name) == sec, "stream-section", "after line {n} {l:?}: {:?} want {sec:?}", lp.state);
            ensure!(matches!(lp.state, ParserState::InEvent { .. }) == in_event, "stream-state", "after line {n} {l:?}: {:?}", lp.state);
            ensure!(lp.context.line_number == n && lp.context.styles_format == sf && lp.context.events_format == ef, "stream-context", "after line {n} {l:?}: {:?} want {sf:?} {ef:?}", lp.context);
        }
    }
    // collections of deltas
    let r = &mut cx.rng;
    let mut v = vec![];
    for i in 0..r.below(6) {
        v.push(match r.below(4) {
            0 => ParseDelta::add_section(Section::Events(vec![])),
            1 => ParseDelta::update_section(i, Section::Styles(vec![])),
            2 => ParseDelta::remove_section(i),
            _ => ParseDelta::parse_issue(format!("issue {i}")),
        });
    }
    let b: DeltaBatch = v.iter().cloned().collect();
    let err = v.iter().filter(|d| matches!(d, ParseDelta::ParseIssue(_))).count();
    ensure!(b.len() == v.len() && b.is_empty() == v.is_empty() && b.has_errors() == (err > 0), "delta-batch", "{b:?}");
    ensure!(b.errors_only().len() == err && b.structural_only().len() == v.len() - err, "delta-filter", "{b:?}");
    ensure!(format!("{:?}", b.clone().into_deltas()) == format!("{v:?}"), "delta-order", "{b:?}");
    cx.state(&(t, chunks.len()));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            rule: "a distinct case is a distinct script and sequence of edits; content, change log, lookups and the saved file were compared with a model after every step",
            assumptions: &["A line's content is what parsing it in a one-line file gives (decided by C02).", "Elements added by hand have no place in the text until it is saved and read again."],
            monitors: vec![mon("edits", 120_000, 2_000_000, edits)],
            must_observe: &["updated_lines", "refused_updates", "batches", "atomic_refused", "atomic_applied", "section_changes", "changes_logged", "saved_after_edit"],
        },
        Property {
            id: "C14",
            rule: "a distinct case is a distinct text and chain of edits (or a distinct byte stream and its cut into chunks)",
            assumptions: &["Deltas pair sections by kind, the first of each kind in the new script."],
            monitors: vec![mon("incremental", 80_000, 1_500_000, incremental), mon("ranges", 200_000, 3_000_000, ranges), mon("streaming", 80_000, 1_500_000, streaming)],
            must_observe: &["edits", "sections_changed", "bad_ranges", "moved", "overlapping", "headers_found", "chunks", "invalid_streams", "section_headers"],
        },
    ]
}
