//! E17 what a document tells about itself, the short ways to ask, and its registry of handlers.
use ass_core::parser::ast::EventType;
use ass_core::parser::Section;
use ass_core::plugin::{SectionProcessor, SectionResult, TagHandler, TagResult};
use ass_editor::core::fluent::EventSortCriteria;
use ass_editor::EditorDocument;
use hcommon::gen::{self, ExpItem, ExpScript, ExpSection, Opts};
use hcommon::*;
use std::sync::{Arc, Mutex};

use crate::doc::{line_starts, pos, rng};

fn events_of(x: &ExpScript) -> Vec<ExpItem> {
    x.sections.iter().filter_map(|s| if let ExpSection::Events(v) = s { Some(v.clone()) } else { None }).flatten().collect()
}
fn col(e: &ExpItem, c: &str) -> String {
    e.get(c).unwrap_or("").trim().to_string()
}

fn cs(t: &str) -> Option<i64> {
    ass_core::utils::parse_ass_time(t).ok().map(i64::from)
}

/// Counts, fields and texts of a script, after edits as well.
fn tells(cx: &mut Cx) -> R {
    let mut o = Opts::random(&mut cx.rng);
    o.max_items = 8;
    let x = gen::script(&mut cx.rng, o);
    cx.set_input(x.text.clone());
    let mut d = EditorDocument::from_content(&x.text).map_err(|e| Fail { sig: "content-refused".into(), detail: e.to_string() })?;
    let mut texts: Vec<String> = events_of(&x).iter().map(|e| col(e, "Text")).collect();
    let styles: usize = x.sections.iter().map(|s| if let ExpSection::Styles(v) = s { v.len() } else { 0 }).sum();
    let mut infos: Vec<Vec<(String, String)>> = x.sections.iter().filter_map(|s| if let ExpSection::Info(v) = s { Some(v.clone()) } else { None }).collect();
    let mut sections = x.sections.len();
    let mut log = vec![];
    for step in 0..cx.rng.u(1, 7) {
        if step > 0 {
            let before = d.text();
            match cx.rng.below(6) {
                0 => {
                    // the first event that holds a text
                    let from = if texts.is_empty() || cx.rng.pct(15) {
                        gen::word(&mut cx.rng)
                    } else {
                        let t = cx.rng.pick(&texts).clone();
                        let g = gen::boundary_range(&mut cx.rng, &t, 8);
                        t[g].to_string()
                    };
                    let to = *cx.rng.pick(&["", "new", "a, b", "日本", "{\\b1}x", "two\nlines"]);
                    log.push(format!("edit event text {from:?} -> {to:?}"));
                    let res = d.edit_event_text(&from, to);
                    let at = texts.iter().position(|t| t.contains(&from));
                    match (at, res) {
                        (None, r) => ensure!(r.is_ok() && d.text() == before, "edit-event-text-nothing", "{r:?} {log:?}"),
                        (Some(_), Err(_)) => {
                            // only what the line cannot hold is refused
                            ensure!(d.text() == before, "edit-event-text-refused", "{log:?} in {before:?}");
                            let last = x.events_format.as_ref().is_none_or(|f| f.last().is_some_and(|c| c.eq_ignore_ascii_case("Text")));
                            ensure!(to.contains('\n') || !last, "edit-event-text-refused", "{log:?} in {before:?}");
                            cx.obs("edits_refused", 1);
                        }
                        (Some(i), Ok(())) => {
                            ensure!(!to.contains('\n'), "edit-event-text-lines", "{log:?}");
                            texts[i] = texts[i].replacen(&from, to, 1).trim().to_string();
                            cx.obs("texts_edited", 1);
                            ensure!(d.undo().is_ok() && d.text() == before && d.redo().is_ok(), "edit-event-text-undo", "{log:?}");
                        }
                    }
                }
                k => {
                    let (a, b) = (cx.rng.u(1, 9999), cx.rng.u(1, 9999));
                    let t = *cx.rng.pick(&["A title", "日本語", "x: y"]);
                    let (w, s) = (cx.rng.below(4) as u8, cx.rng.bool());
                    let (set, res): (Vec<(&str, String)>, _) = match k {
                        1 => (vec![("Title", t.into())], d.info().title(t).map(drop)),
                        2 => (vec![("Original Script", t.into())], d.info().author(t).map(drop)),
                        3 => (vec![("PlayResX", a.to_string()), ("PlayResY", b.to_string())], d.info().resolution(a as u32, b as u32).map(drop)),
                        4 => (vec![("WrapStyle", w.to_string())], d.info().wrap_style(w).map(drop)),
                        _ => (vec![("ScaledBorderAndShadow", if s { "yes" } else { "no" }.into())], d.info().scaled_border_and_shadow(s).map(drop)),
                    };
                    log.push(format!("{set:?}"));
                    ensure!(res.is_ok(), "info-refused", "{res:?} {log:?} in {before:?}");
                    if infos.is_empty() {
                        infos.push(vec![]);
                        sections += 1;
                    }
                    for (k, v) in set {
                        match infos[0].iter_mut().find(|f| f.0 == k) {
                            Some(f) => f.1 = v,
                            None => infos[0].insert(0, (k.into(), v)),
                        }
                    }
                    cx.obs("fields_set", 1);
                }
            }
        }
        let ctx = || format!("{log:?}\n{:?}", d.text());
        let ok = (d.events_count().ok(), d.styles_count().ok(), d.sections_count().ok());
        ensure!(ok == (Some(texts.len()), Some(styles), Some(sections)), "counts", "{ok:?}, expected {} {styles} {sections}: {}", texts.len(), ctx());
        let has = |f: &dyn Fn(&ExpSection) -> bool| Some(x.sections.iter().any(f));
        ensure!(d.has_events().ok() == has(&|s| matches!(s, ExpSection::Events(_))), "has-events", "{}", ctx());
        ensure!(d.has_styles().ok() == has(&|s| matches!(s, ExpSection::Styles(_))), "has-styles", "{}", ctx());
        let fields: Vec<String> = infos.iter().flatten().map(|f| f.0.clone()).collect();
        ensure!(d.script_info_fields().ok() == Some(fields.clone()), "info-fields", "{:?}, expected {fields:?}: {}", d.script_info_fields(), ctx());
        for k in fields.iter().map(String::as_str).chain(["Title", "Nothing", "WrapStyle"]) {
            let want = infos.iter().flatten().find(|f| f.0 == k).map(|f| f.1.clone());
            let got = d.get_script_info_field(k);
            ensure!(got.as_ref().ok() == Some(&want), "info-field", "{k} is {got:?}, expected {want:?}: {}", ctx());
        }
        let word = if texts.is_empty() || cx.rng.pct(20) { gen::word(&mut cx.rng) } else { cx.rng.pick(&texts).clone() };
        let part = word[gen::boundary_range(&mut cx.rng, &word, 6)].to_string();
        let want: Vec<String> = texts.iter().filter(|t| t.contains(&part)).cloned().collect();
        ensure!(d.find_event_text(&part).ok() == Some(want.clone()), "find-event-text", "{part:?}: {:?}, expected {want:?}: {}", d.find_event_text(&part), ctx());
        cx.obs("texts_found", want.len() as u64);
        // the fields with a name of their own, of the first section
        let text = d.text();
        let info = d.info();
        match infos.first() {
            None => ensure!(info.get_title().is_err() && info.all().ok() == Some(vec![]), "info-without-section", "{text:?}"),
            Some(f) => {
                let g = |k: &str| f.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                let ctx = || format!("{log:?}\n{text:?}");
                ensure!(info.get_title().ok() == Some(g("Title")), "title", "{:?}: {}", info.get_title(), ctx());
                ensure!(info.get_author().ok() == Some(g("Original Script")), "author", "{:?}: {}", info.get_author(), ctx());
                ensure!(info.all().ok().as_ref() == Some(f), "info-all", "{:?}: {}", info.all(), ctx());
                let n = |k: &str| g(k).map(|v| v.parse::<u32>().unwrap());
                let res = n("PlayResX").zip(n("PlayResY"));
                ensure!(info.get_resolution().ok() == Some(res), "resolution", "{:?}, expected {res:?}: {}", info.get_resolution(), ctx());
                ensure!(info.get_wrap_style().ok() == Some(n("WrapStyle").map(|w| w as u8)), "wrap-style", "{:?}: {}", info.get_wrap_style(), ctx());
                let sc = g("ScaledBorderAndShadow").map(|v| v == "yes");
                ensure!(info.get_scaled_border_and_shadow().ok() == Some(sc), "scaled-border", "{:?}: {}", info.get_scaled_border_and_shadow(), ctx());
            }
        }
        cx.obs("descriptions", 1);
        cx.state(&(&fields, texts.len(), sections, &part));
    }
    Ok(())
}

/// The short ways to ask and to edit do what the long ways do.
fn shortcuts(cx: &mut Cx) -> R {
    let mut o = Opts::random(&mut cx.rng);
    o.max_items = 8;
    let x = gen::script(&mut cx.rng, o);
    cx.set_input(x.text.clone());
    let open = || EditorDocument::from_content(&x.text).unwrap();
    let mut d = open();
    let evs = events_of(&x);
    let r = &mut cx.rng;
    // one event by its place
    if !evs.is_empty() {
        let i = r.below(evs.len());
        let e = &evs[i];
        let mut one = |f: &mut dyn FnMut(ass_editor::core::fluent::EventAccessor<'_>) -> Option<String>, c: &str| -> R {
            let g = f(d.events().event(i));
            ensure!(g == Some(col(e, c)), "accessor", "{c} of event {i} is {g:?}, expected {:?}", col(e, c));
            Ok(())
        };
        one(&mut |a| a.style().ok().flatten(), "Style")?;
        one(&mut |a| a.speaker().ok().flatten(), "Name")?;
        one(&mut |a| a.start_time().ok().flatten(), "Start")?;
        one(&mut |a| a.end_time().ok().flatten(), "End")?;
        one(&mut |a| a.layer().ok().flatten(), "Layer")?;
        one(&mut |a| a.effect().ok().flatten(), "Effect")?;
        one(&mut |a| a.margins().ok().flatten().map(|m| m.0), "MarginL")?;
        one(&mut |a| a.margins().ok().flatten().map(|m| m.1), "MarginR")?;
        one(&mut |a| a.margins().ok().flatten().map(|m| m.2), "MarginV")?;
        let k = d.events().event(i).event_type().ok().flatten();
        ensure!(k.map(|k| k.as_str().to_string()) == Some(e.kind.clone()), "accessor-type", "{k:?} {e:?}");
        // changes through it are the changes to that event alone
        let (mut a, mut b) = (open(), open());
        let (s, t) = (r.below(400) as i32 - 150, r.below(400) as i32 - 150);
        let f = *r.pick(&["Banner;5", "", "fx", "Scroll up;1;2;3"]);
        let k = r.below(9);
        let (p, q) = match k {
            0 => (a.events().event(i).toggle_ops().apply().map(drop), b.events().toggle_type().events(vec![i]).apply().map(drop)),
            1 => (a.events().event(i).timing_ops().shift(s).map(drop), b.events().timing().events(vec![i]).adjust(s, s).map(drop)),
            2 => (a.events().event(i).timing_ops().shift_start(s).map(drop), b.events().timing().events(vec![i]).adjust(s, 0).map(drop)),
            3 => (a.events().event(i).timing_ops().shift_end(t).map(drop), b.events().timing().events(vec![i]).adjust(0, t).map(drop)),
            4 => (a.events().event(i).effect_ops().set(f).map(drop), b.events().effects().events(vec![i]).set(f).map(drop)),
            5 => (a.events().event(i).effect_ops().append(f).map(drop), b.events().effects().events(vec![i]).append(f).map(drop)),
            6 => (a.events().event(i).effect_ops().clear().map(drop), b.events().effects().event(i).clear().map(drop)),
            7 => (a.events().toggle_type().event(i).apply().map(drop), b.events().toggle_type().events(vec![i]).apply().map(drop)),
            _ => (a.events().timing().event(i).adjust(s, t).map(drop), b.events().timing().events(vec![i]).adjust(s, t).map(drop)),
        };
        ensure!(p.is_ok() == q.is_ok() && a.text() == b.text(), "accessor-edit", "way {k} {s} {t} {f:?} of event {i}: {p:?} {:?}\nand {q:?} {:?}", a.text(), b.text());
        // no other event changes
        let now = a.events().all().unwrap_or_default();
        for (j, e) in evs.iter().enumerate().filter(|y| y.0 != i) {
            ensure!(now.get(j).is_some_and(|n| n.event.event_type.as_str() == e.kind && n.event.start == col(e, "Start") && n.event.end == col(e, "End") && n.event.effect == col(e, "Effect") && n.event.text == col(e, "Text")), "accessor-edit-other", "way {k} of event {i} changed {j}: {:?}", a.text());
        }
        if p.is_ok() {
            let n = &now[i].event;
            let dialogue = e.kind == "Dialogue";
            ensure!(n.text == col(e, "Text") && n.style == col(e, "Style"), "accessor-edit-text", "way {k} {:?}", a.text());
            match k {
                0 | 7 if dialogue || e.kind == "Comment" => ensure!(n.event_type == if dialogue { EventType::Comment } else { EventType::Dialogue }, "accessor-toggle", "{e:?} {n:?}"),
                4 => ensure!(n.effect == f, "accessor-effect", "{f:?} {n:?}"),
                6 => ensure!(n.effect.is_empty(), "accessor-effect", "{n:?}"),
                2 | 3 => {
                    // where the event still ends after it starts
                    if let (Some(x), Some(y)) = (cs(&col(e, "Start")), cs(&col(e, "End"))) {
                        let (x2, y2) = if k == 2 { ((x + i64::from(s)).max(0), y) } else { (x, (y + i64::from(t)).max(0)) };
                        if x2 < y2 {
                            ensure!((cs(&n.start), cs(&n.end)) == (Some(x2), Some(y2)), "accessor-times", "{e:?} {n:?}");
                            cx.obs("times_shifted", 1);
                        }
                    }
                }
                _ => {}
            }
            cx.obs("events_edited", 1);
        }
    }
    // queries by a short name
    let r = &mut cx.rng;
    let name = if evs.is_empty() { "x".into() } else { r.pick(&evs).get("Style").unwrap_or("").trim().to_string() };
    let text = if evs.is_empty() { "x".into() } else { col(r.pick(&evs), "Text") };
    let (s, t) = (r.below(3_000_000) as u32, 3_000_000);
    let all = d.events().all().unwrap_or_default();
    let time = |v: &str| ass_core::utils::parse_ass_time(v).ok();
    let k = r.below(10);
    let mut want: Vec<usize> = (0..evs.len())
        .filter(|&i| match k {
            0 => evs[i].kind == "Dialogue",
            1 => evs[i].kind == "Comment",
            2 => matches!((time(&all[i].event.start), time(&all[i].event.end)), (Some(a), Some(b)) if a >= s && b <= t),
            3 => all[i].event.style.to_lowercase().contains(&name.to_lowercase()),
            4 => all[i].event.text.to_lowercase().contains(&text.to_lowercase()),
            _ => true,
        })
        .collect();
    let start = |i: usize| time(&all[i].event.start).unwrap_or(0);
    let end = |i: usize| time(&all[i].event.end).unwrap_or(0);
    match k {
        6 => want.sort_by_key(|&i| start(i)),
        7 => want.sort_by(|&a, &b| all[a].event.style.cmp(&all[b].event.style).then(start(a).cmp(&start(b)))),
        8 => want.sort_by(|&a, &b| (end(b).saturating_sub(start(b))).cmp(&end(a).saturating_sub(start(a)))),
        9 => want.sort_by(|&a, &b| all[a].event.text.cmp(&all[b].event.text).then(a.cmp(&b)).reverse()),
        _ => {}
    }
    let query = |d: &mut EditorDocument| -> Vec<usize> {
        let q = match k {
            0 => d.events().dialogues(),
            1 => d.events().comments(),
            2 => d.events().in_time_range(s, t),
            3 => d.events().with_style(&name),
            4 => d.events().containing(&text),
            5 => d.events().in_order(),
            6 => d.events().by_time(),
            7 => d.events().query().sort_by_style().then_by(EventSortCriteria::StartTime),
            8 => d.events().query().sort_by_duration().descending(),
            _ => d.events().query().sort(EventSortCriteria::Text).then_by(EventSortCriteria::Index).descending(),
        };
        q.indices().unwrap_or_else(|_| vec![usize::MAX])
    };
    let got = query(&mut d);
    ensure!(got == want, "query", "way {k}: {got:?}, expected {want:?} {name:?} {text:?} {s}");
    let first = match k {
        0 => d.events().dialogues().first(),
        1 => d.events().comments().first(),
        6 => d.events().by_time().first(),
        _ => d.events().query().first(),
    };
    let w = if k == 0 || k == 1 || k == 6 { want.first().copied() } else { (!evs.is_empty()).then_some(0) };
    ensure!(first.as_ref().ok().map(|f| f.as_ref().map(|f| f.index)) == Some(w), "query-first", "way {k}: {first:?}, expected {w:?}");
    cx.obs("queries", 1);
    cx.obs("selected", want.len() as u64);
    ensure!(d.events().query().timing().is_err() && d.events().query().toggle_type().is_err() && d.events().query().effects().is_err() && d.text() == x.text, "query-chain", "");
    if !evs.is_empty() {
        let gone: Vec<usize> = (0..evs.len()).filter(|&i| all[i].event.text.to_lowercase().contains(&text.to_lowercase())).collect();
        let mut c = open();
        let res = c.events().delete_query().containing(&text).map(drop);
        let left: Vec<String> = c.events().all().unwrap_or_default().into_iter().map(|e| e.event.text).collect();
        let want: Vec<String> = (0..evs.len()).filter(|i| !gone.contains(i)).map(|i| col(&evs[i], "Text")).collect();
        ensure!(res.is_ok() && left == want, "delete-containing", "{res:?} {text:?} left {left:?}, expected {want:?}");
        cx.obs("deleted", gone.len() as u64);
    }
    // places and selections
    let t = d.text();
    let st = line_starts(&t);
    let o = gen::boundary(&mut cx.rng, &t);
    let line = st.iter().rposition(|&s| s <= o).unwrap();
    let at = d.at_pos(pos(o));
    let want = (line + 1, t[st[line]..o].chars().count() + 1);
    ensure!(at.position() == pos(o) && at.to_line_column().ok() == Some(want), "place", "{o}: {:?}, expected {want:?} in {t:?}", at.to_line_column());
    ensure!(d.at_pos(pos(t.len() + 1)).to_line_column().is_err(), "place-beyond", "");
    ensure!(d.at_start().position() == pos(0) && d.at_end().position() == pos(t.len()), "start-and-end", "{t:?}");
    let l = cx.rng.below(st.len() + 2);
    let g = d.at_line(l).map(|a| a.position());
    if l.saturating_sub(1) < st.len() {
        let w = st[l.saturating_sub(1)];
        ensure!(g.as_ref().ok() == Some(&pos(w)), "at-line", "line {l}: {g:?}, expected {w} in {t:?}");
    } else {
        ensure!(g.is_err(), "at-line-beyond", "line {l} of {}: {g:?}", st.len());
    }
    let g = gen::boundary_range(&mut cx.rng, &t, 40);
    let sel = d.select(rng(g.start, g.end));
    ensure!(sel.range() == rng(g.start, g.end) && sel.text() == t[g.clone()], "selection", "{g:?} of {t:?}: {:?}", sel.text());
    // characters after and before a place
    let n = cx.rng.below(5);
    let back = cx.rng.bool();
    let end = if back { o } else { t[o..].char_indices().nth(n).map_or(t.len(), |c| o + c.0) };
    let begin = if back && n > 0 { t[..o].char_indices().rev().nth(n - 1).map_or(0, |c| c.0) } else { o };
    let fits = if back { t[..o].chars().count() >= n } else { t[o..].chars().count() >= n };
    let res = if back { d.at_pos(pos(o)).backspace(n).map(drop) } else { d.at_pos(pos(o)).delete(n).map(drop) };
    let mut w = t.clone();
    w.replace_range(begin..end, "");
    if fits || back {
        ensure!(res.is_ok() && d.text() == w, "characters", "{n} {} {o} of {t:?}: {res:?} {:?}", if back { "before" } else { "after" }, d.text());
        cx.obs("characters_deleted", n as u64);
    } else {
        ensure!(d.text() == t || d.text() == w, "characters-beyond", "{n} after {o} of {t:?}: {:?}", d.text());
    }
    cx.state(&(k, want, begin, end, evs.len()));
    Ok(())
}

struct Sections(&'static str, u8, Arc<Mutex<Vec<(String, Vec<String>)>>>);
impl SectionProcessor for Sections {
    fn name(&self) -> &'static str {
        self.0
    }
    fn process(&self, header: &str, lines: &[&str]) -> SectionResult {
        self.2.lock().unwrap().push((header.to_string(), lines.iter().map(|l| l.to_string()).collect()));
        match self.1 {
            0 => SectionResult::Processed,
            1 => SectionResult::Ignored,
            _ => SectionResult::Failed("no".into()),
        }
    }
}
struct Tags(&'static str);
impl TagHandler for Tags {
    fn name(&self) -> &'static str {
        self.0
    }
    fn process(&self, _: &str) -> TagResult {
        TagResult::Processed
    }
}

fn read(s: &ass_core::parser::Script) -> Vec<String> {
    s.sections().iter().map(|s| match s {
        Section::ScriptInfo(i) => format!("{:?}", i.fields),
        Section::Styles(v) => format!("{v:?}"),
        Section::Events(v) => format!("{v:?}"),
        Section::Fonts(v) => format!("{v:?}"),
        Section::Graphics(v) => format!("{v:?}"),
    }).collect()
}

/// The handlers a document has are asked, and the script read with them is the same script.
fn registries(cx: &mut Cx) -> R {
    let mut o = Opts::random(&mut cx.rng);
    o.unknown_sections = true;
    o.max_items = 4;
    let x = gen::script(&mut cx.rng, o);
    let mut text = x.text.clone();
    let own = *cx.rng.pick(&["My Section", "Data", "日本"]);
    let has = cx.rng.pct(70);
    let body: Vec<String> = (0..cx.rng.below(4)).map(|i| format!("entry {i}: {}", gen::word(&mut cx.rng))).collect();
    if has {
        text = format!("{}\n\n[{own}]\n{}{}", text.trim_end(), body.join("\n"), if body.is_empty() || cx.rng.bool() { "\n" } else { "" });
    }
    cx.set_input(text.clone());
    let mut d = EditorDocument::from_content(&text).map_err(|e| Fail { sig: "content-refused".into(), detail: e.to_string() })?;
    ensure!(d.registry().is_none(), "registry-from-nothing", "");
    let plain = d.parse_script_with(read).map_err(|e| Fail { sig: "parse".into(), detail: e.to_string() })?;
    ensure!(d.parse_with_extensions(read).ok().as_ref() == Some(&plain), "parse-without-registry", "{text:?}");
    let log = Arc::new(Mutex::new(vec![]));
    let verdict = cx.rng.below(3) as u8;
    let mut names = vec![];
    let explicit = cx.rng.bool();
    if explicit {
        ensure!(d.initialize_registry().is_ok(), "initialize", "");
    }
    let mine = cx.rng.pct(80);
    if mine {
        let ok = d.register_section_processor("ext".into(), Box::new(Sections(own, verdict, log.clone())));
        ensure!(ok.is_ok(), "register-section", "{ok:?}");
        let twice = d.register_section_processor("ext".into(), Box::new(Sections(own, verdict, log.clone())));
        ensure!(twice.is_err(), "registered-twice", "section {own}");
    }
    for t in ["zz", "yy", "xx"] {
        if cx.rng.bool() {
            let ok = d.register_tag_handler("ext".into(), Box::new(Tags(t)));
            ensure!(ok.is_ok() && d.register_tag_handler("ext".into(), Box::new(Tags(t))).is_err(), "register-tag", "{t}: {ok:?}");
            names.push(t);
        }
    }
    ensure!(d.registry().is_some() == (explicit || mine || !names.is_empty()), "registry-there", "");
    if let Some(g) = d.registry() {
        ensure!(g.has_section_processor(own) == mine, "section-there", "{own}");
        for t in ["zz", "yy", "xx"] {
            ensure!(g.has_tag_handler(t) == names.contains(&t), "tag-there", "{t}");
        }
        // those every registry starts with
        for t in ["b", "i", "fs", "pos", "move", "clip", "k", "t", "fad", "c", "bord", "r", "an"] {
            ensure!(g.has_tag_handler(t), "builtin-tag", "\\{t}");
        }
    }
    log.lock().unwrap().clear();
    let got = d.parse_with_extensions(read);
    ensure!(got.as_ref().ok() == Some(&plain), "parse-with-registry", "{got:?}\nexpected {plain:?}\nof {text:?}");
    let seen = log.lock().unwrap().clone();
    if mine && has {
        ensure!(seen.len() == 1 && seen[0].0 == own, "processor-asked", "{seen:?} for {own:?} in {text:?}");
        let lines: Vec<&str> = seen[0].1.iter().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
        ensure!(lines == body, "processor-lines", "{lines:?}, expected {body:?} in {text:?}");
        cx.obs("sections_processed", 1);
    } else {
        ensure!(seen.is_empty(), "processor-asked-for-nothing", "{seen:?} in {text:?}");
    }
    // the handlers stay through edits
    let n = d.registry().map(|g| g.extension_count());
    ensure!(d.insert(pos(0), "").is_ok() && d.insert(pos(d.len()), "\n; end\n").is_ok() && d.registry().map(|g| g.extension_count()) == n, "registry-lost", "{n:?}");
    cx.obs("registries", 1);
    cx.obs("tags_registered", names.len() as u64);
    cx.state(&(own, has, verdict, mine, names.len(), body.len(), plain.len()));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E17",
        rule: "a distinct case is a distinct set of fields, counts and pattern asked for, of a query and an edit by a short name, or of registered handlers",
        assumptions: &["Fields asked for by a name of their own are those of the first script info section."],
        monitors: vec![mon("tells", 25_000, 900_000, tells), mon("shortcuts", 22_000, 700_000, shortcuts), mon("registries", 12_000, 400_000, registries)],
        must_observe: &["descriptions", "texts_edited", "fields_set", "texts_found", "events_edited", "queries", "selected", "deleted", "characters_deleted", "sections_processed", "tags_registered", "registries"],
    }]
}
