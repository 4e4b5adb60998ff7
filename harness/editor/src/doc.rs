//! E01 text edits of a document, E02 undo and redo, E13 positions and ranges.
use ass_editor::commands::{DeltaBatchCommand, IncrementalInsertCommand, IncrementalReplaceCommand};
use ass_editor::core::incremental::IncrementalParser;
use ass_editor::core::LineColumn;
use ass_editor::{
    BatchCommand, DeleteTextCommand, DocumentCommandExt, DocumentEvent, EditorCommand, EditorDocument, EditorError, InsertTextCommand, Position, PositionBuilder, Range,
    ReplaceTextCommand, Selection, UndoStackConfig,
};
use hcommon::gen::{self, Opts};
use hcommon::*;
use std::sync::mpsc;

pub fn pos(o: usize) -> Position {
    Position::new(o)
}
pub fn rng(a: usize, b: usize) -> Range {
    Range::new(pos(a), pos(b))
}

pub fn doc_text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => gen::any_script(r),
        1 => gen::soup(r, 10),
        2 => String::new(),
        _ => {
            let o = Opts::random(r);
            gen::script(r, o).text
        }
    }
}

fn new_text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => r.pick(&["é", "日本", "😀", "\n", "\r\n", "x", " ", "\u{2028}"]).to_string(),
        2 => gen::soup(r, 3),
        3 => gen::soup(r, 40),
        4 => "[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,x\n".into(),
        5 => gen::word(r).repeat(r.u(1, 40)),
        _ => gen::word(r),
    }
}

/// A range: usually valid, sometimes past the end or inside a character.
fn any_range(r: &mut Rng, s: &str) -> (usize, usize) {
    if r.pct(85) {
        let max = if r.bool() { 40 } else { s.len() };
        let x = gen::boundary_range(r, s, max);
        (x.start, x.end)
    } else {
        let a = r.below(s.len() + 3);
        (a, a + r.below(30))
    }
}
fn valid(s: &str, a: usize, b: usize) -> bool {
    a <= b && b <= s.len() && s.is_char_boundary(a) && s.is_char_boundary(b)
}
fn spliced(s: &str, a: usize, b: usize, t: &str) -> String {
    format!("{}{}{}", &s[..a], t, &s[b..])
}

/// Line starts the way a rope counts lines.
pub fn line_starts(s: &str) -> Vec<usize> {
    let mut v = vec![0];
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        match c {
            '\r' if it.peek().is_some_and(|x| x.1 == '\n') => {}
            '\n' | '\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => v.push(i + c.len_utf8()),
            _ => {}
        }
    }
    v
}
fn line_of(starts: &[usize], o: usize) -> usize {
    starts.iter().rposition(|&s| s <= o).unwrap()
}
fn line_end(s: &str, starts: &[usize], line: usize) -> usize {
    let e = starts.get(line + 1).copied().unwrap_or(s.len());
    let l = &s[starts[line]..e];
    let k = l.strip_suffix("\r\n").or_else(|| l.strip_suffix(['\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'])).unwrap_or(l);
    starts[line] + k.len()
}

struct Entry {
    before: Option<String>,
    after: Option<String>,
}
struct Model {
    text: String,
    undo: Vec<Entry>,
    redo: Vec<Entry>,
    modified: bool,
    max_entries: usize,
    exact_limit: bool,
    listener: String,
    log: Vec<String>,
}

#[derive(Debug)]
enum Effect {
    /// text after, number of history entries at most
    Ok(String, usize),
    Refused,
}

fn apply_event(l: &mut String, e: &DocumentEvent) -> R {
    match e {
        DocumentEvent::TextInserted { position, text, length } => {
            ensure!(*length == text.len(), "event-length", "{e:?}");
            ensure!(valid(l, position.offset, position.offset), "event-position", "{e:?} in {l:?}");
            l.insert_str(position.offset, text);
        }
        DocumentEvent::TextDeleted { range, deleted_text } => {
            let (a, b) = (range.start.offset, range.end.offset);
            ensure!(valid(l, a, b) && &l[a..b] == deleted_text, "event-deleted-text", "{e:?} in {l:?}");
            l.replace_range(a..b, "");
        }
        DocumentEvent::TextReplaced { range, old_text, new_text } => {
            let (a, b) = (range.start.offset, range.end.offset);
            ensure!(valid(l, a, b) && &l[a..b] == old_text, "event-old-text", "{e:?} in {l:?}");
            l.replace_range(a..b, new_text);
        }
        _ => {}
    }
    Ok(())
}

fn step(cx: &mut Cx, d: &mut EditorDocument, m: &mut Model) -> R {
    let t = m.text.clone();
    let (a, b) = any_range(&mut cx.rng, &t);
    let n = new_text(&mut cx.rng);
    let edit = |a: usize, b: usize, n: &str| if valid(&t, a, b) { Effect::Ok(spliced(&t, a, b, n), 1) } else { Effect::Refused };
    let k = cx.rng.below(27);
    m.log.push(format!("op {k} {a}..{b} {n:?}"));
    let (res, want): (Result<(), EditorError>, Effect) = match k {
        0 => (d.insert(pos(a), &n), edit(a, a, &n)),
        1 => (d.delete(rng(a, b)), edit(a, b, "")),
        2 => (d.replace(rng(a, b), &n), edit(a, b, &n)),
        3 => (d.edit_incremental(rng(a, b), &n).map(drop), edit(a, b, &n)),
        4 => (d.insert_incremental(pos(a), &n).map(drop), edit(a, a, &n)),
        5 => (d.delete_incremental(rng(a, b)).map(drop), edit(a, b, "")),
        6 => (d.edit_safe(rng(a, b), &n), edit(a, b, &n)),
        7 => {
            let c = InsertTextCommand::new(pos(a), n.clone());
            let r = d.execute_command(&c);
            if let Ok(r) = &r {
                ensure!(r.success && r.content_changed && r.new_cursor == Some(pos(a + n.len())), "insert-result", "{r:?} {:?}", m.log);
            }
            (r.map(drop), edit(a, a, &n))
        }
        8 => (d.execute_command(&DeleteTextCommand::new(rng(a, b))).map(drop), edit(a, b, "")),
        9 => (d.execute_command(&ReplaceTextCommand::new(rng(a, b), n.clone())).map(drop), edit(a, b, &n)),
        10 | 11 => {
            // a batch, possibly failing part way
            let mut c = BatchCommand::new("several edits".into());
            let mut s = t.clone();
            let mut ok = true;
            for _ in 0..cx.rng.u(1, 4) {
                let (x, y) = any_range(&mut cx.rng, &s);
                let w = new_text(&mut cx.rng);
                m.log.push(format!("  {x}..{y} {w:?}"));
                if valid(&s, x, y) {
                    if ok {
                        s = spliced(&s, x, y, &w);
                    }
                } else {
                    ok = false;
                }
                c = c.add_command(Box::new(ReplaceTextCommand::new(rng(x, y), w)));
            }
            let r = if k == 10 { d.execute_command(&c) } else { c.execute(d) };
            cx.obs(if ok { "batches" } else { "failed_batches" }, 1);
            (r.map(drop), if ok { Effect::Ok(s, 1) } else { Effect::Refused })
        }
        12 => (d.at(pos(a)).insert_text(&n), edit(a, a, &n)),
        13 => (d.at(pos(a)).delete_range(b - a), edit(a, b, "")),
        14 => (d.at(pos(a)).replace_text(b - a, &n), edit(a, b, &n)),
        15 => (d.at_pos(pos(a)).insert_text(&n).map(drop), edit(a, a, &n)),
        16 => {
            let c = cx.rng.below(12);
            let back = cx.rng.bool();
            // whole characters before or after the place
            let want = if !valid(&t, a, a) {
                Effect::Refused
            } else if back {
                edit(t[..a].chars().rev().take(c).fold(a, |o, ch| o - ch.len_utf8()), a, "")
            } else if t[a..].chars().count() < c {
                Effect::Refused
            } else {
                edit(a, t[a..].chars().take(c).fold(a, |o, ch| o + ch.len_utf8()), "")
            };
            (if back { d.at_pos(pos(a)).backspace(c) } else { d.at_pos(pos(a)).delete(c) }.map(drop), want)
        }
        17 => {
            let st = line_starts(&t);
            let want = if valid(&t, a, a) {
                let e = line_end(&t, &st, line_of(&st, a));
                // a position inside a CR LF pair is already past the end of its line
                edit(a, e.max(a), &n)
            } else {
                Effect::Refused
            };
            (d.at_pos(pos(a)).replace_to_line_end(&n).map(drop), want)
        }
        18 => {
            let st = line_starts(&t);
            let l = cx.rng.below(st.len() + 2);
            let want = match st.get(l.saturating_sub(1)) {
                Some(&o) => edit(o, o, &n),
                None => Effect::Refused,
            };
            (d.at_line(l).and_then(|p| p.insert_text(&n).map(drop)), want)
        }
        19 => (d.at_end().insert_line().map(drop), edit(t.len(), t.len(), "\n")),
        20 => (d.select(rng(a, b)).wrap_with_tag("{\\i1}", "{\\i0}").map(drop), if valid(&t, a, b) { edit(a, b, &format!("{{\\i1}}{}{{\\i0}}", &t[a..b])) } else { Effect::Refused }),
        21 => {
            let w = cx.rng.below(5);
            let un = cx.rng.bool();
            let want = if valid(&t, a, b) {
                let st = line_starts(&t);
                let (la, lb) = (line_of(&st, a), line_of(&st, b));
                let mut s = t.clone();
                for l in (la..=lb).rev() {
                    if un {
                        let sp = t[st[l]..].chars().take(w).take_while(|&c| c == ' ').count();
                        s.replace_range(st[l]..st[l] + sp, "");
                    } else {
                        s.insert_str(st[l], &" ".repeat(w));
                    }
                }
                Effect::Ok(s, lb - la + 1)
            } else {
                Effect::Refused
            };
            let sel = d.select(rng(a, b));
            (if un { sel.unindent(w) } else { sel.indent(w) }.map(drop), want)
        }
        22 => (d.command().range(rng(a, b)).replace(&n).map(drop), edit(a, b, &n)),
        23 => (d.insert_at(pos(a), &n).map(drop), edit(a, a, &n)),
        24 => {
            use ass_editor::commands::DeltaCommand;
            if cx.rng.bool() {
                (IncrementalInsertCommand::new(pos(a), n.clone()).execute_with_delta(d).map(drop), edit(a, a, &n))
            } else {
                (IncrementalReplaceCommand::new(rng(a, b), n.clone()).execute_with_delta(d).map(drop), edit(a, b, &n))
            }
        }
        25 => {
            let c = DeltaBatchCommand::new().add_command(IncrementalReplaceCommand::new(rng(a, b), n.clone())).add_command(IncrementalInsertCommand::new(pos(0), "; x\n".into()));
            let want = if valid(&t, a, b) { Effect::Ok(format!("; x\n{}", spliced(&t, a, b, &n)), 2) } else { Effect::Refused };
            (c.execute_batch(d).map(drop), want)
        }
        _ => {
            // an edit that changes nothing
            let old = if valid(&t, a, b) { t[a..b].to_string() } else { String::new() };
            (d.replace(rng(a, b), &old), edit(a, b, &old))
        }
    };
    let got = d.text();
    let counts = d.undo_manager().stats();
    match want {
        Effect::Refused => {
            ensure!(res.is_err(), "bad-range-accepted", "{:?}\ntext {t:?}\nafter {got:?}", m.log);
            ensure!(got == t, "refused-edit-changed-text", "{:?}\ntext {t:?}\nafter {got:?}", m.log);
            ensure!(counts.undo_count == m.undo.len() && counts.redo_count == m.redo.len(), "refused-edit-recorded", "{:?} {counts:?} model {} {}", m.log, m.undo.len(), m.redo.len());
            ensure!(d.is_modified() == m.modified, "refused-edit-modified", "{:?}", m.log);
            cx.obs("refused", 1);
        }
        Effect::Ok(after, most) => {
            ensure!(res.is_ok(), "edit-refused", "{:?}\n{:?}\ntext {t:?}", res, m.log);
            ensure!(got == after, "edit-text", "{:?}\ntext {t:?}\nafter {got:?}\nwant {after:?}", m.log);
            cx.obs("edits", 1);
            m.text = after.clone();
            if after != t {
                m.modified = true;
                ensure!(d.is_modified(), "not-modified", "{:?}", m.log);
            } else {
                m.modified = d.is_modified();
            }
            // the history grew by one entry per change (none is needed for no change)
            let grown = if after != t { most } else { usize::from(counts.undo_count != m.undo.len() || counts.redo_count != m.redo.len()).max(usize::from(m.undo.len() >= m.max_entries)) };
            let multi = k == 21;
            if multi || after == t {
                // number of entries is not fixed: believe the count, and check that undoing gets back
                let grown = if m.undo.len() + most <= m.max_entries && m.exact_limit { counts.undo_count.wrapping_sub(m.undo.len()) } else { usize::MAX };
                if grown == usize::MAX {
                    // limits hide the count; start afresh
                    d.undo_manager_mut().clear();
                    m.undo.clear();
                    m.redo.clear();
                } else {
                    ensure!(grown <= most && (after == t || grown > 0), "history-entries", "{grown} entries, at most {most}: {:?}", m.log);
                    if grown > 0 {
                        m.redo.clear();
                    }
                    for i in 0..grown {
                        m.undo.push(Entry { before: (i == 0).then(|| t.clone()), after: (i + 1 == grown).then(|| after.clone()) });
                    }
                }
            } else {
                m.redo.clear();
                for i in 0..grown {
                    m.undo.push(Entry { before: (i == 0).then(|| t.clone()), after: (i + 1 == grown).then(|| after.clone()) });
                }
                let limit = m.max_entries.min(m.undo.len());
                if m.exact_limit {
                    ensure!(counts.undo_count == limit, "history-entries", "{} entries, expected {limit}: {:?}", counts.undo_count, m.log);
                } else {
                    ensure!(counts.undo_count <= limit, "history-entries", "{} entries, at most {limit}: {:?}", counts.undo_count, m.log);
                    cx.obs("memory_evictions", u64::from(counts.undo_count < limit));
                }
                let drop = m.undo.len() - counts.undo_count;
                m.undo.drain(..drop);
                ensure!(counts.redo_count == 0, "redo-after-edit", "{:?}", m.log);
            }
        }
    }
    Ok(())
}

fn undo_redo(cx: &mut Cx, d: &mut EditorDocument, m: &mut Model) -> R {
    let undo = cx.rng.bool();
    m.log.push(if undo { "undo".into() } else { "redo".into() });
    let before = d.text();
    let (from, name) = if undo { (&mut m.undo, "undo") } else { (&mut m.redo, "redo") };
    let e = from.pop();
    let res = if undo { d.undo() } else { d.redo() };
    match e {
        None => {
            ensure!(res.is_err() && d.text() == before, "nothing-to-undo", "{name} {:?}", m.log);
            ensure!(matches!(res, Err(EditorError::NothingToUndo | EditorError::NothingToRedo)), "nothing-to-undo-error", "{res:?}");
        }
        Some(e) => {
            ensure!(res.is_ok(), "undo-failed", "{name}: {res:?} {:?}", m.log);
            let got = d.text();
            let want = if undo { &e.before } else { &e.after };
            if let Some(w) = want {
                ensure!(&got == w, if undo { "undo-text" } else { "redo-text" }, "{name} gives {got:?}\nwant {w:?}\nfrom {before:?}\n{:?}", m.log);
            }
            m.text = got;
            m.modified = d.is_modified();
            if undo {
                m.redo.push(e);
            } else {
                m.undo.push(e);
            }
            cx.obs(if undo { "undos" } else { "redos" }, 1);
        }
    }
    Ok(())
}

fn invariants(cx: &mut Cx, d: &EditorDocument, m: &Model) -> R {
    let t = &m.text;
    ensure!(d.len() == t.len() && d.len_bytes() == t.len() && d.is_empty() == t.is_empty(), "length", "{} {} {} for {t:?}", d.len(), d.len_bytes(), d.is_empty());
    ensure!(d.len_lines() == line_starts(t).len(), "line-count", "{} for {t:?}", d.len_lines());
    let (a, b) = any_range(&mut cx.rng, t);
    let got = d.text_range(rng(a, b));
    if valid(t, a, b) {
        ensure!(got.as_deref().ok() == Some(&t[a..b]), "text-range", "{a}..{b} of {t:?}: {got:?}");
    } else {
        ensure!(got.is_err(), "text-range", "{a}..{b} of {t:?}: {got:?}");
    }
    let s = d.undo_manager().stats();
    ensure!(s.undo_count == m.undo.len() && s.redo_count == m.redo.len(), "history-count", "{s:?}, model {} {}: {:?}", m.undo.len(), m.redo.len(), m.log);
    ensure!(d.can_undo() == !m.undo.is_empty() && d.can_redo() == !m.redo.is_empty(), "can-undo", "{:?}", m.log);
    ensure!(d.next_undo_description().is_some() == d.can_undo() && d.next_redo_description().is_some() == d.can_redo(), "description", "{:?}", m.log);
    ensure!((s.memory_usage == 0) == (s.undo_count + s.redo_count == 0), "history-memory", "{s:?} {:?}", m.log);
    cx.max("undo_depth", s.undo_count as u64);
    Ok(())
}

fn edits(cx: &mut Cx) -> R {
    let text = doc_text(&mut cx.rng);
    cx.set_input(text.clone());
    let Ok(mut d) = EditorDocument::from_content(&text) else { return fail("content-refused", format!("{text:?}")) };
    ensure!(d.text() == text && !d.is_modified(), "content", "{text:?} -> {:?}", d.text());
    let mut m = Model { text: text.clone(), undo: vec![], redo: vec![], modified: false, max_entries: 50, exact_limit: true, listener: text.clone(), log: vec![format!("{text:?}")] };
    if cx.rng.pct(40) {
        m.max_entries = *cx.rng.pick(&[0, 1, 2, 3, 5, 50, 200]);
        let max_memory = *cx.rng.pick(&[0, 0, 10 << 20, 3000, 600]);
        m.exact_limit = max_memory == 0 || max_memory > 1 << 20;
        d.undo_manager_mut().set_config(UndoStackConfig { max_entries: m.max_entries, max_memory, enable_compression: cx.rng.bool(), arena_reset_interval: *cx.rng.pick(&[0, 1, 100]) });
        m.log.push(format!("limits {} {max_memory}", m.max_entries));
        cx.obs("limited_histories", 1);
    }
    let rx = if cx.rng.bool() {
        let (tx, rx) = mpsc::channel();
        d.set_event_channel(tx);
        Some(rx)
    } else {
        None
    };
    let many = cx.rng.pct(4);
    let steps = if many { cx.rng.u(60, 130) } else { cx.rng.u(1, 25) };
    for _ in 0..steps {
        if cx.rng.pct(65) {
            step(cx, &mut d, &mut m)?;
        } else {
            for _ in 0..cx.rng.u(1, 4) {
                undo_redo(cx, &mut d, &mut m)?;
            }
            m.listener = d.text();
            if let Some(rx) = &rx {
                // changes made by undoing are not part of the event contract
                while rx.try_recv().is_ok() {}
            }
        }
        if cx.rng.pct(8) {
            d.set_modified(false);
            m.modified = false;
            ensure!(!d.is_modified(), "set-modified", "");
        }
        if let Some(rx) = &rx {
            while let Ok(e) = rx.try_recv() {
                apply_event(&mut m.listener, &e).map_err(|f| Fail { detail: format!("{}\n{:?}", f.detail, m.log), ..f })?;
                cx.obs("events", 1);
            }
            ensure!(m.listener == d.text(), "events-incomplete", "listener {:?}\ndocument {:?}\n{:?}", m.listener, d.text(), m.log);
        }
        invariants(cx, &d, &m)?;
        cx.state(&(m.undo.len(), m.redo.len(), m.text.len()));
    }
    Ok(())
}

fn histories(cx: &mut Cx) -> R {
    // long runs of undo and redo over mixed edits
    let text = doc_text(&mut cx.rng);
    cx.set_input(text.clone());
    let mut d = EditorDocument::from_content(&text).map_err(|e| Fail { sig: "content-refused".into(), detail: e.to_string() })?;
    let mut snaps = vec![text.clone()];
    let mut log = vec![];
    for _ in 0..cx.rng.u(1, 30) {
        let t = snaps.last().unwrap().clone();
        let x = gen::boundary_range(&mut cx.rng, &t, 60);
        let n = new_text(&mut cx.rng);
        if t[x.clone()] == *n {
            continue;
        }
        log.push((x.clone(), n.clone()));
        let r = rng(x.start, x.end);
        let ok = match cx.rng.below(4) {
            0 => d.replace(r, &n).is_ok(),
            1 => d.edit_incremental(r, &n).is_ok(),
            2 => d.execute_command(&ReplaceTextCommand::new(r, n.clone())).is_ok(),
            _ if x.is_empty() => d.insert(pos(x.start), &n).is_ok(),
            _ => d.select(r).replace_with(&n).is_ok(),
        };
        ensure!(ok, "edit-refused", "{log:?} in {text:?}");
        snaps.push(spliced(&t, x.start, x.end, &n));
        ensure!(&d.text() == snaps.last().unwrap(), "edit-text", "{log:?} in {text:?}");
    }
    let mut at = snaps.len() - 1;
    for _ in 0..cx.rng.u(1, 80) {
        let back = if at == 0 { false } else if at == snaps.len() - 1 { true } else { cx.rng.bool() };
        let runs = cx.rng.u(1, 12);
        for _ in 0..runs {
            let r = if back { d.undo() } else { d.redo() };
            if back {
                if at == 0 {
                    ensure!(r.is_err(), "undo-past-start", "{log:?}");
                    break;
                }
                at -= 1;
                cx.obs("undos", 1);
            } else {
                if at == snaps.len() - 1 {
                    ensure!(r.is_err(), "redo-past-end", "{log:?}");
                    break;
                }
                at += 1;
                cx.obs("redos", 1);
            }
            ensure!(r.is_ok(), "undo-failed", "{r:?} {log:?}");
            ensure!(d.text() == snaps[at], if back { "undo-text" } else { "redo-text" }, "at {at}: {:?}\nwant {:?}\n{log:?}", d.text(), snaps[at]);
            cx.state(&(at, snaps.len()));
        }
    }
    Ok(())
}

fn incremental(cx: &mut Cx) -> R {
    // the parser's idea of the text follows the changes it is told
    let mut text = doc_text(&mut cx.rng);
    let mut p = IncrementalParser::new();
    if cx.rng.bool() {
        p.initialize_cache(&text);
    }
    if cx.rng.bool() {
        p.set_reparse_threshold(cx.rng.below(200));
    }
    let mut log = vec![text.clone()];
    for _ in 0..cx.rng.u(1, 12) {
        let (a, b) = any_range(&mut cx.rng, &text);
        let n = new_text(&mut cx.rng);
        log.push(format!("{a}..{b} {n:?}"));
        let r = p.apply_change(&text, rng(a, b), &n);
        if !valid(&text, a, b) {
            ensure!(r.is_err(), "bad-range-accepted", "{log:?}");
            continue;
        }
        ensure!(r.is_ok(), "change-refused", "{r:?} {log:?}");
        text = spliced(&text, a, b, &n);
        let seen = p.with_cached_script(|s| Ok(s.source().to_string())).unwrap_or_default();
        ensure!(seen == text, "cached-text", "parser has {seen:?}\ntext is {text:?}\n{log:?}");
        cx.obs("changes", 1);
    }
    Ok(())
}

fn positions(cx: &mut Cx) -> R {
    let t = if cx.rng.bool() { gen::soup(&mut cx.rng, 20) } else { doc_text(&mut cx.rng) };
    cx.set_input(t.clone());
    let Ok(d) = EditorDocument::from_content(&t) else { return fail("content-refused", t) };
    let st = line_starts(&t);
    for _ in 0..8 {
        let o = gen::boundary(&mut cx.rng, &t);
        let line = line_of(&st, o);
        let col = t[st[line]..o].chars().count();
        let lc = d.position_to_line_column(pos(o)).map_err(|e| Fail { sig: "line-column-error".into(), detail: format!("{e} {o} {t:?}") })?;
        ensure!((lc.line, lc.column) == (line + 1, col + 1), "line-column", "{o} is {lc:?}, expected {} {} in {t:?}", line + 1, col + 1);
        ensure!(d.position_to_line_col(pos(o)).ok() == Some((line + 1, col + 1)), "line-col", "{o} in {t:?}");
        ensure!(d.line_column_to_position(line + 1, col + 1).ok() == Some(pos(o)), "line-column-back", "{} {} in {t:?}: {:?}", line + 1, col + 1, d.line_column_to_position(line + 1, col + 1));
        let b = PositionBuilder::new().line(line + 1).column(col + 1).build(d.rope());
        ensure!(b.ok() == Some(pos(o)), "builder-line-column", "{o} in {t:?}");
        ensure!(PositionBuilder::new().at_line_start(line + 1).build(d.rope()).ok() == Some(pos(st[line])), "builder-line-start", "{t:?}");
        ensure!(PositionBuilder::new().at_line_end(line + 1).build(d.rope()).ok() == Some(pos(line_end(&t, &st, line))), "builder-line-end", "line {line} of {t:?}: {:?}", PositionBuilder::new().at_line_end(line + 1).build(d.rope()));
        ensure!(PositionBuilder::new().offset(o).build(d.rope()).ok() == Some(pos(o)), "builder-offset", "{t:?}");
        cx.obs("positions", 1);
        cx.state(&(st.len(), line, col, t.len()));
    }
    // beyond the text
    let past = t.len() + 1 + cx.rng.below(5);
    ensure!(d.position_to_line_column(pos(past)).is_err() && d.position_to_line_col(pos(past)).is_err(), "past-end", "{past} {t:?}");
    ensure!(PositionBuilder::new().offset(past).build(d.rope()).is_err(), "builder-past-end", "{past} {t:?}");
    let bad = st.len() + 1 + cx.rng.below(3);
    ensure!(d.line_column_to_position(bad, 1).is_err(), "past-last-line", "{bad} {t:?}");
    let last = st.len() - 1;
    let over = t[st[last]..].chars().count() + 2 + cx.rng.below(3);
    ensure!(d.line_column_to_position(last + 1, over).is_err(), "past-last-column", "{over} {t:?}");
    ensure!(LineColumn::new(0, 1).is_err() && LineColumn::new(1, 0).is_err(), "zero-line", "");
    // ranges
    let v: Vec<usize> = (0..5).map(|_| cx.rng.below(12)).collect();
    let (x, y) = (rng(v[0], v[1]), rng(v[2], v[3]));
    let set = |r: &Range| (r.start.offset..r.end.offset).collect::<Vec<_>>();
    let (xs, ys) = (set(&x), set(&y));
    ensure!(x.start <= x.end && x.len() == xs.len() && x.is_empty() == xs.is_empty(), "range-len", "{x:?}");
    ensure!(x.contains(pos(v[4])) == xs.contains(&v[4]), "range-contains", "{x:?} {}", v[4]);
    let common: Vec<usize> = xs.iter().filter(|o| ys.contains(o)).copied().collect();
    if !xs.is_empty() && !ys.is_empty() {
        ensure!(x.overlaps(&y) == !common.is_empty(), "range-overlaps", "{x:?} {y:?}");
    }
    ensure!(x.intersection(&y).map(|r| set(&r)).unwrap_or_default() == common, "range-intersection", "{x:?} {y:?}");
    let u = x.union(&y);
    ensure!(u.start.offset == v[..4].iter().copied().min().unwrap() && u.end.offset == v[..4].iter().copied().max().unwrap(), "range-union", "{x:?} {y:?}");
    let e = x.extend_to(pos(v[4]));
    ensure!(e.start.offset == x.start.offset.min(v[4]) && e.end.offset == x.end.offset.max(v[4]), "range-extend", "{x:?} {}", v[4]);
    let s = Selection::new(pos(v[0]), pos(v[1]));
    ensure!(s.range() == x && s.is_reversed() == (v[1] < v[0]) && s.is_empty() == (v[0] == v[1]), "selection", "{s:?}");
    ensure!(s.extend_to(pos(v[4])).range() == rng(v[0], v[4]), "selection-extend", "{s:?}");
    let big = usize::MAX - cx.rng.below(3);
    ensure!(pos(big).advance(v[0]).offset == big.saturating_add(v[0]) && pos(v[0]).retreat(v[1]).offset == v[0].saturating_sub(v[1]), "advance", "");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "E01",
            rule: "a distinct case is a distinct sequence of (history depths, text length) reached while stepping the document beside a string model",
            assumptions: &["Events are not required for undo and redo."],
            monitors: vec![mon("edits", 60_000, 1_500_000, edits), mon("incremental", 50_000, 1_000_000, incremental)],
            must_observe: &["edits", "refused", "batches", "failed_batches", "events", "undos", "redos", "limited_histories", "memory_evictions", "changes"],
        },
        Property {
            id: "E02",
            rule: "a distinct case is a distinct sequence of positions in a history walked by undo and redo",
            assumptions: &["Histories stay below the default limits here; limits are monitored by E01."],
            monitors: vec![mon("histories", 80_000, 2_000_000, histories), mon("edits", 20_000, 500_000, edits)],
            must_observe: &["undos", "redos"],
        },
        Property {
            id: "E13",
            rule: "a distinct case is a distinct text with eight offsets converted to lines and columns and back",
            assumptions: &["Lines are those a rope counts: LF, CR LF, CR, VT, FF, NEL, LS, PS end a line."],
            monitors: vec![mon("positions", 300_000, 6_000_000, positions)],
            must_observe: &["positions"],
        },
    ]
}
