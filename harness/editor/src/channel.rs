//! E08 event channel: delivery of events to handlers.
use ass_editor::core::errors::EditorError;
use ass_editor::events::{DocumentEvent, EventChannel, EventChannelConfig, EventFilter, EventHandler};
use ass_editor::{Position, Range};
use hcommon::gen;
use hcommon::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub fn any_event(r: &mut Rng) -> DocumentEvent {
    let p = |r: &mut Rng| Position::new(r.below(100));
    let w = |r: &mut Rng| gen::word(r);
    let rg = |r: &mut Rng| {
        let a = r.below(100);
        Range::new(Position::new(a), Position::new(a + r.below(20)))
    };
    match r.below(16) {
        0 | 15 => {
            let text = w(r);
            let at = p(r);
            if r.bool() {
                DocumentEvent::text_inserted(at, text)
            } else {
                DocumentEvent::TextInserted { position: at, length: text.len(), text }
            }
        }
        1 => DocumentEvent::TextDeleted { range: rg(r), deleted_text: w(r) },
        2 => DocumentEvent::TextReplaced { range: rg(r), old_text: w(r), new_text: w(r) },
        3 => DocumentEvent::SelectionChanged { old_selection: None, new_selection: Some(rg(r)) },
        4 => DocumentEvent::CursorMoved { old_position: p(r), new_position: p(r) },
        5 => DocumentEvent::DocumentSaved { file_path: w(r), save_as: r.bool() },
        6 => DocumentEvent::DocumentLoaded { file_path: w(r), size: r.below(1000) },
        7 => DocumentEvent::UndoPerformed { action_description: w(r), changes_count: r.below(9) },
        8 => DocumentEvent::RedoPerformed { action_description: w(r), changes_count: r.below(9) },
        9 => DocumentEvent::ValidationCompleted { issues_count: r.below(9), error_count: r.below(9), warning_count: r.below(9), validation_time_ms: 3 },
        10 => DocumentEvent::SearchCompleted { pattern: w(r), matches_count: r.below(9), hit_limit: r.bool(), search_time_us: 5 },
        11 => DocumentEvent::ParsingCompleted { success: r.bool(), sections_count: r.below(9), parse_time_ms: 1, error_message: None },
        12 => DocumentEvent::ExtensionChanged { extension_name: w(r), loaded: r.bool() },
        13 => DocumentEvent::ConfigChanged { key: w(r), old_value: None, new_value: w(r) },
        _ => DocumentEvent::CustomEvent { event_type: r.pick(&["ping", "TextInserted", "pong"]).to_string(), data: HashMap::from([(w(r), w(r))]) },
    }
}
/// Name, modification, cursor event of an event, by its documentation.
fn facts(e: &DocumentEvent) -> (&str, bool, bool) {
    use DocumentEvent::*;
    match e {
        TextInserted { .. } => ("TextInserted", true, false),
        TextDeleted { .. } => ("TextDeleted", true, false),
        TextReplaced { .. } => ("TextReplaced", true, false),
        SelectionChanged { .. } => ("SelectionChanged", false, true),
        CursorMoved { .. } => ("CursorMoved", false, true),
        DocumentSaved { .. } => ("DocumentSaved", false, false),
        DocumentLoaded { .. } => ("DocumentLoaded", false, false),
        UndoPerformed { .. } => ("UndoPerformed", true, false),
        RedoPerformed { .. } => ("RedoPerformed", true, false),
        ValidationCompleted { .. } => ("ValidationCompleted", false, false),
        SearchCompleted { .. } => ("SearchCompleted", false, false),
        ParsingCompleted { .. } => ("ParsingCompleted", false, false),
        ExtensionChanged { .. } => ("ExtensionChanged", false, false),
        ConfigChanged { .. } => ("ConfigChanged", false, false),
        CustomEvent { event_type, .. } => (event_type, false, false),
    }
}

#[derive(Clone, Debug, Default)]
struct Want {
    include: Vec<String>,
    exclude: Vec<String>,
    mods: Option<bool>,
    cursor: Option<bool>,
}
impl Want {
    fn random(r: &mut Rng) -> Self {
        let names = |r: &mut Rng| -> Vec<String> {
            let all = [
                "TextInserted", "TextDeleted", "TextReplaced", "SelectionChanged", "CursorMoved", "DocumentSaved", "DocumentLoaded", "UndoPerformed", "RedoPerformed",
                "ValidationCompleted", "SearchCompleted", "ParsingCompleted", "ExtensionChanged", "ConfigChanged", "ping", "pong", "textinserted", "",
            ];
            (0..r.u(1, 8)).map(|_| r.pick(&all).to_string()).collect()
        };
        let mut w = Want::default();
        if r.pct(40) {
            w.include = names(r);
        }
        if r.pct(30) {
            w.exclude = names(r);
        }
        if r.pct(25) {
            w.mods = Some(r.bool());
        }
        if r.pct(25) {
            w.cursor = Some(r.bool());
        }
        w
    }
    fn filter(&self) -> EventFilter {
        let mut f = EventFilter::new();
        if !self.include.is_empty() {
            f = f.include_types(self.include.clone());
        }
        if !self.exclude.is_empty() {
            f = f.exclude_types(self.exclude.clone());
        }
        if let Some(m) = self.mods {
            f = f.include_modifications(m);
        }
        if let Some(c) = self.cursor {
            f = f.include_cursor_events(c);
        }
        f
    }
    fn matches(&self, e: &DocumentEvent) -> bool {
        let (name, modification, cursor) = facts(e);
        (self.include.is_empty() || self.include.iter().any(|n| n == name))
            && !self.exclude.iter().any(|n| n == name)
            && self.mods.is_none_or(|m| m == modification)
            && self.cursor.is_none_or(|c| c == cursor)
    }
}

type Log = Arc<Mutex<Vec<(usize, DocumentEvent)>>>;
struct Recorder {
    token: usize,
    filter: EventFilter,
    priority: i32,
    /// fails at every nth event it sees
    fails: usize,
    seen: usize,
    log: Log,
}
impl EventHandler for Recorder {
    fn handle_event(&mut self, event: &DocumentEvent) -> Result<(), EditorError> {
        self.log.lock().unwrap().push((self.token, event.clone()));
        self.seen += 1;
        if self.fails > 0 && self.seen % self.fails == 0 {
            return Err(EditorError::command_failed(format!("handler {} refuses", self.token)));
        }
        Ok(())
    }
    fn event_filter(&self) -> EventFilter {
        self.filter.clone()
    }
    fn priority(&self) -> i32 {
        self.priority
    }
}
struct Known {
    token: usize,
    id: usize,
    want: Want,
    priority: i32,
    fails: usize,
    seen: usize,
}
#[derive(Default)]
struct Model {
    handlers: Vec<Known>,
    ids: Vec<usize>,
    dispatched: usize,
    filtered: usize,
    trace: Vec<String>,
}
impl Model {
    /// What one event is delivered to and what the dispatch answers.
    fn deliver(&mut self, e: &DocumentEvent, out: &mut Vec<(usize, DocumentEvent)>) -> Option<String> {
        self.dispatched += 1;
        let mut order: Vec<usize> = (0..self.handlers.len()).collect();
        order.sort_by_key(|&i| std::cmp::Reverse(self.handlers[i].priority));
        let mut first = None;
        for i in order {
            let h = &mut self.handlers[i];
            if !h.want.matches(e) {
                self.filtered += 1;
                continue;
            }
            out.push((h.token, e.clone()));
            h.seen += 1;
            if h.fails > 0 && h.seen % h.fails == 0 {
                first = first.or(Some(format!("handler {} refuses", h.token)));
            }
        }
        first
    }
}

fn answered(res: &Result<(), EditorError>, want: &Option<String>, trace: &[String]) -> R {
    match (res, want) {
        (Ok(()), None) => {}
        (Err(e), Some(w)) => ensure!(e.to_string().contains(w.as_str()), "other-error", "{e} want {w} {trace:?}"),
        _ => return fail("dispatch-answer", format!("{res:?} want {want:?} {trace:?}")),
    }
    Ok(())
}

pub fn history(cx: &mut Cx) -> R {
    let max_handlers = *cx.rng.pick(&[0, 1, 3, 8, 100]);
    let batch = cx.rng.below(6);
    let mut ch = EventChannel::with_config(EventChannelConfig { max_handlers, enable_batching: cx.rng.bool(), max_batch_size: batch, ..Default::default() });
    let log: Log = Arc::default();
    let mut m = Model::default();
    m.trace.push(format!("max_handlers {max_handlers} batch {batch}"));
    let mut token = 0;
    let mut rx = None;
    let mut queued = 0;
    for _ in 0..cx.rng.u(5, 40) {
        log.lock().unwrap().clear();
        let mut want_log = vec![];
        match cx.rng.below(12) {
            0..=3 => {
                let want = Want::random(&mut cx.rng);
                let priority = *cx.rng.pick(&[0, 0, 0, 1, -1, 5, i32::MAX, i32::MIN]);
                let fails = if cx.rng.pct(30) { cx.rng.u(1, 3) } else { 0 };
                token += 1;
                m.trace.push(format!("register {token} {want:?} priority {priority} fails {fails}"));
                let h = Recorder { token, filter: want.filter(), priority, fails, seen: 0, log: log.clone() };
                let res = ch.register_handler(Box::new(h));
                ensure!(res.is_ok() == (m.handlers.len() < max_handlers), "handler-limit", "{res:?} {:?}", m.trace);
                if let Ok(id) = res {
                    ensure!(!m.ids.contains(&id), "handler-id-twice", "{id} {:?}", m.trace);
                    m.ids.push(id);
                    m.handlers.push(Known { token, id, want, priority, fails, seen: 0 });
                } else {
                    cx.obs("refused_registrations", 1);
                }
            }
            4 => {
                let id = if m.ids.is_empty() || cx.rng.pct(20) { cx.rng.below(50) } else { *cx.rng.pick(&m.ids) };
                let at = m.handlers.iter().position(|h| h.id == id);
                m.trace.push(format!("unregister {id}"));
                let res = ch.unregister_handler(id);
                ensure!(res.as_ref().is_ok_and(|r| *r == at.is_some()), "unregister-answer", "{res:?} {:?}", m.trace);
                if let Some(i) = at {
                    m.handlers.remove(i);
                }
            }
            5 if cx.rng.pct(20) => {
                m.trace.push("clear".into());
                ensure!(ch.clear_handlers().is_ok(), "clear", "{:?}", m.trace);
                m.handlers.clear();
            }
            6 | 7 => {
                let events: Vec<_> = (0..cx.rng.below(6)).map(|_| any_event(&mut cx.rng)).collect();
                m.trace.push(format!("batch {events:?}"));
                let mut first = None;
                for e in &events {
                    let f = m.deliver(e, &mut want_log);
                    first = first.or(f);
                }
                let res = ch.dispatch_batch(events);
                answered(&res, &first, &m.trace)?;
                cx.obs("batches", 1);
            }
            8 => {
                let e = any_event(&mut cx.rng);
                m.trace.push(format!("queue {e:?}"));
                let res = ch.dispatch_async(e.clone());
                ensure!(res.is_ok() == rx.is_some(), "queue-answer", "{res:?} {:?}", m.trace);
                if let Some((_, q)) = &mut rx {
                    let q: &mut Vec<DocumentEvent> = q;
                    q.push(e);
                    queued += 1;
                    cx.obs("queued", 1);
                }
            }
            9 if cx.rng.pct(40) => {
                m.trace.push("set up the queue".into());
                rx = Some((ch.setup_async(), vec![]));
            }
            _ => {
                let e = any_event(&mut cx.rng);
                m.trace.push(format!("dispatch {e:?}"));
                let first = m.deliver(&e, &mut want_log);
                let res = ch.dispatch(e);
                if first.is_some() {
                    cx.obs("handler_failures", 1);
                }
                answered(&res, &first, &m.trace)?;
                cx.obs("dispatches", 1);
            }
        }
        cx.set_input(m.trace.join("\n"));
        let got = log.lock().unwrap().clone();
        cx.obs("deliveries", got.len() as u64);
        ensure!(got == want_log, "deliveries", "got {got:?}\nwant {want_log:?}\n{}", m.trace.join("\n"));
        let s = ch.stats();
        ensure!(
            s.handlers_count == m.handlers.len() && s.events_dispatched == m.dispatched && s.events_filtered == m.filtered && s.async_events_queued == queued,
            "stats",
            "{s:?} want {} handlers, {} dispatched, {} filtered, {queued} queued {:?}",
            m.handlers.len(),
            m.dispatched,
            m.filtered,
            m.trace
        );
        cx.max("handlers", m.handlers.len() as u64);
    }
    if let Some((mut rx, want)) = rx {
        let mut got = vec![];
        while let Ok(Some(e)) = rx.try_next() {
            got.push(e);
        }
        ensure!(got == want, "queued-events", "{got:?} want {want:?}");
    }
    cx.state(&m.trace);
    Ok(())
}

/// The questions an event answers about itself.
pub fn queries(cx: &mut Cx) -> R {
    let e = any_event(&mut cx.rng);
    cx.set_input(format!("{e:?}"));
    let (name, modification, _) = facts(&e);
    cx.state(name);
    ensure!(e.is_modification() == modification, "is-modification", "{e:?}");
    let text = modification || name == "DocumentLoaded";
    ensure!(e.affects_text() == text || matches!(e, DocumentEvent::CustomEvent { .. }), "affects-text", "{e:?}");
    let (range, must): (Option<(usize, usize)>, Vec<String>) = match &e {
        DocumentEvent::TextInserted { position, text, length } => {
            ensure!(*length == text.len(), "inserted-length", "{e:?}");
            (Some((position.offset, position.offset + text.len())), vec![length.to_string()])
        }
        DocumentEvent::TextDeleted { range, .. } | DocumentEvent::TextReplaced { range, .. } => (Some((range.start.offset, range.end.offset)), vec![range.to_string()]),
        DocumentEvent::DocumentSaved { file_path, .. } => (None, vec![file_path.clone()]),
        DocumentEvent::DocumentLoaded { file_path, size } => (None, vec![file_path.clone(), size.to_string()]),
        DocumentEvent::UndoPerformed { action_description, changes_count } | DocumentEvent::RedoPerformed { action_description, changes_count } => {
            (None, vec![action_description.clone(), changes_count.to_string()])
        }
        DocumentEvent::ValidationCompleted { issues_count, .. } => (None, vec![issues_count.to_string()]),
        DocumentEvent::SearchCompleted { pattern, matches_count, .. } => (None, vec![pattern.clone(), matches_count.to_string()]),
        DocumentEvent::ExtensionChanged { extension_name, .. } => (None, vec![extension_name.clone()]),
        DocumentEvent::ConfigChanged { key, .. } => (None, vec![key.clone()]),
        DocumentEvent::CustomEvent { event_type, .. } => (None, vec![event_type.clone()]),
        _ => (None, vec![]),
    };
    ensure!(e.affected_range().map(|r| (r.start.offset, r.end.offset)) == range, "affected-range", "{e:?} {:?}", e.affected_range());
    let d = e.description();
    for m in must {
        ensure!(d.contains(&m), "description", "{d:?} does not name {m:?}");
    }
    let w = Want::random(&mut cx.rng);
    ensure!(w.filter().matches(&e) == w.matches(&e), "filter", "{w:?} {e:?}");
    cx.obs("events", 1);
    Ok(())
}

/// Several threads share a channel: every event reaches every handler once, and those of one
/// thread in its order.
pub fn threads(cx: &mut Cx) -> R {
    let ch = Arc::new(Mutex::new(EventChannel::new()));
    let log: Log = Arc::default();
    let nh = cx.rng.u(1, 4);
    for token in 0..nh {
        let priority = cx.rng.below(3) as i32;
        let h = Recorder { token, filter: EventFilter::new(), priority, fails: if cx.rng.pct(20) { 3 } else { 0 }, seen: 0, log: log.clone() };
        ch.lock().unwrap().register_handler(Box::new(h)).unwrap();
    }
    let (nt, ne) = (cx.rng.u(2, 4), cx.rng.u(1, 30));
    cx.set_input(format!("{nh} handlers {nt} threads {ne} events"));
    std::thread::scope(|s| {
        for t in 0..nt {
            let ch = ch.clone();
            s.spawn(move || {
                for n in 0..ne {
                    let e = DocumentEvent::CustomEvent { event_type: format!("{t}-{n}"), data: HashMap::new() };
                    let _ = ch.lock().unwrap().dispatch(e);
                    if n % 7 == t {
                        std::thread::yield_now();
                    }
                }
            });
        }
    });
    let log = log.lock().unwrap();
    ensure!(log.len() == nh * nt * ne, "thread-deliveries", "{} of {}", log.len(), nh * nt * ne);
    for h in 0..nh {
        for t in 0..nt {
            let p = format!("{t}-");
            let got: Vec<&str> = log
                .iter()
                .filter(|x| x.0 == h)
                .filter_map(|x| match &x.1 {
                    DocumentEvent::CustomEvent { event_type, .. } => event_type.strip_prefix(&p),
                    _ => None,
                })
                .collect();
            let want: Vec<String> = (0..ne).map(|n| n.to_string()).collect();
            ensure!(got == want, "thread-order", "handler {h} thread {t}: {got:?}");
        }
    }
    let st = ch.lock().unwrap().stats().clone();
    ensure!(st.events_dispatched == nt * ne, "thread-stats", "{st:?}");
    let order: Vec<String> = log.iter().filter(|x| x.0 == 0).map(|x| format!("{:?}", x.1)).collect();
    cx.state(&order);
    cx.obs("thread_deliveries", log.len() as u64);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E08",
        rule: "Model of an event channel run beside the real one over random histories; recording handlers, some failing, tell what was delivered, when and how often",
        assumptions: &["avg_processing_time_us and max_async_queue_size are not judged"],
        must_observe: &["dispatches", "deliveries", "batches", "handler_failures", "refused_registrations", "queued", "events", "thread_deliveries"],
        monitors: vec![mon("history", 300_000, 6_000_000, history), mon("queries", 300_000, 3_000_000, queries), mon("threads", 15_000, 200_000, threads)],
    }]
}
