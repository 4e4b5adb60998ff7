//! E09 sessions, shared documents and document pools.
use ass_editor::core::thread_safety::{AsyncDocument, DocumentPool, ScopedDocumentLock, SyncDocument};
use ass_editor::sessions::{EditorSessionManager, SessionConfig};
use ass_editor::{EditorDocument, EditorError, InsertTextCommand, Position};
use hcommon::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::Duration;

fn end(d: &EditorDocument) -> Position {
    Position::new(d.len_bytes())
}

struct Known {
    text: String,
    operations: usize,
    metadata: bool,
}

/// Random histories of one thread with several handles, against a model.
pub fn history(cx: &mut Cx) -> R {
    let max = *cx.rng.pick(&[0, 1, 2, 3, 5, 50]);
    let auto_cleanup = cx.rng.pct(75);
    let mut hs = vec![EditorSessionManager::with_config(SessionConfig { max_sessions: max, auto_cleanup, ..Default::default() })];
    let mut m: BTreeMap<String, Known> = BTreeMap::new();
    let mut active: Option<String> = None;
    let mut resets = 0;
    let mut log = vec![format!("max {max} cleanup {auto_cleanup}")];
    for n in 0..cx.rng.u(5, 40) {
        let id = cx.rng.pick(&["a", "b", "c", "d", "", "日本"]).to_string();
        let k = cx.rng.below(hs.len());
        let h = &mut hs[k];
        let op = cx.rng.below(14);
        log.push(format!("{op} {id:?} handle {k}"));
        cx.set_input(log.join("\n"));
        match op {
            0..=3 => {
                let res = if op < 2 {
                    h.create_session(id.clone())
                } else {
                    h.create_session_with_document(id.clone(), EditorDocument::from_content(&format!("[Script Info]\n; {n}\n")).unwrap())
                };
                if m.len() >= max {
                    match res {
                        Err(EditorError::SessionLimitExceeded { current, limit }) => ensure!(current == m.len() && limit == max, "limit-numbers", "{current} {limit} {log:?}"),
                        r => return fail("limit", format!("{r:?} {log:?}")),
                    }
                    cx.obs("limit_refusals", 1);
                } else if m.contains_key(&id) {
                    ensure!(res.is_err(), "session-replaced", "{log:?}");
                    cx.obs("name_refusals", 1);
                } else {
                    ensure!(res.is_ok(), "create", "{res:?} {log:?}");
                    m.insert(id.clone(), Known { text: if op < 2 { String::new() } else { format!("[Script Info]\n; {n}\n") }, operations: 0, metadata: false });
                    if active.is_none() {
                        active = Some(id);
                    }
                    cx.obs("created", 1);
                }
            }
            4 => {
                let res = h.switch_session(&id);
                ensure!(res.is_ok() == m.contains_key(&id), "switch", "{res:?} {log:?}");
                if res.is_ok() {
                    active = Some(id);
                    cx.obs("switched", 1);
                }
            }
            5 => {
                let res = h.remove_session(&id);
                ensure!(res.is_ok() == m.contains_key(&id), "remove", "{res:?} {log:?}");
                if let Ok(s) = res {
                    let k = m.remove(&id).unwrap();
                    ensure!(s.id == id && s.document.text() == k.text && s.operation_count == k.operations, "removed-session", "{s:?} want {:?} {} ops {log:?}", k.text, k.operations);
                    ensure!(s.get_metadata("k").is_some() == k.metadata, "metadata", "{log:?}");
                    if active.as_deref() == Some(&id) {
                        active = None;
                    }
                    cx.obs("removed", 1);
                }
            }
            6..=8 => {
                // an edit, or a closure that fails
                let fails = cx.rng.pct(20);
                let token = format!("; {n}\n");
                let res = h.with_document_mut(&id, |d| {
                    if fails {
                        return Err(EditorError::command_failed("no"));
                    }
                    d.insert(end(d), &token)?;
                    Ok(d.text())
                });
                match (m.get_mut(&id), fails) {
                    (None, _) => ensure!(matches!(&res, Err(EditorError::DocumentNotFound { id: i }) if *i == id), "edit-missing", "{res:?} {log:?}"),
                    (Some(_), true) => ensure!(res.is_err(), "edit-failing", "{log:?}"),
                    (Some(k), false) => {
                        k.text += &token;
                        k.operations += 1;
                        ensure!(res.as_ref().is_ok_and(|t| *t == k.text), "edit-text", "{res:?} {:?} {log:?}", k.text);
                        cx.obs("edits", 1);
                    }
                }
            }
            9 | 10 => {
                let res = h.with_document(&id, |d| Ok(d.text()));
                match m.get(&id) {
                    None => ensure!(res.is_err(), "read-missing", "{log:?}"),
                    Some(k) => ensure!(res.as_ref().is_ok_and(|t| *t == k.text), "read-text", "{res:?} want {:?} {log:?}", k.text),
                }
            }
            11 => {
                let c = h.clone();
                hs.push(c);
            }
            12 => {
                // nothing is an hour old; with a zero age everything is
                let all = cx.rng.pct(30);
                if all {
                    std::thread::sleep(Duration::from_micros(20));
                }
                let res = h.cleanup_stale_sessions(if all { Duration::ZERO } else { Duration::from_secs(3600) });
                let n = if all && auto_cleanup { m.len() } else { 0 };
                ensure!(res.as_ref().is_ok_and(|r| *r == n), "cleanup", "{res:?} want {n} {log:?}");
                if n > 0 {
                    m.clear();
                    active = None;
                    cx.obs("cleaned", n as u64);
                }
            }
            _ => {
                h.reset_shared_arena();
                resets += 1;
            }
        }
        let h = &hs[cx.rng.below(hs.len())];
        let mut l = h.list_sessions().unwrap();
        l.sort();
        let mut want: Vec<String> = m.keys().cloned().collect();
        want.sort();
        ensure!(l == want, "list", "{l:?} want {want:?} {log:?}");
        let s = h.stats();
        ensure!(s.active_sessions == m.len() && s.arena_resets == resets, "stats", "{s:?} want {} sessions {resets} resets {log:?}", m.len());
        let a = h.active_session().unwrap();
        ensure!(a == active, "active", "{a:?} want {active:?} {log:?}");
        for (id, k) in &m {
            let t = h.with_document(id, |d| Ok(d.text()));
            ensure!(t.as_ref().is_ok_and(|t| *t == k.text), "text", "{id:?} {t:?} want {:?} {log:?}", k.text);
        }
    }
    cx.state(&log);
    Ok(())
}

/// One thing a thread did, with the instants it began and ended at.
#[derive(Debug, Clone)]
enum Done {
    Created(bool),
    /// text of the removed document
    Removed(Option<String>),
    /// token, text seen right after the edit
    Appended(String, Option<String>),
    Read(Option<String>),
    Counted,
}
#[derive(Debug, Clone)]
struct Rec {
    thread: usize,
    id: usize,
    from: u64,
    to: u64,
    done: Done,
}

/// Threads share a manager. Recorded histories are judged afterwards: nothing appended is lost or
/// doubled, texts only grow while a session lives, reads fit the order of events.
pub fn threads(cx: &mut Cx) -> R {
    let nt = cx.rng.u(2, 5);
    let ids = cx.rng.u(1, 3);
    let max = cx.rng.u(1, 4);
    let ops = cx.rng.u(4, 24);
    let churn = *cx.rng.pick(&[0u32, 5, 20, 40]);
    let seeds: Vec<u64> = (0..nt).map(|_| cx.rng.u64()).collect();
    cx.set_input(format!("{nt} threads {ids} ids max {max} {ops} operations {churn}% churn, seeds {seeds:?}"));
    let mut mgr = EditorSessionManager::with_config(SessionConfig { max_sessions: max, ..Default::default() });
    let mut recs = vec![];
    let clock = AtomicU64::new(1);
    if churn == 0 {
        for id in 0..ids.min(max) {
            mgr.create_session(format!("s{id}")).unwrap();
            recs.push(Rec { thread: 99, id, from: 0, to: 0, done: Done::Created(true) });
        }
    }
    let out = Mutex::new(vec![]);
    let gate = Barrier::new(nt);
    let over = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for (t, seed) in seeds.iter().enumerate() {
            let (mut mgr, clock, out, gate, over) = (mgr.clone(), &clock, &out, &gate, &over);
            s.spawn(move || {
                let mut r = Rng::new(*seed);
                let mut mine = vec![];
                gate.wait();
                for n in 0..ops {
                    let id = r.below(ids);
                    let name = format!("s{id}");
                    let from = clock.fetch_add(1, Ordering::SeqCst);
                    let done = if r.pct(churn) {
                        if r.bool() {
                            Done::Created(mgr.create_session(name).is_ok())
                        } else {
                            Done::Removed(mgr.remove_session(&name).ok().map(|s| s.document.text()))
                        }
                    } else {
                        match r.below(8) {
                            0..=4 => {
                                let token = format!("; {t} {n}\n");
                                let stall = r.pct(15);
                                let res = mgr.with_document_mut(&name, |d| {
                                    let at = end(d);
                                    if stall {
                                        std::thread::yield_now();
                                    }
                                    d.insert(at, &token)?;
                                    Ok(d.text())
                                });
                                Done::Appended(token, res.ok())
                            }
                            5 | 6 => Done::Read(mgr.with_document(&name, |d| Ok(d.text())).ok()),
                            _ => {
                                let c = mgr.stats().active_sessions;
                                let l = mgr.list_sessions().unwrap();
                                over.fetch_max(l.len().max(c), Ordering::Relaxed);
                                Done::Counted
                            }
                        }
                    };
                    let to = clock.fetch_add(1, Ordering::SeqCst);
                    mine.push(Rec { thread: t, id, from, to, done });
                    if r.pct(20) {
                        std::thread::yield_now();
                    }
                }
                out.lock().unwrap().extend(mine);
            });
        }
    });
    recs.extend(out.into_inner().unwrap());
    recs.sort_by_key(|r| r.from);
    let text = || recs.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>().join("\n");
    ensure!(over.load(Ordering::Relaxed) <= max, "too-many-sessions", "{} of {max}\n{}", over.load(Ordering::Relaxed), text());
    let mut tally: HashMap<usize, i64> = HashMap::new();
    let mut where_is: BTreeMap<String, usize> = BTreeMap::new(); // token -> times in a final text
    let mut finals: Vec<(usize, String)> = vec![];
    for r in &recs {
        match &r.done {
            Done::Created(true) => *tally.entry(r.id).or_default() += 1,
            Done::Removed(Some(t)) => {
                *tally.entry(r.id).or_default() -= 1;
                finals.push((r.id, t.clone()));
            }
            _ => {}
        }
    }
    for id in 0..ids {
        let live = mgr.with_document(&format!("s{id}"), |d| Ok(d.text())).ok();
        let n = tally.get(&id).copied().unwrap_or(0);
        ensure!(n == i64::from(live.is_some()), "sessions-conserved", "s{id}: created less removed {n}, live {}\n{}", live.is_some(), text());
        if let Some(t) = live {
            finals.push((id, t));
        }
    }
    ensure!(mgr.stats().active_sessions == mgr.list_sessions().unwrap().len(), "final-count", "{:?}", mgr.stats());
    for (id, f) in &finals {
        let mut last: HashMap<&str, i64> = HashMap::new();
        for l in f.lines() {
            *where_is.entry(format!("{id} {l}\n")).or_default() += 1;
            let mut w = l.split(' ').skip(1);
            let (t, n) = (w.next().unwrap_or(""), w.next().and_then(|n| n.parse::<i64>().ok()).unwrap_or(-1));
            ensure!(last.insert(t, n).is_none_or(|p| p < n), "thread-order", "{f:?}\n{}", text());
        }
    }
    let mut appended = 0;
    for r in &recs {
        if let Done::Appended(tok, res) = &r.done {
            let n = where_is.remove(&format!("{} {tok}", r.id)).unwrap_or(0);
            ensure!(n == usize::from(res.is_some()), "append-once", "{r:?}: {n} times in the end\n{}", text());
            if let Some(t) = res {
                ensure!(t.ends_with(tok.as_str()), "append-atomic", "{r:?}");
                appended += 1;
                ensure!(finals.iter().any(|(i, f)| *i == r.id && f.starts_with(t.as_str())), "append-kept", "{r:?}\n{}", text());
            }
        }
    }
    ensure!(where_is.is_empty(), "text-nobody-wrote", "{where_is:?}\n{}", text());
    // a text seen by anyone is a prefix of what the session had in the end, and holds every
    // append that had ended before the look began
    for r in &recs {
        let Done::Read(Some(t)) = &r.done else { continue };
        let Some((_, f)) = finals.iter().find(|(i, f)| *i == r.id && f.starts_with(t.as_str())) else {
            return fail("read-of-nothing", format!("{r:?}\n{}", text()));
        };
        if churn == 0 {
            for a in &recs {
                if let Done::Appended(tok, Some(_)) = &a.done {
                    if a.id == r.id && a.to < r.from {
                        ensure!(t.contains(tok.as_str()), "stale-read", "{r:?} lacks {a:?} of {f:?}");
                    }
                    if a.id == r.id && a.from > r.to {
                        ensure!(!t.contains(tok.as_str()), "read-of-the-future", "{r:?} holds {a:?}");
                    }
                }
            }
        }
        cx.obs("reads_judged", 1);
    }
    cx.obs("appends", appended);
    cx.obs("sessions_ended", recs.iter().filter(|r| matches!(r.done, Done::Removed(Some(_)))).count() as u64);
    let overlaps = recs.windows(2).filter(|w| w[1].from < w[0].to && w[0].thread != w[1].thread).count();
    cx.obs("overlapping_operations", overlaps as u64);
    let mut order: Vec<&(usize, String)> = finals.iter().collect();
    order.sort();
    cx.state(&order);
    Ok(())
}

/// Threads make documents: no two have the same name.
pub fn names(cx: &mut Cx) -> R {
    let (nt, n) = (cx.rng.u(2, 6), cx.rng.u(1, 60));
    cx.set_input(format!("{nt} threads {n} documents"));
    let all = Mutex::new(vec![]);
    let gate = Barrier::new(nt);
    std::thread::scope(|s| {
        for _ in 0..nt {
            s.spawn(|| {
                gate.wait();
                let v: Vec<String> = (0..n)
                    .map(|i| if i % 2 == 0 { EditorDocument::new() } else { EditorDocument::from_content("").unwrap() }.id().to_string())
                    .collect();
                all.lock().unwrap().extend(v);
            });
        }
    });
    let all = all.into_inner().unwrap();
    let set: BTreeSet<&String> = all.iter().collect();
    ensure!(set.len() == all.len(), "same-name", "{} names of {} documents", set.len(), all.len());
    cx.obs("documents_named", all.len() as u64);
    cx.state(&(nt, n));
    Ok(())
}

fn now<F: std::future::Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => Some(v),
        std::task::Poll::Pending => None,
    }
}

/// Shared documents and pools, through several handles.
pub fn shared(cx: &mut Cx) -> R {
    let pool = DocumentPool::new();
    let mut docs: Vec<(String, String, Vec<SyncDocument>, bool)> = vec![]; // id, text, handles, pooled
    let mut log = vec![];
    for n in 0..cx.rng.u(5, 40) {
        let op = cx.rng.below(12);
        let k = if docs.is_empty() { 0 } else { cx.rng.below(docs.len()) };
        log.push(format!("{op} document {k}"));
        cx.set_input(log.join("\n"));
        if docs.is_empty() || op == 0 {
            let t = format!("[Script Info]\n; {n}\n");
            let d = EditorDocument::from_content(&t).unwrap();
            let id = d.id().to_string();
            if cx.rng.pct(70) {
                let got = pool.clone().add_document(d);
                ensure!(got.as_ref().is_ok_and(|g| *g == id), "pool-id", "{got:?} {id}");
                docs.push((id, t, vec![], true));
                cx.obs("pooled", 1);
            } else {
                docs.push((id, t, vec![SyncDocument::new(d)], false));
            }
        } else if op == 1 {
            let (id, ..) = &docs[k];
            ensure!(pool.remove_document(id).is_ok(), "pool-remove", "{log:?}");
            docs[k].3 = false;
        } else {
            let (id, t, hs, pooled) = &mut docs[k];
            match pool.get_document(id) {
                Ok(h) => {
                    ensure!(*pooled, "pool-holds-removed", "{log:?}");
                    hs.push(h);
                }
                Err(e) => ensure!(!*pooled, "pool-lost", "{e} {log:?}"),
            }
            if hs.len() > 6 {
                hs.remove(0);
            }
            if hs.is_empty() {
                continue;
            }
            let h = cx.rng.pick(hs).clone();
            let token = format!("; {n}\n");
            let at = Position::new(t.len());
            match op {
                2 => {
                    let r = h.execute_command(InsertTextCommand::new(at, token.clone()));
                    ensure!(r.as_ref().is_ok_and(|r| r.success && r.content_changed), "command", "{r:?}");
                    t.push_str(&token);
                }
                3 => {
                    let r = h.execute_command(InsertTextCommand::new(Position::new(t.len() + 1), token));
                    ensure!(r.is_err(), "command-past-the-end", "{r:?}");
                }
                4 => {
                    let r = h.with_write(|d| d.insert(at, &token));
                    ensure!(r.is_ok(), "with-write", "{r:?}");
                    t.push_str(&token);
                }
                5 => {
                    let mut l = ScopedDocumentLock::new(&h).unwrap();
                    ensure!(h.try_read().is_none() && h.try_write().is_none() && hs[0].try_read().is_none(), "lock-not-exclusive", "{log:?}");
                    l.document().insert(at, &token).unwrap();
                    t.push_str(&token);
                    drop(l);
                    ensure!(h.try_write().is_some(), "lock-kept", "{log:?}");
                    cx.obs("exclusive_locks", 1);
                }
                6 => {
                    let g = h.read().unwrap();
                    ensure!(hs[0].try_write().is_none() && hs[0].try_read().is_some_and(|d| d.text() == *t), "read-lock", "{log:?}");
                    drop(g);
                    cx.obs("read_locks", 1);
                }
                7 => {
                    let g = h.write().unwrap();
                    ensure!(hs[0].try_read().is_none() && hs[0].try_write().is_none(), "write-lock", "{log:?}");
                    drop(g);
                }
                8 => {
                    let c = h.clone_document();
                    ensure!(c.as_ref().is_ok_and(|c| c.text() == *t), "clone-text", "{c:?} want {t:?}");
                    let mut c = c.unwrap();
                    ensure!(c.id() != id, "clone-id", "{id}");
                    c.insert(at, &token).unwrap();
                }
                9 => {
                    let a = AsyncDocument::new(EditorDocument::from_content(t).unwrap());
                    let r = now(a.execute_command_async(InsertTextCommand::new(at, token.clone())));
                    ensure!(matches!(&r, Some(Ok(_))), "async-command", "{r:?}");
                    let r = now(a.text_async());
                    ensure!(matches!(&r, Some(Ok(x)) if *x == format!("{t}{token}")), "async-text", "{r:?}");
                    cx.obs("async_commands", 1);
                }
                10 => {
                    // an edit undone through another handle
                    h.with_write(|d| d.insert(at, &token)).unwrap();
                    let r = hs[0].with_write(|d| d.undo().map(drop));
                    ensure!(r.is_ok(), "undo", "{r:?}");
                }
                _ => {
                    let r = h.with_read(|d| (d.text(), d.len_bytes()));
                    ensure!(r.as_ref().is_ok_and(|r| r.0 == *t && r.1 == t.len()), "with-read", "{r:?} want {t:?}");
                }
            }
            for h in hs.iter() {
                let x = h.text();
                ensure!(x.as_ref().is_ok_and(|x| x == t), "handle-text", "{x:?} want {t:?} {log:?}");
                ensure!(h.id().is_ok_and(|i| i == *id) && h.len().is_ok_and(|n| n == t.len()) && h.is_empty().is_ok_and(|e| e == t.is_empty()), "handle-facts", "{log:?}");
            }
            cx.obs("shared_steps", 1);
        }
        let want: BTreeSet<String> = docs.iter().filter(|d| d.3).map(|d| d.0.clone()).collect();
        let got = pool.list_documents().unwrap();
        ensure!(got.len() == want.len() && got.iter().all(|g| want.contains(g)) && pool.document_count().is_ok_and(|n| n == want.len()), "pool-list", "{got:?} want {want:?} {log:?}");
    }
    cx.state(&log);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E09",
        rule: "a distinct case is a distinct history of calls, or a distinct set of final texts that interleaving threads left",
        assumptions: &["memory figures of sessions are not judged", "closures given to a manager do not call it"],
        must_observe: &[
            "created", "limit_refusals", "name_refusals", "switched", "removed", "edits", "cleaned", "appends", "reads_judged", "sessions_ended", "overlapping_operations",
            "documents_named", "pooled", "exclusive_locks", "read_locks", "async_commands", "shared_steps",
        ],
        monitors: vec![
            mon("history", 160_000, 1_500_000, history),
            mon_serial("threads", 6_000, 120_000, threads),
            mon_serial("names", 200, 4_000, names),
            mon("shared", 120_000, 1_500_000, shared),
        ],
    }]
}
