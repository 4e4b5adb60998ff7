//! E11 extensions: the manager, and the built-in highlighting and completion.
use crate::channel::any_event;
use ass_editor::core::errors::{EditorError, Result as Res};
use ass_editor::events::DocumentEvent;
use ass_editor::extensions::builtin::auto_complete::{AutoCompleteExtension, CompletionType};
use ass_editor::extensions::builtin::load_builtin_extensions;
use ass_editor::extensions::builtin::syntax_highlight::{HighlightToken, SyntaxHighlightExtension, TokenType};
use ass_editor::extensions::{EditorExtension, ExtensionCommand, ExtensionContext, ExtensionInfo, ExtensionManager, ExtensionResult, ExtensionState, MessageHandler, MessageLevel};
use ass_editor::{EditorDocument, Position};
use hcommon::gen::{self, Opts};
use hcommon::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};

/// What an extension does with the context it is given.
#[derive(Debug, Clone)]
enum Act {
    GetConfig(String),
    SetConfig(String, String),
    GetData(String, String),
    SetData(String, String),
    Register(String),
    Message(String, MessageLevel),
    Event(DocumentEvent),
    Read,
    Append(String),
    States,
    /// a command of another extension, through the manager
    Nested(String),
}
#[derive(Debug, Clone, PartialEq)]
enum Heard {
    Init(usize),
    Shutdown(usize),
    Command(usize, String, BTreeMap<String, String>),
    Value(Option<String>),
    States(BTreeMap<String, Option<ExtensionState>>),
    Nested(Result<String, ()>),
}
#[derive(Default)]
struct Shared {
    /// acts of the coming call of each actor
    acts: HashMap<usize, Vec<Act>>,
    heard: Vec<Heard>,
    fail: Vec<usize>,
}
struct Actor {
    id: usize,
    info: ExtensionInfo,
    commands: Vec<String>,
    manager: Option<ExtensionManager>,
    names: Vec<&'static str>,
    shared: Arc<Mutex<Shared>>,
}
impl Actor {
    fn act(&mut self, cx: &mut dyn ExtensionContext) -> Res<()> {
        let acts = self.shared.lock().unwrap().acts.remove(&self.id).unwrap_or_default();
        let hear = |h: Heard| self.shared.lock().unwrap().heard.push(h);
        for a in acts {
            match a {
                Act::GetConfig(k) => hear(Heard::Value(cx.get_config(&k))),
                Act::SetConfig(k, v) => cx.set_config(k, v)?,
                Act::GetData(e, k) => hear(Heard::Value(cx.get_extension_data(&e, &k))),
                Act::SetData(k, v) => cx.set_extension_data(k, v)?,
                Act::Register(c) => cx.register_command(ExtensionCommand::new(c, "n".into(), "d".into()))?,
                Act::Message(m, l) => {
                    let r = cx.show_message(&m, l);
                    hear(Heard::Value(Some(r.is_ok().to_string())));
                }
                Act::Event(e) => cx.send_event(e)?,
                Act::Read => hear(Heard::Value(cx.current_document().map(|d| d.text()))),
                Act::Append(s) => {
                    if let Some(d) = cx.current_document_mut() {
                        d.insert(Position::new(d.len_bytes()), &s)?;
                    }
                }
                Act::States => {
                    let m = self.manager.as_ref().unwrap();
                    hear(Heard::States(self.names.iter().map(|n| (n.to_string(), m.get_extension_state(n))).collect()));
                }
                Act::Nested(c) => {
                    let mut m = self.manager.clone().unwrap();
                    let r = m.execute_command(&c, &HashMap::new(), cx);
                    hear(Heard::Nested(r.map(|r| r.message.unwrap_or_default()).map_err(drop)));
                }
            }
        }
        let mut s = self.shared.lock().unwrap();
        if let Some(i) = s.fail.iter().position(|f| *f == self.id) {
            s.fail.remove(i);
            return Err(EditorError::command_failed(format!("actor {} refuses", self.id)));
        }
        Ok(())
    }
}
impl EditorExtension for Actor {
    fn info(&self) -> &ExtensionInfo {
        &self.info
    }
    fn initialize(&mut self, cx: &mut dyn ExtensionContext) -> Res<()> {
        self.shared.lock().unwrap().heard.push(Heard::Init(self.id));
        self.act(cx)
    }
    fn shutdown(&mut self, cx: &mut dyn ExtensionContext) -> Res<()> {
        self.shared.lock().unwrap().heard.push(Heard::Shutdown(self.id));
        self.act(cx)
    }
    fn state(&self) -> ExtensionState {
        ExtensionState::Active
    }
    fn execute_command(&mut self, c: &str, args: &HashMap<String, String>, cx: &mut dyn ExtensionContext) -> Res<ExtensionResult> {
        self.shared
            .lock()
            .unwrap()
            .heard
            .push(Heard::Command(self.id, c.into(), args.clone().into_iter().collect()));
        self.act(cx)?;
        Ok(ExtensionResult::success_with_message(format!("{} ran {c}", self.id)))
    }
    fn commands(&self) -> Vec<ExtensionCommand> {
        self.commands.iter().map(|c| ExtensionCommand::new(c.clone(), "n".into(), "d".into())).collect()
    }
}
type Shown = Arc<Mutex<Vec<(String, MessageLevel)>>>;
struct Screen {
    shown: Shown,
    refuses: bool,
}
impl MessageHandler for Screen {
    fn show(&mut self, m: &str, l: MessageLevel) -> Res<()> {
        self.shown.lock().unwrap().push((m.into(), l));
        if self.refuses {
            return Err(EditorError::command_failed("no screen"));
        }
        Ok(())
    }
}

const NAMES: [&str; 5] = ["alpha", "beta", "gamma", "delta", "none"];
const COMMANDS: [&str; 6] = ["one", "two", "three", "four", "five", "six"];
const KEYS: [&str; 4] = ["k", "k2", "syntax.max_tokens", ""];

#[derive(Clone)]
struct ModelExt {
    id: usize,
    commands: Vec<String>,
}
#[derive(Default, Clone)]
struct Model {
    loaded: BTreeMap<String, ModelExt>,
    /// None: not judged (an extension that refused to shut down)
    states: BTreeMap<String, Option<ExtensionState>>,
    commands: BTreeMap<String, String>,
    config: BTreeMap<String, String>,
    data: BTreeMap<(String, String), String>,
    doc: Option<String>,
    shown: Vec<(String, MessageLevel)>,
    events: Vec<DocumentEvent>,
    refuses: bool,
}
impl Model {
    /// What one call of an extension does, through the context of `ctx`.
    fn call(&mut self, name: &str, ctx: &str, acts: &HashMap<usize, Vec<Act>>, done: &mut Vec<usize>, fail: &mut Vec<usize>, want: &mut Vec<Heard>) -> bool {
        let id = self.loaded[name].id;
        if !done.contains(&id) {
            done.push(id);
            for a in acts.get(&id).cloned().unwrap_or_default() {
                match a {
                    Act::GetConfig(k) => want.push(Heard::Value(self.config.get(&k).cloned())),
                    Act::SetConfig(k, v) => drop(self.config.insert(k, v)),
                    Act::GetData(e, k) => want.push(Heard::Value(self.data.get(&(e, k)).cloned())),
                    Act::SetData(k, v) => drop(self.data.insert((ctx.into(), k), v)),
                    Act::Register(c) => drop(self.commands.insert(c, ctx.into())),
                    Act::Message(m, l) => {
                        self.shown.push((m, l));
                        want.push(Heard::Value(Some((!self.refuses).to_string())));
                    }
                    Act::Event(e) => self.events.push(e),
                    Act::Read => want.push(Heard::Value(self.doc.clone())),
                    Act::Append(s) => {
                        if let Some(d) = &mut self.doc {
                            d.push_str(&s);
                        }
                    }
                    Act::States => want.push(Heard::States(NAMES.iter().map(|n| (n.to_string(), self.states.get(*n).copied().flatten())).collect())),
                    Act::Nested(c) => {
                        let r = match self.commands.get(&c).cloned() {
                            Some(n) if self.loaded.contains_key(&n) => {
                                let id = self.loaded[&n].id;
                                want.push(Heard::Command(id, c.clone(), BTreeMap::new()));
                                if self.call(&n, ctx, acts, done, fail, want) {
                                    Ok(format!("{id} ran {c}"))
                                } else {
                                    Err(())
                                }
                            }
                            _ => Err(()),
                        };
                        want.push(Heard::Nested(r));
                    }
                }
            }
        }
        match fail.iter().position(|f| *f == id) {
            Some(i) => {
                fail.remove(i);
                false
            }
            None => true,
        }
    }
}

fn some_acts(r: &mut Rng, m: &Model, me: &str) -> Vec<Act> {
    (0..r.below(5))
        .map(|_| {
            let k = r.pick(&KEYS).to_string();
            match r.below(11) {
                0 | 1 => Act::GetConfig(k),
                2 => Act::SetConfig(k, gen::word(r)),
                3 => Act::GetData(r.pick(&NAMES).to_string(), k),
                4 => Act::SetData(k, gen::word(r)),
                5 => Act::Register(r.pick(&COMMANDS).to_string()),
                6 => Act::Message(
                    gen::word(r),
                    *r.pick(&[MessageLevel::Info, MessageLevel::Warning, MessageLevel::Error, MessageLevel::Success]),
                ),
                7 => Act::Event(any_event(r)),
                8 => Act::Read,
                9 => {
                    if r.bool() {
                        Act::Append(gen::word(r))
                    } else {
                        Act::States
                    }
                }
                _ => {
                    // an extension cannot be called while it is being called
                    let c = r.pick(&COMMANDS).to_string();
                    match m.commands.get(&c) {
                        Some(n) if n != me => Act::Nested(c),
                        _ => Act::Nested("missing".into()),
                    }
                }
            }
        })
        .collect()
}

fn history(cx: &mut Cx) -> R {
    let shown: Shown = Default::default();
    let (tx, rx) = mpsc::channel();
    let shared: Arc<Mutex<Shared>> = Default::default();
    let mut model = Model {
        refuses: cx.rng.pct(15),
        ..Default::default()
    };
    let mut manager = ExtensionManager::with_event_channel(
        tx,
        Box::new(Screen {
            shown: shown.clone(),
            refuses: model.refuses,
        }),
    );
    let mut doc = if cx.rng.pct(80) {
        let o = Opts::random(&mut cx.rng);
        let t = gen::script(&mut cx.rng, o).text;
        model.doc = Some(t.clone());
        EditorDocument::from_content(&t).ok()
    } else {
        None
    };
    if doc.is_none() {
        model.doc = None;
    }
    let mut ids = 0;
    let mut log = String::new();
    let steps = cx.rng.u(1, 25);
    for step in 0..steps {
        let r = &mut cx.rng;
        let what = r.below(20);
        let mut name = r.pick(&NAMES).to_string();
        if (5..=17).contains(&what) && r.pct(80) && !model.loaded.is_empty() {
            let all: Vec<&String> = model.loaded.keys().collect();
            name = r.pick(&all).to_string();
        }
        let ctx = if r.pct(80) { name.clone() } else { r.pick(&NAMES).to_string() };
        let mut want = vec![];
        shared.lock().unwrap().heard.clear();
        // acts of every extension for this step; those not called keep none
        let acts: HashMap<usize, Vec<Act>> = {
            // only the extension called first calls others, so that none is entered twice
            let op_target = name.clone();
            let mut all = HashMap::new();
            for (n, e) in &model.loaded {
                let mut a = some_acts(r, &model, n);
                if *n != op_target {
                    a.retain(|a| !matches!(a, Act::Nested(_) | Act::Register(_)));
                } else if a.iter().any(|a| matches!(a, Act::Register(_))) {
                    a.retain(|a| !matches!(a, Act::Nested(_)));
                }
                all.insert(e.id, a);
            }
            all
        };
        let mut fail: Vec<usize> = vec![];
        if r.pct(15) {
            if let Some(e) = model.loaded.get(&name) {
                fail.push(e.id);
            }
        }
        let mut done = vec![];
        let mut other = manager.clone();
        {
            let mut s = shared.lock().unwrap();
            s.acts = acts.clone();
            s.fail = fail.clone();
        }
        let args: BTreeMap<String, String> = (0..r.below(3)).map(|_| (gen::word(r), gen::word(r))).collect();
        let command = match r.below(8) {
            0 => "missing".to_string(),
            _ => {
                // a command of the target, where it has one
                let mine: Vec<_> = model.commands.iter().filter(|(_, n)| **n == name).map(|(c, _)| c.clone()).collect();
                if mine.is_empty() {
                    "missing".to_string()
                } else {
                    r.pick(&mine).clone()
                }
            }
        };
        match what {
            0..=4 => {
                ids += 1;
                let commands: Vec<String> = (0..r.below(4)).map(|_| r.pick(&COMMANDS).to_string()).collect();
                let mut info = ExtensionInfo::new(name.clone(), "1".into(), "a".into(), "d".into());
                let n = if r.pct(40) { r.u(1, 2) } else { 0 };
                let deps: Vec<String> = (0..n).map(|_| r.pick(&NAMES).to_string()).collect();
                for d in &deps {
                    info = info.with_dependency(d.clone());
                }
                log += &format!("\nload {name} #{ids} deps {deps:?} commands {commands:?}");
                cx.set_input(log.clone());
                let actor = Actor {
                    id: ids,
                    info,
                    commands: commands.clone(),
                    manager: Some(manager.clone()),
                    names: NAMES.to_vec(),
                    shared: shared.clone(),
                };
                let ok = !model.loaded.contains_key(&name) && deps.iter().all(|d| model.loaded.contains_key(d));
                let got = manager.load_extension(Box::new(actor));
                ensure!(got.is_ok() == ok, "load", "{log}\nanswered {got:?}, expected {ok}");
                if ok {
                    model.loaded.insert(name.clone(), ModelExt { id: ids, commands });
                    model.states.insert(name.clone(), Some(ExtensionState::Uninitialized));
                    cx.obs("extensions loaded", 1);
                }
            }
            5..=9 => {
                log += &format!("\ninitialize {name} as {ctx}: {:?} fail {fail:?}", model.loaded.get(&name).map(|e| &acts[&e.id]));
                cx.set_input(log.clone());
                let mut c = other.create_context(ctx.clone(), doc.as_mut()).unwrap();
                let got = manager.initialize_extension(&name, &mut *c);
                drop(c);
                let ok = match model.loaded.get(&name).cloned() {
                    None => false,
                    Some(e) => {
                        want.push(Heard::Init(e.id));
                        model.states.insert(name.clone(), Some(ExtensionState::Initializing));
                        let ok = model.call(&name, &ctx, &acts, &mut done, &mut fail, &mut want);
                        model.states.insert(name.clone(), Some(if ok { ExtensionState::Active } else { ExtensionState::Error }));
                        if ok {
                            for c in &e.commands {
                                model.commands.insert(c.clone(), name.clone());
                            }
                        }
                        ok
                    }
                };
                ensure!(got.is_ok() == ok, "initialize", "{log}\nanswered {got:?}, expected {ok}");
                cx.obs(if ok { "initialized" } else { "initialization refused" }, 1);
            }
            10..=14 => {
                log += &format!(
                    "\nexecute {command} {args:?} as {ctx}, of {:?}: {:?} fail {fail:?}",
                    model.commands.get(&command),
                    model.loaded.get(&name).map(|e| &acts[&e.id])
                );
                cx.set_input(log.clone());
                let mut c = other.create_context(ctx.clone(), doc.as_mut()).unwrap();
                let got = manager.execute_command(&command, &args.clone().into_iter().collect(), &mut *c);
                drop(c);
                let expected = match model.commands.get(&command).cloned() {
                    Some(n) if model.loaded.contains_key(&n) => {
                        let id = model.loaded[&n].id;
                        want.push(Heard::Command(id, command.clone(), args));
                        model.call(&n, &ctx, &acts, &mut done, &mut fail, &mut want).then(|| format!("{id} ran {command}"))
                    }
                    _ => None,
                };
                let message = got.as_ref().ok().and_then(|r| r.message.clone());
                ensure!(message == expected, "execute", "{log}\nanswered {got:?}, expected {expected:?}");
                cx.obs(if expected.is_some() { "command executed" } else { "command refused" }, 1);
            }
            15..=17 => {
                log += &format!("\nunload {name} as {ctx}: {:?} fail {fail:?}", model.loaded.get(&name).map(|e| &acts[&e.id]));
                cx.set_input(log.clone());
                let mut c = other.create_context(ctx.clone(), doc.as_mut()).unwrap();
                let got = manager.unload_extension(&name, &mut *c);
                drop(c);
                let mut ok = true;
                if let Some(e) = model.loaded.get(&name).cloned() {
                    want.push(Heard::Shutdown(e.id));
                    model.states.insert(name.clone(), Some(ExtensionState::ShuttingDown));
                    ok = model.call(&name, &ctx, &acts, &mut done, &mut fail, &mut want);
                    if ok {
                        model.loaded.remove(&name);
                        model.states.remove(&name);
                        model.commands.retain(|_, n| *n != name);
                        cx.obs("extensions unloaded", 1);
                    } else {
                        model.states.insert(name.clone(), None);
                    }
                }
                if ok {
                    model.data.retain(|(n, _), _| *n != name);
                }
                ensure!(got.is_ok() == ok, "unload", "{log}\nanswered {got:?}, expected {ok}");
            }
            18 => {
                let (k, v) = (r.pick(&KEYS).to_string(), gen::word(r));
                log += &format!("\nconfig {k:?} = {v:?}");
                manager.set_config(k.clone(), v.clone());
                model.config.insert(k, v);
            }
            _ => {
                let (k, v) = (r.pick(&KEYS).to_string(), gen::word(r));
                log += &format!("\ndata {name} {k:?} = {v:?}");
                other.set_extension_data(name.clone(), k.clone(), v.clone());
                model.data.insert((name.clone(), k), v);
            }
        }
        cx.set_input(log.clone());
        // what the extensions heard; states seen while one that refused to stop is around are not judged
        let heard = shared.lock().unwrap().heard.clone();
        ensure!(heard.len() == want.len(), "calls", "{log}\nheard {heard:?}\nexpected {want:?}");
        for (h, w) in heard.iter().zip(&want) {
            let same = match (h, w) {
                (Heard::States(a), Heard::States(b)) => NAMES.iter().all(|n| (model_unjudged(&model, n) && b[*n].is_none()) || a[*n] == b[*n]),
                _ => h == w,
            };
            ensure!(same, "calls", "{log}\nheard {h:?}\nexpected {w:?}");
        }
        cx.obs("answers to extensions compared", heard.len() as u64);
        // everything the manager tells, through either handle
        let m = if step % 2 == 0 { &manager } else { &other };
        let mut l = m.list_extensions();
        l.sort();
        ensure!(l.iter().eq(model.loaded.keys()), "extension list", "{log}\n{l:?}");
        let mut l = m.list_commands();
        l.sort();
        ensure!(l.iter().eq(model.commands.keys()), "command list", "{log}\n{l:?}, expected {:?}", model.commands);
        for n in NAMES {
            let s = m.get_extension_state(n);
            match model.states.get(n) {
                Some(None) => ensure!(s.is_some(), "state", "{log}\n{n} is loaded and has no state"),
                Some(w) => ensure!(s == *w, "state", "{log}\n{n} is {s:?}, expected {w:?}"),
                None => ensure!(s.is_none(), "state", "{log}\n{n} is {s:?} and not loaded"),
            }
            for k in KEYS {
                let d = m.get_extension_data(n, k);
                ensure!(d.as_ref() == model.data.get(&(n.into(), k.into())), "extension data", "{log}\n{n} {k:?}: {d:?}");
            }
        }
        for k in KEYS {
            ensure!(m.get_config(k).as_ref() == model.config.get(k), "config", "{log}\n{k:?}: {:?}", m.get_config(k));
        }
        let t = doc.as_ref().map(|d| d.text());
        ensure!(t == model.doc, "document", "{log}\n{t:?}\n{:?}", model.doc);
    }
    let s = shown.lock().unwrap().clone();
    ensure!(s == model.shown, "messages", "{log}\n{s:?}\n{:?}", model.shown);
    let e: Vec<DocumentEvent> = rx.try_iter().collect();
    ensure!(e == model.events, "events", "{log}\n{e:?}\n{:?}", model.events);
    cx.obs("messages shown", s.len() as u64);
    cx.obs("events received", e.len() as u64);
    cx.state(&log);
    Ok(())
}
fn model_unjudged(m: &Model, n: &str) -> bool {
    matches!(m.states.get(n), Some(None))
}

/// One extension, and clones of the manager on several threads.
fn threads(cx: &mut Cx) -> R {
    struct Count(ExtensionInfo, Vec<String>);
    impl EditorExtension for Count {
        fn info(&self) -> &ExtensionInfo {
            &self.0
        }
        fn initialize(&mut self, _: &mut dyn ExtensionContext) -> Res<()> {
            Ok(())
        }
        fn shutdown(&mut self, _: &mut dyn ExtensionContext) -> Res<()> {
            Ok(())
        }
        fn state(&self) -> ExtensionState {
            ExtensionState::Active
        }
        fn commands(&self) -> Vec<ExtensionCommand> {
            vec![ExtensionCommand::new(format!("{}.count", self.0.name), "n".into(), "d".into())]
        }
        fn execute_command(&mut self, _: &str, args: &HashMap<String, String>, cx: &mut dyn ExtensionContext) -> Res<ExtensionResult> {
            // a counter that loses steps unless its extension runs alone
            let key = format!("{}.n", self.0.name);
            let n: u32 = cx.get_config(&key).map_or(0, |v| v.parse().unwrap());
            std::thread::yield_now();
            cx.set_config(key, (n + 1).to_string())?;
            let token = args["token"].clone();
            self.1.push(token.clone());
            cx.show_message(&token, MessageLevel::Info)?;
            cx.send_event(DocumentEvent::CustomEvent {
                event_type: token,
                data: HashMap::new(),
            })?;
            Ok(ExtensionResult::success_with_message((n + 1).to_string()))
        }
    }
    let shown: Shown = Default::default();
    let (tx, rx) = mpsc::channel();
    let mut manager = ExtensionManager::with_event_channel(
        tx,
        Box::new(Screen {
            shown: shown.clone(),
            refuses: false,
        }),
    );
    let kinds = cx.rng.u(1, 3);
    let names: Vec<String> = (0..kinds).map(|i| format!("ext{i}")).collect();
    for n in &names {
        manager
            .load_extension(Box::new(Count(ExtensionInfo::new(n.clone(), "1".into(), "a".into(), "d".into()), vec![])))
            .unwrap();
        let mut other = manager.clone();
        let mut c = other.create_context(n.clone(), None).unwrap();
        manager.initialize_extension(n, &mut *c).unwrap();
    }
    let workers = cx.rng.u(2, 4);
    let plans: Vec<Vec<usize>> = (0..workers).map(|_| (0..cx.rng.u(1, 12)).map(|_| cx.rng.below(kinds)).collect()).collect();
    let own = cx.rng.bool();
    cx.set_input(format!("{plans:?} own extension {own}"));
    let results: Vec<Result<Vec<(usize, u32)>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(w, plan)| {
                let (mut m, names) = (manager.clone(), &names);
                s.spawn(move || {
                    let mut out = vec![];
                    if own {
                        // each worker also loads and unloads an extension of its own
                        let n = format!("own{w}");
                        m.load_extension(Box::new(Count(ExtensionInfo::new(n.clone(), "1".into(), "a".into(), "d".into()), vec![])))
                            .map_err(|e| e.to_string())?;
                        let mut o = m.clone();
                        let mut c = o.create_context(n.clone(), None).unwrap();
                        m.initialize_extension(&n, &mut *c).map_err(|e| e.to_string())?;
                    }
                    for (i, k) in plan.iter().enumerate() {
                        let mut o = m.clone();
                        let mut c = o.create_context(names[*k].clone(), None).unwrap();
                        let args = HashMap::from([("token".to_string(), format!("{w}-{i}"))]);
                        let r = m.execute_command(&format!("{}.count", names[*k]), &args, &mut *c).map_err(|e| e.to_string())?;
                        out.push((*k, r.message.unwrap().parse().unwrap()));
                    }
                    if own {
                        let n = format!("own{w}");
                        let mut o = m.clone();
                        let mut c = o.create_context(n.clone(), None).unwrap();
                        m.unload_extension(&n, &mut *c).map_err(|e| e.to_string())?;
                    }
                    Ok(out)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect()
    });
    let mut all: Vec<(usize, u32)> = vec![];
    for r in results {
        match r {
            Ok(v) => {
                for w in v.windows(2) {
                    ensure!(w[0].0 != w[1].0 || w[0].1 < w[1].1, "threads: order", "{v:?}");
                }
                all.extend(v);
            }
            Err(e) => return fail("threads: refused", e),
        }
    }
    all.sort();
    let mut want = vec![];
    for k in 0..kinds {
        let n = plans.iter().flatten().filter(|x| **x == k).count() as u32;
        want.extend((1..=n).map(|i| (k, i)));
        let c = manager.get_config(&format!("{}.n", names[k])).map_or(0, |v| v.parse().unwrap());
        ensure!(c == n, "threads: lost", "{} counted {c} of {n}", names[k]);
    }
    ensure!(all == want, "threads: commands one at a time", "{all:?}\n{want:?}");
    let tokens = |v: Vec<String>| {
        for w in 0..workers {
            let mine: Vec<&String> = v.iter().filter(|t| t.starts_with(&format!("{w}-"))).collect();
            let want: Vec<String> = (0..plans[w].len()).map(|i| format!("{w}-{i}")).collect();
            if !mine.iter().copied().eq(want.iter()) {
                return Err(format!("{mine:?}"));
            }
        }
        Ok(v)
    };
    let s = tokens(shown.lock().unwrap().iter().map(|(m, _)| m.clone()).collect());
    ensure!(s.is_ok(), "threads: messages", "{s:?}");
    let e = tokens(
        rx.try_iter()
            .map(|e| {
                if let DocumentEvent::CustomEvent { event_type, .. } = e {
                    event_type
                } else {
                    String::new()
                }
            })
            .collect(),
    );
    ensure!(e.is_ok(), "threads: events", "{e:?}");
    let mut l = manager.list_extensions();
    l.sort();
    ensure!(l == names, "threads: extensions", "{l:?}");
    cx.obs("commands on threads", all.len() as u64);
    cx.state(&s.unwrap());
    Ok(())
}

/// Which piece of a line is what, from the text alone.
fn check_tokens(text: &str, toks: &[HighlightToken], max: usize) -> R {
    ensure!(max == 0 || toks.len() <= max, "too many tokens", "{} of {max}\n{text}", toks.len());
    let mut at = 0;
    for t in toks {
        let (a, b) = (t.range.start.offset, t.range.end.offset);
        let d = || format!("{t:?} in {text:?}");
        ensure!(
            a <= b && b <= text.len() && text.is_char_boundary(a) && text.is_char_boundary(b),
            "token outside the text",
            "{}",
            d()
        );
        ensure!(a >= at, "tokens overlap", "{}", d());
        at = b;
        let s = &text[a..b];
        ensure!(!s.contains('\n'), "token over lines", "{}", d());
        let line_start = text[..a].rfind('\n').map_or(0, |p| p + 1);
        let line = text[line_start..].split('\n').next().unwrap();
        let line = line.strip_suffix('\r').unwrap_or(line);
        let info = t.semantic_info.as_deref();
        let ok = match t.token_type {
            TokenType::SectionHeader => s == line && info.is_some_and(|i| format!("[{i}]") == s),
            TokenType::Comment => s == line && s.starts_with(';'),
            TokenType::FieldName => a == line_start && info.is_some_and(|i| s == format!("{i}:")),
            TokenType::EventType => a == line_start && info.is_some_and(|i| s == format!("{i}:") && (i == "Dialogue" || i == "Comment")),
            TokenType::StyleName => info == Some(s.trim()),
            TokenType::TimeCode => !s.contains(',') && line[..a - line_start].matches(',').count() <= 2,
            TokenType::OverrideTag => s == "{" || s == "}" || info == Some(s),
            TokenType::TagParameter => text[..a].ends_with(char::is_alphanumeric),
            TokenType::Error => s.starts_with('{') && !s.contains('}'),
            TokenType::FieldValue | TokenType::Text => true,
        };
        ensure!(ok, "token of another kind", "{}", d());
    }
    Ok(())
}

fn some_text(r: &mut Rng) -> String {
    let o = Opts::random(r);
    match r.below(8) {
        0 => gen::soup(r, 30),
        1 => String::new(),
        2 => {
            let t = gen::script(r, o).text;
            t.replace('\n', "\r\n")
        }
        3 => {
            let mut t = gen::script(r, o).text;
            for _ in 0..r.u(1, 6) {
                let x = gen::boundary_range(r, &t, 6);
                let w = r
                    .pick(&["{", "}", "\\", "[", "]", "[]", ":", ",", "\n", "\r", "é", "Style: ", "Style:\u{3000}", ";", "\n[\n"])
                    .to_string();
                t.replace_range(x, &w);
            }
            t
        }
        _ => gen::script(r, o).text,
    }
}

fn tokens(cx: &mut Cx) -> R {
    let text = some_text(&mut cx.rng);
    cx.set_input(text.clone());
    let Ok(mut doc) = EditorDocument::from_content(&text) else { return Ok(()) };
    let max = if cx.rng.pct(40) { cx.rng.u(1, 40) } else { 10000 };
    let tags = cx.rng.pct(80);
    let mut manager = ExtensionManager::with_event_channel(
        mpsc::channel().0,
        Box::new(Screen {
            shown: Default::default(),
            refuses: false,
        }),
    );
    load_builtin_extensions(&mut manager).map_err(|e| Fail {
        sig: "built-in extensions".into(),
        detail: e.to_string(),
    })?;
    manager.set_config("syntax.max_tokens".into(), max.to_string());
    manager.set_config("syntax.highlight_tags".into(), tags.to_string());
    let setup = |e: &mut SyntaxHighlightExtension, m: &ExtensionManager| {
        let mut m = m.clone();
        let mut c = m.create_context("syntax-highlight".into(), None).unwrap();
        e.initialize(&mut *c)
    };
    let mut ext = SyntaxHighlightExtension::new();
    ensure!(setup(&mut ext, &manager).is_ok(), "highlighting does not start", "");
    let mut m2 = manager.clone();
    {
        let mut c = m2.create_context("syntax-highlight".into(), None).unwrap();
        let r = manager.initialize_extension("syntax-highlight", &mut *c);
        ensure!(r.is_ok(), "highlighting does not start", "{r:?}");
    }
    for _ in 0..cx.rng.u(1, 4) {
        let t = doc.text();
        let got = ext.tokenize_document(&doc).map_err(|e| Fail {
            sig: "tokenize refused".into(),
            detail: e.to_string(),
        })?;
        check_tokens(&t, &got, max)?;
        let mut fresh = SyntaxHighlightExtension::new();
        setup(&mut fresh, &manager).unwrap();
        let want = fresh.tokenize_document(&doc).unwrap();
        ensure!(got == want, "tokens of an older text", "{t:?}\n{got:?}\n{want:?}");
        // what must be there: headers and events of a text that is not cut
        if got.len() < max {
            let lines: Vec<&str> = t.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
            let heads: Vec<&str> = lines.iter().filter(|l| l.starts_with('[') && l.ends_with(']')).map(|l| &l[1..l.len() - 1]).collect();
            let seen: Vec<&str> = got
                .iter()
                .filter(|x| x.token_type == TokenType::SectionHeader)
                .map(|x| x.semantic_info.as_deref().unwrap())
                .collect();
            ensure!(heads == seen, "section headers", "{t:?}\n{seen:?}");
            let mut section = "";
            let (mut events, mut styles) = (0u64, 0);
            for l in &lines {
                if l.starts_with('[') && l.ends_with(']') {
                    section = &l[1..l.len() - 1];
                } else if section == "Events" && (l.starts_with("Dialogue:") || l.starts_with("Comment:")) {
                    events += 1;
                } else if (section == "V4+ Styles" || section == "V4 Styles") && l.starts_with("Style:") {
                    styles += 1;
                }
            }
            let n = got.iter().filter(|x| x.token_type == TokenType::EventType).count() as u64;
            ensure!(n == events, "event lines", "{t:?}\n{n} of {events}");
            let n = got
                .iter()
                .filter(|x| x.token_type == TokenType::FieldName && x.semantic_info.as_deref() == Some("Style"))
                .count();
            ensure!(n >= styles, "style lines", "{t:?}\n{n} of {styles}");
            cx.obs("event lines highlighted", events);
        } else {
            cx.obs("texts cut at the limit", 1);
        }
        // the manager's own extension counts the same
        {
            let mut c = m2.create_context("syntax-highlight".into(), Some(&mut doc)).unwrap();
            let r = manager.execute_command("syntax.get_tokens", &HashMap::new(), &mut *c);
            let n = r.as_ref().ok().and_then(|r| r.data.get("token_count").cloned());
            ensure!(n == Some(got.len().to_string()), "token count", "{r:?}, expected {}", got.len());
        }
        cx.obs("tokens checked", got.len() as u64);
        let x = gen::boundary_range(&mut cx.rng, &t, 10);
        let w = cx.rng.pick(&["", "{", "a", "\n", "[Events]\n", "Dialogue: 0,", ",", "é", "\\b1"]).to_string();
        let _ = doc.replace(crate::doc::rng(x.start, x.end), &w);
    }
    cx.state(&text);
    Ok(())
}

fn completions(cx: &mut Cx) -> R {
    let text = {
        let mut t = some_text(&mut cx.rng);
        // half-typed lines
        if cx.rng.bool() {
            let l = cx
                .rng
                .pick(&[
                    "[",
                    "[V4",
                    "[ev",
                    "Dia",
                    "Dialogue: 0,0:00:00.00,0:00:01.00,",
                    "Dialogue: 0,0:00:00.00,0:00:01.00,De,,0,0,0,,{\\",
                    "Dialogue: 0,0:00:00.00,0:00:01.00,D,,0,0,0,,a\\Nb{",
                    "{\\fs",
                    "Dialogue: {\\bo",
                    "Style",
                    "play",
                    "\\b{\\i1}{",
                    "",
                ])
                .to_string();
            let at = t.rfind('\n').map_or(t.len(), |p| if cx.rng.bool() { p + 1 } else { t.len() });
            t.insert_str(at, &l);
        }
        t
    };
    let Ok(mut doc) = EditorDocument::from_content(&text) else { return Ok(()) };
    let max = if cx.rng.pct(50) { 1000 } else { cx.rng.below(30) };
    let set: [bool; 3] = std::array::from_fn(|_| cx.rng.pct(85));
    let mut manager = ExtensionManager::with_event_channel(
        mpsc::channel().0,
        Box::new(Screen {
            shown: Default::default(),
            refuses: false,
        }),
    );
    manager.set_config("autocomplete.max_suggestions".into(), max.to_string());
    for (k, v) in ["fields", "styles", "tags"].iter().zip(set) {
        manager.set_config(format!("autocomplete.complete_{k}"), v.to_string());
    }
    let [fields_on, styles_on, tags_on] = set;
    let mut ext = AutoCompleteExtension::new();
    {
        let mut m = manager.clone();
        let mut c = m.create_context("auto-complete".into(), None).unwrap();
        ensure!(ext.initialize(&mut *c).is_ok(), "completion does not start", "");
    }
    for _ in 0..6 {
        let t = doc.text();
        let at = match cx.rng.below(6) {
            0 => t.len() + cx.rng.below(5),
            1 => usize::MAX - cx.rng.below(3),
            2 => t.len(),
            _ => cx.rng.below(t.len() + 1),
        };
        cx.set_input(format!("{t}\n--- at {at}, limit {max}, fields styles tags {set:?}"));
        let got = match ext.get_completions(&doc, Position::new(at)) {
            Ok(g) => g,
            Err(e) => return fail("completion refused", e.to_string()),
        };
        ensure!(got.len() <= max, "too many completions", "{}", got.len());
        for w in got.windows(2) {
            ensure!(w[0].sort_order <= w[1].sort_order, "completion order", "{got:?}");
        }
        if at <= t.len() && t.is_char_boundary(at) && !t[..at].ends_with('\r') {
            let ls = t[..at].rfind('\n').map_or(0, |p| p + 1);
            let before = &t[ls..at];
            let line = t[ls..].split('\n').next().unwrap();
            let line = line.trim_end_matches('\r');
            let block = before.rfind('{').map(|p| &before[p..]).filter(|b| !b.contains('}'));
            let section = t[..ls].lines().rev().find(|l| l.starts_with('[') && l.ends_with(']')).map(|l| &l[1..l.len() - 1]);
            let of = |k: CompletionType| got.iter().filter(|c| c.completion_type == k).collect::<Vec<_>>();
            let all = got.len() < max;
            // tags: those that continue what is typed in the block
            let tags = of(CompletionType::Tag);
            match block {
                Some(b) if tags_on => {
                    let typed: String = b.rfind('\\').map_or(String::new(), |p| b[p + 1..].chars().take_while(|c| c.is_alphanumeric()).collect());
                    ensure!(tags.iter().all(|c| c.label.starts_with(&format!("\\{typed}"))), "other tags", "typed {typed:?}: {tags:?}");
                    if all {
                        for name in ["b", "i", "bord", "pos", "move", "fscx", "1c", "k", "clip", "t", "r", "alpha"] {
                            let has = tags.iter().any(|c| c.label == format!("\\{name}"));
                            ensure!(has == name.starts_with(&typed), "tag missing", "\\{name} typed {typed:?}: {tags:?}");
                        }
                    }
                    cx.obs("places inside a tag block", 1);
                }
                _ => ensure!(tags.is_empty(), "tags outside a block", "{tags:?}"),
            }
            // styles of the document in the fourth field of an event
            let styles = of(CompletionType::StyleRef);
            let l = line.trim_start();
            let in_style = section == Some("Events") && (l.starts_with("Dialogue:") || l.starts_with("Comment:")) && before.matches(',').count() == 3;
            if in_style && styles_on {
                let script = ass_core::parser::Script::parse(&t);
                let names: Vec<String> = script
                    .iter()
                    .flat_map(|s| s.sections().iter())
                    .flat_map(|s| {
                        if let ass_core::parser::Section::Styles(v) = s {
                            v.iter().map(|s| s.name.to_string()).collect()
                        } else {
                            vec![]
                        }
                    })
                    .collect();
                let labels: Vec<&String> = styles.iter().map(|c| &c.insert_text).collect();
                ensure!(
                    if all {
                        labels.iter().copied().eq(names.iter())
                    } else {
                        labels.iter().all(|l| names.contains(l))
                    },
                    "style names",
                    "{labels:?}, expected {names:?}"
                );
                cx.obs("places of a style name", 1);
                cx.obs("style names offered", labels.len() as u64);
            } else {
                ensure!(styles.is_empty(), "styles elsewhere", "{styles:?}");
            }
            // sections
            let sections = of(CompletionType::Section);
            if line.is_empty() || line.starts_with('[') {
                let typed = before.get(1..).unwrap_or("").to_lowercase();
                ensure!(
                    sections.iter().all(|c| c.insert_text.to_lowercase()[1..].starts_with(&typed)),
                    "other sections",
                    "typed {typed:?}: {sections:?}"
                );
                if all {
                    for n in ["[Script Info]", "[V4+ Styles]", "[Events]", "[Fonts]", "[Graphics]"] {
                        let has = sections.iter().any(|c| c.insert_text == n);
                        ensure!(has == n[1..].to_lowercase().starts_with(&typed), "section missing", "{n} typed {typed:?}");
                    }
                }
                cx.obs("places of a section header", 1);
            } else {
                ensure!(sections.is_empty(), "sections elsewhere", "{sections:?}");
            }
            // fields begin with what the line holds
            let fields = of(CompletionType::Field);
            let typed = line.trim_start().to_lowercase();
            ensure!(
                fields.iter().all(|c| c.insert_text.to_lowercase().starts_with(&typed)),
                "other fields",
                "{typed:?}: {fields:?}"
            );
            if all && fields_on && block.is_none() {
                let known: &[&str] = match section {
                    Some("Script Info") => &["Title:", "PlayResX:", "WrapStyle:", "ScriptType:"],
                    Some("V4+ Styles" | "V4 Styles") => &["Format:", "Style:"],
                    Some("Events") => &["Format:", "Dialogue:", "Comment:"],
                    _ => &[],
                };
                for k in known {
                    let has = fields.iter().any(|c| c.insert_text == *k);
                    ensure!(has == k.to_lowercase().starts_with(&typed), "field missing", "{k} typed {typed:?}: {fields:?}");
                }
                cx.obs("places of a field", 1);
            } else if !fields_on || block.is_some() {
                ensure!(fields.is_empty(), "fields elsewhere", "{fields:?}");
            }
        } else {
            cx.obs("positions outside or within characters", 1);
        }
        // through the manager
        if at <= t.len() {
            let mut m = manager.clone();
            let mut c = m.create_context("auto-complete".into(), Some(&mut doc)).unwrap();
            let r = ext.execute_command("autocomplete.trigger", &HashMap::from([("position".to_string(), at.to_string())]), &mut *c);
            let r = match r {
                Ok(r) => r,
                Err(e) => return fail("completion refused", e.to_string()),
            };
            ensure!(
                r.data.len() == got.len().min(10) && (0..r.data.len()).all(|i| r.data.get(&format!("completion_{i}")) == Some(&got[i].insert_text)),
                "command differs",
                "{r:?}\n{got:?}"
            );
        }
        cx.obs("completions checked", got.len() as u64);
        if cx.rng.pct(40) {
            let x = gen::boundary_range(&mut cx.rng, &t, 10);
            let w = cx.rng.pick(&["", "{", "a", "\n", "[Events]\n", "Style: New,", ",", "é", "\\b1"]).to_string();
            let _ = doc.replace(crate::doc::rng(x.start, x.end), &w);
        }
    }
    cx.state(&text);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E11",
        rule: "an extension is called exactly when the manager is asked to, may use the manager meanwhile, and its settings, data, commands, messages and events are those of the model; tokens and completions describe the current text",
        assumptions: &["an extension does not call itself through the manager", "the state of an extension that refused to shut down is left open", "completion of values and parameters is not offered by the code"],
        must_observe: &["extensions loaded", "initialized", "initialization refused", "command executed", "command refused", "extensions unloaded", "messages shown", "events received", "commands on threads", "event lines highlighted", "texts cut at the limit", "places inside a tag block", "places of a style name", "places of a section header", "places of a field"],
        monitors: vec![mon("history", 80_000, 2_000_000, history), mon("threads", 6_000, 100_000, threads), mon("tokens", 60_000, 1_500_000, tokens), mon("completions", 60_000, 1_500_000, completions)],
    }]
}
