//! C15 extension registry, C16 built-in handlers.
use crate::events::{dialogue, read_text, tag_cost, MDiag, MTag};
use ass_core::analysis::events::{DiagnosticKind, TextAnalysis};
use ass_core::parser::Script;
use ass_core::plugin::tags::*;
use ass_core::plugin::{create_aegisub_processors, ExtensionRegistry, PluginError, SectionProcessor, SectionResult, TagHandler, TagResult};
use ass_core::{analysis::AnalysisConfig, ScriptAnalysis};
use hcommon::gen::{self, Opts};
use hcommon::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const NAMES: [&str; 10] = ["pos", "b", "fn", "r", "t", "k", "1c", "x", "move", "zz"];
const SECS: [&str; 5] = ["Aegisub Project Garbage", "Custom", "Data", "Weird Section", "é"];

type Log = Arc<Mutex<Vec<(u32, String)>>>;
struct Probe {
    name: &'static str,
    id: u32,
    log: Log,
}
fn verdict(id: u32, args: &str) -> u32 {
    (hash_of(&(id, args)) % 4) as u32
}
impl TagHandler for Probe {
    fn name(&self) -> &'static str {
        self.name
    }
    fn process(&self, args: &str) -> TagResult {
        self.log.lock().unwrap().push((self.id, args.to_string()));
        match verdict(self.id, args) {
            0 | 1 => TagResult::Processed,
            2 => TagResult::Ignored,
            _ => TagResult::Failed(format!("no {args}")),
        }
    }
}
struct SecProbe {
    name: &'static str,
    id: u32,
    log: Log,
}
impl SectionProcessor for SecProbe {
    fn name(&self) -> &'static str {
        self.name
    }
    fn process(&self, header: &str, lines: &[&str]) -> SectionResult {
        self.log.lock().unwrap().push((self.id, format!("{header:?} {lines:?}")));
        match verdict(self.id, header) {
            0 | 1 => SectionResult::Processed,
            2 => SectionResult::Ignored,
            _ => SectionResult::Failed(format!("no {}", lines.len())),
        }
    }
}

fn registry(cx: &mut Cx) -> R {
    let mut rng = std::mem::replace(&mut cx.rng, Rng::new(0));
    let r = &mut rng;
    let log: Log = Arc::default();
    let mut reg = if r.bool() { ExtensionRegistry::new() } else { ExtensionRegistry::default() };
    let mut tags: BTreeMap<&str, u32> = BTreeMap::new();
    let mut secs: BTreeMap<&str, u32> = BTreeMap::new();
    let mut trace = vec![];
    for k in 0..r.u(1, 30) as u32 {
        let n = *r.pick(&NAMES);
        let s = *r.pick(&SECS);
        let op = r.below(20);
        trace.push((op, n, s));
        cx.input = format!("{trace:?}");
        log.lock().unwrap().clear();
        match op {
            0..=5 => {
                let g = reg.register_tag_handler(Box::new(Probe { name: n, id: k, log: log.clone() }));
                if tags.contains_key(n) {
                    ensure!(g == Err(PluginError::DuplicateHandler(n.into())), "duplicate-tag", "step {k}: {g:?}");
                    cx.obs("duplicates", 1);
                } else {
                    ensure!(g.is_ok(), "register-tag", "step {k}: {g:?}");
                    tags.insert(n, k);
                }
            }
            6..=8 => {
                let g = reg.register_section_processor(Box::new(SecProbe { name: s, id: k, log: log.clone() }));
                if secs.contains_key(s) {
                    ensure!(g == Err(PluginError::DuplicateHandler(s.into())), "duplicate-section", "step {k}: {g:?}");
                    cx.obs("duplicates", 1);
                } else {
                    ensure!(g.is_ok(), "register-section", "step {k}: {g:?}");
                    secs.insert(s, k);
                }
            }
            9..=12 => {
                let a = gen::word(r);
                let g = reg.process_tag(n, &a);
                let w = tags.get(n).map(|id| match verdict(*id, &a) {
                    0 | 1 => TagResult::Processed,
                    2 => TagResult::Ignored,
                    _ => TagResult::Failed(format!("no {a}")),
                });
                ensure!(g == w, "process-tag", "step {k} {n} {a:?}: {g:?} want {w:?}");
                let wl: Vec<(u32, String)> = tags.get(n).map(|id| (*id, a.clone())).into_iter().collect();
                ensure!(*log.lock().unwrap() == wl, "tag-calls", "step {k}: {:?} want {wl:?}", log.lock().unwrap());
                cx.obs("tags_processed", wl.len() as u64);
            }
            13..=14 => {
                let (h, l1) = (gen::word(r), gen::word(r));
                let lines = vec![l1.as_str(); r.below(3)];
                let g = reg.process_section(s, &h, &lines);
                let w = secs.get(s).map(|id| match verdict(*id, &h) {
                    0 | 1 => SectionResult::Processed,
                    2 => SectionResult::Ignored,
                    _ => SectionResult::Failed(format!("no {}", lines.len())),
                });
                ensure!(g == w, "process-section", "step {k}: {g:?} want {w:?}");
                let wl: Vec<(u32, String)> = secs.get(s).map(|id| (*id, format!("{h:?} {lines:?}"))).into_iter().collect();
                ensure!(*log.lock().unwrap() == wl, "section-calls", "step {k}: {:?} want {wl:?}", log.lock().unwrap());
                cx.obs("sections_processed", wl.len() as u64);
            }
            15 | 16 => {
                let g = reg.remove_tag_handler(n).map(|h| {
                    h.process("probe");
                    log.lock().unwrap().pop().map(|x| x.0)
                });
                let w = tags.remove(n).map(Some);
                ensure!(g == w, "remove-tag", "step {k}: {g:?} want {w:?}");
                cx.obs("removed", 1);
            }
            17 => {
                let g = reg.remove_section_processor(s).map(|h| h.name());
                let w = secs.remove(s).map(|_| s);
                ensure!(g == w, "remove-section", "step {k}: {g:?} want {w:?}");
            }
            18 if r.pct(30) => {
                reg.clear();
                tags.clear();
                secs.clear();
            }
            _ => {}
        }
        let mut a = reg.tag_handler_names();
        let mut b = reg.section_processor_names();
        a.sort_unstable();
        b.sort_unstable();
        let (wa, wb): (Vec<&str>, Vec<&str>) = (tags.keys().copied().collect(), secs.keys().copied().collect());
        ensure!(a == wa && b == wb, "names", "step {k}: {a:?} {b:?} want {wa:?} {wb:?}");
        ensure!(reg.extension_count() == tags.len() + secs.len(), "count", "step {k}: {}", reg.extension_count());
        for n in NAMES {
            ensure!(reg.has_tag_handler(n) == tags.contains_key(n), "has-tag", "step {k} {n}");
        }
        for n in SECS {
            ensure!(reg.has_section_processor(n) == secs.contains_key(n), "has-section", "step {k} {n}");
        }
    }
    cx.state(&format!("{trace:?}"));
    Ok(())
}

/// A text analysed with handlers registered: who is called, and what comes of it.
fn analysed(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let log: Log = Arc::default();
    let mut reg = ExtensionRegistry::new();
    let mut who: BTreeMap<&str, u32> = BTreeMap::new();
    for (i, n) in NAMES.iter().enumerate() {
        if r.pct(40) {
            who.insert(n, i as u32);
            let _ = reg.register_tag_handler(Box::new(Probe { name: n, id: i as u32, log: log.clone() }));
        }
    }
    let s = dialogue(r);
    cx.set_input(format!("{s}\n---- handlers {:?}", who.keys()));
    let m = read_text(&s);
    let g = TextAnalysis::analyze_with_registry(&s, Some(&reg));
    if m.too_deep {
        ensure!(g.is_err(), "depth", "");
        return Ok(());
    }
    let g = match g {
        Ok(g) => g,
        Err(e) => return fail("text-error", format!("{e}")),
    };
    let mut calls = vec![];
    let mut tags: Vec<(MTag, u8)> = vec![];
    let mut diags: Vec<(MDiag, bool)> = m.diags.iter().cloned().map(|d| (d, false)).collect();
    for t in &m.tags {
        let v = who.get(t.name.as_str()).map(|id| {
            calls.push((*id, t.args.clone()));
            verdict(*id, &t.args)
        });
        if v == Some(3) {
            diags.push((MDiag { span: format!("\\{}{}", t.name, t.args), pos: t.pos }, true));
            cx.obs("failed_tags", 1);
        }
        let cost = if matches!(v, Some(0 | 1)) { 2 } else { tag_cost(&t.name) };
        tags.push((t.clone(), cost));
    }
    diags.sort_by_key(|d| d.0.pos);
    let gt: Vec<(MTag, u8)> = g.override_tags().iter().map(|t| (MTag { name: t.name().into(), args: t.args().into(), pos: t.position() }, t.complexity())).collect();
    let mut gd: Vec<(MDiag, bool)> = g.diagnostics().iter().map(|t| (MDiag { span: t.span.into(), pos: t.offset }, t.kind == DiagnosticKind::MalformedTag)).collect();
    gd.sort_by_key(|d| d.0.pos);
    ensure!(*log.lock().unwrap() == calls, "calls", "handlers called {:?}\nwant {calls:?}", log.lock().unwrap());
    ensure!(gt == tags, "tags", "{gt:?}\nwant {tags:?}");
    ensure!(gd == diags, "diagnostics", "{gd:?}\nwant {diags:?}");
    cx.obs("handled_tags", calls.len() as u64);
    // handlers have no say in anything but the tags
    let plain = TextAnalysis::analyze(&s);
    let Ok(plain) = plain else { return fail("text-error", "without handlers") };
    ensure!(plain.plain_text() == g.plain_text() && plain.line_count() == g.line_count(), "plain", "{:?} want {:?}", g.plain_text(), plain.plain_text());
    // the same through a whole script
    let t = s.replace(['\n', '\r'], " ");
    if t.trim() == s && !t.is_empty() {
        let doc = format!("[Events]\nFormat: Start, End, Text\nDialogue: 0:00:00.00,0:00:01.00,{t}\n");
        let Ok(sc) = Script::parse(&doc) else { return fail("parse-error", "") };
        log.lock().unwrap().clear();
        match ScriptAnalysis::analyze_with_registry(&sc, Some(&reg), AnalysisConfig::default()) {
            Ok(a) => {
                let d = &a.dialogue_info()[0];
                let gs: Vec<(String, u8)> = d.text_analysis().override_tags().iter().map(|t| (t.name().into(), t.complexity())).collect();
                let w: Vec<(String, u8)> = tags.iter().map(|t| (t.0.name.clone(), t.1)).collect();
                ensure!(gs == w, "script-tags", "{gs:?}\nwant {w:?}");
                cx.obs("scripts_analysed", 1);
            }
            Err(e) => return fail("analyze", format!("{e}")),
        }
    }
    cx.state(&s);
    Ok(())
}

/// Sections given to processors while parsing.
fn sections(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let log: Log = Arc::default();
    let mut reg = ExtensionRegistry::new();
    let mut who: BTreeMap<&str, u32> = BTreeMap::new();
    for (i, n) in SECS.iter().enumerate() {
        if r.pct(50) {
            who.insert(n, i as u32);
            let _ = reg.register_section_processor(Box::new(SecProbe { name: n, id: i as u32, log: log.clone() }));
        }
    }
    let mut o = Opts::random(r);
    o.final_newline = true;
    o.unknown_sections = false;
    let base = gen::script(r, o).text;
    // unknown sections between and after the known ones
    let mut want: Vec<(u32, String)> = vec![];
    let mut msgs: Vec<String> = vec![];
    let mut text = base.clone();
    for _ in 0..r.below(4) {
        let n = *r.pick(&SECS);
        let lines: Vec<String> = (0..r.below(4)).map(|i| if r.pct(20) { String::new() } else { format!("line {i}: {}", gen::word(r)) }).collect();
        text += &format!("[{n}]\n");
        for l in &lines {
            text += l;
            text += "\n";
        }
        let l: Vec<&str> = lines.iter().map(String::as_str).filter(|l| !l.is_empty()).collect();
        if let Some(id) = who.get(n) {
            want.push((*id, format!("{n:?} {l:?}")));
            match verdict(*id, n) {
                0 | 1 => msgs.push(format!("'{n}'")),
                3 => msgs.push(format!("no {}", l.len())),
                _ => {}
            }
        }
    }
    cx.set_input(format!("{text}\n---- processors {:?}", who.keys()));
    let (a, b) = match (Script::parse(&text), Script::builder().with_registry(&reg).parse(&text)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return fail("parse-error", format!("{a:?} {b:?}")),
    };
    ensure!(*log.lock().unwrap() == want, "calls", "processors called {:?}\nwant {want:?}", log.lock().unwrap());
    ensure!(a.sections() == b.sections() && a.version() == b.version(), "sections", "sections differ with processors registered");
    ensure!(a.styles_format() == b.styles_format() && a.events_format() == b.events_format(), "formats", "");
    // each verdict that says something is reported, everything else as before
    let mut extra: Vec<String> = b.issues().iter().map(|i| i.message.clone()).collect();
    let mut missing = vec![];
    for i in a.issues() {
        match extra.iter().position(|m| *m == i.message) {
            Some(p) => {
                extra.remove(p);
            }
            None => missing.push(i.message.clone()),
        }
    }
    // a section a processor took need not be reported as unknown
    ensure!(missing.len() <= 2 * msgs.len(), "issues-lost", "{missing:?}");
    ensure!(extra.len() == msgs.len() && extra.iter().zip(&msgs).all(|(e, m)| e.contains(m.as_str())), "issues", "reported {extra:?} want {msgs:?}");
    cx.obs("sections_taken", want.len() as u64);
    if want.is_empty() {
        ensure!(missing.is_empty(), "issues-lost", "{missing:?}");
    }
    cx.state(&text);
    Ok(())
}

// ---------------------------------------------------------------- C16

#[derive(PartialEq, Debug, Clone, Copy)]
enum V {
    Yes,
    No,
    Open,
}
fn yes(b: bool) -> V {
    if b { V::Yes } else { V::No }
}
fn decimal(s: &str) -> bool {
    let t = s.strip_prefix(['+', '-']).unwrap_or(s);
    match t.split_once('.') {
        None => !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()),
        Some((a, b)) => !a.is_empty() && !b.is_empty() && (a.to_string() + b).bytes().all(|c| c.is_ascii_digit()),
    }
}
/// whole number, not negative
fn whole(s: &str) -> Option<Option<u64>> {
    if s.starts_with('+') {
        return None;
    }
    if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) {
        Some(s.parse::<u64>().ok().or(Some(u64::MAX)))
    } else {
        Some(None)
    }
}
fn whole_in(s: &str, max: u64) -> V {
    match whole(s) {
        None => V::Open,
        Some(v) => yes(v.is_some_and(|v| v <= max)),
    }
}
fn positive(s: &str, zero: bool) -> V {
    if s.contains(['e', 'E', 'n', 'N']) || s.starts_with('.') || s.ends_with('.') || s.starts_with("-.") || s.starts_with("+.") {
        return V::Open;
    }
    if !decimal(s) {
        return V::No;
    }
    let z = s.bytes().all(|c| !(b'1'..=b'9').contains(&c));
    if z {
        return yes(zero);
    }
    if s.len() > 30 {
        return V::Open;
    }
    yes(!s.starts_with('-'))
}
fn inner(s: &str) -> Option<&str> {
    s.strip_prefix('(')?.strip_suffix(')')
}
fn list(s: &str) -> Vec<&str> {
    s.split(',').map(str::trim).collect()
}
fn hex_body(s: &str, n: usize) -> V {
    yes(s.strip_prefix("&H").and_then(|s| s.strip_suffix('&')).is_some_and(|b| b.len() == n && b.bytes().all(|c| c.is_ascii_hexdigit())))
}

/// What a tag accepts.
fn accepts(name: &str, args: &str) -> V {
    let a = args.trim();
    match name {
        "b" => match whole(a) {
            None => V::Open,
            Some(v) => yes(a.is_empty() || matches!(a, "0" | "1") || v.is_some_and(|v| (100..=900).contains(&v) && v % 100 == 0)),
        },
        "i" | "u" | "s" => yes(matches!(a, "" | "0" | "1")),
        "bord" | "shad" => positive(a, true),
        "be" => yes(matches!(a, "0" | "1")),
        "a" => yes(matches!(a, "1" | "2" | "3" | "5" | "6" | "7" | "9" | "10" | "11")),
        "an" => yes(a.len() == 1 && (b'1'..=b'9').contains(&a.as_bytes()[0])),
        "q" => yes(matches!(a, "0" | "1" | "2" | "3")),
        "fade" => {
            let Some(c) = inner(a) else { return V::No };
            let p = list(c);
            if p.len() != 7 {
                return V::No;
            }
            let v: Vec<V> = p.iter().enumerate().map(|(i, x)| if *x == "-0" { V::Open } else { whole_in(x, if i < 3 { 255 } else { i32::MAX as u64 }) }).collect();
            if v.contains(&V::No) { V::No } else if v.contains(&V::Open) { V::Open } else { V::Yes }
        }
        "fad" => {
            let Some(c) = inner(a) else { return V::No };
            let p = list(c);
            if p.len() != 2 {
                return V::No;
            }
            let v: Vec<V> = p.iter().map(|x| whole_in(x, u64::from(u32::MAX))).collect();
            if v.contains(&V::No) { V::No } else if v.contains(&V::Open) { V::Open } else { V::Yes }
        }
        "t" => yes(inner(a).is_some_and(|c| !c.trim().is_empty())),
        "clip" => {
            let Some(c) = inner(a) else { return V::No };
            let c = c.trim();
            if c.is_empty() {
                return V::No;
            }
            let p = list(c);
            let draws = c.contains(['m', 'n', 'l', 'b', 's', 'p', 'c']);
            if p.len() == 4 {
                if p.iter().all(|x| decimal(x)) {
                    V::Yes
                } else if draws {
                    V::Open
                } else {
                    V::No
                }
            } else {
                yes(draws)
            }
        }
        "c" | "1c" | "2c" | "3c" | "4c" => hex_body(a, 6),
        "alpha" | "1a" | "2a" | "3a" | "4a" => hex_body(a, 2),
        "fn" => yes(!a.is_empty()),
        "fs" => positive(a, false),
        "fe" | "k" | "kf" | "ko" | "kt" => whole_in(a, u64::from(u32::MAX)),
        "r" => V::Yes,
        "fr" | "frx" | "fry" | "frz" | "fscx" | "fscy" | "fax" | "fay" | "fsp" => yes(decimal(a)),
        "org" => yes(inner(a).map(list).is_some_and(|p| p.len() == 2 && p.iter().all(|x| decimal(x)))),
        "pos" | "move" => {
            let c = inner(a).unwrap_or(a);
            let p = list(c);
            let n = if name == "pos" { p.len() == 2 } else { p.len() == 4 || p.len() == 6 };
            yes(n && p.iter().all(|x| decimal(x)))
        }
        "n" | "N" | "h" => yes(a.is_empty()),
        _ => V::Open,
    }
}

fn handlers() -> Vec<Box<dyn TagHandler>> {
    let mut v = create_advanced_handlers();
    for x in [
        create_alignment_handlers(),
        create_animation_handlers(),
        create_clipping_handlers(),
        create_color_handlers(),
        create_font_handlers(),
        create_formatting_handlers(),
        create_karaoke_handlers(),
        create_misc_handlers(),
        create_position_handlers(),
        create_special_handlers(),
        create_transform_handlers(),
    ] {
        v.extend(x);
    }
    v
}
const ALL_TAGS: [&str; 46] = [
    "bord", "shad", "be", "a", "an", "q", "fade", "fad", "t", "clip", "c", "1c", "2c", "3c", "4c", "alpha", "1a", "2a", "3a", "4a", "fn", "fs", "fe", "b", "i", "u", "s", "k", "kf", "ko", "kt", "r", "fr", "org", "pos", "move", "n", "N", "h", "frx", "fry", "frz",
    "fscx", "fscy", "fax", "fay",
];

fn number(r: &mut Rng) -> String {
    match r.below(12) {
        0..=3 => format!("{}", r.below(12)),
        4 => format!("{}", r.below(1000)),
        5 => format!("-{}", r.below(300)),
        6 => format!("{}.{}", r.below(50), r.below(100)),
        7 => format!("+{}", r.below(9)),
        8 => format!("{}00", r.below(12)),
        9 => (*r.pick(&["254", "255", "256", "4294967295", "4294967296", "2147483647", "2147483648", "99999999999999999999"])).into(),
        _ => (*r.pick(&["", ".", "-", "+", "1.", ".5", "1.2.3", "-.5", "1e3", "0x10", "a", "é", "１", "--1", "0.0", "-0", "00", " 1 "])).into(),
    }
}
fn arg(r: &mut Rng) -> String {
    let s = match r.below(14) {
        0..=3 => number(r),
        4..=7 => {
            let n = r.below(9);
            let v: Vec<String> = (0..n).map(|_| if r.pct(80) { format!("{}{}", r.pick(&["", " ", "-"]), r.below(300)) } else { number(r) }).collect();
            let s = v.join(",");
            match r.below(8) {
                0 => s,
                1 => format!("({s}"),
                2 => format!("{s})"),
                _ => format!("({s})"),
            }
        }
        8..=10 => {
            let n = *r.pick(&[2usize, 6, 8, 1, 5, 7]);
            let mut h: String = (0..n).map(|_| *r.pick(&['0', 'F', 'a', '9', 'c'])).collect();
            if r.pct(10) {
                h.push(*r.pick(&['g', '+', ' ', 'é', '-']));
            }
            match r.below(8) {
                0 => format!("&h{h}&"),
                1 => format!("&H{h}"),
                2 => format!("H{h}&"),
                3 => h,
                _ => format!("&H{h}&"),
            }
        }
        11 => (*r.pick(&["(m 0 0 l 1 1)", "(2,m 0 0 l 1 1)", "(\\fs20)", "(0,100,\\fs20)", "()", "( )", "(é)", "(xyz)", "(1 2 3)"])).into(),
        12 => gen::word(r),
        _ => String::new(),
    };
    match r.below(8) {
        0 => format!(" {s}"),
        1 => format!("{s}\t"),
        2 => s.replace(',', " , "),
        _ => s,
    }
}

fn builtin(cx: &mut Cx) -> R {
    let hs = handlers();
    let mut names: Vec<&str> = hs.iter().map(|h| h.name()).collect();
    names.sort_unstable();
    let mut want: Vec<&str> = ALL_TAGS.to_vec();
    want.push("fsp");
    want.sort_unstable();
    ensure!(names == want, "names", "{names:?}");
    let mut block = String::new();
    let mut bad = 0;
    let mut open = false;
    let mut n = 0;
    for h in &hs {
        let r = &mut cx.rng;
        let a = arg(r);
        cx.set_input(format!("\\{}{a}", h.name()));
        let v = accepts(h.name(), &a);
        let g = h.process(&a);
        let ok = h.validate(&a);
        ensure!((g == TagResult::Processed) == ok, "agree", "\\{}{a}: processing gives {g:?}, validation {ok}", h.name());
        match v {
            V::Yes => {
                ensure!(ok, "refused", "\\{}{a} refused: {g:?}", h.name());
                cx.obs("accepted", 1);
            }
            V::No => {
                ensure!(matches!(g, TagResult::Failed(_)), "accepted", "\\{}{a} accepted: {g:?}", h.name());
                cx.obs("refused", 1);
            }
            V::Open => cx.obs("unspecified", 1),
        }
        // into one line, where the argument starts a new token
        let first = a.chars().next();
        let glued = first.is_some_and(|c| c.is_ascii_alphabetic()) && !matches!(h.name(), "r" | "fn");
        if cx.rng.pct(20) && !glued && !a.contains(['\\', '{', '}']) && !matches!(h.name(), "n" | "N" | "h") {
            // the name must not run into the one-letter tags
            if h.name() == "t" && a.starts_with('(') && (a.matches('(').count() != 1 || a.matches(')').count() != 1) {
                continue;
            }
            if h.name().starts_with("fn") || (h.name().starts_with('r') && h.name() != "r") {
                continue;
            }
            block += &format!("\\{}{a}", h.name());
            open |= v == V::Open;
            bad += u64::from(v == V::No);
            n += 1;
        }
    }
    let mut reg = ExtensionRegistry::new();
    for h in hs {
        if let Err(e) = reg.register_tag_handler(h) {
            return fail("register", format!("{e}"));
        }
    }
    let text = format!("a{{{block}}}b");
    cx.set_input(text.clone());
    if !open {
        match TextAnalysis::analyze_with_registry(&text, Some(&reg)) {
            Ok(a) => {
                let g = a.diagnostics().iter().filter(|d| d.kind == DiagnosticKind::MalformedTag).count() as u64;
                ensure!(g == bad, "malformed", "{g} tags of {n} reported malformed, want {bad}: {:?}", a.diagnostics());
                cx.obs("lines_checked", 1);
            }
            Err(e) => return fail("analyze", format!("{e}")),
        }
    }
    // section processors
    let r = &mut cx.rng;
    let p = create_aegisub_processors();
    let header = *r.pick(&["Aegisub Project", "aegisub project", "Aegisub Extradata", "AEGISUB EXTRADATA", "Other", ""]);
    let mut lines: Vec<String> = vec![];
    for _ in 0..r.below(5) {
        lines.push((*r.pick(&["Key: value", "a=b", "", "  ", "! note", "nothing here", " x = y "])).into());
    }
    if r.pct(5) {
        lines.push("x".repeat(r.u(9_998, 10_003)) + ":");
    }
    let ls: Vec<&str> = lines.iter().map(String::as_str).collect();
    cx.input = format!("{header} {:?}", if lines.iter().any(|l| l.len() > 100) { vec!["long"] } else { ls.clone() });
    for p in &p {
        let mine = header.eq_ignore_ascii_case(p.name());
        let proj = p.name() == "Aegisub Project";
        let w = if !mine {
            "ignored"
        } else if proj && ls.iter().map(|l| l.trim()).any(|l| !l.is_empty() && !l.starts_with('!') && !l.contains(['=', ':'])) {
            "failed"
        } else if !proj && ls.iter().any(|l| l.trim().len() > 10_000) {
            "failed"
        } else {
            "processed"
        };
        let g = match p.process(header, &ls) {
            SectionResult::Processed => "processed",
            SectionResult::Ignored => "ignored",
            SectionResult::Failed(_) => "failed",
        };
        ensure!(g == w, "section", "{} {header}: {g} want {w}", p.name());
        ensure!(p.validate(header, &ls) == (mine && (!proj || !ls.is_empty())), "section-validate", "{} {header}", p.name());
        cx.obs("project_sections", u64::from(mine));
    }
    cx.state(&text);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            rule: "a distinct case is a distinct registry history, text with its handlers, or file with its processors, whose every call was recorded by probes and compared with the model",
            assumptions: &[],
            monitors: vec![mon("registry", 120_000, 600_000, registry), mon("analysed", 240_000, 2_000_000, analysed), mon("sections", 80_000, 600_000, sections)],
            must_observe: &["duplicates", "tags_processed", "sections_processed", "removed", "failed_tags", "handled_tags", "sections_taken", "scripts_analysed"],
        },
        Property {
            id: "C16",
            rule: "a distinct case is a distinct line of tags; every built-in handler judged one argument in each case",
            assumptions: &["Arguments whose validity the documentation leaves open (a leading '+' on whole numbers, exponents, infinities) are run but not judged."],
            monitors: vec![mon("builtin", 240_000, 2_000_000, builtin)],
            must_observe: &["accepted", "refused", "lines_checked", "project_sections"],
        },
    ]
}
