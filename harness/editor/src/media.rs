//! E12 embedded fonts and graphics.
use ass_core::parser::{Script, Section};
use ass_editor::commands::fonts_graphics_commands::{
    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, ListFontsCommand, ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
};
use ass_editor::commands::EditorCommand;
use ass_editor::EditorDocument;
use hcommon::gen::{self, Opts};
use hcommon::*;

const NAMES: [&str; 9] = ["a.ttf", "arial.ttf", "arial.ttf2", "A Font.otf", "日本.ttf", "x", "[odd].png", "end", "fontname"];

/// What an embedded file holds: bytes where they are known, and its lines.
#[derive(Debug, Clone, PartialEq)]
struct File {
    name: String,
    bytes: Option<Vec<u8>>,
    lines: Option<Vec<String>>,
}
fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => r.below(4),
        1 => *r.pick(&[27, 28, 44, 45, 46, 47, 48, 72, 90, 91, 135]),
        2 => r.below(400),
        _ => r.below(100),
    };
    let zeros = r.pct(25);
    (0..n).map(|_| if zeros && r.pct(70) { 0 } else { r.below(256) as u8 }).collect()
}
/// Written independently of the code under test.
fn uu(name: &str, data: &[u8]) -> Vec<String> {
    let mut v = vec![format!("begin 644 {name}")];
    for c in data.chunks(45) {
        let mut l = String::new();
        l.push((b' ' + c.len() as u8) as char);
        for g in c.chunks(3) {
            let n = (u32::from(g[0]) << 16) | (u32::from(*g.get(1).unwrap_or(&0)) << 8) | u32::from(*g.get(2).unwrap_or(&0));
            for k in [18, 12, 6, 0] {
                let x = ((n >> k) & 63) as u8;
                l.push(if x == 0 { '`' } else { (b' ' + x) as char });
            }
        }
        v.push(l);
    }
    v.push("`".into());
    v.push("end".into());
    v
}
fn seen(text: &str) -> R<[Vec<File>; 2]> {
    let s = match Script::parse(text) {
        Ok(s) => s,
        Err(e) => return fail("not parsed", format!("{e}\n{text}")),
    };
    let mut out = [vec![], vec![]];
    for x in s.sections() {
        match x {
            Section::Fonts(v) => out[0].extend(v.iter().map(|f| File { name: f.filename.into(), bytes: f.decode_data().ok(), lines: Some(f.data_lines.iter().map(|l| l.trim().to_string()).collect()) })),
            Section::Graphics(v) => out[1].extend(v.iter().map(|f| File { name: f.filename.into(), bytes: f.decode_data().ok(), lines: Some(f.data_lines.iter().map(|l| l.trim().to_string()).collect()) })),
            _ => {}
        }
    }
    Ok(out)
}
/// Lines that are neither empty nor part of the two sections.
fn others(text: &str) -> Vec<String> {
    let mut media = false;
    let mut out = vec![];
    for l in text.lines() {
        let t = l.trim();
        if t.starts_with('[') {
            let n = t.trim_matches(['[', ']']).trim();
            media = n == "Fonts" || n == "Graphics";
            if media {
                continue;
            }
        }
        if !media && !t.is_empty() {
            out.push(l.to_string());
        }
    }
    out
}
fn same(got: &[File], want: &[File]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.name == w.name && (w.bytes.is_none() || w.bytes == g.bytes) && (w.lines.is_none() || w.lines == g.lines))
}

fn history(cx: &mut Cx) -> R {
    let mut model: [Vec<File>; 2] = [vec![], vec![]];
    let text = {
        let r = &mut cx.rng;
        let mut parts: Vec<String> = vec![];
        let mut o = Opts::random(r);
        o.media = false;
        parts.push(gen::script(r, o).text.replace("[Fonts]", "[Other]").replace("[Graphics]", "[Other2]"));
        for k in 0..2 {
            for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 2]) {
                let mut s = format!("{}\n", ["[Fonts]", "[Graphics]"][k]);
                if r.pct(15) {
                    s += "\n";
                }
                if r.pct(15) {
                    s += "; a remark\n";
                }
                for _ in 0..r.below(4) {
                    let (name, data) = (r.pick(&NAMES).to_string(), bytes(r));
                    let lines = uu(&name, &data);
                    s += &format!("{}: {name}\n", ["fontname", "filename"][k]);
                    if r.pct(5) {
                        s += "; remark within\n";
                    }
                    s += &(lines.join("\n") + "\n");
                    if r.pct(30) {
                        s += "\n";
                    }
                    model[k].push(File { name, bytes: Some(data), lines: Some(lines) });
                }
                parts.push(s);
            }
        }
        // sections of one kind stay in order
        if parts.len() > 1 && r.bool() {
            let first = parts.remove(0);
            let at = r.below(parts.len() + 1);
            // (a remark above it would be read as data)
            parts.insert(at, first[first.find('[').unwrap_or(first.len())..].into());
        }
        let mut t = String::new();
        for p in parts {
            if !t.is_empty() && !t.ends_with('\n') {
                t.push('\n');
            }
            t += &p;
        }
        match r.below(6) {
            0 => t = t.trim_end().to_string(),
            1 => t = t.replace('\n', "\r\n"),
            _ => {}
        }
        t
    };
    cx.set_input(text.clone());
    let Ok(mut doc) = EditorDocument::from_content(&text) else { return Ok(()) };
    let start = seen(&text)?;
    ensure!(same(&start[0], &model[0]) && same(&start[1], &model[1]), "files of the text", "{start:?}\n{model:?}");
    let rest = others(&text);
    let mut log = text.clone();
    // the texts before and after, with their files
    let mut past: Vec<(String, [Vec<File>; 2])> = vec![];
    let mut future: Vec<(String, [Vec<File>; 2])> = vec![];
    for _ in 0..cx.rng.u(1, 12) {
        let r = &mut cx.rng;
        let k = r.below(2);
        let before = (doc.text(), model.clone());
        let name = r.pick(&NAMES).to_string();
        let fluent = r.bool();
        let op = r.below(12);
        let mut moved = false;
        let run = |d: &mut EditorDocument, c: &dyn EditorCommand| d.execute_command(c).map(|_| ());
        match op {
            0..=3 => {
                let data = bytes(r);
                log += &format!("\n--- add {name} kind {k} bytes {data:?}");
                cx.set_input(log.clone());
                let got = match (k, fluent) {
                    (0, true) => doc.fonts().add_binary(&name, &data).map(|_| ()),
                    (0, _) => run(&mut doc, &AddFontCommand::from_binary(name.clone(), &data)),
                    (_, true) => doc.graphics().add_binary(&name, &data).map(|_| ()),
                    _ => run(&mut doc, &AddGraphicCommand::from_binary(name.clone(), &data)),
                };
                ensure!(got.is_ok(), "add refused", "{log}\n{got:?}");
                model[k].push(File { name, bytes: Some(data.clone()), lines: None });
                cx.obs("files added from bytes", 1);
                cx.obs("bytes embedded", data.len() as u64);
            }
            4 => {
                let data = bytes(r);
                let lines = uu(&name, &data);
                log += &format!("\n--- add {name} kind {k} lines {lines:?}");
                cx.set_input(log.clone());
                let got = match (k, fluent) {
                    (0, true) => doc.fonts().add(&name, lines.clone()).map(|_| ()),
                    (0, _) => run(&mut doc, &AddFontCommand::new(name.clone(), lines.clone())),
                    (_, true) => doc.graphics().add(&name, lines.clone()).map(|_| ()),
                    _ => run(&mut doc, &AddGraphicCommand::new(name.clone(), lines.clone())),
                };
                ensure!(got.is_ok(), "add refused", "{log}\n{got:?}");
                model[k].push(File { name, bytes: Some(data), lines: Some(lines) });
                cx.obs("files added from lines", 1);
            }
            5 => {
                // what cannot be held is refused, or at least spoils nothing
                let (n, l) = match r.below(4) {
                    0 => ("two\nlines".to_string(), vec![]),
                    1 => (name, vec!["#86)C".into(), "[Events]".into()]),
                    2 => (name, vec!["a\n[Script Info]\nTitle: x".into()]),
                    _ => (name, vec!["#86)C".into(), if k == 0 { "fontname: b" } else { "filename: b" }.into()]),
                };
                log += &format!("\n--- add {n:?} kind {k} bad lines {l:?}");
                cx.set_input(log.clone());
                let got = if k == 0 { run(&mut doc, &AddFontCommand::new(n, l)) } else { run(&mut doc, &AddGraphicCommand::new(n, l)) };
                ensure!(got.is_err() && doc.text() == before.0, "bad file", "{log}\n{got:?}\n{}", doc.text());
                cx.obs("bad files refused", 1);
            }
            6 | 7 => {
                let name = if r.pct(70) && !model[k].is_empty() { r.pick(&model[k]).name.clone() } else { name };
                log += &format!("\n--- remove {name} kind {k}");
                cx.set_input(log.clone());
                let got = match (k, fluent) {
                    (0, true) => doc.fonts().remove(&name).map(|_| ()),
                    (0, _) => run(&mut doc, &RemoveFontCommand::new(name.clone())),
                    (_, true) => doc.graphics().remove(&name).map(|_| ()),
                    _ => run(&mut doc, &RemoveGraphicCommand::new(name.clone())),
                };
                let there = model[k].iter().any(|f| f.name == name);
                ensure!(got.is_ok() || !there, "remove refused", "{log}\n{got:?}");
                model[k].retain(|f| f.name != name);
                if there {
                    cx.obs("files removed", 1);
                } else {
                    ensure!(doc.text() == before.0, "removing nothing", "{log}\n{}", doc.text());
                }
            }
            8 => {
                log += &format!("\n--- clear kind {k}");
                cx.set_input(log.clone());
                let got = match (k, fluent) {
                    (0, true) => doc.fonts().clear().map(|_| ()),
                    (0, _) => run(&mut doc, &ClearFontsCommand::new()),
                    (_, true) => doc.graphics().clear().map(|_| ()),
                    _ => run(&mut doc, &ClearGraphicsCommand::new()),
                };
                ensure!(got.is_ok(), "clear refused", "{log}\n{got:?}");
                cx.obs("sections cleared", !model[k].is_empty() as u64);
                model[k].clear();
            }
            9 | 10 => {
                log += "\n--- undo";
                cx.set_input(log.clone());
                if let Some((t, m)) = past.pop() {
                    let got = doc.undo();
                    ensure!(got.is_ok() && doc.text() == t, "undo", "{log}\n{got:?}\n{}", doc.text());
                    future.push(before.clone());
                    model = m;
                    moved = true;
                    cx.obs("undone", 1);
                }
            }
            _ => {
                log += "\n--- redo";
                cx.set_input(log.clone());
                if let Some((t, m)) = future.pop() {
                    let got = doc.redo();
                    ensure!(got.is_ok() && doc.text() == t, "redo", "{log}\n{got:?}\n{}", doc.text());
                    past.push(before.clone());
                    model = m;
                    moved = true;
                    cx.obs("redone", 1);
                }
            }
        }
        let t = doc.text();
        if !moved && t != before.0 {
            past.push(before);
            future.clear();
        }
        let now = seen(&t)?;
        // with several sections of a kind a new file may stand at the end of any
        if op <= 4 {
            let new = model[k].pop().unwrap();
            let at = (0..=model[k].len()).rev().find(|at| {
                let mut m = model[k].clone();
                m.insert(*at, new.clone());
                same(&now[k], &m)
            });
            let at = at.unwrap_or(model[k].len());
            model[k].insert(at, new);
        }
        ensure!(same(&now[0], &model[0]) && same(&now[1], &model[1]), "files", "{log}\n--- now\n{t}\n--- {now:?}\n--- {model:?}");
        ensure!(others(&t) == rest, "other lines", "{log}\n--- now\n{t}");
        for k in 0..2 {
            let names: Vec<String> = model[k].iter().map(|f| f.name.clone()).collect();
            let (list, other, n) = if k == 0 {
                (doc.fonts().list().ok(), ListFontsCommand::new().list(&doc).ok(), doc.fonts().count().ok())
            } else {
                (doc.graphics().list().ok(), ListGraphicsCommand::new().list(&doc).ok(), doc.graphics().count().ok())
            };
            ensure!(list.as_ref() == Some(&names) && other == list && n == Some(names.len()), "list", "{log}\n{list:?} {other:?} {n:?}, expected {names:?}");
            for x in NAMES {
                let e = if k == 0 { doc.fonts().exists(x) } else { doc.graphics().exists(x) };
                ensure!(e.is_ok_and(|e| e == names.iter().any(|n| n == x)), "exists", "{log}\n{x}");
            }
        }
        cx.obs("states compared", 1);
    }
    cx.state(&log);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E12",
        rule: "the fonts and graphics of a document are those added and not removed, in order and byte for byte, through parsing, listing, undo and redo; no other line changes",
        assumptions: &["the core parser's reading of sections and of uuencoded lines, which has checks of its own", "files of equal name are removed together"],
        must_observe: &["files added from bytes", "files added from lines", "bad files refused", "files removed", "sections cleared", "undone", "redone"],
        monitors: vec![mon("history", 40_000, 900_000, history)],
    }]
}
