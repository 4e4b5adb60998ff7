//! R03: which events are shown at a time.

use ass_core::parser::ast::EventType;
use ass_core::parser::{Script, Section};
use ass_renderer::renderer::EventSelector;
use hcommon::*;
use std::collections::BTreeSet;

fn ev_script(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.pct(70) {
        s.push_str("[Script Info]\nTitle: x\n\n");
    }
    let n = *r.pick(&[0usize, 1, 2, 3, 4, 8, 20, 60]);
    s.push_str("[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
    let span = *r.pick(&[5usize, 50, 400, 100_000]);
    for i in 0..n {
        let kind = *r.pick(&["Dialogue", "Dialogue", "Dialogue", "Comment", "Picture", "Sound", "Movie", "Command"]);
        let a = r.below(span) as u32;
        let b = match r.below(6) {
            0 => a,
            1 => r.below(span) as u32,
            2 => a + 1,
            _ => a + r.below(span) as u32,
        };
        let t = |r: &mut Rng, v: u32| match r.below(20) {
            0 => "".to_string(),
            1 => "x".to_string(),
            2 => format!("{}0", gen::time_str(v)),
            _ => gen::time_str(v),
        };
        let (a, b) = (t(r, a), t(r, b));
        let tag = *r.pick(&["", "", "{\\fad(10,10)}", "{\\k5}", "{\\move(1,2,3,4)}", "{\\t(\\fs3)}", "{\\kf5}", "{\\K5}"]);
        s.push_str(&format!("{kind}: 0,{a},{b},Default,,0,0,0,,{tag}t{i}\n"));
    }
    if r.pct(20) {
        s.push_str("\n[V4+ Styles]\nFormat: Name, Fontname\nStyle: Default,Go\n");
    }
    if r.pct(15) {
        s.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,0:00:00.00,9:00:00.00,Default,,0,0,0,,second section\n");
    }
    s
}

fn expected(s: &Script, t: u32, comments: bool) -> Vec<usize> {
    let Some(Section::Events(ev)) = s.sections().iter().find(|x| matches!(x, Section::Events(_))) else {
        return vec![];
    };
    ev.iter()
        .enumerate()
        .filter(|(_, e)| match e.event_type {
            EventType::Dialogue => true,
            EventType::Comment => comments,
            _ => false,
        })
        .filter(|(_, e)| e.start_time_cs().unwrap_or(0) <= t && t < e.end_time_cs().unwrap_or(0))
        .map(|(i, _)| i)
        .collect()
}

fn active(cx: &mut Cx) -> R {
    let texts: Vec<String> = (0..cx.rng.u(1, 4)).map(|_| ev_script(&mut cx.rng)).collect();
    cx.set_input(texts.join("\n=====\n"));
    let mut sel = EventSelector::new();
    let mut comments = false;
    let mut prev: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..cx.rng.u(1, 5) {
        let which = cx.rng.below(texts.len());
        // parsed and dropped each round: a later script may live at the same address
        let src = texts[which].clone();
        let Ok(s) = Script::parse(&src) else { continue };
        if cx.rng.pct(20) {
            comments = cx.rng.bool();
            sel.set_render_comments(comments);
            cx.note(&format!("comments {comments}"));
        }
        if cx.rng.pct(10) {
            sel.reset();
            prev.clear();
        }
        let evs: Vec<&ass_core::parser::Event> = s
            .sections()
            .iter()
            .find_map(|x| if let Section::Events(e) = x { Some(e.iter().collect()) } else { None })
            .unwrap_or_default();
        for _ in 0..cx.rng.u(1, 12) {
            let t = if evs.is_empty() || cx.rng.pct(15) {
                *cx.rng.pick(&[0, 1, 99, 100, 5000, u32::MAX, u32::MAX / 2, 1 << 31])
            } else {
                let e = cx.rng.pick(&evs);
                let b = if cx.rng.bool() { e.start_time_cs() } else { e.end_time_cs() }.unwrap_or(0);
                *cx.rng.pick(&[b, b.saturating_sub(1), b.saturating_add(1)])
            };
            let exp = expected(&s, t, comments);
            let got = sel.select_active(&s, t).map_err(|e| Fail { sig: "select".into(), detail: format!("{e:?}") })?;
            let gi: Vec<usize> = got
                .events
                .iter()
                .map(|e| evs.iter().position(|x| std::ptr::eq(*x, *e)).unwrap_or(usize::MAX))
                .collect();
            ensure!(gi == exp, "active-set", "script {which} t={t}: active events {gi:?}, expected {exp:?}");
            let now: BTreeSet<usize> = exp.iter().copied().collect();
            let mut na = got.newly_active.clone();
            na.sort_unstable();
            let mut ni = got.newly_inactive.clone();
            ni.sort_unstable();
            let ena: Vec<usize> = now.difference(&prev).copied().collect();
            let eni: Vec<usize> = prev.difference(&now).copied().collect();
            ensure!(na == ena && ni == eni, "changes", "t={t}: newly active {na:?}/{ena:?} inactive {ni:?}/{eni:?}");
            let moving = exp.iter().any(|&i| {
                let x = evs[i].text;
                x.contains("\\t(") || x.contains("\\move(") || x.contains("\\fad(")
            });
            if !ena.is_empty() || !eni.is_empty() || moving {
                ensure!(got.is_dirty, "dirty", "t={t}: a changed or animated selection is reported clean");
            }
            cx.obs("selections", 1);
            cx.obs("active_events", exp.len() as u64);
            cx.state(&(which, &exp, exp.len()));
            prev = now;
        }
    }
    Ok(())
}

fn dirty(cx: &mut Cx) -> R {
    let mut sel = EventSelector::new();
    let mut added: Vec<(u64, u64, u64, u64)> = vec![];
    let big = cx.rng.pct(20);
    for _ in 0..cx.rng.u(1, 12) {
        let v = |r: &mut Rng| if big && r.bool() { u32::MAX - r.below(50) as u32 } else { r.below(60) as u32 };
        let (x, y, w, h) = (v(&mut cx.rng), v(&mut cx.rng), v(&mut cx.rng), v(&mut cx.rng));
        cx.note(&format!("add {x},{y},{w},{h}"));
        sel.add_dirty_region(x, y, w, h);
        added.push((x as u64, y as u64, w as u64, h as u64));
        let m = u64::from(u32::MAX);
        for &(ax, ay, aw, ah) in &added {
            if aw == 0 || ah == 0 {
                continue;
            }
            // every corner of an added region lies inside some reported region
            let x1 = (ax + aw).min(m);
            let y1 = (ay + ah).min(m);
            for (px, py) in [(ax, ay), (x1 - 1, y1 - 1), (ax, y1 - 1), (x1 - 1, ay)] {
                if px < ax || py < ay {
                    continue;
                }
                let ok = sel.dirty_regions().iter().any(|d| {
                    px >= d.x as u64
                        && px < d.x as u64 + d.width as u64
                        && py >= d.y as u64
                        && py < d.y as u64 + d.height as u64
                });
                ensure!(ok, "region-lost", "pixel {px},{py} of an added dirty region is in no reported region");
            }
        }
        // reported regions stay inside the bounding box of what was added
        let bx0 = added.iter().map(|a| a.0).min().unwrap();
        let by0 = added.iter().map(|a| a.1).min().unwrap();
        let bx1 = added.iter().map(|a| a.0 + a.2).max().unwrap();
        let by1 = added.iter().map(|a| a.1 + a.3).max().unwrap();
        for d in sel.dirty_regions() {
            ensure!(
                d.x as u64 >= bx0 && d.y as u64 >= by0 && d.x as u64 + d.width as u64 <= bx1 && d.y as u64 + d.height as u64 <= by1,
                "region-grown",
                "{d:?} reaches outside everything added"
            );
        }
        cx.obs("regions", 1);
        cx.state(&sel.dirty_regions().iter().map(|d| (d.x, d.y, d.width, d.height)).collect::<Vec<_>>());
    }
    sel.clear_dirty_regions();
    ensure!(sel.dirty_regions().is_empty(), "clear", "regions left after clear");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "R03",
        rule: "a distinct (script, active set) observed on the selector, or distinct merged region list",
        assumptions: &["Event::start_time_cs/end_time_cs, whose values C07 decides"],
        monitors: vec![mon("active", 300_000, 3_000_000, active), mon("dirty", 300_000, 3_000_000, dirty)],
        must_observe: &["selections", "active_events", "regions"],
    }]
}
