//! E14 validation results.
use crate::doc::{pos, rng};
use ass_core::analysis::linting::IssueSeverity;
use ass_core::analysis::{AnalysisConfig, ScriptAnalysis, ScriptAnalysisOptions};
use ass_core::parser::{Script, Section};
use ass_editor::commands::{BatchCommand, EditorCommand, InsertTextCommand, ReplaceTextCommand};
use ass_editor::utils::{LazyValidator, ValidationIssue, ValidationResult, ValidationSeverity, ValidatorConfig};
use ass_editor::EditorDocument;
use hcommon::gen::{self, Opts};
use hcommon::*;
use std::time::Duration;

const LEVELS: [ValidationSeverity; 4] = [ValidationSeverity::Info, ValidationSeverity::Warning, ValidationSeverity::Error, ValidationSeverity::Critical];

fn config(r: &mut Rng) -> ValidatorConfig {
    let all = r.pct(30);
    ValidatorConfig {
        auto_validate: r.bool(),
        min_validation_interval: *r.pick(&[Duration::ZERO, Duration::from_millis(500), Duration::from_secs(100_000)]),
        max_issues: if r.bool() { r.u(0, 6) as usize } else { 10_000 },
        severity_threshold: if r.bool() { LEVELS[0] } else { *r.pick(&LEVELS) },
        enable_performance_hints: all || r.bool(),
        enable_accessibility_checks: all || r.bool(),
        enable_spec_compliance: all || r.bool(),
        enable_unicode_checks: all || r.bool(),
    }
}
type Row = (usize, Option<usize>, Option<usize>, String, String, Option<String>);
fn level(s: ValidationSeverity) -> usize {
    LEVELS.iter().position(|l| *l == s).unwrap()
}
fn row(i: &ValidationIssue) -> Row {
    (level(i.severity), i.line, i.column, i.rule.clone(), i.message.clone(), i.suggestion.clone())
}
/// All issues of a text at or above the threshold, or None for a text that is not parsed.
fn expected(text: &str, c: &ValidatorConfig) -> Option<Vec<Row>> {
    let script = Script::parse(text).ok()?;
    let mut o = ScriptAnalysisOptions::empty();
    for (on, flag) in [
        (c.enable_unicode_checks, ScriptAnalysisOptions::UNICODE_LINEBREAKS),
        (c.enable_performance_hints, ScriptAnalysisOptions::PERFORMANCE_HINTS),
        (c.enable_spec_compliance, ScriptAnalysisOptions::STRICT_COMPLIANCE),
        (c.enable_accessibility_checks, ScriptAnalysisOptions::BIDI_ANALYSIS),
    ] {
        if on {
            o |= flag;
        }
    }
    let mut v: Vec<Row> = vec![];
    match ScriptAnalysis::analyze_with_config(&script, AnalysisConfig { options: o, max_events_threshold: 1000 }) {
        Ok(a) => {
            for i in a.lint_issues() {
                let l = match i.severity() {
                    IssueSeverity::Hint | IssueSeverity::Info => 0,
                    IssueSeverity::Warning => 1,
                    IssueSeverity::Error => 2,
                    IssueSeverity::Critical => 3,
                };
                let at = i.location();
                v.push((l, at.as_ref().map(|x| x.line), at.as_ref().map(|x| x.column), i.rule_id().into(), i.message().into(), i.suggested_fix().map(str::to_string)));
            }
        }
        Err(_) => v.push((2, None, None, "analyzer".into(), "Failed to analyze script".into(), None)),
    }
    let has = |f: &dyn Fn(&Section) -> bool| script.sections().iter().any(f);
    if text.is_empty() {
        v.push((1, None, None, "basic".into(), "Document is empty".into(), None));
    }
    if !has(&|s| matches!(s, Section::ScriptInfo(_))) {
        v.push((1, None, None, "structure".into(), "Missing [Script Info] section".into(), None));
    }
    if !has(&|s| matches!(s, Section::Events(_))) {
        v.push((1, None, None, "structure".into(), "Missing [Events] section".into(), None));
    }
    v.retain(|x| x.0 >= level(c.severity_threshold));
    v.sort();
    Some(v)
}
fn check(cx: &mut Cx, log: &str, text: &str, c: &ValidatorConfig, got: &ValidationResult) -> R {
    let Some(want) = expected(text, c) else { return fail("text not parsed", log.to_string()) };
    let mut rows: Vec<Row> = got.issues.iter().map(row).collect();
    rows.sort();
    let at = |what: &str| format!("{log}\n--- text\n{text}\n--- {c:?}\n--- {what}\ngot  {rows:?}\nwant {want:?}");
    let limit = if c.max_issues == 0 { usize::MAX } else { c.max_issues };
    if want.len() <= limit {
        ensure!(rows == want, "issues", "{}", at("issues"));
    } else {
        ensure!(rows.len() == limit, "issues over the limit", "{}", at("limit"));
        // those left out are no more severe than those kept, and nothing is made up
        let mut rest = want.clone();
        for x in &rows {
            let Some(k) = rest.iter().position(|y| y == x) else { return fail("issue made up", at("made up")) };
            rest.swap_remove(k);
        }
        let (kept, lost) = (rows.iter().map(|x| x.0).min(), rest.iter().map(|x| x.0).max());
        ensure!(lost <= kept, "severe issue dropped", "{}", at("dropped"));
        cx.obs("results cut to the limit", 1);
    }
    let n = |f: &dyn Fn(usize) -> bool| rows.iter().filter(|x| f(x.0)).count();
    let (w, e) = (n(&|l| l == 1), n(&|l| l >= 2));
    ensure!(got.warning_count == w && got.error_count == e && got.is_valid == (e == 0), "counts", "{}", at(&format!("{} {} {}", got.warning_count, got.error_count, got.is_valid)));
    for l in LEVELS {
        let sel: Vec<Row> = got.issues_with_severity(l).into_iter().map(row).collect();
        let all: Vec<Row> = got.issues.iter().map(row).filter(|x| x.0 >= level(l)).collect();
        ensure!(sel == all, "issues with severity", "{}", at(&format!("{l:?} {sel:?}")));
    }
    for i in &got.issues {
        ensure!(i.is_error() == (level(i.severity) >= 2) && i.is_warning_or_higher() == (level(i.severity) >= 1), "severity tests", "{}", at(&format!("{i:?}")));
    }
    let s = got.summary();
    let right = match (e, w) {
        (0, 0) => s == "Valid",
        (0, w) => s == format!("{w} warnings"),
        (e, w) => s == format!("{e} errors, {w} warnings"),
    };
    ensure!(right, "summary", "{}", at(&s));
    cx.obs("issues compared", rows.len() as u64);
    cx.obs("results compared", 1);
    if e > 0 {
        cx.obs("texts with errors", 1);
    }
    if e == 0 && w == 0 {
        cx.obs("texts without errors or warnings", 1);
    }
    Ok(())
}
fn text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => gen::soup(r, 12),
        1 => gen::any_script(r),
        2 => String::new(),
        3 => {
            let s = gen::script(r, Opts::plain()).text;
            let (a, b) = *r.pick(&[("[Events]", "; [Events]"), ("[Script Info]", "[Info]"), ("Title:", "Title: [Events]"), ("[Events]", "[ Events ]"), ("[Script Info]", "  [Script Info] ")]);
            s.replace(a, b)
        }
        4 => {
            // problems of several severities
            let mut s = String::from("[Script Info]\nScriptType: v4.00+\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize\nStyle: A,Arial,20\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
            for _ in 0..r.u(1, 12) {
                let (a, b) = (r.u(0, 500), r.u(0, 500));
                let style = *r.pick(&["A", "A", "Nope", "", "*A"]);
                let t = *r.pick(&["plain", "{\\b", "{\\nope1}x", "{\\t(0,100,\\blur5)}x{\\p1}m 0 0 l 5 5{\\p0}", "{\\an7\\pos(1,2)}y", "", "مرحبا x", "a\u{2028}b", "{}"]);
                s += &format!("Dialogue: 0,{},{},{style},,0,0,0,,{t}\n", gen::time_str(a as u32), gen::time_str(b as u32));
            }
            s
        }
        _ => {
            let o = Opts::random(r);
            gen::script(r, o).text
        }
    }
}

fn history(cx: &mut Cx) -> R {
    let first = text(&mut cx.rng);
    cx.set_input(first.clone());
    let Ok(mut doc) = EditorDocument::from_content(&first) else { return Ok(()) };
    let mut c = ValidatorConfig::default();
    let mut log = first.clone();
    for _ in 0..cx.rng.u(2, 14) {
        let before = doc.text();
        let r = &mut cx.rng;
        let part = gen::boundary_range(r, &before, 60);
        let new = match r.below(4) {
            0 => String::new(),
            1 => gen::word(r),
            2 => gen::soup(r, 3),
            _ => r.pick(&["Dialogue: 0,0:00:05.00,0:00:01.00,Nope,,0,0,0,,{\\zz}x\n", "[Events]\n", "x: y\n", "Style: A,Arial,20\n"]).to_string(),
        };
        let op = r.below(22);
        log += &format!("\n--- op {op} {part:?} {new:?}");
        cx.set_input(log.clone());
        match op {
            0 => drop(doc.insert(pos(part.start), &new)),
            1 => drop(doc.delete(rng(part.start, part.end))),
            2 => drop(doc.replace(rng(part.start, part.end), &new)),
            3 => drop(doc.edit_incremental(rng(part.start, part.end), &new)),
            4 => drop(doc.edit_safe(rng(part.start, part.end), &new)),
            5 => drop(doc.set_script_info_field("Title", &gen::word(&mut cx.rng))),
            6 => drop(doc.undo()),
            7 => drop(doc.undo()),
            8 => drop(doc.redo()),
            9 => drop(doc.execute_command(&ReplaceTextCommand::new(rng(part.start, part.end), new))),
            10 => {
                // a command that fails half way
                let b = BatchCommand::new("batch".into())
                    .add_command(Box::new(InsertTextCommand::new(pos(part.start), new)))
                    .add_command(Box::new(InsertTextCommand::new(pos(usize::MAX / 2), "x".into())));
                let got = doc.execute_command(&b);
                ensure!(got.is_err() && doc.text() == before, "failing batch", "{log}");
                cx.obs("failing commands", 1);
            }
            11 => {
                let b = BatchCommand::new("batch".into())
                    .add_command(Box::new(InsertTextCommand::new(pos(part.start), new)))
                    .add_command(Box::new(InsertTextCommand::new(pos(0), "; x\n".into())));
                drop(doc.execute_command(&b));
            }
            12 => drop(InsertTextCommand::new(pos(part.start), new).execute(&mut doc)),
            13 => drop(doc.styles().create("Fresh", ass_editor::StyleBuilder::new().font("Arial"))),
            14 => drop(doc.add_event_line("Dialogue: 0,0:00:05.00,0:00:01.00,Nope,,0,0,0,,{\\zz}x")),
            15 => {
                c = config(&mut cx.rng);
                log += &format!(" {c:?}");
                cx.set_input(log.clone());
                if cx.rng.bool() {
                    doc.set_validator_config(c.clone());
                } else {
                    doc.validator_mut().set_config(c.clone());
                }
                ensure!(doc.validation_result().is_none(), "result after a new configuration", "{log}");
                cx.obs("configurations set", 1);
            }
            16 => {
                let got = doc.is_valid_cached();
                match expected(&doc.text(), &c) {
                    Some(w) => {
                        ensure!(got.as_ref().is_ok_and(|g| *g == !w.iter().any(|x| x.0 >= 2)), "is_valid_cached", "{log}\n{got:?} {w:?}");
                        cx.obs("validity asked", 1);
                    }
                    None => ensure!(got.is_err(), "unparsable text validated", "{log}"),
                }
            }
            _ => {
                let got = if op == 17 { doc.force_validate() } else { doc.validate_comprehensive() };
                match got {
                    Ok(g) => {
                        check(cx, &log, &doc.text(), &c, &g)?;
                        ensure!(doc.validation_result().is_some(), "no result after validation", "{log}");
                    }
                    Err(e) => ensure!(expected(&doc.text(), &c).is_none(), "validation refused", "{log}\n{e:?}"),
                }
            }
        }
        let now = doc.text();
        if now != before {
            cx.obs("texts changed", 1);
        }
        // a result at hand describes the text at hand
        if let Some(g) = doc.validation_result().cloned() {
            if op < 15 {
                cx.obs("results kept over a call that changed nothing", 1);
            }
            check(cx, &log, &now, &c, &g)?;
        }
    }
    cx.state(&log);
    Ok(())
}
/// One validator over many documents.
fn shared(cx: &mut Cx) -> R {
    let mut c = if cx.rng.bool() { config(&mut cx.rng) } else { ValidatorConfig::default() };
    let mut v = LazyValidator::with_config(c.clone());
    let texts: Vec<String> = (0..cx.rng.u(1, 4)).map(|_| text(&mut cx.rng)).collect();
    let mut log = texts.join("\n=====\n");
    for _ in 0..cx.rng.u(1, 8) {
        let t = cx.rng.pick(&texts).clone();
        let op = cx.rng.below(8);
        log += &format!("\n--- op {op} {}", texts.iter().position(|x| *x == t).unwrap());
        cx.set_input(log.clone());
        let Ok(doc) = EditorDocument::from_content(&t) else { continue };
        let got = match op {
            0 => {
                v.clear_cache();
                ensure!(v.cached_result().is_none(), "result after clearing", "{log}");
                continue;
            }
            1 => {
                c = config(&mut cx.rng);
                v.set_config(c.clone());
                ensure!(v.cached_result().is_none(), "result after a new configuration", "{log}");
                continue;
            }
            2 => v.force_validate(&doc).cloned(),
            3 => match v.is_valid(&doc) {
                Ok(b) => {
                    let g = v.cached_result().cloned();
                    ensure!(g.as_ref().is_some_and(|g| g.is_valid == b), "is_valid", "{log}");
                    Ok(g.unwrap())
                }
                Err(e) => Err(e),
            },
            _ => v.validate(&doc).cloned(),
        };
        match got {
            Ok(g) => check(cx, &log, &t, &c, &g)?,
            Err(e) => ensure!(expected(&t, &c).is_none(), "validation refused", "{log}\n{e:?}"),
        }
    }
    cx.state(&log);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E14",
        rule: "a validation result, fresh or kept, lists exactly the analysis' and the structural issues of the current text at or above the threshold, and under a limit the most severe of them; its counts and summary are those of its issues",
        assumptions: &["the core analysis, which has checks of its own"],
        must_observe: &["results compared", "results cut to the limit", "texts with errors", "texts without errors or warnings", "failing commands", "configurations set", "validity asked", "results kept over a call that changed nothing"],
        monitors: vec![mon("history", 300_000, 6_000_000, history), mon("shared", 100_000, 2_000_000, shared)],
    }]
}
