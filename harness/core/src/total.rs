//! C01 any text is handled, C17 work grows in proportion to the input.
use ass_core::analysis::events as ev;
use ass_core::analysis::linting::{lint_script, LintConfig};
use ass_core::analysis::styles::StyleAnalyzer;
use ass_core::analysis::ScriptAnalysis;
use ass_core::parser::script::calculate_delta;
use ass_core::parser::incremental::TextChange;
use ass_core::parser::{Section, SectionType};
use ass_core::utils::{Spans};
use ass_core::{AssTokenizer, Script};
use hcommon::{cpu_ns, ensure, fail, gen, mon, Cx, Property, Rng, R};

/// Shapes that repeat one construct many times.
const DOCS: &[(&str, fn(usize) -> String)] = &[
    ("blank lines in events", |n| format!("[Events]\n{}", "\n".repeat(n))),
    ("blank lines in info", |n| format!("[Script Info]\n{}", "\n".repeat(n))),
    ("blank lines in styles", |n| format!("[V4+ Styles]\n{}", "\n".repeat(n))),
    ("blank lines in fonts", |n| format!("[Fonts]\n{}", "\n".repeat(n))),
    ("blank lines in a font", |n| format!("[Fonts]\nfontname: a\n{}", "\n".repeat(n))),
    ("blank lines in unknown", |n| format!("[Foo]\n{}", "\n".repeat(n))),
    ("spaces", |n| format!("[Events]\n{}", " ".repeat(n))),
    ("blank lines first", |n| " \n".repeat(n)),
    ("comments", |n| format!("[Events]\n{}", ";x\n".repeat(n))),
    ("comments in styles", |n| format!("[V4+ Styles]\n{}", "; c\n".repeat(n))),
    ("comments first", |n| ";x\n".repeat(n)),
    ("junk", |n| "x\n".repeat(n)),
    ("junk in unknown", |n| format!("[Foo]\n{}", "x y\n".repeat(n))),
    ("format lines in unknown", |n| format!("[Foo]\n{}", "Format: a\n".repeat(n))),
    ("format lines in events", |n| format!("[Events]\n{}", "Format: Layer, Start, End, Text\n".repeat(n))),
    ("format lines in styles", |n| format!("[V4+ Styles]\n{}", "Format: Name, Fontname\n".repeat(n))),
    ("open brackets", |n| "[\n".repeat(n)),
    ("one line of brackets", |n| "[".repeat(n)),
    ("open brackets in events", |n| format!("[Events]\n{}", "[\n".repeat(n))),
    ("event sections", |n| "[Events]\n".repeat(n)),
    ("info sections", |n| "[Script Info]\n".repeat(n)),
    ("style sections", |n| "[V4+ Styles]\n\n".repeat(n)),
    ("unknown sections", |n| "[E]\n".repeat(n)),
    ("font sections", |n| "[Fonts]\n[Graphics]\n".repeat(n / 2)),
    ("dialogue", |n| {
        let l: String = (0..n).map(|i| format!("Dialogue: 0,{},{},D,,0,0,0,,x {{\\b1}}y\\N\n", gen::time_str(i as u32 * 10), gen::time_str(i as u32 * 10 + 9))).collect();
        format!("[Events]\n{l}")
    }),
    ("other events", |n| format!("[Events]\n{}", "Comment: 0,0:00:00.00,0:00:00.00,D,,0,0,0,,x\nSound: 0,0:00:00.00,0:00:00.00,D,,0,0,0,,x\n".repeat(n / 2))),
    ("short dialogue", |n| format!("[Events]\n{}", "Dialogue: 0\n".repeat(n))),
    ("styles", |n| {
        let l: String = (0..n).map(|i| format!("Style: s{i},Arial,20,&H1,&H2,&H3,&H4,0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n")).collect();
        format!("[V4+ Styles]\n{l}")
    }),
    ("inheritance chain", |n| {
        let l: String = (0..n).map(|i| format!("Style: *s{},s{i},Arial,20,&H1,&H2,&H3,&H4,0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n", i as i64 - 1)).collect();
        format!("[V4+ Styles]\n{l}")
    }),
    ("inheritance chain backwards", |n| {
        let l: String = (0..n).map(|i| format!("Style: *s{},s{i},Arial,20,&H1,&H2,&H3,&H4,0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n", i + 1)).collect();
        format!("[V4+ Styles]\n{l}")
    }),
    ("siblings", |n| {
        let l: String = (0..n).map(|i| format!("Style: *s0,s{i},Arial,20,&H1,&H2,&H3,&H4,0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n")).collect();
        format!("[V4+ Styles]\n{}{l}", "Style: s0,Arial,20,&H1,&H2,&H3,&H4,0,0,0,0,100,100,0,0,1,2,0,2,0,0,0,1\n")
    }),
    ("same style again", |n| format!("[V4+ Styles]\n{}", "Style: s,Arial,20\n".repeat(n))),
    ("info fields", |n| {
        let l: String = (0..n).map(|i| format!("k{i}: v\n")).collect();
        format!("[Script Info]\n{l}")
    }),
    ("same info field", |n| format!("[Script Info]\n{}", "Title: v\n".repeat(n))),
    ("font data", |n| format!("[Fonts]\nfontname: x\n{}", "MMMMMMMM\n".repeat(n))),
    ("fonts", |n| format!("[Fonts]\n{}", "fontname: x\nM\n".repeat(n))),
    ("graphics", |n| format!("[Graphics]\n{}", "filename: x\nM\n".repeat(n))),
    ("empty blocks", |n| one(&"{}".repeat(n))),
    ("blocks", |n| one(&"{\\i1}a".repeat(n))),
    ("tags in a block", |n| one(&format!("{{{}}}", "\\b1".repeat(n)))),
    ("open t", |n| one(&format!("{{{}}}", "\\t(".repeat(n)))),
    ("closed t", |n| one(&format!("{{{}}}", "\\t(0,100,\\fs2)".repeat(n)))),
    ("drawing tags", |n| one(&"{\\p1}m 0 0{\\p0}".repeat(n))),
    ("p tags", |n| one(&format!("{{{}}}", "\\p".repeat(n)))),
    ("open blocks", |n| one(&"{".repeat(n))),
    ("close blocks", |n| one(&"}".repeat(n))),
    ("backslashes", |n| one(&"\\".repeat(n))),
    ("breaks", |n| one(&"\\N\\n\\h".repeat(n / 3))),
    ("words", |n| one(&"aé ".repeat(n))),
    ("right to left", |n| one(&"אב ".repeat(n))),
    ("no spaces", |n| one(&"日".repeat(n))),
    ("columns", |n| format!("[Events]\nFormat: {}\nDialogue: {}\n", "a,".repeat(n), ",".repeat(n))),
    ("columns in styles", |n| format!("[V4+ Styles]\nFormat: {}\nStyle: {}\n", "a,".repeat(n), ",".repeat(n))),
    ("carriage returns", |n| format!("[Events]\r\n{}", "\r".repeat(n))),
    ("colons", |n| format!("[Script Info]\n{}\n", ":".repeat(n))),
    ("no line end", |n| "x".repeat(n)),
];

fn one(text: &str) -> String {
    format!("[Events]\nDialogue: 0,0:00:00.00,0:00:01.00,D,,0,0,0,,{text}\n")
}

const STAGES: usize = 6;
const STAGE: [&str; STAGES] = ["parse", "save", "analyse", "tokenize", "update", "compare"];

/// One stage over one text; what it produced, as a size.
fn stage(k: usize, t: &str) -> usize {
    match k {
        0 => Script::parse(t).map_or(0, |s| s.sections().len() + s.issues().len()),
        1 => Script::parse(t).map_or(0, |s| s.to_ass_string().len()),
        2 => Script::parse(t).map_or(0, |s| {
            let a = ScriptAnalysis::analyze(&s);
            let b = StyleAnalyzer::new(&s);
            a.map_or(0, |a| a.lint_issues().len() + a.dialogue_info().len()) + b.resolved_styles().len()
        }),
        3 => {
            let mut z = AssTokenizer::new(t);
            let mut n = 0;
            while let Ok(Some(_)) = z.next_token() {
                n += 1;
            }
            n
        }
        4 => Script::parse(t).map_or(0, |s| {
            let at = t.len();
            s.parse_incremental(&(t.to_string() + "\n"), &TextChange { range: at..at, new_text: "\n".into(), line_range: 1..1 }).map_or(0, |s| s.sections().len()) + s.section_boundaries().len() + usize::from(s.validate_spans())
        }),
        _ => Script::parse(t).map_or(0, |s| {
            let o = t.replace('1', "2");
            Script::parse(&o).map_or(0, |n| {
                let d = calculate_delta(&s, &n);
                d.added.len() + d.modified.len() + d.removed.len() + d.new_issues.len()
            })
        }),
    }
}

fn timed(k: usize, t: &str) -> u64 {
    let a = cpu_ns();
    std::hint::black_box(stage(k, t));
    cpu_ns() - a
}

/// How many times longer a stage takes on a text than on an eighth of it, at least.
/// Neighbours on the machine slow a big working set down more than a small one, so a
/// ratio counts only if it shows in every measurement.
fn ratio(k: usize, f: fn(usize) -> String, n: usize, enough: f64) -> f64 {
    let (big, small) = (f(n), f(n / 8));
    let mut best = f64::MAX;
    for _ in 0..5 {
        let s = timed(k, &small).max(1);
        let b = timed(k, &big);
        best = best.min(b as f64 / s as f64);
        if best < enough {
            break;
        }
    }
    best
}

/// CPU time for one unit count, and for eight times as many.
fn growth(cx: &mut Cx) -> R {
    let (name, f) = *cx.rng.pick(DOCS);
    let k = cx.rng.below(STAGES);
    // reporting every overlapping pair is allowed to grow with their number
    let n = 60_000;
    cx.set_input(format!("{} of {n} × {name}", STAGE[k]));
    let t = timed(k, &f(n));
    cx.obs("measured", 1);
    cx.max("slowest_ms", t / 1_000_000);
    cx.state(&(name, k));
    if t < 150_000_000 {
        return Ok(());
    }
    // slow: does an eighth of it take about an eighth of the time?
    let (mut n, mut worst) = (n, ratio(k, f, n, 12.0));
    if (12.0..26.0).contains(&worst) && t < 3_000_000_000 {
        // not proportional, but no sure sign: what depends on the square shows on more
        n *= 4;
        worst = ratio(k, f, n, 26.0);
        cx.obs("measured_larger", 1);
    }
    if worst < 26.0 {
        cx.obs("slow_but_linear", 1);
        return Ok(());
    }
    fail("growth", format!("{} of {n} × {name} takes {worst:.1} times what an eighth of it takes ({} ms for 60000)", STAGE[k], t / 1_000_000))
}

fn extreme(r: &mut Rng) -> String {
    let n = *r.pick(&[1usize, 2, 99, 100, 101, 255, 256, 1000, 5000, 20_000]);
    let (_, f) = *r.pick(DOCS);
    let mut s = f(n);
    if r.pct(30) {
        let (_, g) = *r.pick(DOCS);
        s += &g(r.u(1, 50));
    }
    if r.pct(30) {
        s = gen::mutate(r, &s);
    }
    if r.pct(10) {
        s.insert(0, '\u{feff}');
    }
    s
}

fn any_text(cx: &mut Cx) -> R {
    let t = match cx.rng.below(20) {
        0 => extreme(&mut cx.rng),
        1..=5 => gen::soup(&mut cx.rng, 120),
        _ => gen::any_script(&mut cx.rng),
    };
    cx.set_input(if t.len() > 6000 { format!("{} bytes starting {:?}", t.len(), t.chars().take(300).collect::<String>()) } else { t.clone() });
    let s = match Script::parse(&t) {
        Ok(s) => s,
        Err(e) => return fail("refused", format!("{e}")),
    };
    cx.obs("texts", 1);
    cx.max("largest_text", t.len() as u64);
    cx.state(&t);
    ensure!(s.source() == t, "source", "the script's source is not the text");
    let again = Script::parse(&t).map_err(|e| hcommon::Fail { sig: "refused".into(), detail: e.to_string() })?;
    ensure!(format!("{:?}{:?}", s.sections(), s.issues()) == format!("{:?}{:?}", again.sections(), again.issues()), "deterministic", "two parses of one text differ");
    let lines = t.split('\n').count();
    for i in s.issues() {
        cx.obs("issues", 1);
        ensure!(i.line >= 1 && i.line <= lines + 1, "issue-line", "issue on line {} of {lines}: {i:?}", i.line);
        ensure!(!i.message.is_empty(), "issue-message", "{i:?}");
    }
    cx.obs("sections", s.sections().len() as u64);
    let saved = s.to_ass_string();
    match Script::parse(&saved) {
        Ok(_) => cx.obs("saved_again", 1),
        Err(e) => return fail("refused-own", format!("{e}: {saved:?}")),
    }
    let _ = s.validate_spans();
    let sp = Spans::new(s.source());
    let mut z = AssTokenizer::new(&t);
    let mut n = 0usize;
    while let Ok(Some(_)) = z.next_token() {
        n += 1;
        if n > 4 * t.len() + 16 {
            return fail("tokens", format!("{n} tokens from {} bytes", t.len()));
        }
    }
    cx.obs("tokens", n as u64);
    for (k, r) in s.section_boundaries() {
        ensure!(r.start <= r.end && r.end <= t.len(), "range", "{k:?} {r:?} of {}", t.len());
    }
    for k in [SectionType::ScriptInfo, SectionType::Styles, SectionType::Events, SectionType::Fonts, SectionType::Graphics] {
        ensure!(s.find_section(k).is_some() == s.sections().iter().any(|x| x.section_type() == k), "find", "{k:?}");
        let _ = s.section_range(k);
    }
    for _ in 0..3 {
        let o = gen::boundary(&mut cx.rng, &t);
        let _ = s.section_at_offset(o);
    }
    let mut events = 0usize;
    for sec in s.sections() {
        match sec {
            Section::Events(v) => {
                events += v.len();
                for e in v.iter().take(300) {
                    ensure!(sp.validate_span(e.text) || e.text.is_empty(), "span", "{:?}", e.text);
                    let _ = (e.start_time_cs(), e.end_time_cs(), e.duration_cs());
                    if let Ok(d) = ev::DialogueInfo::analyze(e) {
                        let _ = (d.animation_score(), d.complexity_score(), d.performance_impact());
                        cx.obs("events_analysed", 1);
                    }
                    let _ = ev::TextAnalysis::analyze(e.text);
                }
            }
            Section::Fonts(v) => v.iter().take(50).for_each(|f| {
                let _ = f.decode_data();
            }),
            Section::Graphics(v) => v.iter().take(50).for_each(|f| {
                let _ = f.decode_data();
            }),
            _ => {}
        }
    }
    if events < 600 {
        let _ = lint_script(&s, &LintConfig::default());
        match ScriptAnalysis::analyze(&s) {
            Ok(a) => {
                let p = a.performance_summary();
                ensure!(p.performance_score <= 100, "score", "{p:?}");
                cx.obs("analysed", 1);
            }
            Err(e) => return fail("analyse", format!("{e}")),
        }
        let an = StyleAnalyzer::new(&s);
        let _ = (an.resolved_styles().len(), an.conflicts().len());
    }
    let o = gen::any_script(&mut cx.rng);
    if let Ok(n) = Script::parse(&o) {
        let d = calculate_delta(&s, &n);
        let _ = d.is_empty();
    }
    let rg = gen::boundary_range(&mut cx.rng, &t, 20);
    let ins = gen::soup(&mut cx.rng, 3);
    let mut new = t.clone();
    new.replace_range(rg.clone(), &ins);
    let _ = s.parse_incremental(&new, &TextChange { range: rg.clone(), new_text: ins.clone(), line_range: 1..1 });
    let _ = s.parse_partial(rg, &ins);
    Ok(())
}

/// Scripts made by the library's own generators are well formed.
#[cfg(feature = "full")]
fn generated(cx: &mut Cx) -> R {
    use ass_core::utils::benchmark_generators as b;
    let n = *cx.rng.pick(&[0usize, 1, 2, 7, 12, 30]);
    let g = match cx.rng.below(9) {
        0 => b::ScriptGenerator::simple(n),
        1 => b::ScriptGenerator::moderate(n),
        2 => b::ScriptGenerator::complex(n),
        3 => b::ScriptGenerator::extreme(n),
        4 => b::ScriptGenerator::anime_realistic(n),
        5 => b::ScriptGenerator::movie_realistic(n),
        6 => b::ScriptGenerator::karaoke_realistic(n),
        7 => b::ScriptGenerator::sign_realistic(n),
        _ => b::ScriptGenerator::educational_realistic(n),
    };
    let t = g.generate();
    cx.set_input(t.clone());
    cx.state(&t);
    let s = Script::parse(&t).map_err(|e| hcommon::Fail { sig: "refused".into(), detail: e.to_string() })?;
    ensure!(s.issues().is_empty(), "generated-issues", "{:?}", s.issues());
    let mut got = (0, 0);
    for sec in s.sections() {
        match sec {
            Section::Events(v) => got.1 += v.len(),
            Section::Styles(v) => got.0 += v.len(),
            _ => {}
        }
    }
    ensure!(got == (g.styles_count, n), "generated-count", "{got:?} styles and events, want {:?}", (g.styles_count, n));
    cx.obs("generated_events", n as u64);
    Ok(())
}

/// Input just above the size limit is reported, not processed.
fn too_large(cx: &mut Cx) -> R {
    const MAX: usize = 50 * 1024 * 1024;
    for (n, over) in [(MAX, false), (MAX + 1, true)] {
        let mut t = String::from("[Script Info]\nTitle: x\n;");
        t.extend(std::iter::repeat_n('c', n - t.len()));
        let s = Script::parse(&t).map_err(|e| hcommon::Fail { sig: "refused".into(), detail: e.to_string() })?;
        ensure!(s.sections().is_empty() == over && s.issues().is_empty() != over, "size-limit", "{n} bytes: {} sections, {:?}", s.sections().len(), s.issues());
        ensure!(s.source().len() == n, "size-source", "");
        cx.obs("huge_inputs", 1);
    }
    cx.state("limit");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a distinct case is a distinct text, taken through parsing, saving, tokenizing, lookups, comparison, updates, linting and analysis under the panic, abort and CPU monitors",
            assumptions: &["Texts are valid UTF-8 (the API takes &str); bytes are C07 and C14."],
            monitors: vec![
                mon("any_text", 300_000, 4_000_000, any_text),
                #[cfg(feature = "full")]
                mon("generated", 400, 4_000, generated),
                mon("too_large", 1, 2, too_large),
            ],
            must_observe: &["texts", "issues", "saved_again", "tokens", "events_analysed", "analysed", "huge_inputs"],
        },
        Property {
            id: "C17",
            rule: "a distinct case is a document shape and a processing stage; CPU time of the thread, never wall-clock time, is compared with that of an eighth of the document",
            assumptions: &["Only growth is judged: CPU time at least 26 times that of an eighth of the units in each of five measurements, and above 150 ms for 60 000 units.", "Events that all overlap are left out: naming every overlapping pair is quadratic by nature."],
            monitors: vec![mon("growth", 2_500, 30_000, growth)],
            must_observe: &["measured"],
        },
    ]
}
