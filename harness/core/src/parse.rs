//! Parser properties: C01 totality, C02 fidelity, C03 anchoring, C04 serialization.
use ass_core::parser::ast::{Event, EventType, Section, SectionType, Span, Style};
use ass_core::parser::Script;
use ass_core::ScriptVersion;
use hcommon::gen::{self, ExpItem, ExpSection, Opts};
use hcommon::{ensure, fail, mon, Cx, Property, R};

pub fn style_col<'a>(s: &Style<'a>, c: &str) -> Option<&'a str> {
    Some(match c {
        "Name" => s.name,
        "Fontname" => s.fontname,
        "Fontsize" => s.fontsize,
        "PrimaryColour" => s.primary_colour,
        "SecondaryColour" => s.secondary_colour,
        "OutlineColour" => s.outline_colour,
        "BackColour" => s.back_colour,
        "Bold" => s.bold,
        "Italic" => s.italic,
        "Underline" => s.underline,
        "StrikeOut" => s.strikeout,
        "ScaleX" => s.scale_x,
        "ScaleY" => s.scale_y,
        "Spacing" => s.spacing,
        "Angle" => s.angle,
        "BorderStyle" => s.border_style,
        "Outline" => s.outline,
        "Shadow" => s.shadow,
        "Alignment" => s.alignment,
        "MarginL" => s.margin_l,
        "MarginR" => s.margin_r,
        "MarginV" => s.margin_v,
        "Encoding" => s.encoding,
        "MarginT" => return s.margin_t,
        "MarginB" => return s.margin_b,
        "RelativeTo" => return s.relative_to,
        _ => return None,
    })
}
pub const STYLE_ALL: [&str; 26] = [
    "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold",
    "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow",
    "Alignment", "MarginL", "MarginR", "MarginV", "Encoding", "MarginT", "MarginB", "RelativeTo",
];
pub const EVENT_ALL: [&str; 12] =
    ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text", "MarginT", "MarginB"];

pub fn event_col<'a>(e: &Event<'a>, c: &str) -> Option<&'a str> {
    Some(match c {
        "Layer" => e.layer,
        "Start" => e.start,
        "End" => e.end,
        "Style" => e.style,
        "Name" => e.name,
        "MarginL" => e.margin_l,
        "MarginR" => e.margin_r,
        "MarginV" => e.margin_v,
        "Effect" => e.effect,
        "Text" => e.text,
        "MarginT" => return e.margin_t,
        "MarginB" => return e.margin_b,
        _ => return None,
    })
}
pub fn event_kind(t: EventType) -> &'static str {
    match t {
        EventType::Dialogue => "Dialogue",
        EventType::Comment => "Comment",
        EventType::Picture => "Picture",
        EventType::Sound => "Sound",
        EventType::Movie => "Movie",
        EventType::Command => "Command",
    }
}

fn optional(c: &str) -> bool {
    matches!(c, "MarginT" | "MarginB" | "RelativeTo")
}

fn cmp_cols(all: &[&str], it: &ExpItem, got: impl Fn(&str) -> Option<String>) -> R {
    for c in all {
        let want = match it.get(c) {
            Some(v) => Some(v.to_string()),
            None if optional(c) => None,
            None => Some(String::new()),
        };
        let g = got(c);
        ensure!(g == want, "column-value", "column {c} of the {} on line {}: parsed {:?}, script says {:?}", it.kind, it.line, g, want);
    }
    Ok(())
}

fn span_check(it: &ExpItem, s: Span) -> R {
    ensure!(
        (s.start, s.end, s.line, s.column) == (it.start, it.end, it.line, it.column),
        "item-span",
        "{} located at {:?}, but it is bytes {}..{} line {} column {}",
        it.kind, s, it.start, it.end, it.line, it.column
    );
    Ok(())
}

fn fidelity(cx: &mut Cx) -> R {
    let mut o = Opts::random(&mut cx.rng);
    if cx.rng.pct(10) {
        o.max_items = 60;
    }
    let e = gen::script(&mut cx.rng, o);
    cx.set_input(e.text.clone());
    let s = match Script::parse(&e.text) {
        Ok(s) => s,
        Err(x) => return fail("parse-error", format!("well-formed script rejected: {x}")),
    };
    ensure!(s.source() == e.text, "source", "source() is not the parsed text");
    ensure!(
        s.sections().len() == e.sections.len(),
        "section-count",
        "{} sections parsed, script has {}: {:?}",
        s.sections().len(), e.sections.len(),
        s.sections().iter().map(Section::section_type).collect::<Vec<_>>()
    );
    let mut items = 0u64;
    for (g, w) in s.sections().iter().zip(&e.sections) {
        match (g, w) {
            (Section::ScriptInfo(g), ExpSection::Info(w)) => {
                let got: Vec<(String, String)> = g.fields.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                ensure!(&got == w, "script-info", "fields parsed {got:?}, script has {w:?}");
                for (k, _) in w {
                    let first = w.iter().find(|x| &x.0 == k).map(|x| x.1.as_str());
                    ensure!(g.get_field(k) == first, "get-field", "get_field({k})={:?} want {first:?}", g.get_field(k));
                }
                let num = |k: &str| w.iter().find(|x| x.0 == k).and_then(|x| x.1.parse::<u32>().ok());
                let pr = num("PlayResX").zip(num("PlayResY"));
                ensure!(g.play_resolution() == pr, "play-res", "{:?} want {pr:?}", g.play_resolution());
                let lr = num("LayoutResX").zip(num("LayoutResY"));
                ensure!(g.layout_resolution() == lr, "layout-res", "{:?} want {lr:?}", g.layout_resolution());
                ensure!(u32::from(g.wrap_style()) == num("WrapStyle").unwrap_or(0), "wrap-style", "{}", g.wrap_style());
                items += w.len() as u64;
            }
            (Section::Styles(g), ExpSection::Styles(w)) => {
                ensure!(g.len() == w.len(), "style-count", "{} styles parsed, script has {}", g.len(), w.len());
                for (a, b) in g.iter().zip(w) {
                    cmp_cols(&STYLE_ALL, b, |c| style_col(a, c).map(str::to_string))?;
                    ensure!(a.parent == b.parent.as_deref(), "style-parent", "parent {:?} want {:?}", a.parent, b.parent);
                    span_check(b, a.span)?;
                }
                items += w.len() as u64;
            }
            (Section::Events(g), ExpSection::Events(w)) => {
                ensure!(g.len() == w.len(), "event-count", "{} events parsed, script has {}", g.len(), w.len());
                for (a, b) in g.iter().zip(w) {
                    ensure!(event_kind(a.event_type) == b.kind, "event-type", "{:?} want {}", a.event_type, b.kind);
                    cmp_cols(&EVENT_ALL, b, |c| event_col(a, c).map(str::to_string))?;
                    span_check(b, a.span)?;
                    ensure!(a.is_dialogue() == (b.kind == "Dialogue") && a.is_comment() == (b.kind == "Comment"), "event-kind-query", "{:?}", a.event_type);
                }
                items += w.len() as u64;
            }
            (Section::Fonts(g), ExpSection::Fonts(w)) => {
                ensure!(g.len() == w.len(), "font-count", "{} fonts parsed, script has {}", g.len(), w.len());
                for (a, b) in g.iter().zip(w) {
                    media(a.filename, &a.data_lines, a.span, b)?;
                }
                items += w.len() as u64;
            }
            (Section::Graphics(g), ExpSection::Graphics(w)) => {
                ensure!(g.len() == w.len(), "graphic-count", "{} graphics parsed, script has {}", g.len(), w.len());
                for (a, b) in g.iter().zip(w) {
                    media(a.filename, &a.data_lines, a.span, b)?;
                }
                items += w.len() as u64;
            }
            (g, w) => return fail("section-kind", format!("{:?} parsed for {w:?}", g.section_type())),
        }
    }
    // version
    let want_v = match e.version.as_deref() {
        Some("v4") | None => ScriptVersion::SsaV4,
        Some("v4+") => ScriptVersion::AssV4,
        _ => ScriptVersion::AssV4Plus,
    };
    if e.version.is_some() {
        ensure!(s.version() == want_v, "version", "{:?} want {want_v:?}", s.version());
    }
    // diagnostics for the dropped lines and unknown sections
    for l in &e.dropped_lines {
        ensure!(s.issues().iter().any(|i| i.line == *l as usize), "issue-missing", "no issue reported for the malformed line {l}: {:?}", s.issues());
    }
    let unk = s.issues().iter().filter(|i| i.message.contains("Unknown section")).count();
    ensure!(unk == e.unknown_sections, "unknown-section-issue", "{unk} unknown-section issues for {} unknown sections", e.unknown_sections);
    ensure!(
        s.issues().len() == e.dropped_lines.len() + e.unknown_sections,
        "spurious-issue",
        "issues {:?}; malformed lines {:?}, unknown sections {}", s.issues(), e.dropped_lines, e.unknown_sections
    );
    if !o.repeat_sections {
        let f = |x: Option<&[&str]>| x.map(|v| v.iter().map(|s| s.to_ascii_lowercase()).collect::<Vec<_>>());
        let w = |x: &Option<Vec<String>>| x.as_ref().map(|v| v.iter().map(|s| s.to_ascii_lowercase()).collect::<Vec<_>>());
        if e.styles_format.is_some() {
            ensure!(f(s.styles_format()) == w(&e.styles_format), "styles-format", "{:?} want {:?}", s.styles_format(), e.styles_format);
        }
        if e.events_format.is_some() {
            ensure!(f(s.events_format()) == w(&e.events_format), "events-format", "{:?} want {:?}", s.events_format(), e.events_format);
        }
    }
    cx.obs("items_compared", items);
    cx.obs("malformed_lines", e.dropped_lines.len() as u64);
    cx.obs("sections_compared", e.sections.len() as u64);
    if items > 0 {
        cx.state(&e.text);
    }
    Ok(())
}

fn media(name: &str, data: &[&str], span: Span, w: &ExpItem) -> R {
    ensure!(Some(name) == w.get("Name"), "media-name", "{name:?} want {:?}", w.get("Name"));
    let got: Vec<&str> = data.iter().map(|s| s.trim_end_matches('\r')).collect();
    ensure!(got == w.data.iter().map(String::as_str).collect::<Vec<_>>(), "media-data", "data lines {got:?} want {:?}", w.data);
    ensure!((span.start, span.line, span.column) == (w.start, w.line, w.column), "media-span", "{span:?} want start {} line {} col {}", w.start, w.line, w.column);
    Ok(())
}

// ---------------------------------------------------------------- C03

fn line_of(src: &str, off: usize) -> u32 {
    src.as_bytes()[..off].iter().filter(|b| **b == b'\n').count() as u32 + 1
}

fn inside(src: &str, s: &str) -> Option<(usize, usize)> {
    let a = src.as_ptr() as usize;
    let p = s.as_ptr() as usize;
    if p >= a && p + s.len() <= a + src.len() {
        Some((p - a, p - a + s.len()))
    } else {
        None
    }
}

/// Every element of a parsed script points back at the source.
pub fn anchored(script: &Script<'_>, cx: &mut Cx) -> R {
    let src = script.source();
    let mut prev_end = 0usize;
    let mut n = 0u64;
    let item = |span: Span, fields: &[&str], what: &str, prev_end: &mut usize| -> R {
        ensure!(span.start <= span.end && span.end <= src.len(), "span-bounds", "{what} span {span:?} outside 0..{}", src.len());
        ensure!(src.is_char_boundary(span.start) && src.is_char_boundary(span.end), "span-boundary", "{what} span {span:?} splits a character");
        ensure!(span.start >= *prev_end, "span-order", "{what} span {span:?} starts before the end of the previous element ({prev_end})");
        *prev_end = span.end;
        ensure!(span.line == line_of(src, span.start), "span-line", "{what} span {span:?}: byte {} is on line {}", span.start, line_of(src, span.start));
        // an empty element has no first character whose column could be given
        if span.start == span.end {
            return Ok(());
        }
        let ls = src[..span.start].rfind('\n').map_or(0, |i| i + 1);
        ensure!(span.column as usize == span.start - ls + 1, "span-column", "{what} span {span:?}: byte column is {}", span.start - ls + 1);
        for f in fields {
            if f.is_empty() {
                continue;
            }
            let Some((a, b)) = inside(src, f) else {
                return fail("field-copy", format!("{what} field {f:?} is not a slice of the source"));
            };
            ensure!(a >= span.start && b <= span.end, "field-outside-span", "{what} field {f:?} at {a}..{b} outside its element {span:?}");
        }
        Ok(())
    };
    for sec in script.sections() {
        match sec {
            Section::ScriptInfo(i) => {
                let mut all = vec![];
                let mut last = i.span.start;
                for (k, v) in &i.fields {
                    all.push(*k);
                    all.push(*v);
                    if let Some((a, _)) = inside(src, k).filter(|_| !k.is_empty()) {
                        ensure!(a >= last, "field-order", "field {k:?} out of source order");
                        last = a;
                    }
                    n += 1;
                }
                item(i.span, &all, "script info", &mut prev_end)?;
            }
            Section::Styles(v) => {
                for s in v {
                    let f: Vec<&str> = STYLE_ALL.iter().filter_map(|c| style_col(s, c)).chain(s.parent).collect();
                    item(s.span, &f, "style", &mut prev_end)?;
                    n += 1;
                }
            }
            Section::Events(v) => {
                for s in v {
                    let f: Vec<&str> = EVENT_ALL.iter().filter_map(|c| event_col(s, c)).collect();
                    item(s.span, &f, "event", &mut prev_end)?;
                    n += 1;
                }
            }
            Section::Fonts(v) => {
                for s in v {
                    let mut f = vec![s.filename];
                    f.extend(&s.data_lines);
                    item(s.span, &f, "font", &mut prev_end)?;
                    n += 1;
                }
            }
            Section::Graphics(v) => {
                for s in v {
                    let mut f = vec![s.filename];
                    f.extend(&s.data_lines);
                    item(s.span, &f, "graphic", &mut prev_end)?;
                    n += 1;
                }
            }
        }
    }
    // lookups by offset agree with the spans
    let spans: Vec<(SectionType, Option<Span>)> = script.sections().iter().map(|s| (s.section_type(), s.span())).collect();
    for (sec, (_, sp)) in script.sections().iter().zip(&spans) {
        let items: Vec<Span> = match sec {
            Section::ScriptInfo(i) => vec![i.span],
            Section::Styles(v) => v.iter().map(|x| x.span).collect(),
            Section::Events(v) => v.iter().map(|x| x.span).collect(),
            Section::Fonts(v) => v.iter().map(|x| x.span).collect(),
            Section::Graphics(v) => v.iter().map(|x| x.span).collect(),
        };
        match (items.first(), items.last(), sp) {
            (Some(f), Some(l), Some(s)) => ensure!(s.start == f.start && s.end == l.end && s.line == f.line && s.column == f.column, "section-span", "section span {s:?}, elements {f:?}..{l:?}"),
            (None, None, None) => {}
            x => return fail("section-span", format!("{x:?}")),
        }
    }
    let want_b: Vec<_> = spans.iter().filter_map(|(t, s)| s.map(|s| (*t, s.start..s.end))).collect();
    ensure!(script.section_boundaries() == want_b, "boundaries", "{:?} want {want_b:?}", script.section_boundaries());
    for t in [SectionType::ScriptInfo, SectionType::Styles, SectionType::Events, SectionType::Fonts, SectionType::Graphics] {
        let first = spans.iter().find(|x| x.0 == t);
        let want = first.and_then(|x| x.1).map(|s| s.start..s.end);
        ensure!(script.section_range(t) == want, "section-range", "{t:?}: {:?} want {want:?}", script.section_range(t));
        ensure!(script.find_section(t).map(Section::section_type) == first.map(|x| x.0), "find-section", "{t:?}");
    }
    for _ in 0..8 {
        let off = cx.rng.below(src.len() + 2);
        let want = spans.iter().position(|(_, s)| s.is_some_and(|s| s.start <= off && off < s.end));
        let got = script.section_at_offset(off).map(|s| script.sections().iter().position(|x| std::ptr::eq(x, s)).unwrap_or(usize::MAX));
        ensure!(got == want, "section-at-offset", "offset {off}: section {got:?}, spans say {want:?}");
    }
    // diagnostics point into the text
    let lines = line_of(src, src.len());
    for i in script.issues() {
        ensure!(i.line >= 1 && i.line <= lines as usize, "issue-line", "issue {i:?} on line {} of {lines}", i.line);
    }
    cx.obs("elements_anchored", n);
    if n > 0 {
        cx.state(src);
    }
    Ok(())
}

fn anchoring(cx: &mut Cx) -> R {
    let t = gen::any_script(&mut cx.rng);
    cx.set_input(t.clone());
    let Ok(s) = Script::parse(&t) else { return fail("parse-error", "parse returned an error") };
    anchored(&s, cx)?;
    cx.obs("scripts", 1);
    Ok(())
}

// ---------------------------------------------------------------- C04

/// Content of a script as plain data, positions left out.
pub fn content(s: &Script<'_>) -> Vec<String> {
    let mut out = vec![];
    for sec in s.sections() {
        match sec {
            Section::ScriptInfo(i) => {
                out.push("[info]".to_string());
                for (k, v) in &i.fields {
                    out.push(format!("field {k:?}={v:?}"));
                }
            }
            Section::Styles(v) => {
                out.push("[styles]".to_string());
                for x in v {
                    let c: Vec<String> = STYLE_ALL.iter().map(|c| format!("{c}={:?}", style_col(x, c))).collect();
                    out.push(format!("style parent={:?} {}", x.parent, c.join(" ")));
                }
            }
            Section::Events(v) => {
                out.push("[events]".to_string());
                for x in v {
                    let c: Vec<String> = EVENT_ALL.iter().map(|c| format!("{c}={:?}", event_col(x, c))).collect();
                    out.push(format!("{} {}", event_kind(x.event_type), c.join(" ")));
                }
            }
            Section::Fonts(v) => {
                out.push("[fonts]".to_string());
                for x in v {
                    let d: Vec<&str> = x.data_lines.iter().map(|l| l.trim_end_matches('\r')).collect();
                    out.push(format!("font {:?} {d:?}", x.filename));
                }
            }
            Section::Graphics(v) => {
                out.push("[graphics]".to_string());
                for x in v {
                    let d: Vec<&str> = x.data_lines.iter().map(|l| l.trim_end_matches('\r')).collect();
                    out.push(format!("graphic {:?} {d:?}", x.filename));
                }
            }
        }
    }
    out
}

fn roundtrip(cx: &mut Cx) -> R {
    let mut o = Opts::random(&mut cx.rng);
    o.unknown_cols = false;
    let e = gen::script(&mut cx.rng, o);
    cx.set_input(e.text.clone());
    let Ok(s) = Script::parse(&e.text) else { return fail("parse-error", "parse") };
    let out = s.to_ass_string();
    let Ok(b) = Script::parse(&out) else { return fail("reparse-error", "parse of serialized text") };
    let (x, y) = (content(&s), content(&b));
    if x != y {
        let d = x.iter().zip(&y).find(|(a, b)| a != b);
        return fail("content-changed", format!("first difference {d:?} ({} vs {} elements)\nserialized as:\n{out}", x.len(), y.len()));
    }
    ensure!(b.version() == s.version(), "version-changed", "{:?} became {:?}", s.version(), b.version());
    ensure!(b.issues().is_empty(), "issues-after-serialize", "serialized text has issues {:?}\n{out}", b.issues());
    let again = b.to_ass_string();
    ensure!(again == out, "not-idempotent", "serializing the reparsed script gives a different text:\n{out}\n----\n{again}");
    cx.obs("elements_roundtripped", x.len() as u64);
    if x.len() > 2 {
        cx.state(&out);
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C02",
            rule: "a generated well-formed script (random newline style, BOM, blank lines, comments, indentation, padding, column order and case, defaulted formats, malformed lines, unknown and repeated sections, media) whose content is known by construction; non-trivial if it has at least one element; distinct by text",
            assumptions: &["Text is the last column of an event format", "one column layout per kind of section in a file"],
            monitors: vec![mon("fidelity", 500_000, 1_500_000, fidelity)],
            must_observe: &["items_compared", "malformed_lines"],
        },
        Property {
            id: "C03",
            rule: "any text (fragment soup, damaged scripts, hostile skeletons, well-formed scripts); non-trivial if at least one element was parsed; distinct by text",
            assumptions: &[],
            monitors: vec![mon("anchoring", 500_000, 1_500_000, anchoring)],
            must_observe: &["elements_anchored"],
        },
        Property {
            id: "C04",
            rule: "generated well-formed script parsed, serialized, reparsed; distinct by serialized text",
            assumptions: &["columns the library does not know are outside the content compared"],
            monitors: vec![mon("roundtrip", 500_000, 1_000_000, roundtrip)],
            must_observe: &["elements_roundtripped"],
        },
    ]
}
