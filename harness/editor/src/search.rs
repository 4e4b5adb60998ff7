//! E07 search and replace.
use crate::doc::rng;
use ass_editor::utils::indexing::{create_search_index, FstSearchIndex, LinearSearchIndex};
use ass_editor::utils::search::{create_search, DocumentSearch, DocumentSearchImpl, SearchOptions, SearchResult, SearchScope};
use ass_editor::{EditorDocument, Range};
use hcommon::gen::{self, Opts};
use hcommon::*;

const WORDS: [&str; 34] = [
    "a", "aa", "aaa", "aba", "ab", "Ab", "foo", "Foo", "FOO", "foobar", "foo_bar", "x1", "12", "2024", "İ", "İstanbul", "i\u{307}", "ẞ", "ß", "straße", "STRASSE", "K", "k", "Å", "å",
    "日本", "日本語", "é", "É", "e\u{301}", "😀", "Σ", "σ", "Dialogue",
];

fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => gen::soup(r, 20),
        1 => String::new(),
        2 | 3 => {
            let o = Opts::random(r);
            gen::script(r, o).text
        }
        _ => {
            let mut s = String::new();
            for _ in 0..r.u(1, 60) {
                match r.below(12) {
                    0 => s.push_str(r.pick(&["\n", "\r\n", "\n\n"])),
                    1 => s.push_str(r.pick(&["\n[Events]\n", "\n[Script Info]\n", "\n[V4+ Styles]\n", "\n [Events] \n", "\n[Other]\n"])),
                    2 => s.push_str(r.pick(&["{\\b1}", "\\N", ",,", ": ", "-", "(", ".", "\t", "\u{2028}", "\u{a0}"])),
                    3 => s.push_str(r.pick(&WORDS[..5])),
                    _ => {
                        s.push_str(r.pick(&WORDS));
                        if r.pct(70) {
                            s.push(' ');
                        }
                    }
                }
            }
            s
        }
    }
    .replace('ς', "s")
    .replace('ſ', "s")
}

#[derive(Debug, Clone)]
enum Pat {
    Literal(String),
    /// as a regular expression: `a|b`
    Either(String, String),
    /// `[0-9]+`
    Digits,
    /// `a.` followed by any character but a line feed
    Then(String),
}

fn literal(r: &mut Rng, t: &str) -> String {
    if r.pct(30) || t.is_empty() {
        return r.pick(&WORDS).to_string();
    }
    let x = gen::boundary_range(r, t, 8);
    let mut s = t[x.start..x.end].to_string();
    if r.pct(30) {
        s = s.chars().flat_map(|c| if r.bool() { c.to_uppercase().collect::<Vec<_>>() } else { c.to_lowercase().collect() }).collect();
    }
    s.replace('ς', "s")
}

fn quoted(s: &str) -> String {
    s.chars().flat_map(|c| if c.is_ascii_punctuation() && !"<>".contains(c) { vec!['\\', c] } else { vec![c] }).collect()
}

fn lower(s: &str) -> Vec<char> {
    s.chars().flat_map(|c| c.to_lowercase()).collect()
}
fn eq(a: &str, b: &str, sensitive: bool) -> bool {
    if sensitive {
        a == b
    } else {
        lower(a) == lower(b)
    }
}
fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// The ends of matches that can begin at `at`, in order of preference.
fn ends(t: &str, at: usize, end: usize, p: &Pat, sensitive: bool) -> Option<usize> {
    let lit = |l: &str| (at..=end).filter(|&e| t.is_char_boundary(e)).take_while(|e| e - at <= 3 * l.len() + 4).find(|&e| eq(&t[at..e], l, sensitive));
    match p {
        Pat::Literal(l) => lit(l),
        Pat::Either(a, b) => lit(a).or_else(|| lit(b)),
        Pat::Digits => {
            let n = t[at..end].bytes().take_while(u8::is_ascii_digit).count();
            (n > 0).then_some(at + n)
        }
        Pat::Then(a) => {
            let e = lit(a)?;
            let c = t[e..end].chars().next()?;
            (c != '\n').then_some(e + c.len_utf8())
        }
    }
}

fn regions(t: &str, s: &SearchScope) -> Vec<(usize, usize)> {
    let mut lines = vec![];
    let mut at = 0;
    for l in t.split('\n') {
        lines.push((at, at + l.len()));
        at += l.len() + 1;
    }
    match s {
        SearchScope::All => vec![(0, t.len())],
        SearchScope::Range(r) => {
            let inside: Vec<usize> = (r.start.offset..=r.end.offset.min(t.len())).filter(|&o| t.is_char_boundary(o)).collect();
            match (inside.first(), inside.last()) {
                (Some(&a), Some(&b)) => vec![(a, b)],
                _ => vec![],
            }
        }
        SearchScope::Lines { start, end } => {
            let v: Vec<_> = lines.iter().enumerate().filter(|(i, _)| start <= i && i <= end).map(|x| *x.1).collect();
            if v.is_empty() {
                vec![]
            } else {
                vec![(v[0].0, v[v.len() - 1].1)]
            }
        }
        SearchScope::Sections(names) => {
            // per line; a match over several lines of one section is found too
            let mut v: Vec<(usize, usize)> = vec![];
            let mut cur: Option<bool> = None;
            for (a, b) in lines {
                let l = t[a..b].trim();
                let was = cur == Some(true);
                if l.len() >= 2 && l.starts_with('[') && l.ends_with(']') {
                    cur = Some(names.contains(&l[1..l.len() - 1].to_string()));
                }
                if cur == Some(true) {
                    if was {
                        v.last_mut().unwrap().1 = b;
                    } else {
                        v.push((a, b));
                    }
                }
            }
            v
        }
    }
}

fn expected(t: &str, p: &Pat, o: &SearchOptions) -> Vec<(usize, usize)> {
    let mut out = vec![];
    if let Pat::Literal(l) = p {
        if l.is_empty() {
            return out;
        }
    }
    for (a, b) in regions(t, &o.scope) {
        let mut at = a;
        while at < b {
            if t.is_char_boundary(at) {
                if let Some(e) = ends(t, at, b, p, o.case_sensitive) {
                    let whole = !t[..at].chars().next_back().is_some_and(wordy) && !t[e..].chars().next().is_some_and(wordy);
                    if !o.whole_words || whole {
                        out.push((at, e));
                        if out.len() == o.max_results {
                            return out;
                        }
                        at = e;
                        continue;
                    }
                }
            }
            at += 1;
        }
    }
    out
}

fn described(t: &str, (a, b): (usize, usize)) -> (usize, usize, String, String, usize, usize) {
    let ls = t[..a].rfind('\n').map_or(0, |i| i + 1);
    let le = t[ls..].find('\n').map_or(t.len(), |i| i + ls);
    (a, b, t[a..b].to_string(), t[ls..le].trim_end_matches('\r').to_string(), t[..a].bytes().filter(|b| *b == b'\n').count(), a - ls)
}
fn told(x: &SearchResult) -> (usize, usize, String, String, usize, usize) {
    (x.start.offset, x.end.offset, x.text.to_string(), x.context.trim_end_matches('\r').to_string(), x.line, x.column)
}

fn query(r: &mut Rng, t: &str) -> (Pat, String, SearchOptions) {
    let case_sensitive = r.bool();
    let mut use_regex = r.pct(30);
    let mut p = if use_regex {
        match r.below(5) {
            0 => Pat::Digits,
            1 => Pat::Then(literal(r, t)),
            2 => Pat::Either(literal(r, t), literal(r, t)),
            _ => Pat::Literal(literal(r, t)),
        }
    } else {
        Pat::Literal(if r.pct(2) { String::new() } else { literal(r, t) })
    };
    // What an empty expression matches, and how expressions fold these letters, is left open
    let open = |s: &str| s.is_empty() || (!case_sensitive && s.chars().chain(t.chars()).any(|c| c == 'İ' || c == '\u{307}'));
    if use_regex
        && match &p {
            Pat::Literal(a) | Pat::Then(a) => open(a),
            Pat::Either(a, b) => open(a) || open(b),
            Pat::Digits => false,
        }
    {
        use_regex = false;
        p = Pat::Literal(literal(r, t));
    }
    let s = match &p {
        Pat::Literal(a) if !use_regex => a.clone(),
        Pat::Literal(a) => quoted(a),
        Pat::Either(a, b) => format!("{}|{}", quoted(a), quoted(b)),
        Pat::Digits => "[0-9]+".into(),
        Pat::Then(a) => format!("{}.", quoted(a)),
    };
    let lines = t.split('\n').count();
    let scope = match r.below(8) {
        0 => {
            let a = r.below(t.len() + 4);
            SearchScope::Range(rng(a, a + r.below(t.len() + 4)))
        }
        1 => {
            let x = gen::boundary_range(r, t, 200);
            SearchScope::Range(rng(x.start, x.end))
        }
        2 | 3 => {
            let start = r.below(lines + 2);
            let n = r.below(6);
            SearchScope::Lines { start, end: if r.pct(5) { start.saturating_sub(1) } else { start + n } }
        }
        4 | 5 => {
            let mut v: Vec<String> = ["Events", "Script Info", "V4+ Styles", "Other", "Fonts", "Nope", "events"].iter().map(|s| s.to_string()).collect();
            r.shuffle(&mut v);
            v.truncate(r.below(4));
            SearchScope::Sections(v)
        }
        _ => SearchScope::All,
    };
    let o = SearchOptions { case_sensitive, whole_words: !use_regex && r.pct(35), max_results: *r.pick(&[0, 0, 0, 100, 1, 2, 5]), use_regex, scope };
    (p, s, o)
}

fn engine(r: &mut Rng) -> (&'static str, Box<dyn DocumentSearch>) {
    match r.below(6) {
        0 => ("factory", create_search()),
        1 => ("index factory", create_search_index()),
        2 => ("linear", Box::new(LinearSearchIndex::new())),
        3 => ("fst", Box::new(FstSearchIndex::new())),
        _ => {
            let mut d = DocumentSearchImpl::new();
            if r.bool() {
                d.set_cache_size(r.below(3));
            }
            ("search", Box::new(d))
        }
    }
}

/// Searches of one text after another by every engine.
pub fn history(cx: &mut Cx) -> R {
    let t = text(&mut cx.rng);
    let Ok(mut d) = EditorDocument::from_content(&t) else { return Ok(()) };
    let (name, mut e) = engine(&mut cx.rng);
    let err = |what: &str, x: ass_editor::EditorError| Fail { sig: format!("{what}-refused"), detail: x.to_string() };
    let mut log = vec![format!("{name} {t:?}")];
    cx.set_input(log.join("\n"));
    if cx.rng.pct(5) {
        let n = e.search("a", &SearchOptions::default()).map_err(|x| err("early", x))?.len();
        ensure!(n == 0, "found-unindexed", "{n}");
    }
    e.build_index(&d).map_err(|x| err("build", x))?;
    let mut changes: Vec<Range> = vec![];
    for _ in 0..cx.rng.u(1, 12) {
        let r = &mut cx.rng;
        let now = d.text();
        match r.below(10) {
            0..=1 => {
                // edit and update the index
                for _ in 0..if r.pct(5) { 12 } else { r.u(1, 3) } {
                    let now = d.text();
                    let max = if r.pct(5) { 3000 } else { 12 };
                    let x = gen::boundary_range(r, &now, max);
                    let new = if r.pct(30) {
                        String::new()
                    } else if r.pct(10) {
                        text(r)
                    } else {
                        literal(r, &now)
                    };
                    if d.replace(rng(x.start, x.end), &new).is_ok() {
                        changes.push(if r.pct(80) { rng(x.start, x.end) } else { rng(x.start, x.start + new.len()) });
                        log.push(format!("replace {x:?} by {new:?}"));
                    }
                }
                if r.pct(20) {
                    let _ = d.undo();
                    log.push("undo".into());
                }
                if changes.is_empty() || r.pct(10) {
                    e.build_index(&d).map_err(|x| err("rebuild", x))?;
                } else {
                    e.update_index(&d, &changes).map_err(|x| err("update", x))?;
                }
                log.push("update".into());
                changes.clear();
                cx.obs("updates", 1);
            }
            2 => {
                let (p, s, o) = query(r, &now);
                let new = if r.pct(20) { String::new() } else { literal(r, &now) };
                let want = expected(&now, &p, &o);
                log.push(format!("replace all {s:?} by {new:?} {o:?}"));
                cx.set_input(log.join("\n"));
                let got = e.find_replace(&mut d, &s, &new, &o).map_err(|x| err("find-replace", x))?;
                let got: Vec<_> = got.iter().map(told).collect();
                let want_told: Vec<_> = want.iter().map(|x| described(&now, *x)).collect();
                ensure!(got == want_told, "replaced", "{name} {got:?} want {want_told:?}");
                let mut w = now.clone();
                for &(a, b) in want.iter().rev() {
                    w.replace_range(a..b, &new);
                }
                ensure!(d.text() == w, "replaced-text", "{name} {:?} want {w:?}", d.text());
                cx.obs("replaced", want.len() as u64);
                e.build_index(&d).map_err(|x| err("rebuild", x))?;
                if !want.is_empty() && cx.rng.pct(50) {
                    let mut n = 0;
                    while d.text() != now {
                        n += 1;
                        ensure!(n <= 2 * want.len() && d.undo().is_ok(), "replace-undo", "{:?} want {now:?}", d.text());
                    }
                    e.build_index(&d).map_err(|x| err("rebuild", x))?;
                    log.push("undone".into());
                }
            }
            3 if r.pct(15) => {
                e.clear_index();
                let n = e.search("a", &SearchOptions::default()).map_err(|x| err("cleared", x))?.len();
                ensure!(n == 0, "found-cleared", "{n}");
                if r.bool() {
                    e.build_index(&d).map_err(|x| err("rebuild", x))?;
                } else {
                    e.update_index(&d, &[rng(0, now.len())]).map_err(|x| err("update", x))?;
                }
                log.push("cleared".into());
            }
            _ => {
                let (p, s, o) = query(r, &now);
                log.push(format!("search {s:?} {o:?}"));
                cx.set_input(log.join("\n"));
                let want: Vec<_> = expected(&now, &p, &o).into_iter().map(|x| described(&now, x)).collect();
                let got: Vec<_> = e.search(&s, &o).map_err(|x| err("search", x))?.iter().map(told).collect();
                ensure!(got == want, "found", "{name} {got:?} want {want:?} in {now:?}");
                cx.obs("searches", 1);
                cx.obs("found", want.len() as u64);
                cx.max("found_at_once", want.len() as u64);
                if o.use_regex {
                    cx.obs("expressions", 1);
                }
                if o.whole_words {
                    cx.obs("whole_word_searches", 1);
                }
                match &o.scope {
                    SearchScope::All => {}
                    SearchScope::Lines { .. } => cx.obs("line_scopes", want.len() as u64),
                    SearchScope::Sections(_) => cx.obs("section_scopes", want.len() as u64),
                    SearchScope::Range(_) => cx.obs("range_scopes", want.len() as u64),
                }
                cx.state(&(&now, &s));
            }
        }
    }
    Ok(())
}

/// Expressions and patterns of any kind find something sensible or are refused.
pub fn anything(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let t = if r.bool() { text(r) } else { gen::any_script(r) };
    let Ok(mut d) = EditorDocument::from_content(&t) else { return Ok(()) };
    let (name, mut e) = engine(r);
    let p = match r.below(4) {
        0 => gen::soup(r, 4),
        1 => r.pick(&["(", "[", "a**", "(?i)a", "\\b", "^", "$", ".*", "\\w+", "(?m)^.*$", "\\p{L}+", "x{2,1}", "|", "", "a|", "(?s).+", "(a*)*"]).to_string(),
        _ => literal(r, &t),
    };
    let (_, _, mut o) = query(r, &t);
    o.use_regex = r.pct(70);
    o.whole_words = r.pct(30);
    cx.set_input(format!("{name} {p:?} {o:?}\n{t}"));
    if e.build_index(&d).is_err() {
        return Ok(());
    }
    let bad = o.use_regex && ["(", "[", "x{2,1}"].contains(&p.as_str());
    match e.search(&p, &o) {
        Ok(v) => {
            ensure!(!bad, "bad-expression", "{p:?} found {}", v.len());
            let now = d.text();
            let rs = regions(&now, &o.scope);
            let mut last = 0;
            for x in &v {
                let (a, b) = (x.start.offset, x.end.offset);
                ensure!(a >= last && a <= b && rs.iter().any(|r| r.0 <= a && b <= r.1), "place", "{name} {x:?} after {last} in {rs:?}");
                ensure!(told(x) == described(&now, (a, b)), "described", "{name} {x:?}");
                last = b;
            }
            ensure!(o.max_results == 0 || v.len() <= o.max_results, "limit", "{}", v.len());
            cx.obs("any_found", v.len() as u64);
        }
        Err(_) => {
            ensure!(o.use_regex, "search-refused", "{p:?}");
            cx.obs("refused_expressions", 1);
            let before = d.text();
            ensure!(e.find_replace(&mut d, &p, "x", &o).is_err() && d.text() == before, "refused-replace", "{p:?}");
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E07",
        rule: "a distinct case is a distinct (text, pattern) searched",
        assumptions: &[
            "Case is ignored character by character; final sigma and long s are not generated.",
            "Matches of regular expressions that are not literals, alternatives of literals or digits are judged by order, place and description only.",
        ],
        must_observe: &["searches", "found", "expressions", "whole_word_searches", "line_scopes", "section_scopes", "range_scopes", "replaced", "updates", "any_found", "refused_expressions"],
        monitors: vec![mon("history", 24_000, 600_000, history), mon("anything", 40_000, 1_000_000, anything)],
    }]
}
