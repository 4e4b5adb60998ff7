//! E05 tag and karaoke commands.
use ass_editor::commands::{
    AdjustKaraokeCommand, ApplyKaraokeCommand, EditorCommand, GenerateKaraokeCommand, InsertTagCommand, KaraokeType, ParseTagCommand, RemoveTagCommand, ReplaceTagCommand,
    SplitKaraokeCommand, WrapTagCommand,
};
use ass_editor::{EditorDocument, Position, Range};
use hcommon::gen::{self};
use hcommon::*;

#[derive(Clone, Debug)]
struct Tag {
    /// offset of the backslash in the text
    at: usize,
    name: String,
    args: String,
    /// offset of the end of the arguments
    end: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Closed,
    Open,
}
/// Offsets of the braces of each block: opening brace, end (after the closing brace), kind.
fn blocks(t: &str) -> Vec<(usize, usize, Kind)> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'{' {
            i += 1;
            continue;
        }
        let (mut j, mut depth) = (i, 0i32);
        let mut kind = Kind::Open;
        while j < b.len() && b[j] != b'\n' && b[j] != b'\r' {
            if b[j] == b'{' {
                depth += 1;
            }
            if b[j] == b'}' {
                depth -= 1;
            }
            j += 1;
            if depth == 0 {
                kind = Kind::Closed;
                break;
            }
        }
        v.push((i, j, kind));
        i = j;
    }
    v
}
/// Tags between two offsets of a text.
fn tags(t: &str, from: usize, to: usize) -> Vec<Tag> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut i = from;
    while i < to {
        if b[i] != b'\\' {
            i += 1;
            continue;
        }
        let at = i;
        i += 1;
        let s = i;
        if i < to && b[i].is_ascii_digit() {
            i += 1;
        }
        while i < to && b[i].is_ascii_alphabetic() {
            i += 1;
            if &t[s..i] == "r" || &t[s..i] == "fn" {
                break;
            }
        }
        if i == s {
            // a backslash that starts no tag, with the character after it
            i += t[i..to].chars().next().map_or(0, char::len_utf8);
            continue;
        }
        let name = t[s..i].to_string();
        let a = i;
        if name == "t" && i < to && b[i] == b'(' {
            let mut depth = 0;
            while i < to {
                depth += i32::from(b[i] == b'(') - i32::from(b[i] == b')');
                i += 1;
                if depth == 0 {
                    break;
                }
            }
        } else {
            while i < to && b[i] != b'\\' {
                i += 1;
            }
        }
        v.push(Tag { at, name, args: t[a..i].to_string(), end: i });
    }
    v
}

fn tag_text(r: &mut Rng) -> String {
    const T: [&str; 40] = [
        "\\b1", "\\b0", "\\b", "\\bord2", "\\be1", "\\blur3", "\\i1", "\\iclip(0,0,5,5)", "\\u1", "\\s1", "\\shad0", "\\fs20", "\\fscx120", "\\fsp1", "\\fnArial", "\\fnÜber Sans", "\\r", "\\rAlt", "\\c&H00FF00&", "\\1c&HFF&",
        "\\c", "\\pos(1,2)", "\\pos( 10 , 20 )", "\\move(1,2,3,4)", "\\t(0,50,\\fs30\\b1)", "\\t(\\clip(1,2,3,4))junk", "\\t(\\b1", "\\an8", "\\alpha&H80&", "\\p1", "\\", "\\é", "\\N", "\\5", "\\b1 note ", "\\pos(", "\\org()", "\\q2", "\\k", "\\kx9",
    ];
    if r.pct(45) {
        let n = *r.pick(&["k", "kf", "ko", "kt", "K"]);
        let d = match r.below(8) {
            0 => "0".into(),
            1 => "5".into(),
            2 => "50".into(),
            3 => "4294967295".into(),
            4 => "99999999999".into(),
            5 => format!(" {} ", r.below(100)),
            6 => "12x".into(),
            _ => r.below(300).to_string(),
        };
        format!("\\{n}{d}")
    } else {
        r.pick(&T).to_string()
    }
}
fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(9) {
        match r.below(12) {
            0..=3 => {
                s.push('{');
                for _ in 0..r.below(5) {
                    match r.below(12) {
                        0 => s.push_str(&gen::word(r)),
                        1 => s.push_str("{\\i1}"),
                        2 => s.push_str("*note*"),
                        3 => s.push(' '),
                        _ => s.push_str(&tag_text(r)),
                    }
                }
                if !r.pct(4) {
                    s.push('}');
                }
            }
            4 => s.push_str(*r.pick(&[" ", "  ", "   ", "\t", "\u{a0}", "\u{3000}"])),
            5 => s.push_str(*r.pick(&["\\N", "\\h", "\\n", "\\\\", "}", "\\b1"])),
            6 if r.pct(30) => s.push_str(*r.pick(&["\n", "\r\n", "{", "\r"])),
            7 => s.push_str(*r.pick(&["banana", "eieio", "Über", "日本語", "é", "🎵la"])),
            _ => {
                s.push_str(&gen::word(r));
                if r.pct(60) {
                    s.push(' ');
                }
            }
        }
    }
    s
}
fn pattern(r: &mut Rng, t: &str) -> String {
    let v: Vec<Tag> = blocks(t).iter().flat_map(|b| tags(t, b.0 + 1, b.1)).collect();
    let mut p = if v.is_empty() || r.pct(25) { tag_text(r) } else { let t = r.pick(&v); format!("\\{}{}", t.name, t.args) };
    match r.below(10) {
        0 => p = p.trim_start_matches('\\').to_string(),
        1..=4 => {
            let k = gen::boundary(r, &p);
            p.truncate(k);
        }
        5 if r.pct(20) => p = gen::soup(r, 6),
        _ => {}
    }
    p
}
/// Name and start of the arguments a pattern asks for.
fn read_pattern(p: &str) -> Option<(String, String)> {
    let v = tags(p, 0, p.len());
    match &v[..] {
        [t] if t.at == 0 && t.end == p.len() => Some((t.name.clone(), t.args.clone())),
        _ => None,
    }
}
fn matches(p: &Option<(String, String)>, t: &Tag) -> bool {
    p.as_ref().is_some_and(|(n, a)| t.name == *n && t.args.starts_with(a.as_str()))
}
fn kind(r: &mut Rng) -> (KaraokeType, &'static str) {
    *r.pick(&[(KaraokeType::Standard, "k"), (KaraokeType::Fill, "kf"), (KaraokeType::Outline, "ko"), (KaraokeType::Transition, "kt")])
}
fn visible(t: &str) -> String {
    let mut s = String::new();
    let mut i = 0;
    for (a, b, k) in blocks(t) {
        if k == Kind::Closed {
            s += &t[i..a];
            i = b;
        }
    }
    s + &t[i..]
}

fn commands(cx: &mut Cx) -> R {
    let mut doc_text = match cx.rng.below(3) {
        0 => text(&mut cx.rng),
        1 => format!("[Script Info]\nTitle: x\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,0:00:00.00,0:00:05.00,Default,,0,0,0,,{}\n", text(&mut cx.rng)),
        _ => (0..3).map(|_| text(&mut cx.rng)).collect::<Vec<_>>().join("\n"),
    };
    if cx.rng.pct(5) {
        doc_text.insert(0, '\u{feff}');
    }
    cx.set_input(doc_text.clone());
    let mut d = match EditorDocument::from_content(&doc_text) {
        Ok(d) => d,
        Err(_) => return Ok(()),
    };
    for _ in 0..cx.rng.range(1, 5) {
        let r = &mut cx.rng;
        let before = d.text();
        let (mut a, mut b) = (gen::boundary(r, &before), gen::boundary(r, &before));
        if r.pct(50) {
            (a, b) = (0, before.len());
        }
        if a > b {
            (a, b) = (b, a);
        }
        let (mut ra, mut rb) = (a, b);
        let mut bad = false;
        if r.pct(6) {
            match r.below(3) {
                0 => rb = before.len() + r.range(1, 5) as usize,
                1 => {
                    if let Some(k) = (0..before.len()).find(|&k| !before.is_char_boundary(k)) {
                        if r.bool() {
                            ra = k;
                            rb = rb.max(k + 1);
                            while !before.is_char_boundary(rb) {
                                rb += 1;
                            }
                        } else {
                            rb = k;
                            ra = 0;
                        }
                    }
                }
                _ => {
                    if a < b {
                        ra = b;
                        rb = a;
                    }
                }
            }
            bad = (ra, rb) != (a, b);
        }
        // constructing a reversed range may put its ends in order
        let range = Range::new(Position::new(ra), Position::new(rb));
        if bad && range.start.offset <= range.end.offset && before.get(range.start.offset..range.end.offset).is_some() {
            bad = false;
            (a, b) = (range.start.offset, range.end.offset);
        }
        let t = before[a..b].to_string();
        let bl = blocks(&t);
        let open = bl.iter().any(|b| b.2 == Kind::Open);
        let closed = || bl.iter().filter(|b| b.2 == Kind::Closed);
        let op = r.below(10);
        let direct = r.pct(30);
        let log;
        let mut want: Option<String> = Some(t.clone());
        let mut events = 0u64;
        macro_rules! run {
            ($cmd:expr, $fluent:expr) => {{
                let c = $cmd;
                if direct {
                    c.execute(&mut d).map(|x| x.modified_range).map_err(|e| e.to_string())
                } else if cx.rng.bool() {
                    d.execute_command(&c).map(|x| x.modified_range).map_err(|e| e.to_string())
                } else {
                    let f: Result<(), ass_editor::EditorError> = $fluent;
                    f.map(|_| None).map_err(|e| e.to_string())
                }
            }};
        }
        let res: Result<Option<Range>, String> = match op {
            0 => {
                let mut tag = if r.pct(10) { gen::word(r) } else { tag_text(r) };
                if r.pct(20) {
                    tag = format!(" {tag} ");
                }
                let raw = r.pct(30);
                log = format!("insert {tag:?} raw {raw} at {ra}");
                let trimmed = tag.trim().to_string();
                let ok = trimmed.starts_with('\\');
                bad = before.get(..ra).is_none();
                let new = if raw { trimmed } else { format!("{{{trimmed}}}") };
                want = ok.then_some(new);
                (a, b) = if bad { (a, b) } else { (ra, ra) };
                let p = Position::new(ra);
                run!(
                    if raw { InsertTagCommand::new(p, tag.clone()).no_auto_wrap() } else { InsertTagCommand::new(p, tag.clone()) },
                    if raw { d.tags().at(p).insert_raw(&tag).map(|_| ()) } else { d.tags().at(p).insert(&tag).map(|_| ()) }
                )
            }
            1 => {
                let keep = r.pct(30);
                let pat = r.pct(80).then(|| pattern(r, &t));
                log = format!("remove {pat:?} keep {keep}");
                let rp = pat.as_deref().map(read_pattern);
                let mut w = String::new();
                let mut i = 0;
                for &(x, y, _) in closed() {
                    w += &t[i..x];
                    i = y;
                    let mut c = String::new();
                    if let Some(rp) = &rp {
                        let mut j = x + 1;
                        for g in tags(&t, x + 1, y - 1) {
                            if matches(rp, &g) {
                                c += &t[j..g.at];
                                j = g.end;
                                events += 1;
                            }
                        }
                        c += &t[j..y - 1];
                    }
                    if keep || !c.trim().is_empty() {
                        w += &format!("{{{c}}}");
                    }
                }
                w += &t[i..];
                want = Some(w);
                let mut c = RemoveTagCommand::new(range);
                if keep {
                    c = c.keep_empty_overrides();
                }
                if let Some(p) = &pat {
                    c = c.pattern(p.clone());
                }
                if keep {
                    if direct { c.execute(&mut d).map(|x| x.modified_range).map_err(|e| e.to_string()) } else { d.execute_command(&c).map(|x| x.modified_range).map_err(|e| e.to_string()) }
                } else {
                    run!(c, match &pat {
                        Some(p) => d.tags().in_range(range).remove_pattern(p).map(|_| ()),
                        None => d.tags().in_range(range).remove_all().map(|_| ()),
                    })
                }
            }
            2 => {
                let all = r.bool();
                let pat = pattern(r, &t);
                let with = if r.pct(20) { String::new() } else { tag_text(r) };
                log = format!("replace {pat:?} with {with:?} all {all}");
                let rp = read_pattern(&pat);
                let mut w = String::new();
                let mut i = 0;
                for &(x, y, _) in closed() {
                    for g in tags(&t, x + 1, y - 1) {
                        if matches(&rp, &g) && (all || events == 0) {
                            w += &t[i..g.at];
                            w += &with;
                            i = g.at + 1 + g.name.len() + rp.as_ref().map_or(0, |p| p.1.len());
                            events += 1;
                        }
                    }
                }
                w += &t[i..];
                want = Some(w);
                let c = ReplaceTagCommand::new(range, pat.clone(), with.clone());
                run!(
                    if all { c.all() } else { c },
                    if all { d.tags().in_range(range).replace_all(&pat, &with).map(|_| ()) } else { d.tags().in_range(range).replace(&pat, &with).map(|_| ()) }
                )
            }
            3 => {
                let o = tag_text(r);
                let close = r.pct(30).then(|| tag_text(r));
                log = format!("wrap {o:?} {close:?}");
                let g = tags(&o, 0, o.len());
                let c = close.clone().or_else(|| match &g[..] {
                    [g] => Some(match g.name.as_str() {
                        "b" | "i" | "u" | "s" => format!("\\{}0", g.name),
                        "c" | "1c" => "\\c".into(),
                        _ => "\\r".into(),
                    }),
                    _ => Some("\\r".into()),
                });
                want = c.map(|c| format!("{{{o}}}{t}{{{c}}}"));
                let c = WrapTagCommand::new(range, o.clone());
                run!(
                    match &close {
                        Some(x) => c.closing_tag(x.clone()),
                        None => c,
                    },
                    match &close {
                        Some(x) => d.tags().in_range(range).wrap_with(&o, x).map(|_| ()),
                        None => d.tags().in_range(range).wrap(&o).map(|_| ()),
                    }
                )
            }
            4 => {
                log = format!("parse {a}..{b}");
                let got = if r.bool() { d.tags().in_range(range).parse().map_err(|e| e.to_string()) } else if bad { ParseTagCommand::new(range).execute(&mut d).map(|_| vec![]).map_err(|e| e.to_string()) } else { ParseTagCommand::new(range).with_positions().parse_tags_from_text(&t).map_err(|e| e.to_string()) };
                if let (Ok(v), false) = (&got, bad) {
                    let w: Vec<Tag> = bl.iter().flat_map(|b| tags(&t, b.0 + 1, if b.2 == Kind::Closed { b.1 - 1 } else { b.1 })).collect();
                    let shape = |g: &Tag| {
                        let p = g.args.starts_with('(') && g.args.ends_with(')');
                        let params: Vec<String> = if p && g.args.len() > 2 { g.args[1..g.args.len() - 1].split(',').map(|x| x.trim().to_string()).collect() } else { vec![] };
                        (if p { format!("\\{}", g.name) } else { format!("\\{}{}", g.name, g.args) }, Some(a + g.at), params)
                    };
                    let got: Vec<_> = v.iter().map(|p| (p.tag.clone(), p.position.map(|p| p.offset), p.parameters.clone())).collect();
                    let want: Vec<_> = w.iter().map(shape).collect();
                    ensure!(got == want, "tags-parsed", "{got:?}, expected {want:?}\n{t:?}");
                    events += w.len() as u64;
                }
                got.map(|_| None)
            }
            5 => {
                let (k, name) = kind(r);
                let n = r.below(200) as u32;
                let auto = r.pct(70);
                log = format!("generate {name} {n} auto {auto}");
                let bracket = t.contains(['{', '}']);
                let c = GenerateKaraokeCommand::new(range, n).karaoke_type(k);
                let res = run!(
                    if auto { c } else { c.manual_syllables() },
                    {
                        let g = d.karaoke().in_range(range).generate(n).karaoke_type(k);
                        if auto { g.execute().map(|_| ()) } else { g.manual_syllables().execute().map(|_| ()) }
                    }
                );
                if bracket || bad {
                    want = None;
                } else if res.is_ok() {
                    let now = d.text();
                    let new = match now.strip_prefix(&before[..a]).and_then(|x| x.strip_suffix(&before[b..])) {
                        Some(x) => x.to_string(),
                        None => return fail("generate-outside", format!("{log} {a}..{b}\n{before:?}\n{now:?}")),
                    };
                    let tag = format!("{{\\{name}{n}}}");
                    ensure!(new.starts_with(&tag), "generate-tag", "{log}\n{t:?}\n{new:?}");
                    ensure!(new.replace(&tag, "") == t, "generate-text", "{log}\n{t:?}\n{new:?}");
                    let mut seg = new.split(tag.as_str());
                    seg.next();
                    for s in seg {
                        ensure!(!s.is_empty() || t.is_empty(), "generate-empty", "{log}\n{new:?}");
                        ensure!(!auto || s.split_whitespace().count() <= 1, "generate-words", "{log}\n{new:?}");
                        events += 1;
                    }
                    want = Some(new);
                }
                res
            }
            6 => {
                let n = r.pct(70).then(|| r.below(200) as u32);
                let mut pos: Vec<usize> = (0..r.below(5)).map(|_| r.below(t.len() + 3)).collect();
                if r.pct(80) {
                    pos.sort_unstable();
                }
                log = format!("split {pos:?} {n:?}");
                let tag = format!("{{\\k{}}}", n.unwrap_or(50));
                let (mut w, mut last) = (String::new(), 0);
                for &p in &pos {
                    let cut_escape = p > 0 && p < t.len() && t.as_bytes()[p - 1] == b'\\' && b"Nnh".contains(&t.as_bytes()[p]);
                    if p <= last || p >= t.len() || !t.is_char_boundary(p) || cut_escape || bl.iter().any(|b| b.0 < p && p < b.1) {
                        continue;
                    }
                    w += &format!("{tag}{}", &t[last..p]);
                    last = p;
                    events += 1;
                }
                if last < t.len() {
                    w += &format!("{tag}{}", &t[last..]);
                }
                want = Some(w);
                let c = SplitKaraokeCommand::new(range, pos.clone());
                run!(
                    match n {
                        Some(n) => c.duration(n),
                        None => c,
                    },
                    {
                        let s = d.karaoke().in_range(range).split(pos);
                        match n {
                            Some(n) => s.duration(n).execute().map(|_| ()),
                            None => s.execute().map(|_| ()),
                        }
                    }
                )
            }
            7 | 8 => {
                let how = r.below(4);
                let f = *r.pick(&[0.0f32, 0.5, 1.0, 1.5, 2.0, 10.0, -1.0, 1e9, f32::NAN, f32::INFINITY]);
                let o = *r.pick(&[0i32, 1, -1, 20, -100, i32::MAX, i32::MIN]);
                let n = r.below(500) as u32;
                let list: Vec<u32> = (0..r.below(6)).map(|_| r.below(999) as u32).collect();
                log = format!("adjust {how} {f} {o} {n} {list:?}");
                let (mut w, mut i, mut k) = (String::new(), 0, 0);
                for &(x, y, _) in closed() {
                    for g in tags(&t, x + 1, y - 1) {
                        if !["k", "K", "kf", "ko", "kt"].contains(&g.name.as_str()) {
                            continue;
                        }
                        let Ok(old) = g.args.trim().parse::<u32>() else { continue };
                        let new = match how {
                            0 => ((old as f32 * f) as u32).max(1),
                            1 => (i64::from(old) + i64::from(o)).clamp(1, i64::from(u32::MAX)) as u32,
                            2 => n,
                            _ => list.get(k).copied().unwrap_or(old),
                        };
                        k += 1;
                        events += 1;
                        let lead = g.args.len() - g.args.trim_start().len();
                        let from = g.at + 1 + g.name.len() + lead;
                        w += &t[i..from];
                        w += &new.to_string();
                        i = from + g.args.trim().len();
                    }
                }
                w += &t[i..];
                want = Some(w);
                let c = match how {
                    0 => AdjustKaraokeCommand::scale(range, f),
                    1 => AdjustKaraokeCommand::offset(range, o),
                    2 => AdjustKaraokeCommand::set_all(range, n),
                    _ => AdjustKaraokeCommand::custom(range, list.clone()),
                };
                run!(c, {
                    let g = d.karaoke().in_range(range).adjust();
                    match how {
                        0 => g.scale(f).map(|_| ()),
                        1 => g.offset(o).map(|_| ()),
                        2 => g.set_all(n).map(|_| ()),
                        _ => g.custom(list).map(|_| ()),
                    }
                })
            }
            _ => {
                let (k, name) = kind(r);
                let how = r.below(3);
                let n = r.below(200) as u32;
                let bpm = *r.pick(&[0u32, 60, 90, 120, 240]);
                let beats = *r.pick(&[0.25f32, 0.5, 1.0, 2.0, -1.0, f32::NAN]);
                let list: Vec<u32> = (0..r.below(4)).map(|_| r.below(99) as u32).collect();
                log = format!("apply {how} {name} {n} {bpm} {beats} {list:?}");
                let beat = (60.0 / bpm as f32) * beats * 100.0;
                let valid = match how {
                    0 => true,
                    1 => beat.is_finite() && beat >= 0.0,
                    _ => !list.is_empty(),
                };
                want = (!open && valid).then(|| {
                    let mut w = String::new();
                    let mut space = true;
                    for c in visible(&t).chars() {
                        if space && !c.is_whitespace() {
                            let n = match how {
                                0 => n,
                                1 => beat as u32,
                                _ => list[events as usize % list.len()],
                            };
                            w += &format!("{{\\{name}{n}}}");
                            events += 1;
                        }
                        space = c.is_whitespace();
                        w.push(c);
                    }
                    w
                });
                let c = match how {
                    0 => ApplyKaraokeCommand::equal(range, n, k),
                    1 => ApplyKaraokeCommand::beat(range, bpm, beats, k),
                    _ => ApplyKaraokeCommand::pattern(range, list.clone(), k),
                };
                run!(c, {
                    let g = d.karaoke().in_range(range).apply();
                    match how {
                        0 => g.equal(n, k).map(|_| ()),
                        1 => g.beat(bpm, beats, k).map(|_| ()),
                        _ => g.pattern(list, k).map(|_| ()),
                    }
                })
            }
        };
        let got = d.text();
        if bad || want.is_none() {
            ensure!(res.is_err(), "bad-command-accepted", "{log} {ra}..{rb}\n{before:?}\nbecame {got:?}");
            ensure!(got == before, "refused-changed-text", "{log} {ra}..{rb}\n{before:?}\nbecame {got:?}");
            cx.obs("refused", 1);
            continue;
        }
        let new = want.unwrap_or_default();
        let want = format!("{}{new}{}", &before[..a], &before[b..]);
        ensure!(res.is_ok(), "command-refused", "{log} {a}..{b}: {res:?}\n{before:?}");
        ensure!(got == want, "command-text", "{log} {a}..{b}\nbefore {before:?}\nafter  {got:?}\nwanted {want:?}");
        if let Ok(Some(m)) = &res {
            ensure!((m.start.offset, m.end.offset) == (a, a + new.len()), "modified-range", "{log}: {m:?}, expected {a}..{}", a + new.len());
        }
        const NAMES: [&str; 10] = ["inserted", "tags_removed", "tags_replaced", "wrapped", "tags_parsed", "syllables", "splits", "timings", "timings", "words_timed"];
        cx.obs(NAMES[op], if op == 0 || op == 3 { 1 } else { events });
        cx.state(&(op, got.len(), bl.len(), events));
        if !direct && op != 4 && d.can_undo() && got != before {
            ensure!(d.undo().is_ok() && d.text() == before, "undo-command", "{log}\n{before:?}\n{:?}", d.text());
            ensure!(d.redo().is_ok() && d.text() == got, "redo-command", "{log}");
        }
        if got.len() > 4000 {
            break;
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E05",
        rule: "a distinct case is a distinct (command, resulting length, number of blocks, number of tags or syllables concerned)",
        assumptions: &["Braces nest and a block ends on its line; what follows a brace that is not closed is text.", "A pattern names one tag and the start of its arguments."],
        monitors: vec![mon("tag-commands", 1_500_000, 20_000_000, commands)],
        must_observe: &["inserted", "tags_removed", "tags_replaced", "wrapped", "tags_parsed", "syllables", "splits", "timings", "words_timed", "refused"],
    }]
}
