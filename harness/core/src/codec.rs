//! C05 time / colour / number / name codecs, C06 embedded data, C07 encoding helpers and source positions.
use ass_core::parser::ast::Section;
use ass_core::parser::Script;
use ass_core::utils::utf8 as u8h;
use ass_core::utils::{
    decode_uu_data, eval_cubic_bezier, format_ass_time, normalize_field_value, parse_ass_time, parse_bgr_color, parse_numeric,
    validate_ass_name, CoreError,
};
use ass_core::Spans;
use hcommon::{ensure, gen, mon, Cx, Property, Rng, R};

/// Written from the format documentation: H:MM:SS[.F], minutes and seconds below 60.
fn model_time(s: &str) -> Option<u32> {
    fn num(s: &str) -> Option<u128> {
        // std accepts one leading '+'; digits otherwise
        let t = s.strip_prefix('+').unwrap_or(s);
        if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let mut v: u128 = 0;
        for b in t.bytes() {
            v = (v * 10 + u128::from(b - b'0')).min(u128::from(u64::MAX));
        }
        (v <= u128::from(u32::MAX)).then_some(v)
    }
    let mut it = s.split(':');
    let (h, m, r) = (it.next()?, it.next()?, it.next()?);
    if it.next().is_some() {
        return None;
    }
    let mut f = r.split('.');
    let sec = num(f.next()?)?;
    let cs = match f.next() {
        None => 0,
        Some(x) if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) => return None,
        Some(x) => num(x)?,
    };
    let (h, m) = (num(h)?, num(m)?);
    if m >= 60 || sec >= 60 {
        return None;
    }
    let t = h * 360_000 + m * 6000 + sec * 100 + cs;
    (t <= u128::from(u32::MAX)).then_some(t as u32)
}

pub fn time_text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => gen::time_str(r.below(40_000_000) as u32),
        1 => gen::time_str(u32::MAX - r.below(1000) as u32),
        2 => {
            let h = *r.pick(&["0", "1", "00", "+1", "-1", "99", "11930", "11931", "4294967295", "4294967296", "", " 1", "٣", "1e3"]);
            let m = *r.pick(&["0", "00", "59", "60", "61", "99", "-1", "", "7", "007", "27", "28"]);
            let s = *r.pick(&["0", "00", "59", "60", "5", "", "x", "52", "53"]);
            let f = *r.pick(&["", ".", ".0", ".5", ".50", ".99", ".100", ".955", ".4294967295", ".4294967296", ".9.9", ".+5", ". 5", ",50"]);
            let sep = if r.pct(90) { ":" } else { *r.pick(&["", ".", ";", "::"]) };
            format!("{h}:{m}{sep}{s}{f}")
        }
        3 => {
            let mut t: Vec<char> = gen::time_str(r.below(4_000_000) as u32).chars().collect();
            let i = r.below(t.len());
            t[i] = *r.pick(&[':', '.', '9', '6', 'é', ' ', '-', '+', '0']);
            t.into_iter().collect()
        }
        4 => gen::soup(r, 3),
        _ => format!("{}:{}:{}.{}", r.below(13000), r.below(62), r.below(62), r.below(120)),
    }
}

fn times(cx: &mut Cx) -> R {
    for _ in 0..40 {
        let s = time_text(&mut cx.rng);
        cx.set_input(format!("time {s:?}"));
        let want = model_time(&s);
        let got = parse_ass_time(&s);
        match (&got, want) {
            (Ok(g), Some(w)) => {
                ensure!(*g == w, "time-value", "parse_ass_time({s:?})={g} want {w}");
                cx.obs("times_accepted", 1);
            }
            (Err(e), None) => {
                ensure!(matches!(e, CoreError::InvalidTime(_)), "time-error", "{e:?}");
                cx.obs("times_rejected", 1);
            }
            _ => return hcommon::fail("time-accept", format!("parse_ass_time({s:?})={got:?} want {want:?}")),
        }
        let v = match cx.rng.below(4) {
            0 => cx.rng.u64() as u32,
            1 => u32::MAX - cx.rng.below(200_000) as u32,
            2 => (cx.rng.below(11930) as u32 * 360_000).wrapping_add(cx.rng.below(7) as u32).wrapping_sub(3),
            _ => cx.rng.below(400_000) as u32,
        };
        let f = format_ass_time(v);
        let w = format!("{}:{:02}:{:02}.{:02}", v / 360_000, v / 6_000 % 60, v / 100 % 60, v % 100);
        ensure!(f == w, "time-format", "format_ass_time({v})={f} want {w}");
        ensure!(parse_ass_time(&f).ok() == Some(v), "time-roundtrip", "{v} -> {f} -> {:?}", parse_ass_time(&f));
        cx.obs("times_formatted", 1);
        cx.state(&(s, v));
    }
    Ok(())
}

/// Every centisecond of a contiguous block once: the blocks of one run cover the range 0..100 h and the top of u32.
fn times_sweep(cx: &mut Cx) -> R {
    let base = if cx.rng.bool() { cx.rng.below(36_000_000) as u32 } else { u32::MAX - 10_000 - cx.rng.below(36_000_000) as u32 };
    cx.set_input(format!("block {base}"));
    let mut prev: Option<(u32, String)> = None;
    for v in base..base + 2000 {
        let f = format_ass_time(v);
        ensure!(parse_ass_time(&f).ok() == Some(v), "time-roundtrip", "{v} -> {f}");
        if let Some((_, p)) = &prev {
            ensure!(*p != f, "time-injective", "{v} and {} both format as {f}", v - 1);
        }
        prev = Some((v, f));
    }
    cx.obs("times_swept", 2000);
    cx.state(&base);
    Ok(())
}

fn model_color(s: &str) -> Option<[u8; 4]> {
    let t = s.trim();
    let h = match t.get(..2) {
        Some("&H" | "&h") => {
            let h = &t[2..];
            h.strip_suffix('&').unwrap_or(h)
        }
        Some("0x") => &t[2..],
        _ => t,
    };
    let d: Option<Vec<u8>> = h.chars().map(|c| if c.is_ascii() { c.to_digit(16).map(|d| d as u8) } else { None }).collect();
    let d = d?;
    let byte = |i: usize| d[i] * 16 + d[i + 1];
    match d.len() {
        6 => Some([byte(4), byte(2), byte(0), 0]),
        8 => Some([byte(6), byte(4), byte(2), byte(0)]),
        _ => None,
    }
}

fn colors(cx: &mut Cx) -> R {
    for _ in 0..40 {
        let r = &mut cx.rng;
        let digits: String = if r.pct(50) {
            let n = *r.pick(&[6usize, 8, 6, 8, 2, 4, 5, 7, 9, 0]);
            (0..n).map(|_| *r.pick(&['0', '1', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'A', 'C', 'F', '7'])).collect()
        } else if r.pct(50) {
            format!("{:08X}", r.u64() as u32)
        } else if r.pct(60) {
            format!("{:06x}", r.below(1 << 24))
        } else {
            (*r.pick(&["+12345", "-12345", "+1234567", "GGGGGG", "é23456", "12 456", "１２３４５６", "", "&", "H", "0x", "0X123456", "#123456"])).to_string()
        };
        let pre = *r.pick(&["&H", "&h", "", "0x", "&H", "&", "H", " &H", "\t&H", "#", "&H&H", "0X"]);
        let post = *r.pick(&["", "&", "", "&", " ", "&&", "& ", "H", "\u{a0}"]);
        let s = if r.pct(95) { format!("{pre}{digits}{post}") } else { gen::soup(r, 3) };
        cx.set_input(format!("colour {s:?}"));
        let want = model_color(&s);
        let got = parse_bgr_color(&s);
        match (&got, want) {
            (Ok(g), Some(w)) => {
                ensure!(*g == w, "color-value", "parse_bgr_color({s:?})={g:?} want {w:?}");
                cx.obs("colors_accepted", 1);
            }
            (Err(e), None) => {
                ensure!(matches!(e, CoreError::InvalidColor(_)), "color-error", "{e:?}");
                cx.obs("colors_rejected", 1);
            }
            // forms whose acceptance the format leaves open: "0x..&" and bare hex with a trailing '&'
            _ => return hcommon::fail("color-accept", format!("parse_bgr_color({s:?})={got:?} want {want:?}")),
        }
        cx.state(&s);
    }
    Ok(())
}

fn numbers(cx: &mut Cx) -> R {
    for _ in 0..20 {
        let r = &mut cx.rng;
        let s = match r.below(4) {
            0 => format!("{}{}{}", r.pick(&["", " ", "\t"]), r.range(-400, 400), r.pick(&["", " ", "\n"])),
            1 => format!("{}", r.u64() as i64 >> r.below(64)),
            2 => format!("{}.{}", r.range(-10, 10), r.below(1000)),
            _ => gen::soup(r, 2),
        };
        cx.set_input(format!("number {s:?}"));
        let t = s.trim();
        macro_rules! chk {
            ($t:ty) => {
                ensure!(parse_numeric::<$t>(&s).ok() == t.parse::<$t>().ok(), "numeric", "parse_numeric::<{}>({s:?})={:?}", stringify!($t), parse_numeric::<$t>(&s))
            };
        }
        chk!(u8);
        chk!(i32);
        chk!(u32);
        chk!(u64);
        let f = parse_numeric::<f32>(&s).ok();
        let w = t.parse::<f32>().ok();
        ensure!(f.map(f32::to_bits) == w.map(f32::to_bits), "numeric", "parse_numeric::<f32>({s:?})={f:?}");
        ensure!(normalize_field_value(&s) == t, "normalize-field", "{s:?}");
        let n = if cx.rng.bool() { gen::word(&mut cx.rng) } else { gen::soup(&mut cx.rng, 3) };
        let ok = !n.is_empty() && !n.chars().any(|c| matches!(c, ',' | ':' | '{' | '}') || (c.is_control() && c != '\t'));
        ensure!(validate_ass_name(&n) == ok, "ass-name", "validate_ass_name({n:?})={}", !ok);
        cx.obs("numbers", 1);
        // cubic Bezier: end points, and agreement with the de Casteljau construction
        let p: Vec<(f32, f32)> = (0..4).map(|_| (cx.rng.range(-500, 500) as f32, cx.rng.range(-500, 500) as f32)).collect();
        let t = cx.rng.f64() as f32;
        let l = |a: (f64, f64), b: (f64, f64)| (a.0 + (b.0 - a.0) * f64::from(t), a.1 + (b.1 - a.1) * f64::from(t));
        let d: Vec<(f64, f64)> = p.iter().map(|q| (f64::from(q.0), f64::from(q.1))).collect();
        let (a, b, c) = (l(d[0], d[1]), l(d[1], d[2]), l(d[2], d[3]));
        let w = l(l(a, b), l(b, c));
        let g = eval_cubic_bezier(p[0], p[1], p[2], p[3], t);
        ensure!((f64::from(g.0) - w.0).abs() < 0.05 && (f64::from(g.1) - w.1).abs() < 0.05, "bezier", "{p:?} t={t}: {g:?} want {w:?}");
        cx.obs("curve_points", 1);
        cx.state(&s);
    }
    Ok(())
}

/// Independent UU encoder: 45 bytes a line.
pub fn uu_encode(r: &mut Rng, data: &[u8], zero: char, full_pad: bool) -> Vec<String> {
    let mut v = vec![];
    let enc = |x: u8| if x == 0 { zero } else { (x + 32) as char };
    let line_len = *r.pick(&[45usize, 45, 45, 30, 3, 1, 44]);
    for c in data.chunks(line_len) {
        let mut l = String::new();
        l.push((c.len() as u8 + 32) as char);
        for g in c.chunks(3) {
            let a = g[0];
            let b = g.get(1).copied().unwrap_or(0);
            let d = g.get(2).copied().unwrap_or(0);
            let q = [enc(a >> 2), enc(((a & 3) << 4) | (b >> 4)), enc(((b & 15) << 2) | (d >> 6)), enc(d & 63)];
            let n = if full_pad { 4 } else { g.len() + 1 };
            l.extend(&q[..n]);
        }
        v.push(l);
    }
    v
}

fn embedded(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let len = match r.below(6) {
        0 => r.below(4),
        1 => 45 * r.below(5),
        2 => 45 * r.below(5) + 1,
        3 => r.below(1500),
        _ => r.below(200),
    };
    let data: Vec<u8> = match r.below(4) {
        0 => vec![0; len],
        1 => vec![255; len],
        2 => (0..len).map(|i| i as u8).collect(),
        _ => (0..len).map(|_| r.u64() as u8).collect(),
    };
    let zero = if r.bool() { '`' } else { ' ' };
    let pad = r.bool();
    let mut lines = uu_encode(r, &data, zero, pad);
    // a line beginning with a space is not decodable after the indentation is trimmed: length 0 never occurs in data lines
    let body = lines.len();
    match r.below(5) {
        0 => lines.push("end".into()),
        1 => lines.extend(["`".to_string(), "end".into(), "M0000000000".into()]),
        2 => lines.push("end of file".into()),
        3 => {
            for l in &mut lines {
                l.push_str(*r.pick(&["", "\r", "\n", "\r\n"]));
                if r.pct(20) {
                    *l = format!("{}{l}", r.pick(&[" ", "\t", "  "]));
                }
            }
        }
        _ => {}
    }
    if r.pct(30) {
        let i = r.below(lines.len() + 1);
        if i <= body {
            // an unusable line (declared length above 45) or an empty one is skipped
            lines.insert(i, (*r.pick(&["", "   ", "~~~~", "zzz"])).to_string());
        }
    }
    cx.set_input(format!("{} bytes, lines {lines:?}", data.len()));
    let got = decode_uu_data(lines.iter().map(String::as_str));
    ensure!(got.as_deref().ok() == Some(&data[..]), "uu-decode", "{} bytes encoded, decoded {:?}\nwant {data:?}", data.len(), got);
    cx.obs("uu_blobs", 1);
    cx.obs("uu_bytes", data.len() as u64);
    cx.max("uu_largest", data.len() as u64);
    cx.state(&data);

    // through a script: font and graphic sections
    let mut text = String::from("[Script Info]\nTitle: x\n\n");
    let n = cx.rng.u(1, 3);
    let mut blobs = vec![];
    let graphics = cx.rng.bool();
    text.push_str(if graphics { "[Graphics]\n" } else { "[Fonts]\n" });
    let crlf = if cx.rng.pct(30) { "\r\n" } else { "\n" };
    for i in 0..n {
        let len = cx.rng.below(400);
        let d: Vec<u8> = (0..len).map(|_| cx.rng.u64() as u8).collect();
        // inside a script, data lines are trimmed: a space at the end of a line is the same as none
        let pad = cx.rng.bool();
        let l = uu_encode(&mut cx.rng, &d, '`', pad);
        text.push_str(&format!("{}: file{i}.bin{crlf}", if graphics { "filename" } else { "fontname" }));
        for x in &l {
            if x.starts_with('[') || x.contains(':') {
                // such a line cannot be told from a header or key by a line-oriented reader
                cx.obs("ambiguous_lines", 1);
            }
            text.push_str(x);
            text.push_str(crlf);
        }
        let ambiguous = l.iter().any(|x| x.starts_with('[') || x.contains(':'));
        blobs.push((d, ambiguous));
    }
    cx.note(&text);
    let s = match Script::parse(&text) {
        Ok(s) => s,
        Err(e) => return hcommon::fail("parse-error", format!("{e}")),
    };
    if blobs.iter().any(|b| b.1) {
        return Ok(());
    }
    let got: Vec<(String, Option<Vec<u8>>)> = s
        .sections()
        .iter()
        .flat_map(|x| match x {
            Section::Fonts(f) => f.iter().map(|f| (f.filename.to_string(), f.decode_data().ok())).collect::<Vec<_>>(),
            Section::Graphics(f) => f.iter().map(|f| (f.filename.to_string(), f.decode_data().ok())).collect(),
            _ => vec![],
        })
        .collect();
    ensure!(got.len() == n, "media-count", "{} embedded files found, {} written", got.len(), n);
    for (i, (name, d)) in got.iter().enumerate() {
        ensure!(*name == format!("file{i}.bin"), "media-name", "{name:?}");
        ensure!(d.as_deref() == Some(&blobs[i].0[..]), "media-data", "file {i}: decoded {d:?} want {:?}", blobs[i].0);
        cx.obs("files_in_scripts", 1);
    }
    Ok(())
}

/// The fixed input behind the listed finding: a file embedded the way ASS
/// editors do it, without length characters, 80 characters a line.
fn ass_encoding(cx: &mut Cx) -> R {
    let data: Vec<u8> = (0..150u32).map(|i| (i * 7 + 3) as u8).collect();
    let mut chars = String::new();
    for c in data.chunks(3) {
        let v = (u32::from(c[0]) << 16) | (u32::from(c[1]) << 8) | u32::from(c[2]);
        for k in 0..4 {
            chars.push((33 + (v >> (18 - 6 * k) & 63) as u8) as char);
        }
    }
    let lines: Vec<&str> = [&chars[..80], &chars[80..160], &chars[160..]].to_vec();
    cx.set_input(format!("{lines:?}"));
    cx.obs("ass_encoding_probes", 1);
    let got = decode_uu_data(lines.iter().copied());
    ensure!(
        got.as_deref().ok() == Some(&data[..]),
        "a file embedded in ASS' own encoding, without length characters, is not decoded (probe ass_encoding)",
        "decoded {got:?}"
    );
    Ok(())
}

fn uu_noise(cx: &mut Cx) -> R {
    let n = cx.rng.below(8);
    let lines: Vec<String> = (0..n).map(|_| gen::soup(&mut cx.rng, 6).replace('\n', "")).collect();
    cx.set_input(format!("{lines:?}"));
    // declared lengths bound what a decoder may produce
    let mut bound = 0usize;
    for l in &lines {
        let t = l.trim_start().trim_end_matches(['\n', '\r']);
        if t.is_empty() {
            continue;
        }
        if t == "end" || t.starts_with("end ") {
            break;
        }
        let b = t.as_bytes()[0];
        let k = if b == b'`' { 0 } else { b.wrapping_sub(32) as usize };
        if k > 45 {
            continue;
        }
        if k == 0 {
            break;
        }
        bound += k;
    }
    let got = decode_uu_data(lines.iter().map(String::as_str));
    if let Ok(g) = &got {
        ensure!(g.len() <= bound, "uu-bound", "{} bytes decoded, lines declare {bound}", g.len());
        cx.obs("noise_bytes", g.len() as u64);
    }
    cx.obs("uu_noise", 1);
    cx.state(&lines);
    Ok(())
}

// ---- C07 ----
fn bytes_case(r: &mut Rng) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    if r.pct(30) {
        v.extend_from_slice(*r.pick::<&[u8]>(&[&[0xEF, 0xBB, 0xBF], &[0xFF, 0xFE], &[0xFE, 0xFF], &[0xFF, 0xFE, 0, 0], &[0, 0, 0xFE, 0xFF], &[0xEF, 0xBB], &[0xFF]]));
    }
    v.extend_from_slice(match r.below(3) {
        0 => gen::soup(r, 20),
        1 => gen::any_script(r),
        _ => "a".repeat(r.below(70)),
    }.as_bytes());
    match r.below(4) {
        0 => {
            for _ in 0..r.u(1, 4) {
                if v.is_empty() {
                    break;
                }
                let i = r.below(v.len());
                v[i] = *r.pick(&[0x80u8, 0xC3, 0xE2, 0xF0, 0xFF, 0xC0, 0xED, 0xA0, 0xF4, 0x90]);
            }
        }
        1 => {
            let n = v.len();
            if n > 0 {
                v.truncate(r.below(n));
            }
        }
        _ => {}
    }
    v
}

/// UTF-8 decoder written from the Unicode tables; positions where decoding stops.
fn first_bad(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xE1..=0xEF => (2, 0x80, 0xBF),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return Some(i),
        };
        for k in 1..=n {
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            match b.get(i + k) {
                Some(x) if (l..=h).contains(x) => {}
                _ => return Some(i),
            }
        }
        i += n + 1;
    }
    None
}

fn encodings(cx: &mut Cx) -> R {
    let b = bytes_case(&mut cx.rng);
    cx.set_input(format!("bytes {:?} lossy {:?}", &b[..b.len().min(200)], String::from_utf8_lossy(&b)));
    let bad = first_bad(&b);
    for (name, r) in [("validate_utf8", u8h::validate_utf8(&b)), ("tokenizer batch", batch(&b))] {
        match (&r, bad) {
            (Ok(()), None) => {}
            (Err(CoreError::Utf8Error { position, .. }), Some(p)) => {
                ensure!(*position == p, "utf8-position", "{name}: error position {position}, first malformed byte at {p}");
                cx.obs("malformed_inputs", 1);
            }
            _ => return hcommon::fail("utf8-validate", format!("{name}: {r:?}, first malformed byte {bad:?}")),
        }
    }
    let boms: [(&[u8], &str, usize); 5] = [
        (&[0xFF, 0xFE, 0, 0], "UTF-32LE", 4),
        (&[0, 0, 0xFE, 0xFF], "UTF-32BE", 4),
        (&[0xEF, 0xBB, 0xBF], "UTF-8", 3),
        (&[0xFF, 0xFE], "UTF-16LE", 2),
        (&[0xFE, 0xFF], "UTF-16BE", 2),
    ];
    let wb = boms.iter().find(|x| b.starts_with(x.0)).map(|x| (x.1, x.2));
    let gb = u8h::detect_bom(&b).map(|(t, n)| (t.encoding_name(), n));
    ensure!(gb == wb, "bom", "detect_bom={gb:?} want {wb:?}");
    let e = u8h::detect_encoding(&b);
    let want = match (wb, bad) {
        (Some((n, _)), _) => n,
        (None, None) => "UTF-8",
        (None, Some(_)) => "Windows-1252",
    };
    ensure!(e.encoding == want && e.has_bom == wb.is_some() && (0.0..=1.0).contains(&e.confidence), "encoding", "detect_encoding={e:?} want {want}");
    if wb.is_some() {
        cx.obs("boms", 1);
    }
    let (s, n) = u8h::recover_utf8(&b);
    ensure!(s == String::from_utf8_lossy(&b), "recover", "recovered {s:?}");
    let orig = if bad.is_none() { 0 } else { s.chars().filter(|&c| c == '\u{FFFD}').count() };
    ensure!(n == orig, "recover-count", "{n} replacements reported, {orig} replacement characters");
    ensure!(u8h::count_replacement_chars(&s) == s.chars().filter(|&c| c == '\u{FFFD}').count(), "count-replacement", "");
    // text helpers
    let (t, had) = u8h::strip_bom(&s);
    ensure!(had == s.starts_with('\u{FEFF}') && t == s.strip_prefix('\u{FEFF}').unwrap_or(&s), "strip-bom", "{had} {t:?}");
    let nl = u8h::normalize_line_endings(&s);
    let mut w = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' {
            w.push('\n');
            if it.peek() == Some(&'\n') {
                it.next();
            }
        } else {
            w.push(c);
        }
    }
    ensure!(nl == w, "line-endings", "{nl:?} want {w:?}");
    let ctl = u8h::remove_control_chars(&s);
    let w: String = s.chars().filter(|c| !c.is_control() || matches!(c, '\n' | '\t' | '\r')).collect();
    ensure!(ctl == w, "control-chars", "{ctl:?}");
    let ws = u8h::normalize_whitespace(&s, false);
    let w: String = s.chars().map(|c| if c.is_whitespace() && c != '\n' && c != '\t' { ' ' } else { c }).collect();
    ensure!(ws == w, "whitespace", "{ws:?}");
    let wc = u8h::normalize_whitespace(&s, true);
    let mut w2 = String::new();
    for c in w.chars() {
        if !(c == ' ' && w2.ends_with(' ')) {
            w2.push(c);
        }
    }
    ensure!(wc == w2, "whitespace-collapse", "{wc:?} want {w2:?}");
    let tl = u8h::trim_lines(&s);
    let w: Vec<String> = s.lines().map(|l| l.trim().to_string()).collect();
    ensure!(tl == w.join("\n"), "trim-lines", "{tl:?}");
    let ok = s.chars().all(|c| !c.is_control() || matches!(c, '\t' | '\n' | '\r'));
    ensure!(u8h::is_valid_ass_text(&s) == ok, "valid-text", "is_valid_ass_text={}", !ok);
    let max = cx.rng.below(s.len() + 3);
    let (tr, cut) = u8h::truncate_at_char_boundary(&s, max);
    ensure!(s.starts_with(tr) && tr.len() <= max && cut == (tr.len() < s.len()), "truncate", "max {max}: {} bytes, cut={cut}", tr.len());
    if cut {
        let next = s[tr.len()..].chars().next().unwrap().len_utf8();
        ensure!(tr.len() + next > max, "truncate-max", "max {max}: only {} bytes kept, next char has {next}", tr.len());
        cx.obs("truncations", 1);
    }
    cx.obs("texts", 1);
    cx.state(&b);
    Ok(())
}

#[cfg(feature = "full")]
fn batch(b: &[u8]) -> Result<(), CoreError> {
    ass_core::tokenizer::simd::validate_utf8_batch(b)
}
#[cfg(not(feature = "full"))]
fn batch(b: &[u8]) -> Result<(), CoreError> {
    u8h::validate_utf8(b)
}

/// Spans: positions of pieces of the source text.
fn spans(cx: &mut Cx) -> R {
    let s = gen::any_script(&mut cx.rng);
    cx.set_input(s.clone());
    let sp = Spans::new(&s);
    for _ in 0..10 {
        let r = gen::boundary_range(&mut cx.rng, &s, 30);
        let piece = &s[r.clone()];
        ensure!(sp.validate_span(piece), "span-valid", "{r:?}");
        ensure!(sp.span_offset(piece) == Some(r.start), "span-offset", "{r:?}: {:?}", sp.span_offset(piece));
        let before = &s[..r.start];
        let line = before.matches('\n').count() + 1;
        let col = before.rsplit('\n').next().unwrap().chars().count() + 1;
        ensure!(sp.span_line(piece) == Some(line), "span-line", "{r:?}: {:?} want {line}", sp.span_line(piece));
        ensure!(sp.span_column(piece) == Some(col), "span-column", "{r:?}: {:?} want {col}", sp.span_column(piece));
        let a = cx.rng.below(s.len() + 3);
        let b = cx.rng.below(s.len() + 3);
        ensure!(sp.substring(a..b) == s.get(a..b), "substring", "{a}..{b}");
        cx.obs("spans", 1);
    }
    let other = String::from("elsewhere");
    ensure!(!sp.validate_span(&other) && sp.span_offset(&other).is_none() && sp.span_line(&other).is_none(), "span-foreign", "");
    cx.state(&s);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            rule: "a distinct case is a distinct literal text (time, colour or number) or swept block whose value was compared with the reference",
            assumptions: &["A time is H:MM:SS[.fraction] with the digits of the fraction read as centiseconds; other texts are rejected.", "Bare hexadecimal digits are accepted as a colour."],
            monitors: vec![mon("times", 800_000, 2_000_000, times), mon("times_sweep", 8_000, 80_000, times_sweep), mon("colors", 240_000, 2_000_000, colors), mon("numbers", 160_000, 1_000_000, numbers)],
            must_observe: &["times_accepted", "times_rejected", "times_formatted", "times_swept", "colors_accepted", "colors_rejected", "numbers", "curve_points"],
        },
        Property {
            id: "C06",
            rule: "a distinct case is a distinct byte string encoded by an independent encoder and decoded by the library, directly or through a script",
            assumptions: &["UU lines carry at most 45 bytes; zero is written as a space or a backquote."],
            monitors: vec![mon("embedded", 600_000, 4_000_000, embedded), mon("uu_noise", 400_000, 2_000_000, uu_noise), mon("ass_encoding", 1, 1, ass_encoding)],
            must_observe: &["uu_blobs", "uu_bytes", "files_in_scripts", "noise_bytes", "ass_encoding_probes"],
        },
        Property {
            id: "C07",
            rule: "a distinct case is a distinct byte string or script text on which every helper was compared with its reference",
            assumptions: &[],
            monitors: vec![mon("encodings", 600_000, 4_000_000, encodings), mon("spans", 320_000, 2_000_000, spans)],
            must_observe: &["malformed_inputs", "boms", "truncations", "texts", "spans"],
        },
    ]
}
