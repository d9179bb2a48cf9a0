//! What is written is laid out in the columns of the format: an independent reader, that knows
//! nothing but the columns of the RINEX tables, finds in the text what was logged.
use super::common::*;
use super::write::*;
use super::PropDef;
use crate::ctx::{fail, Ctx, Res};
use crate::gen::{self, doris, ftext, fv, hl, met, obs, put, Civil, Doc, Dump};
use rinex::prelude::TimeScale;
use std::collections::BTreeMap;

pub static C39: PropDef = PropDef {
    id: "C39",
    run: c39,
    quick_runs: 32000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded receiver, weather station or DORIS history, with a random selection of header records, is read and saved by the library, after saves that failed and through sinks that accept the text in pieces; a reader that only knows the columns of the format interprets the text; non-trivial: at least one record in the body",
    faults: &["short_write", "write_eintr", "write_error", "write_zero", "flush_error", "records_reordered"],
    real: &["rinex: header and record parsing and formatting", "hifitime, gnss-rs", "std::io::BufReader and BufWriter"],
    stub: STUB_IO,
    assumptions: &["values fit the fields of the format", "text fields are ASCII and fit their columns", "layouts: RINEX 2.11, 3.05 and DORIS 3.0 tables"],
};

type Got<T> = Result<T, String>;

/// columns a..b, blank past the end of the line
fn cols(l: &str, a: usize, b: usize) -> &str {
    let b = b.min(l.len());
    if a >= b {
        ""
    } else {
        &l[a..b]
    }
}
fn blank(l: &str, a: usize, b: usize) -> Got<()> {
    if cols(l, a, b).trim().is_empty() {
        Ok(())
    } else {
        Err(format!("columns {} to {} should be blank: {l:?}", a + 1, b))
    }
}
fn int(l: &str, a: usize, b: usize) -> Got<i64> {
    let t = cols(l, a, b);
    t.trim().parse().map_err(|_| format!("columns {} to {} should be an integer, {t:?}: {l:?}", a + 1, b))
}
/// a real number, with its decimal point; as many decimals as given
fn real(l: &str, a: usize, b: usize, decimals: Option<usize>) -> Got<String> {
    let t = cols(l, a, b);
    let bad = || format!("columns {} to {} should be a number with decimals, {t:?}: {l:?}", a + 1, b);
    let n = t.trim();
    let dot = n.find('.').ok_or_else(bad)?;
    if decimals.map_or(false, |d| n.len() - dot - 1 != d || t.len() != b - a || t.ends_with(' ')) {
        return Err(bad());
    }
    let v: f64 = n.parse().map_err(|_| bad())?;
    if v == 0.0 {
        return Ok("0.0".into());
    }
    Ok(if decimals.is_some() { ftext(n) } else { fv(v) })
}

#[derive(Clone, Copy)]
enum F {
    A(usize, usize),
    I(usize, usize),
    R(usize, usize),
}
use F::*;
fn layout(label: &str) -> Option<&'static [F]> {
    Some(match label {
        "COMMENT" | "MARKER NAME" | "DOI" | "LICENSE OF USE" | "STATION INFORMATION" | "SATELLITE NAME" | "COSPAR NUMBER" => &[A(0, 60)],
        "MARKER NUMBER" | "MARKER TYPE" => &[A(0, 20)],
        "PGM / RUN BY / DATE" | "REC # / TYPE / VERS" => &[A(0, 20), A(20, 40), A(40, 60)],
        "OBSERVER / AGENCY" => &[A(0, 20), A(20, 60)],
        "ANT # / TYPE" => &[A(0, 20), A(20, 40)],
        "APPROX POSITION XYZ" | "ANTENNA: DELTA H/E/N" | "ANTENNA: DELTA X/Y/Z" => &[R(0, 14), R(14, 28), R(28, 42)],
        "INTERVAL" => &[R(0, 10)],
        "LEAP SECONDS" => &[I(0, 6), I(6, 12), I(12, 18), I(18, 24), A(24, 27)],
        "RCV CLOCK OFFS APPL" => &[I(0, 6)],
        "SYS / DCBS APPLIED" | "SYS / PCVS APPLIED" => &[A(0, 1), A(2, 19), A(20, 60)],
        "TIME OF FIRST OBS" | "TIME OF LAST OBS" => &[I(0, 6), I(6, 12), I(12, 18), I(18, 24), I(24, 30), R(30, 43), A(48, 51)],
        "SENSOR MOD/TYPE/ACC" => &[A(0, 20), A(20, 40), R(46, 53), A(57, 59)],
        "SENSOR POS XYZ/H" => &[R(0, 14), R(14, 28), R(28, 42), R(42, 56), A(57, 59)],
        "L2 / L1 DATE OFFSET" => &[A(0, 1), R(3, 17)],
        "# OF STATIONS" => &[I(0, 6)],
        "STATION REFERENCE" => &[A(0, 3), A(5, 9), A(10, 39), A(40, 49), I(51, 52), I(53, 56)],
        _ => return None,
    })
}
fn record(l: &str, fs: &[F]) -> Got<String> {
    let mut out = vec![];
    let mut at = 0;
    for f in fs {
        let (A(a, b) | I(a, b) | R(a, b)) = *f;
        blank(l, at, a)?;
        at = b;
        let t = cols(l, a, b);
        out.push(match f {
            _ if t.trim().is_empty() => String::new(),
            A(..) => {
                if t.starts_with(' ') {
                    return Err(format!("columns {} to {} should be left justified: {l:?}", a + 1, b));
                }
                t.trim_end().into()
            },
            I(..) => int(l, a, b)?.to_string(),
            R(..) => real(l, a, b, None)?,
        });
    }
    blank(l, at, 60)?;
    Ok(out.join("|"))
}

#[derive(Default, Debug)]
struct Head {
    major: i64,
    kind: char,
    sys: char,
    /// ' ' : all systems
    codes: Vec<(char, Vec<String>)>,
    ts: String,
    /// key of a station to its identity
    stations: BTreeMap<String, String>,
    facts: Dump,
    lines: usize,
}
impl Head {
    fn of(&self, sys: char) -> Option<&Vec<String>> {
        self.codes.iter().find(|c| c.0 == sys || c.0 == ' ').map(|c| &c.1)
    }
}

fn head(text: &str) -> Got<Head> {
    let mut h = Head::default();
    // system, factor, named observables; how many are still to come
    let mut scales: Vec<(char, i64, i64, Vec<String>)> = vec![];
    let mut slots: Option<i64> = None;
    let mut nth: BTreeMap<String, usize> = Default::default();
    for (i, l) in text.lines().enumerate() {
        if l.len() > 80 || !l.is_ascii() {
            return Err(format!("header line {}: {} columns: {l:?}", i + 1, l.len()));
        }
        if l.len() < 61 || l.as_bytes()[59..61] == *b"  " {
            return Err(format!("header line {}: no label from column 61 on: {l:?}", i + 1));
        }
        let label = l[60..].trim_end();
        if (i == 0) != (label == "RINEX VERSION / TYPE") {
            return Err(format!("header line {}: {label:?}", i + 1));
        }
        h.lines = i + 1;
        match label {
            "END OF HEADER" => {
                blank(l, 0, 60)?;
                for (sys, f, n, v) in &scales {
                    if *n != v.len() as i64 {
                        return Err(format!("scale factor: {n} observables are announced, {} named", v.len()));
                    }
                    if *n > 0 {
                        for c in v {
                            put(&mut h.facts, format!("scale {sys} {c}"), f.to_string());
                        }
                    }
                }
                for (sys, f, n, _) in &scales {
                    if *n == 0 {
                        let all = h.of(*sys).cloned().unwrap_or_default();
                        for c in all {
                            let k = format!("scale {sys} {c}");
                            if !h.facts.contains_key(&k) {
                                put(&mut h.facts, k, f.to_string());
                            }
                        }
                    }
                }
                if slots.unwrap_or(0) != 0 {
                    return Err("GLONASS slots: not as many as announced".into());
                }
                for (_, c) in &h.codes {
                    if c.iter().any(|x| x.is_empty()) {
                        return Err(format!("observables: {c:?}"));
                    }
                }
                return Ok(h);
            },
            "RINEX VERSION / TYPE" => {
                real(l, 0, 9, None)?;
                h.major = int(l, 0, 6)?;
                put(&mut h.facts, "version".into(), cols(l, 0, 9).trim().into());
                blank(l, 9, 20)?;
                h.kind = cols(l, 20, 21).chars().next().unwrap_or(' ');
                h.sys = cols(l, 40, 41).chars().next().filter(|c| *c != ' ').unwrap_or('G');
                put(&mut h.facts, "type".into(), h.kind.to_string());
                if h.kind == 'O' {
                    put(&mut h.facts, "system".into(), h.sys.to_string());
                }
            },
            "# / TYPES OF OBSERV" => {
                if h.codes.is_empty() {
                    let n = int(l, 0, 6)?;
                    h.codes.push((' ', vec![]));
                    put(&mut h.facts, "number of codes".into(), n.to_string());
                } else {
                    blank(l, 0, 6)?;
                }
                for k in 0..9 {
                    blank(l, 6 + 6 * k, 10 + 6 * k)?;
                    let c = cols(l, 10 + 6 * k, 12 + 6 * k).trim();
                    if !c.is_empty() {
                        h.codes[0].1.push(c.into());
                    }
                }
            },
            "SYS / # / OBS TYPES" => {
                if let Some(sys) = cols(l, 0, 1).chars().next().filter(|c| *c != ' ') {
                    let n = int(l, 3, 6)?;
                    h.codes.push((sys, vec![]));
                    put(&mut h.facts, format!("number of codes {sys}"), n.to_string());
                } else {
                    blank(l, 0, 6)?;
                }
                let last = h.codes.last_mut().ok_or("observables: no system")?;
                for k in 0..13 {
                    blank(l, 6 + 4 * k, 7 + 4 * k)?;
                    let c = cols(l, 7 + 4 * k, 10 + 4 * k).trim();
                    if !c.is_empty() {
                        last.1.push(c.into());
                    }
                }
                blank(l, 58, 60)?;
            },
            "SYS / SCALE FACTOR" => {
                if let Some(sys) = cols(l, 0, 1).chars().next().filter(|c| *c != ' ') {
                    let f = int(l, 2, 6)?;
                    blank(l, 6, 8)?;
                    let n = if cols(l, 8, 10).trim().is_empty() { 0 } else { int(l, 8, 10)? };
                    scales.push((sys, f, n, vec![]));
                } else {
                    blank(l, 0, 10)?;
                }
                let last = scales.last_mut().ok_or("scale factor: no system")?;
                for k in 0..12 {
                    blank(l, 10 + 4 * k, 11 + 4 * k)?;
                    let c = cols(l, 11 + 4 * k, 14 + 4 * k).trim();
                    if !c.is_empty() {
                        last.3.push(c.into());
                    }
                }
                blank(l, 58, 60)?;
            },
            "GLONASS SLOT / FRQ #" => {
                let left = slots.get_or_insert(0);
                if *left == 0 {
                    *left = int(l, 0, 3)?;
                } else {
                    blank(l, 0, 3)?;
                }
                for k in 0..8 {
                    let (a, e) = (4 + 7 * k, 11 + 7 * k);
                    blank(l, a - 1, a)?;
                    if cols(l, a, e).trim().is_empty() {
                        continue;
                    }
                    int(l, a + 1, a + 3)?;
                    blank(l, a + 3, a + 4)?;
                    put(&mut h.facts, format!("slot {}", cols(l, a, a + 3)), int(l, a + 4, a + 6)?.to_string());
                    *left -= 1;
                }
            },
            other => {
                let Some(fs) = layout(other) else {
                    return Err(format!("header line {}: label {other:?}", i + 1));
                };
                let r = record(&l[..60], fs)?;
                if r.chars().all(|c| c == '|') || other == "RCV CLOCK OFFS APPL" && r == "0" {
                    continue;
                }
                if other == "TIME OF FIRST OBS" {
                    h.ts = cols(l, 48, 51).trim().into();
                }
                if other == "STATION REFERENCE" {
                    let f: Vec<&str> = r.split('|').collect();
                    h.stations.insert(f[0].into(), format!("{} '{}' {} g{} k{}", f[1], f[2], f[3], f[4], f[5]));
                }
                // comments keep their order
                let n = nth.entry(other.into()).or_insert(0);
                *n += 1;
                match other {
                    "COMMENT" => put(&mut h.facts, format!("{other} {n}"), r),
                    "SENSOR MOD/TYPE/ACC" | "SENSOR POS XYZ/H" => put(&mut h.facts, format!("{other} {}", cols(l, 57, 59)), r),
                    "STATION REFERENCE" | "SYS / DCBS APPLIED" | "SYS / PCVS APPLIED" => put(&mut h.facts, format!("{other} {}", r), String::new()),
                    _ => put(&mut h.facts, other.into(), r),
                }
            },
        }
    }
    Err("no end of header".into())
}

fn scale(name: &str) -> TimeScale {
    if name == "DOR" {
        TimeScale::TAI
    } else {
        obs::ts_of(name)
    }
}

/// 14.3 and two digits
fn measure(l: &str, at: usize) -> Got<Option<(String, Option<i64>, Option<i64>)>> {
    if cols(l, at, at + 14).trim().is_empty() {
        blank(l, at, at + 16)?;
        return Ok(None);
    }
    let v = real(l, at, at + 14, Some(3))?;
    let digit = |k: usize| -> Got<Option<i64>> {
        if cols(l, at + k, at + k + 1).trim().is_empty() {
            Ok(None)
        } else {
            int(l, at + k, at + k + 1).map(Some)
        }
    };
    Ok(Some((v, digit(14)?, digit(15)?)))
}

fn body_obs(h: &Head, text: &str) -> Got<Dump> {
    let mut d = Dump::new();
    let ts = scale(&h.ts);
    let mut lines = text.lines().skip(h.lines);
    let v2 = h.major < 3;
    while let Some(l) = lines.next() {
        // instant
        let (c, at) = if v2 {
            blank(l, 0, 1)?;
            let y = int(l, 1, 3)?;
            (Civil { y: (if y < 80 { 2000 + y } else { 1900 + y }) as i32, m: int(l, 4, 6)? as u8, d: int(l, 7, 9)? as u8, hh: int(l, 10, 12)? as u8, mm: int(l, 13, 15)? as u8, ss: 0, ns: 0 }, 15)
        } else {
            if !l.starts_with("> ") {
                return Err(format!("an epoch should start with '> ': {l:?}"));
            }
            (Civil { y: int(l, 2, 6)? as i32, m: int(l, 7, 9)? as u8, d: int(l, 10, 12)? as u8, hh: int(l, 13, 15)? as u8, mm: int(l, 16, 18)? as u8, ss: 0, ns: 0 }, 18)
        };
        for k in if v2 { [3, 6, 9, 12] } else { [6, 9, 12, 15] } {
            blank(l, k, k + 1)?;
        }
        let s = cols(l, at, at + 11);
        real(l, at, at + 11, Some(7))?;
        let (a, b) = s.trim().split_once('.').unwrap();
        let c = Civil { ss: a.parse().map_err(|_| format!("seconds: {l:?}"))?, ns: b.parse::<u32>().map_err(|_| format!("seconds: {l:?}"))? * 100, ..c };
        blank(l, at + 11, at + 13)?;
        let flag = int(l, at + 13, at + 14)?;
        let n = int(l, at + 14, at + 17)?;
        let p = format!("{} {}", c.key(ts), obs::flag_name(flag as u8));
        let mut sats = vec![];
        let clock;
        if v2 {
            clock = (cols(l, 68, 80), 9, 68);
            blank(l, 80, 200)?;
            let mut row = l;
            for k in 0..n as usize {
                if k > 0 && k % 12 == 0 {
                    row = lines.next().ok_or("satellites are missing")?;
                    blank(row, 0, 32)?;
                    blank(row, 68, 200)?;
                }
                let at = 32 + 3 * (k % 12);
                let sys = cols(row, at, at + 1).chars().next().filter(|c| *c != ' ').unwrap_or(if h.sys == ' ' { 'G' } else { h.sys });
                let prn = int(row, at + 1, at + 3)?;
                sats.push((sys, prn));
            }
            let last = 32 + 3 * if n == 0 { 0 } else { (n as usize - 1) % 12 + 1 };
            blank(row, last, 68)?;
        } else {
            blank(l, 35, 41)?;
            clock = (cols(l, 41, 56), 12, 41);
            blank(l, 56, 200)?;
        }
        let clk = if clock.0.trim().is_empty() { "clock -".to_string() } else { format!("clock {}", real(l, clock.2, clock.2 + if v2 { 12 } else { 15 }, Some(clock.1))?) };
        put(&mut d, p.clone(), clk);
        for k in 0..n as usize {
            let (sys, prn) = if v2 {
                sats[k]
            } else {
                (' ', 0)
            };
            let mut row = lines.next().ok_or("observations are missing")?;
            let (sys, prn, mut at) = if v2 { (sys, prn, 0) } else { (row.chars().next().unwrap_or(' '), int(row, 1, 3)?, 3) };
            let codes = h.of(sys).ok_or(format!("no observables for {sys:?}: {row:?}"))?;
            for (i, code) in codes.iter().enumerate() {
                if v2 && i > 0 && i % 5 == 0 {
                    blank(row, 80, 200)?;
                    row = lines.next().ok_or("observations are missing")?;
                    at = 0;
                }
                if let Some((v, lli, snr)) = measure(row, at)? {
                    let o = |x: Option<i64>| x.map(|x| x.to_string()).unwrap_or("-".into());
                    put(&mut d, format!("{p} {sys}{prn:02} {code}"), format!("{v} lli {} snr {}", o(lli), o(snr)));
                }
                at += 16;
            }
            blank(row, at, 4000)?;
        }
    }
    gen::finish(&mut d);
    Ok(d)
}

fn body_met(h: &Head, text: &str) -> Got<Dump> {
    let mut d = Dump::new();
    let mut lines = text.lines().skip(h.lines);
    let codes = h.of(' ').ok_or("no observables")?;
    while let Some(mut l) = lines.next() {
        let w = if h.major < 3 { 0 } else { 2 };
        blank(l, 0, 1)?;
        let mut y = int(l, 1, 3 + w)?;
        if w == 0 {
            y += if y < 80 { 2000 } else { 1900 };
        }
        let f = |k: usize| -> Got<u8> {
            blank(l, 3 * k + w, 3 * k + 1 + w)?;
            Ok(int(l, 3 * k + 1 + w, 3 * k + 3 + w)? as u8)
        };
        let c = Civil { y: y as i32, m: f(1)?, d: f(2)?, hh: f(3)?, mm: f(4)?, ss: f(5)?, ns: 0 };
        let mut at = 18 + w;
        for (i, code) in codes.iter().enumerate() {
            if i >= 8 && (i - 8) % 10 == 0 {
                blank(l, at, 200)?;
                l = lines.next().ok_or("measurements are missing")?;
                blank(l, 0, 4)?;
                at = 4;
            }
            if !cols(l, at, at + 7).trim().is_empty() {
                put(&mut d, format!("{} {code}", c.key(TimeScale::UTC)), real(l, at, at + 7, Some(1))?);
            }
            at += 7;
        }
        blank(l, at, 200)?;
    }
    gen::finish(&mut d);
    Ok(d)
}

fn body_doris(h: &Head, text: &str) -> Got<Dump> {
    let mut d = Dump::new();
    let mut lines = text.lines().skip(h.lines);
    let codes = h.of('D').ok_or("no observables")?;
    while let Some(l) = lines.next() {
        if !l.starts_with("> ") {
            return Err(format!("an epoch should start with '> ': {l:?}"));
        }
        for k in [6, 9, 12, 15] {
            blank(l, k, k + 1)?;
        }
        real(l, 18, 31, Some(9))?;
        let (a, b) = cols(l, 18, 31).trim().split_once('.').unwrap();
        let bad = |_| format!("seconds: {l:?}");
        let c = Civil { y: int(l, 2, 6)? as i32, m: int(l, 7, 9)? as u8, d: int(l, 10, 12)? as u8, hh: int(l, 13, 15)? as u8, mm: int(l, 16, 18)? as u8, ss: a.parse().map_err(bad)?, ns: b.parse().map_err(bad)? };
        blank(l, 31, 33)?;
        let k = format!("{} f{}", c.key(TimeScale::TAI), int(l, 33, 34)?);
        let n = int(l, 34, 37)?;
        blank(l, 37, 43)?;
        let clock = real(l, 43, 56, Some(9))?;
        blank(l, 56, 57)?;
        put(&mut d, format!("{k} clock"), format!("{clock} {}", int(l, 57, 58)? == 1));
        blank(l, 58, 200)?;
        for _ in 0..n {
            let mut row = lines.next().ok_or("measurements are missing")?;
            let who = h.stations.get(cols(row, 0, 3)).ok_or(format!("unknown station: {row:?}"))?;
            let mut at = 3;
            for (i, code) in codes.iter().enumerate() {
                if i > 0 && i % 5 == 0 {
                    blank(row, at, 200)?;
                    row = lines.next().ok_or("measurements are missing")?;
                    blank(row, 0, 3)?;
                    at = 3;
                }
                if let Some((v, a, b)) = measure(row, at)? {
                    let o = |x: Option<i64>| x.map(|x| x as u8);
                    put(&mut d, format!("{k} {who} {}", doris::printed(code)), format!("{v} {:?} {:?}", o(a), o(b)));
                }
                at += 16;
            }
            blank(row, at, 200)?;
        }
    }
    gen::finish(&mut d);
    Ok(d)
}

/// a log made by the library's user, and edited, before it is saved
fn assembled(ctx: &mut Ctx) -> Res {
    let mut m = obs::draw(&mut ctx.src, obs::Opt { max_epochs: 6, ..Default::default() });
    m.doc().note(ctx);
    m.blank_sys = false;
    ctx.reach("from_nothing");
    let (mut rnx, _) = super::editing::from_nothing(ctx, &m)?;
    for _ in 0..ctx.src.us(4) {
        let op = ctx.src.us(20);
        super::editing::edit(ctx, &mut m, &mut rnx, op)?;
    }
    if rnx.header.is_crinex() {
        ctx.lib("crnx2rnx", || rnx.crnx2rnx_mut())?;
    }
    let Some(bytes) = super::editing::save(ctx, &rnx)? else { return Ok(()) };
    let text = String::from_utf8_lossy(&bytes).to_string();
    log_text(ctx, "saved", &text);
    ctx.nontrivial |= !m.eps.is_empty();
    let h = match head(&text) {
        Ok(h) => h,
        Err(e) => return fail("layout-header", e),
    };
    match body_obs(&h, &text) {
        Ok(got) => match gen::diff(&super::editing::expected(&m), &got) {
            Some(d) => fail("layout-body", d),
            None => Ok(()),
        },
        Err(e) => fail("layout-body", e),
    }
}

fn c39(ctx: &mut Ctx) -> Res {
    if ctx.src.chance(1, 4) {
        return assembled(ctx);
    }
    let k = ctx.src.us(8);
    let n = draw_size(&mut ctx.src, 6, 600);
    let (mut doc, mut recs): (Doc, Vec<Rec>);
    match k {
        0 | 1 => {
            let m = met::draw(&mut ctx.src, n);
            doc = m.doc();
            recs = met_records(&mut ctx.src, &m.codes, &doc.header);
        },
        2 => {
            let m = doris::draw(&mut ctx.src, n);
            doc = m.doc();
            recs = doris_records(&mut ctx.src, &m);
        },
        _ => {
            let m = obs::draw(&mut ctx.src, obs::Opt { max_epochs: n, ..Default::default() });
            doc = m.doc();
            recs = obs_records(&mut ctx.src, &m);
        },
    }
    if ctx.src.chance(1, 2) {
        for i in (1..recs.len()).rev() {
            let j = ctx.src.us(i + 1);
            recs.swap(i, j);
        }
        ctx.fault("records_reordered");
    }
    let first = doc.header[0].clone();
    doc.header = vec![first];
    for r in &recs {
        doc.header.extend(r.lines.iter().cloned());
    }
    doc.header.push(hl("", "END OF HEADER"));
    let rnx = decode_check(ctx, &doc, "layout-open")?;
    expect_content(ctx, "layout-open", &rnx, &doc.expected())?;
    let want = match head(&doc.head_text()) {
        Ok(h) => h,
        Err(e) => panic!("harness: own header is not laid out as it should: {e}"),
    };
    // saves may fail: the user tries again
    let mut bytes = None;
    for _ in 0..3 {
        if let Some(b) = super::editing::save(ctx, &rnx)? {
            bytes = Some(b);
            break;
        }
    }
    let Some(bytes) = bytes else { return Ok(()) };
    let Ok(text) = String::from_utf8(bytes) else { return fail("layout-text", "not text") };
    log_text(ctx, "saved", &text);
    if !text.ends_with('\n') {
        return fail("layout-text", "the last line is not terminated");
    }
    ctx.nontrivial |= !doc.blocks.is_empty();
    let h = match head(&text) {
        Ok(h) => h,
        Err(e) => return fail("layout-header", e),
    };
    if let Some(d) = gen::diff(&want.facts, &h.facts) {
        return fail("layout-header", d);
    }
    let codes = |h: &Head| -> BTreeMap<char, Vec<String>> { h.codes.iter().cloned().collect() };
    if codes(&want) != codes(&h) {
        return fail("layout-header", format!("observables: {:?}, the text says {:?}", want.codes, h.codes));
    }
    let got = match h.kind {
        'M' => body_met(&h, &text),
        _ if k == 2 => body_doris(&h, &text),
        _ => body_obs(&h, &text),
    };
    let got = match got {
        Ok(d) => d,
        Err(e) => return fail("layout-body", e),
    };
    if let Some(d) = gen::diff(&doc.expected(), &got) {
        return fail("layout-body", d);
    }
    Ok(())
}
