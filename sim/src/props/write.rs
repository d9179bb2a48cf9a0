//! What was read can be written, and what was written reads back the same.
use super::common::*;
use super::PropDef;
use crate::ctx::{fail, Ctx, Res};
use crate::gen::{self, hl, met, obs, put, to_ns, Doc, Dump};
use crate::source::Source;
use rinex::prelude::{Epoch, Header, Rinex, TimeScale};

const REAL_WRITE: &[&str] = &["rinex: header and record parsing and formatting", "hifitime, gnss-rs", "std::io::BufReader and BufWriter"];

// ------------------------------------------------------------------ C08
pub static C08: PropDef = PropDef {
    id: "C08",
    run: c08,
    quick_runs: 30000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded receiver history is read from its V2, V3 or V4 file, written by the library to a drawn sink and read again, up to three generations; non-trivial: at least one epoch with data",
    faults: &["short_write", "write_eintr", "short_read", "read_eintr"],
    real: REAL_WRITE,
    stub: STUB_IO,
    assumptions: &["values fit the F14.3 fields of the format", "zero observations and zero clock offsets are not produced: they mean missing"],
};

fn c08(ctx: &mut Ctx) -> Res {
    let m = obs::draw(&mut ctx.src, obs::Opt::default());
    let doc = m.doc();
    let mut rnx = decode_check(ctx, &doc, "obs")?;
    let exp = doc.expected();
    let mut prev: Option<Vec<u8>> = None;
    for generation in 1..=ctx.src.range(1, 3) {
        let bytes = format_delivered(ctx, &rnx, "obs-write")?;
        log_text(ctx, &format!("generation {generation}"), &String::from_utf8_lossy(&bytes));
        rnx = match parse_plain(ctx, &bytes)? {
            Ok(r) => r,
            Err(e) => return fail("obs-rewrite-rejected", format!("generation {generation}: the library rejects what it wrote: {e}")),
        };
        expect_content(ctx, "obs-roundtrip", &rnx, &exp)?;
        if let Some(p) = prev {
            if p != bytes {
                return fail("obs-rewrite-differs", format!("generation {generation} differs from the one before: {}", first_diff(&p, &bytes)));
            }
        }
        prev = Some(bytes);
    }
    Ok(())
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let (a, b) = (String::from_utf8_lossy(a).to_string(), String::from_utf8_lossy(b).to_string());
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {}: {x:?} / {y:?}", i + 1);
        }
    }
    format!("{} / {} lines", a.lines().count(), b.lines().count())
}
/// writes to a sink that takes what it is given in pieces
pub fn format_delivered(ctx: &mut Ctx, rnx: &Rinex, class: &str) -> Result<Vec<u8>, crate::ctx::Violation> {
    if ctx.src.chance(1, 2) {
        return format_plain(ctx, rnx, class);
    }
    let (w, st, cap) = super::faults::soft_sink(ctx);
    let r = ctx.lib("format", || {
        let mut bw = std::io::BufWriter::with_capacity(cap, w);
        let r = rnx.format(&mut bw);
        drop(bw);
        r
    })?;
    super::faults::note_sink(ctx, &st);
    if let Err(e) = r {
        return fail(class, format!("cannot be written: {e}"));
    }
    let out = st.borrow().out.clone();
    Ok(out)
}

// ------------------------------------------------------------------ C21
pub static C21: PropDef = PropDef {
    id: "C21",
    run: c21,
    quick_runs: 48000,
    max_classes: 8,
    recheck: false,
    rule: "a random selection of header records in random order describes a receiver, a weather station or a DORIS satellite; the file is read, written by the library and read again; non-trivial: at least four optional header records",
    faults: &["records_reordered", "short_read", "read_eintr"],
    real: REAL_WRITE,
    stub: STUB_IO,
    assumptions: &["text fields are ASCII and fit their columns", "an antenna is described by its identity and its eccentricity together"],
};

const WORDS: [&str; 12] = ["SIM0", "Geodetic Office", "x", "JPL/NASA", "LEICA GRX1200GGPRO", "rtk_v1.2-beta", "A B  C", "20240101", "M", "0", "trimble net-r9 #4", "10%"];

#[derive(Clone)]
pub struct Rec {
    pub lines: Vec<String>,
    pub items: Vec<(String, String)>,
}
pub fn word(s: &mut Source, max: usize) -> String {
    let w: &str = s.pick(&WORDS);
    let mut w = w.to_string();
    if s.chance(1, 6) {
        // as long as the field
        while w.len() < max {
            w.push((b'a' + (w.len() % 26) as u8) as char);
        }
    }
    w.truncate(max);
    w.trim_end().to_string()
}
/// a field that may be left blank
pub fn maybe(s: &mut Source, max: usize) -> String {
    if s.chance(1, 6) {
        String::new()
    } else {
        word(s, max)
    }
}
pub fn f4(v: i64) -> String {
    format!("{}{}.{:04}", if v < 0 { "-" } else { "" }, v.abs() / 10000, v.abs() % 10000)
}
pub fn one(line: String, label: &str, items: Vec<(&str, String)>) -> Rec {
    Rec { lines: vec![hl(&line, label)], items: items.into_iter().map(|(k, v)| (k.to_string(), v)).collect() }
}
fn obs_time(s: &mut Source, ts: &'static str, label: &str, key: &str) -> Rec {
    let mut c = gen::draw_start(s);
    if s.chance(1, 3) {
        c.ns = s.range(0, 9_999_999) as u32 * 100;
    }
    one(
        format!("{:6}{:6}{:6}{:6}{:6}{:5}.{:07}     {:<3}", c.y, c.m, c.d, c.hh, c.mm, c.ss, c.ns / 100, ts),
        label,
        vec![(key, c.key(obs::ts_of(ts)))],
    )
}

pub fn common_records(s: &mut Source) -> Vec<Rec> {
    let mut v = vec![];
    if s.chance(2, 3) {
        let (a, b, c) = (maybe(s, 20), maybe(s, 20), "20240101 010203 UTC".to_string());
        v.push(one(format!("{a:<20}{b:<20}{c:<20}"), "PGM / RUN BY / DATE", vec![("program", a), ("run by", b), ("date", c)]));
    }
    let n = s.us(3);
    for _ in 0..n {
        let c = word(s, 60);
        v.push(one(c.clone(), "COMMENT", vec![("comment", c)]));
    }
    // marker
    let mut mk = vec![];
    if s.chance(2, 3) {
        let w = word(s, 20);
        mk.push(one(w.clone(), "MARKER NAME", vec![("marker name", w)]));
        if s.chance(1, 2) {
            let n = format!("{:05}M{:03}", s.range(0, 99_999), s.range(0, 999));
            mk.push(one(n.clone(), "MARKER NUMBER", vec![("marker number", n)]));
        }
        if s.chance(1, 2) {
            let t = *s.pick(&["GEODETIC", "NON_GEODETIC", "NON_PHYSICAL", "SPACEBORNE", "AIRBORNE", "WATER_CRAFT", "GROUND_CRAFT", "FIXED_BUOY", "FLOATING_BUOY", "FLOATING_ICE", "GLACIER", "BALLISTIC", "ANIMAL", "HUMAN"]);
            mk.push(one(t.into(), "MARKER TYPE", vec![("marker type", t.into())]));
        }
    }
    v.extend(mk);
    if s.chance(1, 3) {
        let w = format!("https://doi.org/10.{}/{}", s.range(1000, 9999), word(s, 8).replace(' ', "-"));
        v.push(one(w.clone(), "DOI", vec![("doi", w)]));
    }
    if s.chance(1, 3) {
        let w = (*s.pick(&["CC BY 4.0", "https://creativecommons.org/licenses/by/4.0/", "Creative Commons Attribution 4.0 International (see web)"])).to_string();
        v.push(one(w.clone(), "LICENSE OF USE", vec![("license", w)]));
    }
    if s.chance(1, 3) {
        let w = (*s.pick(&["https://simlab.org/SIM0", "https://www.simlab.org/network/stations/europe/SIM000FRA"])).to_string();
        v.push(one(w.clone(), "STATION INFORMATION", vec![("station url", w)]));
    }
    v
}

fn station_records(s: &mut Source, v: &mut Vec<Rec>) {
    if s.chance(2, 3) {
        let (a, b) = (maybe(s, 20), maybe(s, 40));
        v.push(one(format!("{a:<20}{b:<40}"), "OBSERVER / AGENCY", vec![("observer", a), ("agency", b)]));
    }
    if s.chance(2, 3) {
        let (a, b, c) = (word(s, 20), word(s, 20), word(s, 20));
        v.push(one(format!("{a:<20}{b:<20}{c:<20}"), "REC # / TYPE / VERS", vec![("rx sn", a), ("rx model", b), ("rx firmware", c)]));
    }
    if s.chance(2, 3) {
        let (a, b) = (word(s, 20), word(s, 20));
        v.push(one(format!("{a:<20}{b:<20}"), "ANT # / TYPE", vec![("ant sn", a), ("ant model", b)]));
        let d: Vec<String> = (0..3).map(|_| f4(s.range(-99_999, 999_999))).collect();
        let l: String = d.iter().map(|x| format!("{x:>14}")).collect();
        v.push(one(l, "ANTENNA: DELTA H/E/N", vec![("ant h", gen::ftext(&d[0])), ("ant e", gen::ftext(&d[1])), ("ant n", gen::ftext(&d[2]))]));
        if s.chance(1, 4) {
            let d: Vec<String> = (0..3).map(|_| f4(s.range(-99_999, 999_999))).collect();
            let l: String = d.iter().map(|x| format!("{x:>14}")).collect();
            v.push(one(l, "ANTENNA: DELTA X/Y/Z", vec![("ant x", gen::ftext(&d[0])), ("ant y", gen::ftext(&d[1])), ("ant z", gen::ftext(&d[2]))]));
        }
    }
    if s.chance(2, 3) {
        let d: Vec<String> = (0..3).map(|_| f4(s.range(-64_000_000_000, 64_000_000_000))).collect();
        let l: String = d.iter().map(|x| format!("{x:>14}")).collect();
        v.push(one(l, "APPROX POSITION XYZ", vec![("pos x", gen::ftext(&d[0])), ("pos y", gen::ftext(&d[1])), ("pos z", gen::ftext(&d[2]))]));
    }
}
/// header of a DORIS receiver: what identifies it, then what it measures
pub fn doris_records(s: &mut Source, m: &gen::doris::Model) -> Vec<Rec> {
    let mut v = common_records(s);
    station_records(s, &mut v);
    let mut r = Rec { lines: vec![], items: vec![] };
    for l in m.doc().header {
        if ["SATELLITE NAME", "COSPAR", "OBS TYPES", "SCALE FACTOR", "TIME OF FIRST OBS", "TIME OF LAST OBS", "DATE OFFSET", "# OF STATIONS", "STATION REFERENCE"].iter().any(|x| l[60..].starts_with(x) || l[60..].contains(x)) {
            r.lines.push(l);
        }
    }
    v.push(r);
    v
}
/// what only a DORIS header has: the rest varies with [common_records] and [station_records]
fn own(mut d: gen::Dump) -> gen::Dump {
    d.retain(|k, _| !["observer, agency", "receiver", "antenna"].contains(&k.as_str()));
    d
}
pub fn obs_records(s: &mut Source, m: &obs::Model) -> Vec<Rec> {
    let mut v = common_records(s);
    station_records(s, &mut v);
    if s.chance(2, 3) {
        let ms = *s.pick(&[30_000i64, 1000, 50, 100, 900_000, 200, 2500]);
        v.push(one(format!("{:>10}", gen::f3(ms)), "INTERVAL", vec![("interval ns", (ms as i128 * 1_000_000).to_string())]));
    }
    if s.chance(1, 2) {
        let l = s.range(10, 18);
        if s.chance(1, 2) {
            v.push(one(format!("{l:6}"), "LEAP SECONDS", vec![("leap", format!("{l}"))]));
        } else {
            let (t, w, d) = (s.range(10, 19), s.range(800, 2400), s.range(1, 7));
            let ts = if m.major >= 3 { *s.pick(&["", "GPS", "BDS"]) } else { "" };
            let tk = match ts {
                "GPS" => "GPST",
                "BDS" => "BDT",
                _ => "-",
            };
            v.push(one(format!("{l:6}{t:6}{w:6}{d:6}{ts}"), "LEAP SECONDS", vec![("leap", format!("{l} {t} {w} {d} {tk}"))]));
        }
    }
    if m.major >= 3 && s.chance(1, 2) {
        let n = s.range(1, 24) as usize;
        let a = s.range(1, 24);
        let slots: Vec<(i64, i64)> = (0..n as i64).map(|i| ((a + i * 5 - 1) % 24 + 1, s.range(-7, 6))).collect();
        let mut r = Rec { lines: vec![], items: vec![] };
        for (i, ch) in slots.chunks(8).enumerate() {
            let mut l = if i == 0 { format!("{n:3} ") } else { "    ".into() };
            for (p, c) in ch {
                l.push_str(&format!("R{p:02} {c:2} "));
                r.items.push((format!("glo R{p:02}"), c.to_string()));
            }
            r.lines.push(hl(&l, "GLONASS SLOT / FRQ #"));
        }
        v.push(r);
    }
    if s.chance(1, 4) {
        let on = s.us(2);
        v.push(one(format!("{on:6}"), "RCV CLOCK OFFS APPL", vec![("clock applied", (on == 1).to_string())]));
    }
    if m.major >= 3 && s.chance(1, 4) {
        for label in ["SYS / DCBS APPLIED", "SYS / PCVS APPLIED"] {
            if s.chance(1, 2) {
                let (p, u) = ((*s.pick(&["CC2NONCC", "PCVPROG 1.2"])).to_string(), (*s.pick(&["p1c1bias.hist @ goby.nrl.navy.mil", "igs14.atx @ igscb.jpl.nasa.gov"])).to_string());
                let c = m.codes[s.us(m.codes.len())].0;
                let key = if label.contains("DCB") { "dcb" } else { "pcv" };
                v.push(one(format!("{c} {p:<17} {u:<40}"), label, vec![(key, format!("{} {p} {u}", gname(c)))]));
            }
        }
    }
    if m.major >= 3 && s.chance(1, 3) {
        for (c, codes) in &m.codes {
            if s.chance(1, 3) {
                continue;
            }
            // each factor applies to some observables of that system
            let mut from = 0;
            for f in [1i64, 10, 100, 1000] {
                if s.chance(1, 2) || from >= codes.len() {
                    continue;
                }
                let n = s.range(1, (codes.len() - from) as i64) as usize;
                let shared = &codes[from..from + n];
                from += n;
                let mut r = Rec { lines: vec![], items: vec![] };
                for (i, chunk) in shared.chunks(12).enumerate() {
                    let l: String = chunk.iter().map(|x| format!(" {x}")).collect();
                    r.lines.push(hl(&if i == 0 { format!("{c} {f:4}  {n:2}{l}") } else { format!("{:10}{l}", "") }, "SYS / SCALE FACTOR"));
                }
                for x in shared {
                    r.items.push((format!("scale {} {x}", gname(*c)), f.to_string()));
                }
                v.push(r);
            }
            // another one applies to all that are not named
            if from < codes.len() && s.chance(1, 4) {
                let f = *s.pick(&[100i64, 10, 1000]);
                let l = format!("{c} {f:4}{}", s.pick(&["", "   0"]));
                let mut r = Rec { lines: vec![hl(&l, "SYS / SCALE FACTOR")], items: vec![] };
                for x in &codes[from..] {
                    r.items.push((format!("scale {} {x}", gname(*c)), f.to_string()));
                }
                v.push(r);
            }
        }
    }
    if s.chance(1, 3) {
        v.push(obs_time(s, m.ts, "TIME OF LAST OBS", "last obs"));
    }
    v.push(obs_time(s, m.ts, "TIME OF FIRST OBS", "first obs"));
    // types of observation
    let mut r = Rec { lines: vec![], items: vec![] };
    for l in m.header() {
        if l.contains("TYPES OF OBSERV") || l.contains("OBS TYPES") {
            r.lines.push(l);
        }
    }
    for (c, codes) in &m.codes {
        r.items.push((format!("codes {}", gname(*c)), codes.join(" ")));
    }
    v.push(r);
    v
}
pub fn gname(c: char) -> &'static str {
    match c {
        'G' => "GPS",
        'R' => "GLO",
        'E' => "GAL",
        'C' => "BDS",
        'J' => "QZSS",
        'S' => "SBAS",
        'I' => "IRNSS",
        _ => "?",
    }
}

pub fn met_records(s: &mut Source, codes: &[&'static str], h: &[String]) -> Vec<Rec> {
    let mut v = common_records(s);
    let mut r = Rec { lines: vec![], items: vec![("codes".into(), codes.join(" "))] };
    for l in h {
        if l.contains("TYPES OF OBSERV") {
            r.lines.push(l.clone());
        }
    }
    v.push(r);
    for c in codes {
        if s.chance(1, 2) {
            let (a, b, acc) = (word(s, 20), word(s, 20), s.range(1, 999));
            let acc = format!("{}.{}", acc / 10, acc % 10);
            let mut r = one(format!("{a:<20}{b:<20}      {acc:>7}    {c} "), "SENSOR MOD/TYPE/ACC", vec![]);
            let f: f32 = acc.parse().unwrap();
            let mut item = format!("{a} / {b} / {f:?}");
            if s.chance(1, 2) {
                let d: Vec<String> = (0..4).map(|_| f4(s.range(-64_000_000_000, 64_000_000_000))).collect();
                let l: String = d.iter().map(|x| format!("{x:>14}")).collect();
                r.lines.push(hl(&format!("{l} {c} "), "SENSOR POS XYZ/H"));
                item.push_str(&format!(" / {} {} {} {}", gen::ftext(&d[0]), gen::ftext(&d[1]), gen::ftext(&d[2]), gen::ftext(&d[3])));
            } else {
                item.push_str(" / -");
            }
            r.items.push((format!("sensor {c}"), item));
            v.push(r);
        }
    }
    v
}

pub fn dump_header(h: &Header) -> Dump {
    let mut d = Dump::new();
    let mut o = |k: &str, v: Option<String>| {
        if let Some(v) = v {
            put(&mut d, k.to_string(), v);
        }
    };
    o("version", Some(format!("{}.{:02} {:?}", h.version.major, h.version.minor, h.rinex_type)));
    o("program", h.program.clone());
    o("run by", h.run_by.clone());
    o("date", h.date.clone());
    o("observer", h.observer.clone());
    o("agency", h.agency.clone());
    o("doi", h.doi.clone());
    o("license", h.license.clone());
    o("station url", h.station_url.clone());
    for c in &h.comments {
        o("comment", Some(c.clone()));
    }
    if let Some(m) = &h.geodetic_marker {
        o("marker name", Some(m.name.clone()));
        o("marker number", m.number());
        o("marker type", m.marker_type.map(|x| x.to_string()));
    }
    if let Some(r) = &h.rcvr {
        o("rx sn", Some(r.sn.clone()));
        o("rx model", Some(r.model.clone()));
        o("rx firmware", Some(r.firmware.clone()));
    }
    if let Some(a) = &h.rcvr_antenna {
        o("ant sn", Some(a.sn.clone()));
        o("ant model", Some(a.model.clone()));
        o("ant h", a.height.map(gen::fv));
        o("ant e", a.eastern.map(gen::fv));
        o("ant n", a.northern.map(gen::fv));
        o("ant x", a.coords.map(|c| gen::fv(c.0)));
        o("ant y", a.coords.map(|c| gen::fv(c.1)));
        o("ant z", a.coords.map(|c| gen::fv(c.2)));
    }
    if let Some(p) = h.rx_position {
        o("pos x", Some(gen::fv(p.0)));
        o("pos y", Some(gen::fv(p.1)));
        o("pos z", Some(gen::fv(p.2)));
    }
    o("interval ns", h.sampling_interval.map(|i| i.total_nanoseconds().to_string()));
    if let Some(l) = &h.leap {
        let t = match l.delta_tls {
            Some(t) => {
                let ts = match l.timescale {
                    Some(TimeScale::GPST) => "GPST".into(),
                    Some(t) => format!("{t:?}"),
                    None => "-".into(),
                };
                format!("{} {t} {} {} {ts}", l.leap, l.week.unwrap_or(0), l.day.unwrap_or(0))
            },
            None => l.leap.to_string(),
        };
        o("leap", Some(t));
    }
    for (sv, c) in &h.glo_channels {
        o(&format!("glo {sv:x}"), Some(c.to_string()));
    }
    for c in &h.dcb_compensations {
        o("dcb", Some(format!("{} {} {}", cname(c.constellation), c.program, c.url)));
    }
    for c in &h.pcv_compensations {
        o("pcv", Some(format!("{} {} {}", cname(c.constellation), c.program, c.url)));
    }
    if let Some(x) = &h.obs {
        o("first obs", x.timeof_first_obs.map(gen::ekey));
        o("last obs", x.timeof_last_obs.map(gen::ekey));
        if x.clock_offset_applied {
            o("clock applied", Some("true".into()));
        }
        for (c, codes) in &x.codes {
            o(&format!("codes {}", cname(*c)), Some(codes.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")));
        }
        for ((c, ob), f) in &x.scaling {
            o(&format!("scale {} {ob}", cname(*c)), Some(f.to_string()));
        }
    }
    if let Some(m) = &h.meteo {
        o("codes", Some(m.codes.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")));
        for x in &m.sensors {
            let t = |x: &Option<String>| x.clone().unwrap_or_default();
            let pos = match (x.position, x.height) {
                (Some(p), h) => format!("{} {} {} {}", gen::fv(p.0), gen::fv(p.1), gen::fv(p.2), gen::fv(h.unwrap_or(0.0))),
                _ => "-".into(),
            };
            o(&format!("sensor {}", x.observable), Some(format!("{} / {} / {:?} / {pos}", t(&x.model), t(&x.sensor_type), x.accuracy.unwrap_or(0.0))));
        }
    }
    // comments keep their order, everything else is a set
    let comments = d.get("comment").cloned();
    gen::finish(&mut d);
    if let Some(c) = comments {
        d.insert("comment".into(), c);
    }
    d
}
pub fn cname(c: rinex::prelude::Constellation) -> &'static str {
    use rinex::prelude::Constellation::*;
    match c {
        GPS => "GPS",
        Glonass => "GLO",
        Galileo => "GAL",
        BeiDou => "BDS",
        QZSS => "QZSS",
        IRNSS => "IRNSS",
        c if c.is_sbas() => "SBAS",
        _ => "?",
    }
}

fn c21(ctx: &mut Ctx) -> Res {
    let k = ctx.src.us(8);
    let (weather, beacons) = (k < 2, k == 2);
    let mut declared = None;
    let (mut doc, mut recs): (Doc, Vec<Rec>);
    let blind: Vec<&str>;
    if weather {
        let m = met::draw(&mut ctx.src, 3);
        doc = m.doc();
        recs = met_records(&mut ctx.src, &m.codes, &doc.header);
        blind = vec![];
    } else if beacons {
        let m = gen::doris::draw(&mut ctx.src, 2);
        doc = m.doc();
        recs = doris_records(&mut ctx.src, &m);
        declared = Some(own(m.declared()));
        blind = vec![];
    } else {
        let m = obs::draw(&mut ctx.src, obs::Opt { max_epochs: 2, ..Default::default() });
        doc = m.doc();
        recs = obs_records(&mut ctx.src, &m);
        blind = if m.major == 2 {
            // one list for all systems, the file does not name them
            vec!["codes "]
        } else {
            vec![]
        };
        let _ = to_ns;
    }
    doc.note(ctx);
    // header records come in any order
    if ctx.src.chance(1, 2) {
        for i in (1..recs.len()).rev() {
            let j = ctx.src.us(i + 1);
            recs.swap(i, j);
        }
        // the producer writes the time system before the types in some files and after in others
        ctx.fault("records_reordered");
    }
    let mut exp = Dump::new();
    let first = doc.header[0].clone();
    doc.header = vec![first.clone()];
    let mut n = 0;
    for r in &recs {
        doc.header.extend(r.lines.iter().cloned());
        n += 1;
        for (k, v) in &r.items {
            if v.is_empty() || (k == "clock applied" && v == "false") {
                continue;
            }
            put(&mut exp, k.clone(), v.clone());
        }
    }
    doc.header.push(hl("", "END OF HEADER"));
    ctx.nontrivial |= n >= 4;
    let comments = exp.get("comment").cloned();
    gen::finish(&mut exp);
    if let Some(c) = comments {
        exp.insert("comment".into(), c);
    }
    put(&mut exp, "version".into(), format!("{} {}", first[..20].trim(), if weather { "MeteoData" } else if beacons { "DORIS" } else { "ObservationData" }));
    let mut exp = exp;
    if !weather && !beacons {
        let c = first[40..41].chars().next().unwrap();
        put(&mut exp, "system".into(), if c == 'M' { "mixed" } else { gname(if c == ' ' { 'G' } else { c }) }.into());
    }
    let dump_header = |h: &Header| -> Dump {
        let mut d = dump_header(h);
        if !weather && !beacons {
            put(&mut d, "system".into(), h.constellation.map(|c| if c == rinex::prelude::Constellation::Mixed { "mixed" } else { cname(c) }).unwrap_or("none").into());
        }
        d
    };
    let keep = |d: Dump| -> Dump { d.into_iter().filter(|(k, _)| !blind.iter().any(|b| k.starts_with(b))).collect() };
    let exp = keep(exp);
    let body = doc.blocks.clone();
    // the header alone is under test: one record keeps the body real
    doc.blocks = body.into_iter().take(1).collect();
    let rnx = decode_check(ctx, &doc, "header")?;
    let got = ctx.lib("inspect", || dump_header(&rnx.header))?;
    if let Some(d) = gen::diff(&exp, &keep(got)) {
        return fail("header-content", d);
    }
    if let Some(d) = &declared {
        let got = ctx.lib("inspect", || gen::doris::declared_by(&rnx.header))?;
        if let Some(d) = gen::diff(d, &own(got)) {
            return fail("header-content", d);
        }
    }
    let t = Epoch::from_gregorian_utc_at_midnight(2021, 3, 4);
    let frame = anise::constants::frames::IAU_EARTH_FRAME;
    let orbits = ctx.lib("rx_orbit", || {
        let mut v = vec![(rnx.header.rx_position, rnx.header.rx_orbit(t, frame))];
        for s in rnx.header.meteo.iter().flat_map(|m| &m.sensors) {
            v.push((s.position, s.rx_orbit(t, frame)));
        }
        v
    })?;
    for (p, o) in orbits {
        let o = o.map(|o| (o.radius_km.x, o.radius_km.y, o.radius_km.z, o.epoch));
        let near = |a: f64, b: f64| (a / 1e3 - b).abs() < 1e-9 + b.abs() * 1e-12;
        let same = match (p, &o) {
            (None, None) => true,
            (Some(p), Some(o)) => near(p.0, o.0) && near(p.1, o.1) && near(p.2, o.2) && o.3 == t,
            _ => false,
        };
        if !same {
            return fail("header-orbit", format!("rx_orbit gives {o:?} for a position of {p:?}"));
        }
    }
    let bytes = format_plain(ctx, &rnx, "header-write")?;
    log_text(ctx, "rewritten", &String::from_utf8_lossy(&bytes));
    let r2 = match parse_plain(ctx, &bytes)? {
        Ok(r) => r,
        Err(e) => return fail("header-roundtrip", format!("the library rejects what it wrote: {e}")),
    };
    let got = ctx.lib("inspect", || dump_header(&r2.header))?;
    if let Some(d) = gen::diff(&exp, &keep(got)) {
        return fail("header-roundtrip", d);
    }
    if let Some(d) = &declared {
        let got = ctx.lib("inspect", || gen::doris::declared_by(&r2.header))?;
        if let Some(d) = gen::diff(d, &own(got)) {
            return fail("header-roundtrip", d);
        }
    }
    Ok(())
}
