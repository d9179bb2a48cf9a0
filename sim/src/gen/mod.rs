//! Reference models and writers: what a producer logged, and the text it wrote.
//! Nothing here calls the library; expected content is known from the model.
pub mod antex;
pub mod brd;
pub mod clk;
pub mod crx;
pub mod doris;
pub mod ionex;
pub mod met;
pub mod nav;
pub mod obs;

use crate::ctx::Ctx;
use crate::source::Source;
use rinex::prelude::{Epoch, Rinex, TimeScale};
use std::collections::BTreeMap;

/// Content as a multimap: key (epoch, flag, who, what) -> values.
pub type Dump = BTreeMap<String, Vec<String>>;

pub fn put(d: &mut Dump, k: String, v: String) {
    d.entry(k).or_default().push(v);
}
pub fn finish(d: &mut Dump) {
    for v in d.values_mut() {
        v.sort();
    }
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    /// the lines of this block, without line ends
    pub lines: Vec<String>,
    /// what a reader must recover from it
    pub items: Vec<(String, String)>,
    /// body comment lines carry no items
    pub comment: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub kind: &'static str,
    pub header: Vec<String>,
    pub blocks: Vec<Block>,
    /// simulated seconds spanned
    pub span_s: f64,
    pub eol: &'static str,
    pub final_eol: bool,
    /// lines that close the body (END OF FILE)
    pub trailer: Vec<String>,
    /// IONEX: the library does not recover the last TEC map (known finding)
    pub last_tec_lost: bool,
    /// ANTEX: keys name the position of the antenna in the file
    pub positional: bool,
    /// what was exercised
    pub features: Vec<String>,
}

impl Doc {
    pub fn text_of(&self, blocks: &[Block]) -> String {
        let mut s = self.head_text();
        let mut all: Vec<&String> = vec![];
        for b in blocks {
            all.extend(b.lines.iter());
        }
        all.extend(self.trailer.iter());
        let n = all.len();
        for (i, l) in all.iter().enumerate() {
            s.push_str(l);
            if i + 1 < n || self.final_eol {
                s.push_str(self.eol);
            }
        }
        s
    }
    pub fn head_text(&self) -> String {
        let mut s = String::new();
        for l in &self.header {
            s.push_str(l);
            s.push_str(self.eol);
        }
        s
    }
    pub fn text(&self) -> String {
        self.text_of(&self.blocks)
    }
    pub fn expected_of(blocks: &[Block]) -> Dump {
        let mut d = Dump::new();
        for b in blocks {
            for (k, v) in &b.items {
                put(&mut d, k.clone(), v.clone());
            }
        }
        finish(&mut d);
        d
    }
    /// what the file holds
    pub fn expected(&self) -> Dump {
        Self::expected_of(&self.blocks)
    }
    /// what the library recovers of these blocks, known findings set aside
    pub fn recovered(&self, blocks: &[Block]) -> Dump {
        let d = Self::expected_of(blocks);
        if self.last_tec_lost {
            ionex::without_last_map(&d, blocks)
        } else {
            d
        }
    }
    pub fn note(&self, ctx: &mut Ctx) {
        ctx.reach(self.kind);
        for f in &self.features {
            ctx.reach(f);
            ctx.probe(&format!("{}:{f}", self.kind));
        }
        ctx.stats.sim_s += self.span_s;
    }
}

/// header line: content padded to 60 columns, then the label
pub fn hl(content: &str, label: &str) -> String {
    format!("{content:<60.60}{label}")
}

// ------------------------------------------------------------------- time
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Civil {
    pub y: i32,
    pub m: u8,
    pub d: u8,
    pub hh: u8,
    pub mm: u8,
    pub ss: u8,
    pub ns: u32,
}
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = if z >= 0 { z } else { z - 146096 } / 146097;
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}
/// nanoseconds since 1970-01-01 on a calendar without leap seconds
pub fn to_ns(c: Civil) -> i128 {
    let s = days_from_civil(c.y as i64, c.m as i64, c.d as i64) * 86400 + c.hh as i64 * 3600 + c.mm as i64 * 60 + c.ss as i64;
    s as i128 * 1_000_000_000 + c.ns as i128
}
pub fn from_ns(n: i128) -> Civil {
    let s = n.div_euclid(1_000_000_000);
    let ns = n.rem_euclid(1_000_000_000) as u32;
    let day = (s as i64).div_euclid(86400);
    let sod = (s as i64).rem_euclid(86400);
    let (y, m, d) = civil_from_days(day);
    Civil { y: y as i32, m: m as u8, d: d as u8, hh: (sod / 3600) as u8, mm: (sod / 60 % 60) as u8, ss: (sod % 60) as u8, ns }
}
impl Civil {
    pub fn key(&self, ts: TimeScale) -> String {
        format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} {:?}", self.y, self.m, self.d, self.hh, self.mm, self.ss, self.ns, ts)
    }
    pub fn epoch(&self, ts: TimeScale) -> Epoch {
        Epoch::from_gregorian(self.y, self.m, self.d, self.hh, self.mm, self.ss, self.ns, ts)
    }
}
/// key of an epoch the library returned, on its own time scale
pub fn ekey(e: Epoch) -> String {
    let reference = Epoch::from_gregorian(2000, 1, 1, 0, 0, 0, 0, e.time_scale);
    let d = e.duration.total_nanoseconds() - reference.duration.total_nanoseconds();
    // 2000-01-01 on the civil calendar
    let mut n = 946_684_800_i128 * 1_000_000_000 + d;
    if e.time_scale == TimeScale::UTC {
        // hifitime's UTC duration counts no leap second itself
        n = 946_684_800_i128 * 1_000_000_000 + (e.duration - reference.duration).total_nanoseconds();
    }
    from_ns(n).key(e.time_scale)
}

/// a file of any kind, `size` records or so
pub fn draw_doc(s: &mut Source, size: usize) -> Doc {
    let k = s.us(10);
    draw_kind(s, k, size)
}
pub fn draw_kind(s: &mut Source, k: usize, size: usize) -> Doc {
    match k {
        0 => obs::draw(s, obs::Opt { max_epochs: size, major: Some(3), ..Default::default() }).doc(),
        1 => obs::draw(s, obs::Opt { max_epochs: size, major: Some(2), ..Default::default() }).doc(),
        2 => obs::draw(s, obs::Opt { max_epochs: size, major: Some(4), ..Default::default() }).doc(),
        3 => nav::draw(s, size, Some(3)).doc(),
        4 => nav::draw(s, size, None).doc(),
        5 => met::draw(s, size).doc(),
        6 => clk::draw_doc(s, size),
        7 => ionex::draw(s, size.min(4)).doc(),
        8 => antex::draw_doc(s, size.min(6)),
        _ => doris::draw(s, size).doc(),
    }
}

/// a start instant between 1994 and 2038, avoiding leap second days
pub fn draw_start(s: &mut Source) -> Civil {
    let y = *s.pick(&[2021, 2020, 1999, 2000, 2009, 2016, 2024, 2030, 1994, 2038, 2012]);
    let m = s.range(1, 12) as u8;
    let d = s.range(1, 28) as u8;
    let (hh, mm) = match s.us(3) {
        0 => (0, 0),
        1 => (23, 59),
        _ => (s.range(0, 23) as u8, s.range(0, 59) as u8),
    };
    let ss = *s.pick(&[0u8, 30, 15, 1, 59]);
    Civil { y, m, d, hh, mm, ss, ns: 0 }
}

pub fn f3(v_milli: i64) -> String {
    // value in thousandths as fixed point, no float involved
    let neg = v_milli < 0;
    let a = v_milli.unsigned_abs();
    format!("{}{}.{:03}", if neg { "-" } else { "" }, a / 1000, a % 1000)
}

/// canonical text of an f64
pub fn fv(v: f64) -> String {
    format!("{v:?}")
}
/// what a reader gets from that decimal text
pub fn ftext(t: &str) -> String {
    fv(t.trim().parse::<f64>().expect("reference writer produced a bad number"))
}

pub fn dump(rnx: &Rinex) -> Dump {
    let mut d = Dump::new();
    if let Some(rec) = rnx.record.as_obs() {
        obs::dump_into(rec, &mut d);
    } else if let Some(rec) = rnx.record.as_nav() {
        nav::dump_into(rec, &mut d);
    } else if let Some(rec) = rnx.record.as_meteo() {
        met::dump_into(rec, &mut d);
    } else if let Some(rec) = rnx.record.as_clock() {
        clk::dump_into(rec, &mut d);
    } else if let Some(rec) = rnx.record.as_ionex() {
        ionex::dump_into(rec, &mut d);
    } else if let Some(rec) = rnx.record.as_antex() {
        antex::dump_into(rec, &mut d);
    } else if let Some(rec) = rnx.record.as_doris() {
        doris::dump_into(rec, &mut d);
    }
    finish(&mut d);
    d
}

/// first few differences, for reports
pub fn diff(exp: &Dump, got: &Dump) -> Option<String> {
    let mut out: Vec<String> = vec![];
    let mut n = 0;
    for (k, v) in exp {
        match got.get(k) {
            None => {
                n += 1;
                if out.len() < 4 {
                    out.push(format!("missing [{k}] = {v:?}"));
                }
            },
            Some(g) if g != v => {
                n += 1;
                if out.len() < 4 {
                    out.push(format!("[{k}] expected {v:?} got {g:?}"));
                }
            },
            _ => {},
        }
    }
    for (k, g) in got {
        if !exp.contains_key(k) {
            n += 1;
            if out.len() < 4 {
                out.push(format!("unexpected [{k}] = {g:?}"));
            }
        }
    }
    if n == 0 {
        None
    } else {
        Some(format!("{n} difference(s): {}", out.join("; ")))
    }
}
