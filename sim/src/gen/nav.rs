//! A navigation message log: broadcast frames of several constellations.
use super::*;
use rinex::navigation::{GeoHealth, GloHealth, Health, IonosphereModel, NavFrame, OrbitItem, Record as NavRecord};
use std::collections::BTreeSet;

pub const GPS: &str = "iode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot l2Codes week l2pDataFlag svAccuracy health tgd iodc t_tm fitInt";
const QZS: &str = GPS;
const CNAV: &str = "adot crs deltaN0 m0 cuc e cus sqrta t_op cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 t_tm wn_op";
const CNV2: &str = "adot crs deltaN0 m0 cuc e cus sqrta t_op cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 iscL1Cd iscL1Cp - - t_tm wn_op";
const GLO: &str = "satPosX velX accelX health satPosY velY accelY channel satPosZ velZ accelZ ageOp";
const FDMA: &str = "satPosX velX accelX health satPosY velY accelY channel satPosZ velZ accelZ ageOp status L1L2GrpDelay urai almanacHealth";
pub const GAL: &str = "iodnav crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot dataSrc week - sisa health bgdE5aE1 bgdE5bE1 t_tm";
pub const BDS3: &str = "aode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot - week - svAccuracy satH1 tgd1b1b3 tgd2b2b3 t_tm aodc";
pub const D1: &str = "aode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot - week - svAccuracy satH1 tgdb1b3 tgdb2b3 t_tm aodc";
const BCNV1: &str = "adot crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 iscB1Cd - tgdB1Cp tgdB2ap sismai health integrityB1C iodc t_tm - - iode";
const BCNV2: &str = "adot crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 - iscB2ad tgdB1Cp tgdB2ap sismai health integrityB2aB1C iodc t_tm - - iode";
const BCNV3: &str = "adot crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 sismai health integrityB2b tgdB2bI t_tm";
pub const GEO: &str = "satPosX velX accelX health satPosY velY accelY accuracyCode satPosZ velZ accelZ iodn";

pub fn ts(sys: char) -> TimeScale {
    match sys {
        'G' | 'S' => TimeScale::GPST,
        'R' => TimeScale::UTC,
        'E' => TimeScale::GST,
        'C' => TimeScale::BDT,
        'J' => TimeScale::QZSST,
        _ => panic!(),
    }
}

/// one number in 19 columns; `zero` is written with an upper case exponent
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    E,
    D,
    LowE,
    /// leading point, as Fortran writes it
    FortD,
    FortLowE,
    LowD,
    FortLowD,
}
pub fn num(neg: bool, mant: u64, exp: i32, st: Style) -> String {
    // mant: 13 significant digits, first one not zero
    let m = format!("{mant:013}");
    let s = if neg { "-" } else { " " };
    let (c, fort) = match st {
        Style::E => ('E', false),
        Style::D => ('D', false),
        Style::LowE => ('e', false),
        Style::FortD => ('D', true),
        Style::FortLowE => ('e', true),
        Style::LowD => ('d', false),
        Style::FortLowD => ('d', true),
    };
    let ex = |e: i32| format!("{c}{}{:02}", if e < 0 { '-' } else { '+' }, e.abs());
    if fort {
        format!(" {s}.{}{}", &m[..12], ex(exp + 1))
    } else {
        format!("{s}{}.{}{}", &m[..1], &m[1..], ex(exp))
    }
}
pub fn draw_num(s: &mut Source, st: Style) -> String {
    let neg = s.chance(1, 2);
    let mant = s.range(1_000_000_000_000, 9_999_999_999_999) as u64;
    let exp = match s.us(4) {
        0 => s.range(-12, 8),
        1 => s.range(0, 9),
        2 => s.range(-19, -1),
        _ => *s.pick(&[0, -10, 10, -9]),
    } as i32;
    num(neg, mant, exp, st)
}
fn small_int(n: u64, st: Style) -> String {
    if n == 0 {
        // nulls are omitted in these two notations only
        return match st {
            Style::D | Style::FortD | Style::LowD | Style::FortLowD => " 0.000000000000D+00".into(),
            _ => " 0.000000000000E+00".into(),
        };
    }
    let d = n.to_string();
    let exp = d.len() as i32 - 1;
    let m: String = format!("{d:0<13}");
    num(false, m.parse().unwrap(), exp, st)
}
pub fn val(t: &str) -> f64 {
    let t = t.trim().replace('D', "E").replace('d', "E");
    t.parse().expect("reference writer produced a bad number")
}

fn health_gps(n: u64) -> &'static str {
    ["Unhealthy", "L1Healthy", "L2Healthy", "L1L2Healthy", "L5Healthy", "L1L5Healthy", "L2L5Healthy", "L1L2L5Healthy"][n as usize]
}

/// (text in 19 columns, canonical value)
fn field(s: &mut Source, sys: char, name: &str, st: Style) -> (String, Option<String>) {
    // omitted or unresolved
    if s.chance(1, 12) {
        return (" ".repeat(19), None);
    }
    if s.chance(1, 12) {
        // null is "not known", except for the first second of the week
        let v = if name == "toe" { Some(format!("f {}", fv(0.0))) } else { None };
        return (small_int(0, st), v);
    }
    match (sys, name) {
        (_, "week") => {
            let w = s.range(1, 4096) as u64;
            (small_int(w, st), Some(format!("u {w}")))
        },
        ('G', "health") => {
            let h = s.range(1, 7) as u64;
            (small_int(h, st), Some(format!("gps {}", health_gps(h))))
        },
        ('R', "health") | ('R', "almanacHealth") => (small_int(4, st), Some("glo Unhealthy".into())),
        ('S', "health") => (small_int(8, st), Some("geo Reserved".into())),
        ('E', "health") => {
            let h = s.range(1, 255) as u64;
            (small_int(h, st), Some(format!("bits {h}")))
        },
        ('R', "channel") => {
            let c = s.range(-7, 6);
            if c == 0 {
                return (small_int(0, st), None);
            }
            let mant = c.unsigned_abs() * 1_000_000_000_000;
            (num(c < 0, mant, 0, st), Some(format!("i {c}")))
        },
        ('R', "status") => {
            let n = *s.pick(&[1u64, 2, 3, 4, 6, 7, 8, 0x10, 0x20, 0x40, 0x61, 0x7f]);
            (small_int(n, st), Some(format!("bits {n}")))
        },
        _ => {
            let t = draw_num(s, st);
            let v = val(&t);
            (t, Some(format!("f {}", fv(v))))
        },
    }
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub major: u8,
    pub minor: u8,
    /// ' ' mixed
    pub sys: char,
    /// how type and system are spelled
    pub words: u8,
    pub blocks: Vec<Block>,
    pub span_s: f64,
    pub features: BTreeSet<String>,
}

pub fn date3(c: &Civil) -> String {
    format!("{:04} {:02} {:02} {:02} {:02} {:02}", c.y, c.m, c.d, c.hh, c.mm, c.ss)
}

pub fn draw(s: &mut Source, max_frames: usize, major: Option<u8>) -> Model {
    let mut m = Model { major: major.unwrap_or_else(|| *s.pick(&[3, 2, 4])), ..Default::default() };
    m.words = s.us(4) as u8;
    m.minor = match m.major {
        2 => *s.pick(&[10, 11]),
        3 => *s.pick(&[4, 2, 3, 5]),
        _ => 0,
    };
    m.sys = match m.major {
        2 => *s.pick(&['G', 'R']),
        3 if s.chance(1, 3) => *s.pick(&['G', 'R', 'E', 'C', 'J']),
        _ => ' ',
    };
    let st = match m.major {
        2 => *s.pick(&[Style::D, Style::FortD, Style::E, Style::LowD]),
        3 => *s.pick(&[Style::E, Style::D, Style::LowE, Style::FortLowE, Style::LowD, Style::FortD, Style::FortLowD]),
        _ => *s.pick(&[Style::E, Style::LowE, Style::D, Style::LowD, Style::FortLowE, Style::FortD]),
    };
    let trim = s.chance(1, 2);
    if trim {
        m.features.insert("trimmed".into());
    }
    let mut first = draw_start(s);
    if m.major == 2 {
        first.y = first.y.clamp(1980, 2078);
    }
    let mut t = to_ns(first);
    let t0 = t;
    let mut used: BTreeSet<String> = BTreeSet::new();
    for _ in 0..s.range(1, max_frames as i64) {
        // same instant, or later, or the log jumps back (frames of several receivers)
        t += match s.us(4) {
            0 => 0,
            1 => 7200,
            2 => s.range(1, 100_000) as i128,
            _ => {
                m.features.insert("out_of_order".into());
                -(s.range(0, 4000) as i128)
            },
        } * 1_000_000_000;
        if m.major == 2 && from_ns(t).y < 1980 {
            t += 8_000 * 1_000_000_000;
        }
        let sys = if m.sys != ' ' { m.sys } else { *s.pick(if m.major == 4 { &['G', 'R', 'E', 'C', 'J', 'S'] } else { &['G', 'R', 'E', 'C', 'J', 'S'] }) };
        let prn = if sys == 'S' { *s.pick(&[20u8, 23, 25, 28, 29, 31, 36]) } else { s.range(1, super::obs::max_prn(sys) as i64) as u8 };
        let c = from_ns(t);
        let (msg, frm, fields): (&str, &str, &str) = if m.major < 4 {
            let f = match sys {
                'G' => GPS,
                'J' => QZS,
                'R' => GLO,
                'E' => GAL,
                'C' => BDS3,
                _ => GEO,
            };
            ("LNAV", "EPH", f)
        } else {
            let k = s.us(10);
            if k == 7 {
                match sys {
                    'G' => ("LNAV", "STO", ""),
                    'R' => ("FDMA", "STO", ""),
                    'E' => ("IFNV", "STO", ""),
                    'C' => ("D1D2", "STO", ""),
                    'J' => ("LNAV", "STO", ""),
                    _ => ("SBAS", "STO", ""),
                }
            } else if k == 8 {
                match sys {
                    'C' => ("CNVX", "EOP", ""),
                    'G' => ("CNVX", "EOP", ""),
                    'J' => ("CNVX", "EOP", ""),
                    _ => ("LNAV", "EOP", ""),
                }
            } else if k == 9 {
                match sys {
                    'E' => ("IFNV", "ION", ""),
                    'C' if s.chance(1, 2) => ("CNVX", "ION", ""),
                    'C' => ("D1D2", "ION", ""),
                    'G' if s.chance(1, 2) => ("CNVX", "ION", ""),
                    _ => ("LNAV", "ION", ""),
                }
            } else {
                match sys {
                    'G' => *s.pick(&[("LNAV", "EPH", GPS), ("CNAV", "EPH", CNAV), ("CNV2", "EPH", CNV2)]),
                    'J' => *s.pick(&[("LNAV", "EPH", QZS), ("CNAV", "EPH", CNAV), ("CNV2", "EPH", CNV2)]),
                    'R' => ("FDMA", "EPH", FDMA),
                    'E' => *s.pick(&[("INAV", "EPH", GAL), ("FNAV", "EPH", GAL)]),
                    'C' => *s.pick(&[("D1", "EPH", D1), ("D2", "EPH", D1), ("CNV1", "EPH", BCNV1), ("CNV2", "EPH", BCNV2), ("CNV3", "EPH", BCNV3)]),
                    _ => ("SBAS", "EPH", GEO),
                }
            }
        };
        let name = format!("{sys}{prn:02}");
        let key = format!("{} {name} {msg} {frm}", c.key(ts(sys)));
        if !used.insert(key.clone()) {
            continue;
        }
        m.features.insert(format!("{sys}:{msg}:{frm}"));
        let mut b = Block::default();
        let off = if m.major < 3 { 3 } else { 4 };
        if m.major == 4 {
            b.lines.push(format!("> {frm} {name} {msg}"));
        }
        let mut item = |k: &str, v: String| b.items.push((format!("{key} {k}"), v));
        match frm {
            "EPH" => {
                let clk: Vec<String> = (0..3).map(|i| if s.chance(1, 8) || (sys == 'S' && i == 2) { small_int(if sys == 'S' && i == 2 { s.range(1, 604_800) as u64 } else { 0 }, st) } else { draw_num(s, st) }).collect();
                let head = match m.major {
                    2 => format!("{:>2} {:02} {:>2} {:>2} {:>2} {:>2}{:>3}.0", prn, c.y % 100, c.m, c.d, c.hh, c.mm, c.ss),
                    _ => format!("{name} {}", date3(&c)),
                };
                item("bias", fv(val(&clk[0])));
                item("drift", fv(val(&clk[1])));
                if sys != 'S' {
                    item("rate", fv(val(&clk[2])));
                }
                b.lines.push(format!("{head}{}", clk.concat()));
                let names: Vec<&str> = fields.split(' ').collect();
                let qz = sys == 'J';
                for (k, ch) in names.chunks(4).enumerate() {
                    let mut l = " ".repeat(off);
                    for n in ch {
                        if *n == "-" {
                            // spare: blank, or a number nobody defined
                            l.push_str(&match s.us(3) {
                                0 => " ".repeat(19),
                                1 => small_int(0, st),
                                _ => draw_num(s, st),
                            });
                            continue;
                        }
                        let eff = if qz && *n == "health" || sys == 'C' && *n == "health" { "plain" } else { n };
                        let (t, v) = field(s, sys, eff, st);
                        l.push_str(&t);
                        if let Some(v) = v {
                            b.items.push((format!("{key} orb {n}"), v));
                        }
                    }
                    if trim {
                        l = l.trim_end().to_string();
                    }
                    let _ = k;
                    b.lines.push(l);
                }
            },
            "STO" => {
                let sysid = match sys {
                    'G' => "GPUT",
                    'R' => "GLUT",
                    'E' => "GAUT",
                    'C' => "BDUT",
                    'J' => "QZUT",
                    _ => "SBUT",
                };
                let utc = *s.pick(&["UTC(USNO)", "UTCGAL", "UTC(SU)", "UTC(NTSC)"]);
                let a: Vec<String> = (0..3).map(|_| draw_num(s, st)).collect();
                let tm = s.range(1, 604_799) as u64;
                b.lines.push(format!("    {} {sysid:<18} {:<18} {utc}", date3(&c), ""));
                b.lines.push(format!("    {}{}", a.concat(), small_int(tm, st)));
                for (i, x) in a.iter().enumerate() {
                    b.items.push((format!("{key} a{i}"), fv(val(x))));
                }
                b.items.push((format!("{key} sys"), sysid.into()));
                b.items.push((format!("{key} utc"), utc.into()));
                b.items.push((format!("{key} t_tm"), tm.to_string()));
            },
            "EOP" => {
                let a: Vec<String> = (0..9).map(|_| draw_num(s, st)).collect();
                let tm = s.range(1, 604_799) as u64;
                b.lines.push(format!("    {}{}", date3(&c), a[0..3].concat()));
                b.lines.push(format!("    {}{}", " ".repeat(19), a[3..6].concat()));
                b.lines.push(format!("    {}{}", small_int(tm, st), a[6..9].concat()));
                for (i, x) in a.iter().enumerate() {
                    b.items.push((format!("{key} e{i}"), fv(val(x))));
                }
                b.items.push((format!("{key} t_tm"), tm.to_string()));
            },
            _ => {
                let kind = match (sys, msg) {
                    ('E', "IFNV") => "ng",
                    ('C', "CNVX") => "bd",
                    _ => "kb",
                };
                let n = match kind {
                    "ng" => 3,
                    "bd" => 9,
                    _ => 8,
                };
                let a: Vec<String> = (0..n).map(|_| draw_num(s, st)).collect();
                b.lines.push(format!("    {}{}", date3(&c), a[0..3].concat()));
                match kind {
                    "ng" => {
                        let r = s.range(0, 31) as u64;
                        b.lines.push(format!("    {}", small_int(r, st)));
                        b.items.push((format!("{key} region"), r.to_string()));
                    },
                    "bd" => {
                        b.lines.push(format!("    {}", a[3..7].concat()));
                        b.lines.push(format!("    {}", a[7..9].concat()));
                    },
                    _ => {
                        b.lines.push(format!("    {}", a[3..7].concat()));
                        let r = s.range(0, 1) as u64;
                        let region = if s.chance(1, 3) { String::new() } else { small_int(r, st) };
                        b.items.push((format!("{key} region"), if region.is_empty() || r == 0 { "Worldwide".into() } else { "Japan".into() }));
                        b.lines.push(format!("    {}{}", a[7], region));
                    },
                }
                for (i, x) in a.iter().enumerate() {
                    b.items.push((format!("{key} {kind}{i}"), fv(val(x))));
                }
            },
        }
        m.blocks.push(b);
    }
    m.span_s = (t - t0).abs() as f64 / 1e9;
    m
}
impl Model {
    pub fn doc(&self) -> Doc {
        let mut h = vec![];
        let (ty, sys) = match (self.major, self.sys) {
            (2, 'G') => ("N: GPS NAV DATA", ""),
            (2, _) => ("G: GLONASS NAV DATA", ""),
            (_, ' ') => ("NAVIGATION DATA", "M (MIXED)"),
            (_, 'G') => ("NAVIGATION DATA", "G: GPS"),
            (_, 'R') => ("NAVIGATION DATA", "R: GLONASS"),
            (_, 'E') => ("NAVIGATION DATA", "E: GALILEO"),
            (_, 'C') => ("NAVIGATION DATA", "C: BEIDOU"),
            _ => ("NAVIGATION DATA", "J: QZSS"),
        };
        // the letter, that words may follow
        let sys: String = if self.words % 2 == 1 { sys.to_string() } else { sys.chars().take(1).collect() };
        let ty = if self.major == 2 {
            ty
        } else {
            match self.words {
                2 => "N: GNSS NAV DATA",
                3 => "N",
                _ => ty,
            }
        };
        h.push(hl(&format!("{:6}.{:02}           {ty:<20}{sys:<20}", self.major, self.minor), "RINEX VERSION / TYPE"));
        h.push(hl(&format!("{:<20}{:<20}{:<20}", "SIMNAV", "SIMLAB", "20240101 000000 UTC"), "PGM / RUN BY / DATE"));
        h.push(hl("    18", "LEAP SECONDS"));
        h.push(hl("", "END OF HEADER"));
        Doc {
            kind: match self.major {
                2 => "NAV2",
                3 => "NAV3",
                _ => "NAV4",
            },
            header: h,
            blocks: self.blocks.clone(),
            span_s: self.span_s,
            eol: "\n",
            final_eol: true,
            features: self.features.iter().cloned().chain([format!("v{}", self.major)]).collect(),
            ..Default::default()
        }
    }
}

fn orbit(o: &OrbitItem) -> String {
    match o {
        OrbitItem::F64(f) => format!("f {}", fv(*f)),
        OrbitItem::U32(u) => format!("u {u}"),
        OrbitItem::U8(u) => format!("u {u}"),
        OrbitItem::I8(i) => format!("i {i}"),
        OrbitItem::Health(h) => format!(
            "gps {}",
            match h {
                Health::Unhealthy => "Unhealthy",
                Health::L1Healthy => "L1Healthy",
                Health::L2Healthy => "L2Healthy",
                Health::L1L2Healthy => "L1L2Healthy",
                Health::L5Healthy => "L5Healthy",
                Health::L1L5Healthy => "L1L5Healthy",
                Health::L2L5Healthy => "L2L5Healthy",
                Health::L1L2L5Healthy => "L1L2L5Healthy",
            }
        ),
        OrbitItem::GloHealth(h) => format!("glo {}", if *h == GloHealth::Healthy { "Healthy" } else { "Unhealthy" }),
        OrbitItem::GeoHealth(h) => format!("geo {}", if *h == GeoHealth::Reserved { "Reserved" } else { "Unknown" }),
        OrbitItem::GalHealth(h) => format!("bits {}", h.bits()),
        OrbitItem::GloStatus(h) => format!("bits {}", h.bits()),
        OrbitItem::IrnssHealth(h) => format!("irn {h:?}"),
    }
}
pub fn dump_into(rec: &NavRecord, d: &mut Dump) {
    for (k, f) in rec.iter() {
        let key = format!("{} {:x} {} {}", ekey(k.epoch), k.sv, k.msgtype, k.frmtype);
        let sbas = k.sv.constellation.is_sbas();
        match f {
            NavFrame::EPH(e) => {
                put(d, format!("{key} bias"), fv(e.clock_bias));
                put(d, format!("{key} drift"), fv(e.clock_drift));
                if !sbas {
                    put(d, format!("{key} rate"), fv(e.clock_drift_rate));
                }
                for (n, o) in &e.orbits {
                    if sbas && n == "week" {
                        continue;
                    }
                    put(d, format!("{key} orb {n}"), orbit(o));
                }
            },
            NavFrame::STO(t) => {
                for (i, x) in [t.a.0, t.a.1, t.a.2].iter().enumerate() {
                    put(d, format!("{key} a{i}"), fv(*x));
                }
                put(d, format!("{key} sys"), t.system.clone());
                put(d, format!("{key} utc"), t.utc.clone());
                put(d, format!("{key} t_tm"), t.t_tm.to_string());
            },
            NavFrame::EOP(t) => {
                for (i, x) in [t.x.0, t.x.1, t.x.2, t.y.0, t.y.1, t.y.2, t.delta_ut1.0, t.delta_ut1.1, t.delta_ut1.2].iter().enumerate() {
                    put(d, format!("{key} e{i}"), fv(*x));
                }
                put(d, format!("{key} t_tm"), t.t_tm.to_string());
            },
            NavFrame::ION(m) => match m {
                IonosphereModel::Klobuchar(m) => {
                    for (i, x) in [m.alpha.0, m.alpha.1, m.alpha.2, m.alpha.3, m.beta.0, m.beta.1, m.beta.2, m.beta.3].iter().enumerate() {
                        put(d, format!("{key} kb{i}"), fv(*x));
                    }
                    put(d, format!("{key} region"), format!("{:?}", m.region));
                },
                IonosphereModel::NequickG(m) => {
                    for (i, x) in [m.a.0, m.a.1, m.a.2].iter().enumerate() {
                        put(d, format!("{key} ng{i}"), fv(*x));
                    }
                    put(d, format!("{key} region"), m.region.bits().to_string());
                },
                IonosphereModel::Bdgim(m) => {
                    let a = m.alpha;
                    for (i, x) in [a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8].iter().enumerate() {
                        put(d, format!("{key} bd{i}"), fv(*x));
                    }
                },
            },
        }
    }
}
