//! A broadcast service: satellites upload ephemerides, ground receivers log
//! some of them, late, twice, or not at all.
use super::nav;
use super::*;

#[derive(Clone, Debug, Default)]
pub struct Frame {
    pub sys: char,
    pub prn: u8,
    pub msg: &'static str,
    pub toc_ns: i128,
    /// week and seconds on the time scale of the constellation
    pub week: u32,
    pub toe_s: u32,
    /// clock polynomial, then orbit fields: what a reader decodes
    pub clk: [f64; 3],
    pub f: Vec<(&'static str, f64)>,
    clk_text: [String; 3],
    f_text: Vec<String>,
    /// a message that is no orbit (or has no reference week), sent along
    beside: Vec<String>,
    /// its clock, when it has one
    pub beside_clk: Option<[f64; 3]>,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub major: u8,
    pub frames: Vec<Frame>,
    pub sats: Vec<(char, u8)>,
    pub start_ns: i128,
    pub leap: bool,
    pub end_ns: i128,
    pub missed: u64,
    pub late: u64,
    pub repeated: u64,
    pub rollover: u64,
}

/// E19.12 as a broadcast message carries it, and what it reads back as
pub fn e19(v: f64) -> (String, f64) {
    let t = format!("{v:.12e}");
    let (m, e) = t.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let s = format!("{m}E{}{:02}", if e < 0 { '-' } else { '+' }, e.abs());
    let s = format!("{s:>19}");
    let b = nav::val(&s);
    (s, b)
}
/// uniform in [lo, hi], never null
fn unif(s: &mut Source, lo: f64, hi: f64) -> f64 {
    let x = s.range(0, 2_000_000) as f64 / 2_000_000.0;
    let v = lo + (hi - lo) * x;
    if v.abs() < 1e-300 {
        hi
    } else {
        v
    }
}
pub fn gps_epoch_ns() -> i128 {
    to_ns(Civil { y: 1980, m: 1, d: 6, hh: 0, mm: 0, ss: 0, ns: 0 })
}
pub fn week_zero_ns(sys: char) -> i128 {
    if sys == 'C' {
        to_ns(Civil { y: 2006, m: 1, d: 1, hh: 0, mm: 0, ss: 0, ns: 0 })
    } else {
        gps_epoch_ns()
    }
}
pub fn validity_s(sys: char) -> i64 {
    match sys {
        'E' => 10800,
        'C' => 21600,
        _ => 7200,
    }
}
/// BeiDou: the geostationary vehicles
pub fn geo(sys: char, prn: u8) -> bool {
    sys == 'C' && (prn < 6 || prn > 58)
}
const S: i128 = 1_000_000_000;
const WEEK: i128 = 604_800 * S;

pub fn draw(s: &mut Source, max_sats: i64) -> Model {
    let mut m = Model { major: *s.pick(&[3u8, 4, 2]), ..Default::default() };
    let pool: &[char] = if m.major == 2 { &['G'] } else { &['G', 'E', 'C', 'J', 'S'] };
    for _ in 0..s.range(1, max_sats) {
        let sys = *s.pick(pool);
        let prn = match sys {
            'S' => *s.pick(&[20u8, 23, 25, 36]),
            // geostationary, medium orbits
            'C' if s.chance(1, 4) => *s.pick(&[1u8, 2, 3, 4, 5, 59, 60, 61]),
            'C' => s.range(6, 46) as u8,
            _ => s.range(1, super::obs::max_prn(sys) as i64) as u8,
        };
        if !m.sats.contains(&(sys, prn)) {
            m.sats.push((sys, prn));
        }
    }
    // near a week boundary, where the seconds of week start again, or anywhere
    let d = draw_start(s);
    let mut t0 = to_ns(Civil { hh: 0, mm: 0, ss: 0, y: d.y.clamp(2007, 2037), ..d });
    if s.chance(1, 2) {
        t0 = gps_epoch_ns() + (t0 - gps_epoch_ns()) / WEEK * WEEK - s.range(0, 4) as i128 * 3600 * S;
    }
    if s.chance(1, 6) {
        // a leap second comes in the middle of the run
        let (y, mo, dd) = *s.pick(&[(2008, 12, 31), (2012, 6, 30), (2015, 6, 30), (2016, 12, 31)]);
        t0 = to_ns(Civil { y, m: mo, d: dd, hh: 24 - s.range(1, 6) as u8, mm: 0, ss: 0, ns: 0 });
        m.leap = true;
    }
    m.start_ns = t0;
    let hours = s.range(2, 26);
    m.end_ns = t0 + hours as i128 * 3600 * S;
    for (sys, prn) in m.sats.clone() {
        let period = match sys {
            'E' => *s.pick(&[600i64, 1800, 3600]),
            'S' => *s.pick(&[240i64, 3600, 14400]),
            'C' => 3600,
            _ => 7200,
        };
        let a = match sys {
            'E' => 29_600_000.0,
            'C' if geo(sys, prn) => 42_164_000.0,
            'C' => 27_906_000.0,
            'J' => 42_164_000.0,
            _ => 26_560_000.0,
        } + unif(s, -60_000.0, 60_000.0);
        let ecc = unif(s, 0.0002, if sys == 'J' { 0.08 } else { 0.025 });
        let i0 = if geo(sys, prn) { unif(s, 0.01, 0.12) } else { unif(s, 0.9, 1.0) };
        let om0 = unif(s, -3.1, 3.1);
        let om = unif(s, -3.1, 3.1);
        let n0 = (3.986_005e14 / (a * a * a)).sqrt();
        let m0 = unif(s, -3.1, 3.1);
        let odot = unif(s, -8.6e-9, -7.0e-9);
        let msg = if m.major < 4 {
            "LNAV"
        } else {
            match sys {
                'E' => *s.pick(&["INAV", "FNAV"]),
                'C' if geo(sys, prn) => "D2",
                'C' => "D1",
                'S' => "SBAS",
                _ => "LNAV",
            }
        };
        let a0 = unif(s, -9e-4, 9e-4);
        let a1 = unif(s, -9e-11, 9e-11);
        let mut t = t0 + if s.chance(1, 3) { s.range(0, 7199) as i128 / 16 * 16 * S } else { 0 };
        let mut prev: Option<Frame> = None;
        let mut n = 0;
        while t < m.end_ns && n < 40 {
            n += 1;
            if s.chance(1, 6) {
                m.missed += 1;
                t += period as i128 * S;
                continue;
            }
            let mut f = Frame { sys, prn, msg, toc_ns: t, ..Default::default() };
            if let (Some(p), true) = (&prev, s.chance(1, 8)) {
                // the previous data set under a new reference time of the clock
                m.repeated += 1;
                f = Frame { toc_ns: t, ..p.clone() };
            } else {
                // the reference time of the orbit is not always that of the clock
                let toe = t + match s.us(6) {
                    1 => 16 * S,
                    2 => -16 * S,
                    3 => -(s.range(1, 200) as i128) * 16 * S,
                    4 => s.range(1, 200) as i128 * 16 * S,
                    _ => 0,
                };
                let w = toe - week_zero_ns(sys);
                f.week = (w / WEEK) as u32;
                f.toe_s = ((w % WEEK) / S) as u32;
                if f.toe_s == 0 {
                    m.rollover += 1;
                }
                let dt = ((toe - t0) / S) as f64;
                let vals: Vec<(&'static str, f64)> = if sys == 'S' {
                    let r = 42_164.0;
                    let l = om0 + unif(s, -0.001, 0.001);
                    vec![
                        ("satPosX", r * l.cos()),
                        ("velX", unif(s, -0.001, 0.001)),
                        ("accelX", unif(s, -1e-7, 1e-7)),
                        ("health", 0.0),
                        ("satPosY", r * l.sin()),
                        ("velY", unif(s, -0.001, 0.001)),
                        ("accelY", unif(s, -1e-7, 1e-7)),
                        ("accuracyCode", 4.0),
                        ("satPosZ", unif(s, -20.0, 20.0)),
                        ("velZ", unif(s, -0.001, 0.001)),
                        ("accelZ", unif(s, -1e-7, 1e-7)),
                        ("iodn", s.range(1, 200) as f64),
                    ]
                } else {
                    let names: Vec<&'static str> = match sys {
                        'E' => nav::GAL,
                        'C' if m.major == 4 => nav::D1,
                        'C' => nav::BDS3,
                        _ => nav::GPS,
                    }
                    .split(' ')
                    .collect();
                    names
                        .into_iter()
                        .map(|k| {
                            let v = match k {
                                "crs" | "crc" => unif(s, -400.0, 400.0),
                                "deltaN" => unif(s, 3.0e-9, 6.0e-9),
                                "m0" => (m0 + n0 * dt + 3.0).rem_euclid(6.283_185) - 3.1,
                                "cuc" | "cus" => unif(s, -1.2e-5, 1.2e-5),
                                "cic" | "cis" => unif(s, -3e-7, 3e-7),
                                "e" => ecc,
                                "sqrta" => a.sqrt(),
                                "toe" => f.toe_s as f64,
                                "omega0" => om0 + odot * dt,
                                "i0" => i0,
                                "omega" => om,
                                "omegaDot" => odot,
                                "idot" => unif(s, -6e-10, 6e-10),
                                "week" => f.week as f64,
                                "tgd" | "tgdb1b3" | "tgd1b1b3" | "bgdE5aE1" => unif(s, -2e-8, 2e-8),
                                "health" | "-" => 0.0,
                                _ => s.range(1, 80) as f64,
                            };
                            (k, v)
                        })
                        .collect()
                };
                for (k, v) in vals {
                    let (t, v) = e19(v);
                    f.f.push((k, v));
                    f.f_text.push(t);
                }
            }
            // the clock identifies the message
            let c = [a0 + a1 * ((t - t0) / S) as f64 + unif(s, -1e-8, 1e-8), a1, if s.chance(1, 3) { unif(s, -1e-17, 1e-17) } else { 0.0 }];
            let c = if sys == 'S' { [c[0], c[1], ((t - gps_epoch_ns()) % WEEK / S) as f64] } else { c };
            for i in 0..3 {
                let (t, v) = e19(c[i]);
                f.clk_text[i] = t;
                f.clk[i] = v;
            }
            prev = Some(f.clone());
            m.frames.push(f);
            t += period as i128 * S;
        }
    }
    if m.frames.is_empty() {
        return draw(s, max_sats);
    }
    // modernized messages, system times and Earth orientations travel along
    if m.major == 4 && s.chance(1, 2) {
        for f in m.frames.iter_mut() {
            if !s.chance(1, 3) {
                continue;
            }
            let mut num = |n: usize| -> Vec<(String, f64)> { (0..n).map(|_| e19(unif(s, -1e-3, 1e-3))).collect() };
            let cat = |v: &[(String, f64)]| v.iter().map(|x| x.0.as_str()).collect::<String>();
            let date = nav::date3(&from_ns(f.toc_ns));
            let eph = match f.sys {
                'G' | 'J' => Some((["CNAV", "CNV2"], [8, 9])),
                'C' => Some((["CNV1", "CNV3"], [9, 8])),
                _ => None,
            };
            let k = (f.toc_ns / S / 7200) as usize;
            match (k % 3, eph) {
                (0 | 1, Some((names, sizes))) => {
                    let clk = num(3);
                    let mut b = vec![format!("> EPH {} {}", f.sat(), names[k % 3]), format!("{} {date}{}", f.sat(), cat(&clk))];
                    for _ in 0..sizes[k % 3] {
                        b.push(format!("    {}", cat(&num(4))));
                    }
                    f.beside = b;
                    f.beside_clk = Some([clk[0].1, clk[1].1, clk[2].1]);
                },
                (0, None) => {
                    f.beside = vec![format!("> STO {} {}", f.sat(), f.msg), format!("    {date} GPUT"), format!("    {}", cat(&num(4)))];
                    let (t, _) = e19(3600.0);
                    f.beside[2] = format!("    {t}{}", cat(&num(3)));
                },
                _ => {
                    f.beside = vec![
                        format!("> EOP {} {}", f.sat(), f.msg),
                        format!("    {date}{}", cat(&num(3))),
                        format!("    {}{}", " ".repeat(19), cat(&num(3))),
                        format!("    {}{}", e19(3600.0).0, cat(&num(3))),
                    ];
                },
            }
        }
    }
    // receivers forward what they have, when they have it
    m.frames.sort_by_key(|f| (f.toc_ns, f.sys, f.prn));
    let n = m.frames.len();
    for _ in 0..s.range(0, 6) {
        let (i, j) = (s.us(n), s.us(n));
        if i != j {
            let f = m.frames.remove(i);
            m.frames.insert(j, f);
            m.late += 1;
        }
    }
    m
}

impl Frame {
    pub fn sat(&self) -> String {
        format!("{}{:02}", self.sys, self.prn)
    }
    pub fn get(&self, k: &str) -> f64 {
        self.f.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0.0)
    }
    fn lines(&self, major: u8) -> Vec<String> {
        let c = from_ns(self.toc_ns);
        let mut out = vec![];
        if major == 4 {
            out.push(format!("> EPH {} {}", self.sat(), self.msg));
        }
        let head = match major {
            2 => format!("{:>2} {:02} {:>2} {:>2} {:>2} {:>2}{:>3}.0", self.prn, c.y % 100, c.m, c.d, c.hh, c.mm, c.ss),
            _ => format!("{} {}", self.sat(), nav::date3(&c)),
        };
        out.push(format!("{head}{}", self.clk_text.concat()));
        for ch in self.f_text.chunks(4) {
            out.push(format!("{}{}", " ".repeat(if major < 3 { 3 } else { 4 }), ch.concat()));
        }
        out
    }
}
impl Model {
    pub fn doc(&self) -> Doc {
        let m = nav::Model {
            major: self.major,
            minor: if self.major == 2 { 11 } else if self.major == 3 { 4 } else { 0 },
            sys: if self.major == 2 { 'G' } else { ' ' },
            words: (self.frames.len() % 4) as u8,
            blocks: self.frames.iter().flat_map(|f| [f.lines(self.major), f.beside.clone()]).filter(|l| !l.is_empty()).map(|lines| Block { lines, ..Default::default() }).collect(),
            span_s: ((self.end_ns - self.start_ns) / S) as f64,
            features: self.sats.iter().map(|s| format!("sat {}", s.0)).collect(),
        };
        m.doc()
    }
}
