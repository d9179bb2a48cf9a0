//! A GNSS receiver logging observations, and reference writers for V2, V3, V4.
use super::*;
use rinex::observation::{LliFlags, Record as ObsRecord, SNR};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Sat {
    pub sys: char,
    pub prn: u8,
}
impl Sat {
    pub fn s(&self) -> String {
        format!("{}{:02}", self.sys, self.prn)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Val {
    pub milli: i64,
    pub lli: Option<u8>,
    pub snr: Option<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Ep {
    pub t_ns: i128,
    pub flag: u8,
    /// receiver clock offset in 1e-12 s (V3) or 1e-9 s (V2)
    pub clock: Option<i64>,
    pub sats: Vec<(Sat, Vec<Option<Val>>)>,
    /// records that follow an event (flags 2 to 5)
    pub special: Vec<String>,
    /// V2: the instant of an event may be left blank
    pub blank_date: bool,
}
impl Ep {
    pub fn is_special(&self) -> bool {
        (2..=5).contains(&self.flag)
    }
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub major: u8,
    pub minor: u8,
    /// ' ' for mixed
    pub sys: char,
    pub codes: Vec<(char, Vec<String>)>,
    pub ts: &'static str,
    pub first: Option<Civil>,
    pub interval_s: f64,
    pub eps: Vec<Ep>,
    pub has_clock: bool,
    /// trailing blanks of body lines removed
    pub trim: bool,
    /// V2 only: satellites of a single-system file named by number alone
    pub blank_sys: bool,
    /// words that follow the letter of the system
    pub sys_words: u8,
}

pub fn ts_of(name: &str) -> TimeScale {
    match name {
        "GPS" => TimeScale::GPST,
        "GAL" => TimeScale::GST,
        "BDT" => TimeScale::BDT,
        "QZS" => TimeScale::QZSST,
        "UTC" | "GLO" => TimeScale::UTC,
        _ => panic!("{name}"),
    }
}
fn mono_ts(sys: char) -> &'static str {
    match sys {
        'G' | 'S' => "GPS",
        'E' => "GAL",
        'C' => "BDT",
        'J' => "QZS",
        'R' => "GLO",
        _ => panic!(),
    }
}

const V2_CODES: [&str; 26] = ["C1", "L1", "L2", "P2", "P1", "S1", "S2", "D1", "D2", "C2", "C5", "L5", "S5", "D5", "C7", "L7", "S7", "D7", "C8", "L8", "S8", "D8", "C6", "L6", "S6", "D6"];
fn v3_codes(sys: char) -> Vec<&'static str> {
    match sys {
        'G' => vec!["C1C", "L1C", "D1C", "S1C", "C2W", "L2W", "D2W", "S2W", "C2L", "L2L", "D2L", "S2L", "C5Q", "L5Q", "D5Q", "S5Q", "C1W", "L1W", "S1W", "C2S", "L2S", "S2S", "C5X", "L5X", "S5X", "C2X", "L2X", "S2X"],
        'R' => vec!["C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P", "C2P", "L2P", "D2P", "S2P", "C2C", "L2C", "D2C", "S2C"],
        'E' => vec!["C1C", "L1C", "D1C", "S1C", "C5Q", "L5Q", "D5Q", "S5Q", "C7Q", "L7Q", "D7Q", "S7Q", "C8Q", "L8Q", "S8Q", "C6C", "L6C"],
        'C' => vec!["C2I", "L2I", "D2I", "S2I", "C7I", "L7I", "D7I", "S7I", "C6I", "L6I", "S6I", "C1P", "L1P", "C5P", "L5P"],
        'J' => vec!["C1C", "L1C", "S1C", "C2L", "L2L", "S2L", "C5Q", "L5Q"],
        'S' => vec!["C1C", "L1C", "D1C", "S1C", "C5I", "L5I", "S5I"],
        'I' => vec!["C5A", "L5A", "D5A", "S5A"],
        _ => panic!(),
    }
}
/// every signal of the published tables: band and tracking mode
pub fn bands(sys: char) -> &'static [&'static str] {
    match sys {
        'G' => &["1C", "1S", "1L", "1X", "1P", "1W", "1Y", "1M", "1N", "2C", "2D", "2S", "2L", "2X", "2P", "2W", "2Y", "2M", "2N", "5I", "5Q", "5X"],
        'R' => &["1C", "1P", "4A", "4B", "4X", "2C", "2P", "6A", "6B", "6X", "3I", "3Q", "3X"],
        'E' => &["1A", "1B", "1C", "1X", "1Z", "5I", "5Q", "5X", "7I", "7Q", "7X", "8I", "8Q", "8X", "6A", "6B", "6C", "6X", "6Z"],
        'C' => &["2I", "2Q", "2X", "1D", "1P", "1X", "1S", "1L", "1Z", "5D", "5P", "5X", "7I", "7Q", "7X", "7D", "7P", "7Z", "8D", "8P", "8X", "6I", "6Q", "6X", "6D", "6P", "6Z"],
        'J' => &["1C", "1S", "1L", "1X", "1Z", "1B", "2S", "2L", "2X", "5I", "5Q", "5X", "5D", "5P", "5Z", "6S", "6L", "6X", "6E", "6Z"],
        'S' => &["1C", "5I", "5Q", "5X"],
        'I' => &["5A", "5B", "5C", "5X", "9A", "9B", "9C", "9X"],
        _ => panic!(),
    }
}
fn wide_codes(s: &mut Source, sys: char) -> Vec<String> {
    let n = s.range(2, 24) as usize;
    let mut v: Vec<String> = vec![];
    // a few bands, most of their kinds: receivers report code and phase of a signal
    for _ in 0..n {
        let b = *s.pick(bands(sys));
        let all = s.chance(1, 2);
        for k in ["C", "L", "D", "S"] {
            if (k == "C" && b.ends_with('N')) || v.len() >= 28 {
                continue;
            }
            let c = format!("{k}{b}");
            if (all || s.chance(1, 2)) && !v.contains(&c) {
                v.push(c);
            }
        }
    }
    if v.is_empty() {
        v.push(format!("L{}", bands(sys)[0]));
    }
    v
}
pub fn max_prn(sys: char) -> u8 {
    match sys {
        'G' => 32,
        'R' => 24,
        'E' => 36,
        'C' => 60,
        'J' => 9,
        'S' => 58,
        'I' => 14,
        _ => panic!(),
    }
}
/// SBAS numbers that appear in the vehicle database in use and some that do not
const SBAS: [u8; 8] = [20, 23, 25, 28, 29, 31, 36, 5];

#[derive(Clone, Copy)]
pub struct Opt {
    pub max_epochs: usize,
    pub major: Option<u8>,
    pub sub_second: bool,
    pub events: bool,
    /// V2 body lines with trailing blanks removed (known finding of the library)
    pub trim_v2: bool,
    /// events that carry records instead of observations
    pub specials: bool,
    /// the first signal of a satellite is never missing
    pub first_signal: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { max_epochs: 12, major: None, sub_second: true, events: true, trim_v2: false, specials: false, first_signal: false }
    }
}

pub fn draw(s: &mut Source, o: Opt) -> Model {
    let mut m = Model::default();
    m.major = o.major.unwrap_or_else(|| *s.pick(&[3, 2, 4]));
    m.minor = match m.major {
        2 => *s.pick(&[11, 10]),
        3 => *s.pick(&[4, 2, 3, 5]),
        _ => 0,
    };
    let mono = s.chance(1, 3);
    let all: &[char] = if m.major == 2 { &['G', 'R', 'S', 'E'] } else { &['G', 'R', 'E', 'C', 'J', 'S', 'I'] };
    let systems: Vec<char>;
    if mono {
        let pool: &[char] = if m.major == 2 { &['G', 'R', 'E'] } else { &['G', 'R', 'E', 'C', 'J'] };
        m.sys = *s.pick(pool);
        m.ts = mono_ts(m.sys);
        systems = vec![m.sys];
    } else {
        m.sys = ' ';
        m.ts = *s.pick(if m.major == 2 { &["GPS"][..] } else { &["GPS", "GAL", "BDT", "QZS", "GLO"] });
        let mut v = s.subset(all, 1, 2);
        v.sort();
        systems = v;
    }
    m.sys_words = s.us(4) as u8;
    if m.major == 2 {
        let n = match s.us(4) {
            0 => s.range(1, 5),
            1 => s.range(5, 6),
            2 => s.range(7, 11),
            _ => if s.chance(1, 2) { s.range(8, 16) } else { s.range(10, 26) },
        } as usize;
        let start = if s.chance(1, 2) { 0 } else { s.us(V2_CODES.len()) };
        let list: Vec<String> = (0..n).map(|i| V2_CODES[(start + i) % V2_CODES.len()].to_string()).collect();
        for c in &systems {
            m.codes.push((*c, list.clone()));
        }
        m.blank_sys = mono && s.chance(1, 3);
    } else {
        let wide = s.chance(1, 4);
        for c in &systems {
            if wide {
                let v = wide_codes(s, *c);
                m.codes.push((*c, v));
                continue;
            }
            let pool = v3_codes(*c);
            let n = match s.us(4) {
                0 => s.range(1, 4),
                1 => s.range(1, 8),
                2 => s.range(12, 14),
                _ => s.range(1, 28),
            } as usize;
            let n = n.min(pool.len());
            let start = s.us(pool.len());
            m.codes.push((*c, (0..n).map(|i| pool[(start + i) % pool.len()].to_string()).collect()));
        }
    }
    let mut first = draw_start(s);
    if m.major == 2 {
        // two digit years
        first.y = first.y.clamp(1980, 2078);
    }
    let fast = o.sub_second && s.chance(1, 5);
    let step: i128 = if fast { *s.pick(&[100_000_000, 50_000_000, 200_000_000, 1_000_000]) } else { *s.pick(&[30, 1, 15, 900]) * 1_000_000_000 };
    m.interval_s = step as f64 / 1e9;
    m.has_clock = s.chance(1, 3);
    m.trim = if m.major == 2 { o.trim_v2 && s.chance(1, 6) } else { s.chance(1, 2) };
    // the sky: a population of satellites per system
    let mut pop: Vec<(Sat, bool, Vec<i64>)> = vec![];
    // everything that flies
    let crowded = s.chance(1, 60);
    for (c, codes) in &m.codes {
        let n = match s.us(4) {
            _ if crowded => s.range(20, 60),
            0 => s.range(1, 3),
            1 => s.range(3, 8),
            2 => s.range(8, 14),
            _ => s.range(1, 14),
        } as usize;
        let mut prns: Vec<u8> = vec![];
        for _ in 0..n {
            let p = if *c == 'S' { *s.pick(&SBAS) } else { s.range(1, max_prn(*c) as i64) as u8 };
            if !prns.contains(&p) {
                prns.push(p);
            }
        }
        for p in prns {
            let up = s.chance(2, 3);
            let base: Vec<i64> = codes.iter().map(|c| draw_base(s, c)).collect();
            pop.push((Sat { sys: *c, prn: p }, up, base));
        }
    }
    pop.sort_by_key(|p| p.0);
    let n_ep = s.range(1, o.max_epochs as i64) as usize;
    let mut t = to_ns(first);
    let offset = if s.chance(1, 6) { *s.pick(&[100i128, 900, 5_000_000, 999_999_900]) } else { 0 };
    for _ in 0..n_ep {
        if o.specials && s.chance(1, 8) {
            let mut ev = draw_special(s, t + offset);
            ev.blank_date = m.major == 2 && s.chance(1, 3);
            m.eps.push(ev);
        }
        let mut ep = Ep { t_ns: t + offset, ..Default::default() };
        if o.events && s.chance(1, 10) {
            ep.flag = *s.pick(&[1, 6]);
        }
        if m.has_clock && !s.chance(1, 4) {
            ep.clock = Some(if m.major == 2 && s.chance(1, 6) { s.range(-9_999_999_999, 99_999_999_999) } else if m.major == 2 { s.range(-999_999_999, 999_999_999) } else if s.chance(1, 6) { s.range(-9_999_999_999_999, 99_999_999_999_999) } else { s.range(-99_999_999_999, 99_999_999_999) });
        }
        for (sat, up, base) in pop.iter_mut() {
            // rising and setting
            if s.chance(1, 6) {
                *up = !*up;
            }
            if !*up {
                continue;
            }
            let mut vals: Vec<Option<Val>> = vec![];
            let codes = &m.codes.iter().find(|c| c.0 == sat.sys).unwrap().1;
            for (i, c) in codes.iter().enumerate() {
                base[i] = drift(s, base[i], c);
                if s.chance(1, 7) && !(o.first_signal && i == 0) {
                    vals.push(None);
                    continue;
                }
                let lli = if c.starts_with('L') && s.chance(1, 5) { Some(*s.pick(&[1u8, 0, 4, 2, 3, 5, 7])) } else { None };
                let snr = if s.chance(1, 2) { Some(s.range(1, 9) as u8) } else { None };
                vals.push(Some(Val { milli: base[i], lli, snr }));
            }
            if vals.iter().all(|v| v.is_none()) {
                vals[0] = Some(Val { milli: base[0], lli: None, snr: None });
            }
            ep.sats.push((*sat, vals));
        }
        if ep.sats.is_empty() {
            let (sat, up, base) = &mut pop[0];
            *up = true;
            ep.sats.push((*sat, base.iter().map(|b| Some(Val { milli: *b, lli: None, snr: None })).collect()));
        }
        m.eps.push(ep);
        // gaps in tracking
        t += step * if s.chance(1, 8) { s.range(2, 200) as i128 } else { 1 };
    }
    // receivers list satellites in any order
    if s.chance(1, 4) {
        for ep in m.eps.iter_mut() {
            let n = ep.sats.len();
            for _ in 0..s.range(0, 3) {
                if n > 1 {
                    let (a, b) = (s.us(n), s.us(n));
                    ep.sats.swap(a, b);
                }
            }
        }
    }
    let f = from_ns(m.eps[0].t_ns);
    m.first = Some(f);
    m
}
fn draw_special(s: &mut Source, t_ns: i128) -> Ep {
    let flag = *s.pick(&[4u8, 3, 2, 5]);
    let mut special = vec![];
    let n = match flag {
        2 | 5 => 0,
        3 => s.range(1, 3),
        _ => s.range(1, 4),
    };
    for k in 0..n {
        let (c, l): (String, &str) = match if flag == 3 && k == 0 { 1 } else { s.us(4) } {
            0 => (format!("event gathered {k}  1  2  3"), "COMMENT"),
            1 => (format!("SIM{k}"), "MARKER NAME"),
            2 => (format!("{:14.4}{:14.4}{:14.4}", 0.5 + k as f64, 0.0, 0.25), "ANTENNA: DELTA H/E/N"),
            _ => (format!("{:<20}{:<20}", "CR620023301", "TRM55971.00     NONE"), "ANT # / TYPE"),
        };
        special.push(hl(&c, l));
    }
    Ep { t_ns, flag, special, ..Default::default() }
}
fn draw_base(s: &mut Source, code: &str) -> i64 {
    match code.as_bytes()[0] {
        b'C' | b'P' => s.range(18_000_000_000, 42_000_000_000),
        b'L' => match s.us(5) {
            0 => s.range(-9_999_999_999, 9_999_999_999),
            1 => s.range(999_999_999_000, 1_000_000_001_000),
            2 => -s.range(100_000_000_000, 999_999_999_000),
            _ => s.range(60_000_000_000, 230_000_000_000),
        },
        b'D' => s.range(-6_000_000, 6_000_000),
        _ => s.range(1_000, 60_000),
    }
}
fn drift(s: &mut Source, v: i64, code: &str) -> i64 {
    let d = match code.as_bytes()[0] {
        b'S' => s.range(-900, 900),
        b'D' => s.range(-99_000, 99_000),
        _ => match s.us(4) {
            0 => s.range(-3, 3),
            3 => s.range(-900_000_000, 900_000_000),
            _ => s.range(-20_000_000, 20_000_000),
        },
    };
    let n = v + d;
    // zero means missing in RINEX; 14 columns at most
    if n == 0 || n > 9_999_999_999_999 || n < -999_999_999_999 {
        v
    } else if code.starts_with('S') {
        n.clamp(1, 99_999)
    } else {
        n
    }
}

pub fn flag_name(f: u8) -> &'static str {
    match f {
        0 => "Ok",
        1 => "PowerFailure",
        2 => "AntennaBeingMoved",
        3 => "NewSiteOccupation",
        4 => "HeaderInformationFollows",
        5 => "ExternalEvent",
        6 => "CycleSlip",
        _ => "?",
    }
}

impl Model {
    pub fn header(&self) -> Vec<String> {
        let mut h = vec![];
        let c = if self.sys == ' ' { 'M' } else { self.sys };
        let name = match c {
            'G' => "GPS",
            'R' => "GLONASS",
            'E' => "Galileo",
            'C' => "BDS",
            'J' => "QZSS",
            'I' => "IRNSS",
            'S' => "SBAS payload",
            _ => "MIXED",
        };
        let sys = match self.sys_words {
            0 => format!("{c}"),
            1 => format!("{c}: {name}"),
            2 if c == 'G' && self.major == 2 => String::new(),
            _ => format!("{c} ({name})"),
        };
        h.push(hl(&format!("{:6}.{:02}           {:<20}{:<20}", self.major, self.minor, if self.sys_words == 3 { "O" } else { "OBSERVATION DATA" }, sys), "RINEX VERSION / TYPE"));
        h.push(hl(&format!("{:<20}{:<20}{:<20}", "SIMRX 1.0", "SIMLAB", "20240101 000000 UTC"), "PGM / RUN BY / DATE"));
        h.push(hl("SIM0", "MARKER NAME"));
        h.push(hl("13502M004", "MARKER NUMBER"));
        h.push(hl(&format!("{:<20}{:<40}", "OBSERVER", "AGENCY"), "OBSERVER / AGENCY"));
        h.push(hl(&format!("{:<20}{:<20}{:<20}", "3001320", "TRIMBLE NETR9", "5.45"), "REC # / TYPE / VERS"));
        h.push(hl(&format!("{:<20}{:<20}", "CR620023301", "TRM55971.00     NONE"), "ANT # / TYPE"));
        h.push(hl(&format!("{:14.4}{:14.4}{:14.4}", 3924687.7018, 301132.7652, 5001910.7746), "APPROX POSITION XYZ"));
        h.push(hl(&format!("{:14.4}{:14.4}{:14.4}", 0.1, 0.0, 0.0), "ANTENNA: DELTA H/E/N"));
        if self.major == 2 {
            let codes = &self.codes[0].1;
            for (k, ch) in codes.chunks(9).enumerate() {
                let mut l = if k == 0 { format!("{:6}", codes.len()) } else { "      ".into() };
                for c in ch {
                    l.push_str(&format!("{c:>6}"));
                }
                h.push(hl(&l, "# / TYPES OF OBSERV"));
            }
        } else {
            for (sys, codes) in &self.codes {
                for (k, ch) in codes.chunks(13).enumerate() {
                    let mut l = if k == 0 { format!("{}  {:3}", sys, codes.len()) } else { "      ".into() };
                    for c in ch {
                        l.push_str(&format!(" {c:>3}"));
                    }
                    h.push(hl(&l, "SYS / # / OBS TYPES"));
                }
            }
        }
        h.push(hl(&format!("{:10.3}", self.interval_s), "INTERVAL"));
        let f = self.first.unwrap();
        h.push(hl(&format!("{:6}{:6}{:6}{:6}{:6}{:5}.{:07}     {:<3}", f.y, f.m, f.d, f.hh, f.mm, f.ss, f.ns / 100, self.ts), "TIME OF FIRST OBS"));
        h.push(hl("", "END OF HEADER"));
        h
    }
    pub fn item_prefix(&self, ep: &Ep) -> String {
        format!("{} {}", from_ns(ep.t_ns).key(ts_of(self.ts)), flag_name(ep.flag))
    }
    /// what the library recovers from a V2 epoch whose lines were trimmed: the
    /// satellites after the first whose last line came out short are lost
    pub fn items_trimmed_v2(&self, ep: &Ep) -> Vec<(String, String)> {
        let mut e = ep.clone();
        for (k, (_, vals)) in ep.sats.iter().enumerate() {
            let last = vals.chunks(5).last().unwrap();
            let l: String = last.iter().map(Self::obs16).collect();
            let l = l.trim_end();
            if !l.is_empty() && (l.len() + 15) / 16 < last.len() {
                e.sats.truncate(k + 1);
                break;
            }
        }
        self.items(&e)
    }
    pub fn expected_trimmed_v2(&self) -> Dump {
        let mut d = Dump::new();
        for e in &self.eps {
            for (k, v) in self.items_trimmed_v2(e) {
                put(&mut d, k, v);
            }
        }
        finish(&mut d);
        d
    }
    pub fn items(&self, ep: &Ep) -> Vec<(String, String)> {
        if ep.is_special() {
            return vec![];
        }
        let p = self.item_prefix(ep);
        let clk = match ep.clock {
            Some(c) => {
                let t = if self.major == 2 { clk2(c) } else { clk3(c) };
                format!("clock {}", ftext(&t))
            },
            None => "clock -".into(),
        };
        let mut v = vec![(p.clone(), clk)];
        for (sat, vals) in &ep.sats {
            let codes = &self.codes.iter().find(|c| c.0 == sat.sys).unwrap().1;
            for (i, o) in vals.iter().enumerate() {
                if let Some(o) = o {
                    v.push((format!("{p} {} {}", sat.s(), codes[i]), ftext_obs(o.milli, opt(o.lli), opt(o.snr))));
                }
            }
        }
        v
    }
    pub fn epoch_lines(&self, ep: &Ep) -> Vec<String> {
        let mut out = self.full_lines(ep);
        if self.trim {
            for l in out.iter_mut() {
                *l = l.trim_end().to_string();
            }
        }
        out
    }
    /// every column written
    pub fn full_lines(&self, ep: &Ep) -> Vec<String> {
        if ep.is_special() {
            let mut v = vec![self.first_line(ep)];
            v.extend(ep.special.iter().cloned());
            v
        } else if self.major == 2 {
            self.lines_v2(ep)
        } else {
            self.lines_v3(ep)
        }
    }
    /// instant, flag and count
    pub fn first_line(&self, ep: &Ep) -> String {
        let c = from_ns(ep.t_ns);
        let n = if ep.is_special() { ep.special.len() } else { ep.sats.len() };
        if ep.blank_date {
            format!("{:26}  {}{:3}", "", ep.flag, n)
        } else if self.major == 2 {
            format!(" {:02} {:>2} {:>2} {:>2} {:>2}{:3}.{:07}  {}{:3}", c.y % 100, c.m, c.d, c.hh, c.mm, c.ss, c.ns / 100, ep.flag, n)
        } else {
            format!("> {:04} {:02} {:02} {:02} {:02}{:3}.{:07}  {}{:3}", c.y, c.m, c.d, c.hh, c.mm, c.ss, c.ns / 100, ep.flag, n)
        }
    }
    fn obs16(o: &Option<Val>) -> String {
        match o {
            Some(o) => format!("{:>14}{}{}", f3(o.milli), o.lli.map(|x| x.to_string()).unwrap_or(" ".into()), o.snr.map(|x| x.to_string()).unwrap_or(" ".into())),
            None => " ".repeat(16),
        }
    }
    fn lines_v3(&self, ep: &Ep) -> Vec<String> {
        let mut l = self.first_line(ep);
        if let Some(k) = ep.clock {
            l.push_str(&format!("      {:>15}", clk3(k)));
        }
        let mut out = vec![l];
        for (sat, vals) in &ep.sats {
            let mut l = sat.s();
            for o in vals {
                l.push_str(&Self::obs16(o));
            }
            out.push(l);
        }
        out
    }
    fn lines_v2(&self, ep: &Ep) -> Vec<String> {
        let mut out = vec![];
        let name = |s: &Sat| if self.blank_sys { format!(" {:2}", s.prn) } else { s.s() };
        for (k, ch) in ep.sats.chunks(12).enumerate() {
            let mut l = if k == 0 { self.first_line(ep) } else { " ".repeat(32) };
            for (sat, _) in ch {
                l.push_str(&name(sat));
            }
            if k == 0 {
                if let Some(c) = ep.clock {
                    l = format!("{l:<68}{:>12}", clk2(c));
                }
            }
            out.push(l);
        }
        for (_, vals) in &ep.sats {
            for ch in vals.chunks(5) {
                let mut l = String::new();
                for o in ch {
                    l.push_str(&Self::obs16(o));
                }
                out.push(l);
            }
        }
        out
    }
    pub fn doc(&self) -> Doc {
        let mut d = Doc { kind: if self.major == 2 { "OBS2" } else { "OBS3" }, header: self.header(), eol: "\n", final_eol: true, ..Default::default() };
        for ep in &self.eps {
            d.blocks.push(Block { lines: self.epoch_lines(ep), items: self.items(ep), comment: false });
        }
        d.span_s = (self.eps.last().unwrap().t_ns - self.eps[0].t_ns) as f64 / 1e9;
        d.features = self.features();
        d
    }
    pub fn features(&self) -> Vec<String> {
        let mut f = vec![format!("v{}", self.major)];
        let nmax = self.eps.iter().map(|e| e.sats.len()).max().unwrap_or(0);
        if self.sys != ' ' {
            f.push("mono".into());
        }
        if self.blank_sys {
            f.push("blank_sys".into());
        }
        if nmax > 12 {
            f.push("over_12_sats".into());
        }
        if nmax > 24 {
            f.push("over_24_sats".into());
        }
        if self.codes.iter().any(|c| c.1.len() > 5) {
            f.push("multi_line_obs".into());
        }
        if self.codes.iter().any(|c| c.1.len() > 13) {
            f.push("over_13_codes".into());
        }
        if self.has_clock {
            f.push("clock".into());
        }
        if self.trim {
            f.push("trimmed".into());
        }
        if self.eps.iter().any(|e| e.flag != 0) {
            f.push("event_flag".into());
        }
        if self.eps.iter().any(|e| e.is_special()) {
            f.push("special_records".into());
        }
        if self.eps.iter().any(|e| e.t_ns % 1_000_000_000 != 0) {
            f.push("sub_second".into());
        }
        if self.codes.iter().any(|c| c.0 == 'S') {
            f.push("sbas".into());
        }
        let changes = self.eps.windows(2).filter(|w| w[0].sats.iter().map(|s| s.0).ne(w[1].sats.iter().map(|s| s.0))).count();
        if changes > 0 {
            f.push("rising_setting".into());
        }
        f
    }
}
pub fn ftext_obs(milli: i64, lli: String, snr: String) -> String {
    format!("{} lli {lli} snr {snr}", ftext(&f3(milli)))
}
pub fn opt(o: Option<u8>) -> String {
    o.map(|x| x.to_string()).unwrap_or("-".into())
}
/// F15.12
pub fn clk3(v: i64) -> String {
    let a = v.unsigned_abs();
    format!("{}{}.{:012}", if v < 0 { "-" } else { "" }, a / 1_000_000_000_000, a % 1_000_000_000_000)
}
/// F12.9
pub fn clk2(v: i64) -> String {
    let a = v.unsigned_abs();
    format!("{}{}.{:09}", if v < 0 { "-" } else { "" }, a / 1_000_000_000, a % 1_000_000_000)
}
pub fn snr_digit(s: SNR) -> u8 {
    match s {
        SNR::DbHz0 => 0,
        SNR::DbHz12 => 1,
        SNR::DbHz12_17 => 2,
        SNR::DbHz18_23 => 3,
        SNR::DbHz24_29 => 4,
        SNR::DbHz30_35 => 5,
        SNR::DbHz36_41 => 6,
        SNR::DbHz42_47 => 7,
        SNR::DbHz48_53 => 8,
        SNR::DbHz54 => 9,
    }
}
pub fn dump_into(rec: &ObsRecord, d: &mut Dump) {
    for (k, o) in rec.iter() {
        let p = format!("{} {:?}", ekey(k.epoch), k.flag);
        put(d, p.clone(), match &o.clock {
            Some(c) => format!("clock {}", fv(c.offset_s)),
            None => "clock -".into(),
        });
        for s in &o.signals {
            put(
                d,
                format!("{p} {:x} {}", s.sv, s.observable),
                format!("{} lli {} snr {}", fv(s.value), opt(s.lli.map(|l: LliFlags| l.bits())), opt(s.snr.map(snr_digit))),
            );
        }
    }
}
