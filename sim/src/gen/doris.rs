//! A DORIS receiver in orbit logging ground beacons.
use super::*;
use rinex::prelude::Header;

const SITES: [(&str, &str, &str); 12] = [
    ("OWFC", "OWENGA", "50253S002"),
    ("ADHC", "TERRE ADELIE", "91501S005"),
    ("SYQB", "SYOWA", "66006S005"),
    ("HBMB", "HARTEBEESTHOEK", "30302S008"),
    ("GR4B", "GRASSE", "10002S019"),
    ("WEUC", "WETTZELL", "14201S046"),
    ("SPJB", "NY-ALESUND", "10317S005"),
    ("TRJB", "TRISTAN DA CUNHA", "30604S003"),
    ("CADB", "CACHOEIRA PAULISTA", "41609S002"),
    ("STKB", "ST JOHN'S", "40101S003"),
    ("GRFB", "GREENBELT", "40451S178"),
    ("REUB", "LA REUNION", "97401S002"),
];
/// other beacons of these sites: renewed, or standing nearby
const TWINS: [(&str, &str, &str); 12] = [
    ("OWGC", "OWENGA", "50253S004"),
    ("ADHC", "TERRE ADELIE", "91501S006"),
    ("SYQB", "SYOWA", "66006S007"),
    ("HBNB", "HARTEBEESTHOEK", "30302S009"),
    ("GR5B", "GRASSE", "10002S019"),
    ("WEUC", "WETTZELL", "14201S047"),
    ("SPKB", "NY-ALESUND", "10317S007"),
    ("TRKB", "TRISTAN DA CUNHA", "30604S004"),
    ("CADB", "CACHOEIRA PAULISTA", "41609S003"),
    ("STLB", "ST JOHN'S", "40101S003"),
    ("GRFB", "GREENBELT", "40451S181"),
    ("REVB", "LA REUNION", "97401S003"),
];
const SATS: [&str; 6] = ["CRYOSAT-2", "JASON-3", "SENTINEL-3A", "SARAL", "HY-2C", "SPOT-5"];
/// name in the file, name the library prints
const OBS: [(&str, &str); 10] = [("L1", "L1"), ("L2", "L2"), ("C1", "C1"), ("C2", "C2"), ("W1", "W1"), ("W2", "W2"), ("F", "F"), ("P", "PR"), ("T", "TD"), ("H", "HR")];

#[derive(Clone, Debug)]
pub struct Beacon {
    pub key: u8,
    pub label: &'static str,
    pub site: &'static str,
    pub domes: &'static str,
    pub gen: u8,
    pub k: i8,
}
impl Beacon {
    pub fn id(&self) -> String {
        format!("{} '{}' {} g{} k{}", self.label, self.site, self.domes, self.gen, self.k)
    }
}
/// thousandths, and the two flags (blank when none)
#[derive(Clone, Debug)]
pub struct Meas {
    pub v: i64,
    pub m1: Option<u8>,
    pub m2: Option<u8>,
}
#[derive(Clone, Debug)]
pub struct Ep {
    pub t: Civil,
    pub flag: u8,
    /// nanoseconds of clock offset, and whether it was extrapolated
    pub clock: Option<(i64, bool)>,
    /// beacons heard, by index
    pub heard: Vec<(usize, Vec<Option<Meas>>)>,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub sat: &'static str,
    pub codes: Vec<usize>,
    pub beacons: Vec<Beacon>,
    pub scaled: Option<(u16, Vec<usize>)>,
    /// L2/L1 date offset, in thousandths of microseconds
    pub l2l1: i64,
    pub eps: Vec<Ep>,
    pub trim: bool,
    /// the factor applies to all: none is named
    pub scale_all: bool,
    pub last: Option<Civil>,
    pub cospar: String,
    /// observer, agency
    pub by: [&'static str; 2],
    /// receiver chain, type, version
    pub rcvr: [&'static str; 3],
    /// antenna serial number, model
    pub ant: [&'static str; 2],
}

pub fn draw(s: &mut Source, max_epochs: usize) -> Model {
    let mut m = Model { sat: *s.pick(&SATS), trim: s.chance(1, 2), l2l1: *s.pick(&[2000, 0, -1500, 40]), ..Default::default() };
    m.codes = match s.us(4) {
        0 => {
            let n = *s.pick(&[1usize, 4, 5, 6, 9]);
            let start = s.us(10);
            (0..n).map(|i| (start + i * 3) % 10).collect()
        },
        1 => vec![0, 1, 2, 3, 4],
        _ => (0..10).collect(),
    };
    let n = s.range(1, 8) as usize;
    let first = s.us(SITES.len());
    // a file may name a subset of the network: ids need not be contiguous
    let mut key = if s.chance(1, 4) { s.range(2, 60) as u8 } else { 1 };
    let mut order: Vec<usize> = (0..n).collect();
    if s.chance(1, 4) {
        order.reverse();
    }
    let mut keys = vec![];
    for _ in 0..n {
        keys.push(key);
        key += if s.chance(1, 6) { s.range(2, 5) as u8 } else { 1 };
    }
    let twins = s.chance(1, 4);
    for (i, o) in order.into_iter().enumerate() {
        let (label, site, domes) = match twins && i % 2 == 1 {
            true => TWINS[(first + (i - 1) * 5) % SITES.len()],
            false => SITES[(first + i * 5) % SITES.len()],
        };
        m.beacons.push(Beacon { key: keys[o], label, site, domes, gen: s.range(1, 4) as u8, k: *s.pick(&[0i8, 0, -15, 18, 5]) });
    }
    let c: Vec<usize> = m.codes.iter().copied().filter(|c| *c == 2 || *c == 3).collect();
    if !c.is_empty() && s.chance(2, 3) {
        m.scaled = Some((*s.pick(&[100u16, 10, 1000]), c));
        if s.chance(1, 6) {
            m.scaled.as_mut().unwrap().1 = m.codes.clone();
            m.scale_all = true;
        }
    }
    if s.chance(1, 4) {
        m.last = Some(draw_start(s));
    }
    m.cospar = format!("{}-{:03}{}", s.range(1990, 2026), s.range(1, 120), s.pick(&["A", "B", "AC"]));
    m.by = [*s.pick(&["SPA_BN1_4.7P1", "SSALTO 12"]), *s.pick(&["CNES", "CNES/CLS TOULOUSE"])];
    m.rcvr = [*s.pick(&["CHAIN1", "CHAIN2"]), *s.pick(&["DGXX", "DGXX-S"]), *s.pick(&["1.00", "12.31-B"])];
    m.ant = [*s.pick(&["DORIS", "00123"]), *s.pick(&["STAREC", "STAREC B/C"])];
    let mut t = to_ns(draw_start(s)) + *s.pick(&[0i128, 999_947_700, 179_947_800, 100]);
    let mut drift = s.range(-4_000_000_000, 4_000_000_000);
    let mut up: Vec<bool> = m.beacons.iter().map(|_| s.chance(1, 2)).collect();
    for _ in 0..s.range(1, max_epochs as i64) {
        for u in up.iter_mut() {
            if s.chance(1, 5) {
                *u = !*u;
            }
        }
        let mut heard = vec![];
        for (i, u) in up.iter().enumerate() {
            if !*u {
                continue;
            }
            let mut v: Vec<Option<Meas>> = m
                .codes
                .iter()
                .map(|_| {
                    if s.chance(1, 10) {
                        return None;
                    }
                    let v = match s.us(4) {
                        0 => s.range(-9_999_999_999, 9_999_999_999),
                        1 => s.range(-139_000_000_000, 139_999_999_999),
                        2 => s.range(-99, 99),
                        _ => s.range(-9_999_999, 9_999_999),
                    };
                    let flag = |s: &mut Source| if s.chance(1, 2) { Some(s.range(0, 9) as u8) } else { None };
                    let m1 = flag(s);
                    Some(Meas { v, m1, m2: flag(s) })
                })
                .collect();
            if v.iter().all(|x| x.is_none()) {
                v[0] = Some(Meas { v: 1, m1: None, m2: None });
            }
            heard.push((i, v));
        }
        if heard.is_empty() {
            heard.push((s.us(m.beacons.len()), m.codes.iter().map(|_| Some(Meas { v: 1000, m1: None, m2: Some(7) })).collect()));
        }
        if s.chance(1, 4) {
            heard.reverse();
        }
        drift += s.range(-99, 99);
        let clock = if s.chance(1, 8) { None } else { Some((drift, s.chance(1, 4))) };
        m.eps.push(Ep { t: from_ns(t), flag: s.chance(1, 8) as u8, clock, heard });
        t += *s.pick(&[3i128, 7, 10]) * 1_000_000_000 * if s.chance(1, 8) { s.range(2, 400) as i128 } else { 1 };
    }
    m
}

pub fn f9(v: i64) -> String {
    format!("{}{}.{:09}", if v < 0 { "-" } else { "" }, v.abs() / 1_000_000_000, v.abs() % 1_000_000_000)
}

impl Model {
    pub fn doc(&self) -> Doc {
        let mut h = vec![];
        h.push(hl("     3.00           O                   D", "RINEX VERSION / TYPE"));
        h.push(hl(&format!("{:<20}{:<20}{:<20}", "Expert", "CNES", "20180614 090016 UTC"), "PGM / RUN BY / DATE"));
        h.push(hl(self.sat, "SATELLITE NAME"));
        h.push(hl(&self.cospar, "COSPAR NUMBER"));
        h.push(hl(&format!("{:<20}{}", self.by[0], self.by[1]), "OBSERVER / AGENCY"));
        h.push(hl(&format!("{:<20}{:<20}{}", self.rcvr[0], self.rcvr[1], self.rcvr[2]), "REC # / TYPE / VERS"));
        h.push(hl(&format!("{:<20}{}", self.ant[0], self.ant[1]), "ANT # / TYPE"));
        let mut l = format!("D  {:3}", self.codes.len());
        for c in &self.codes {
            l.push_str(&format!(" {:>3}", if OBS[*c].0.len() == 1 { format!("{} ", OBS[*c].0) } else { OBS[*c].0.to_string() }));
        }
        h.push(hl(&l, "SYS / # / OBS TYPES"));
        let c = self.eps[0].t;
        h.push(hl(&format!("  {:04}    {:02}    {:02}    {:02}    {:02}   {:2}.{:07}     DOR", c.y, c.m, c.d, c.hh, c.mm, c.ss, c.ns / 100), "TIME OF FIRST OBS"));
        if let Some(c) = &self.last {
            h.push(hl(&format!("  {:04}    {:02}    {:02}    {:02}    {:02}   {:2}.{:07}     DOR", c.y, c.m, c.d, c.hh, c.mm, c.ss, c.ns / 100), "TIME OF LAST OBS"));
        }
        if let Some((f, codes)) = &self.scaled {
            let mut l = if self.scale_all { format!("D {f:4}") } else { format!("D {f:4}  {:2}", codes.len()) };
            for c in codes.iter().take(if self.scale_all { 0 } else { 12 }) {
                l.push_str(&format!(" {:>3}", OBS[*c].0));
            }
            h.push(hl(&l, "SYS / SCALE FACTOR"));
        }
        h.push(hl(&format!("D  {:>14}", f3(self.l2l1)), "L2 / L1 DATE OFFSET"));
        h.push(hl(&format!("{:6}", self.beacons.len()), "# OF STATIONS"));
        for b in &self.beacons {
            h.push(hl(&format!("D{:02}  {} {:<29} {}  {} {:3}", b.key, b.label, b.site, b.domes, b.gen, b.k), "STATION REFERENCE"));
        }
        h.push(hl("", "END OF HEADER"));
        let mut d = Doc { kind: "DORIS", header: h, eol: "\n", final_eol: true, ..Default::default() };
        for e in &self.eps {
            let mut b = Block::default();
            let k = format!("{} f{}", e.t.key(TimeScale::TAI), e.flag);
            let mut l = format!("> {:04} {:02} {:02} {:02} {:02} {:2}.{:09}  {} {:2} ", e.t.y, e.t.m, e.t.d, e.t.hh, e.t.mm, e.t.ss, e.t.ns, e.flag, e.heard.len());
            match e.clock {
                Some((v, x)) => {
                    l.push_str(&format!("     {:>13} {} ", f9(v), x as u8));
                    b.items.push((format!("{k} clock"), format!("{} {x}", ftext(&f9(v)))));
                },
                None => b.items.push((format!("{k} clock"), "0.0 false".into())),
            }
            b.lines.push(l);
            for (i, v) in &e.heard {
                let who = &self.beacons[*i];
                let mut l = format!("D{:02}", who.key);
                for (n, x) in v.iter().enumerate() {
                    if n > 0 && n % 5 == 0 {
                        b.lines.push(std::mem::replace(&mut l, "   ".into()));
                    }
                    let f = |x: Option<u8>| x.map(|x| x.to_string()).unwrap_or(" ".into());
                    match x {
                        Some(x) => {
                            l.push_str(&format!("{:>14}{}{}", f3(x.v), f(x.m1), f(x.m2)));
                            b.items.push((format!("{k} {} {}", who.id(), OBS[self.codes[n]].1), format!("{} {:?} {:?}", ftext(&f3(x.v)), x.m1, x.m2)));
                        },
                        None => l.push_str(&" ".repeat(16)),
                    }
                }
                b.lines.push(l);
            }
            if self.trim {
                for l in b.lines.iter_mut() {
                    *l = l.trim_end().to_string();
                }
            }
            d.blocks.push(b);
        }
        d.span_s = (to_ns(self.eps.last().unwrap().t) - to_ns(self.eps[0].t)) as f64 / 1e9;
        if self.codes.len() > 5 {
            d.features.push("continued".into());
        }
        if self.trim {
            d.features.push("trimmed".into());
        }
        if self.beacons[0].key != 1 {
            d.features.push("subset".into());
        }
        let any = |f: &dyn Fn(&Ep) -> bool| self.eps.iter().any(|e| f(e));
        for (name, is) in [
            ("power_failure", any(&|e| e.flag == 1)),
            ("no_clock", any(&|e| e.clock.is_none())),
            ("extrapolated", any(&|e| e.clock.map_or(false, |c| c.1))),
            ("missing", any(&|e| e.heard.iter().any(|h| h.1.iter().any(|x| x.is_none())))),
            ("several_beacons", any(&|e| e.heard.len() > 1)),
            ("scaled", self.scaled.is_some()),
        ] {
            if is {
                d.features.push(name.into());
            }
        }
        d.features.push(format!("obs{}", self.codes.len()));
        d.features.push(format!("beacons{}", self.beacons.len()));
        d.features.push(format!("epochs{}", self.eps.len()));
        d
    }
    /// what the header declares
    pub fn declared(&self) -> Dump {
        let mut d = Dump::new();
        put(&mut d, "satellite".into(), self.sat.into());
        put(&mut d, "cospar".into(), self.cospar.clone());
        put(&mut d, "observer, agency".into(), self.by.join(" | "));
        put(&mut d, "receiver".into(), self.rcvr.join(" | "));
        put(&mut d, "antenna".into(), self.ant.join(" | "));
        put(&mut d, "first".into(), self.first());
        put(&mut d, "last".into(), self.last.map(|c| c.key(TimeScale::TAI)).unwrap_or_default());
        put(&mut d, "observables".into(), format!("{:?}", self.codes.iter().map(|c| OBS[*c].1).collect::<Vec<_>>()));
        put(&mut d, "offset ns".into(), self.l2l1.to_string());
        for b in &self.beacons {
            put(&mut d, "station".into(), b.id());
        }
        if let Some((f, c)) = &self.scaled {
            for c in c {
                put(&mut d, format!("scale {}", OBS[*c].1), f.to_string());
            }
        }
        finish(&mut d);
        d
    }
    /// the name the library knows the nth observable by
    pub fn name(&self, n: usize) -> &'static str {
        OBS[self.codes[n]].0
    }
    fn first(&self) -> String {
        let mut t = self.eps[0].t;
        t.ns -= t.ns % 100;
        t.key(TimeScale::TAI)
    }
}

pub fn declared_by(h: &Header) -> Dump {
    let mut d = Dump::new();
    put(&mut d, "cospar".into(), h.cospar.as_ref().map(|c| c.to_string()).unwrap_or_default());
    let o = |x: &Option<String>| x.clone().unwrap_or_default();
    put(&mut d, "observer, agency".into(), format!("{} | {}", o(&h.observer), o(&h.agency)));
    put(&mut d, "receiver".into(), h.rcvr.as_ref().map(|r| format!("{} | {} | {}", r.sn, r.model, r.firmware)).unwrap_or_default());
    put(&mut d, "antenna".into(), h.rcvr_antenna.as_ref().map(|a| format!("{} | {}", a.sn, a.model)).unwrap_or_default());
    if let Some(h) = &h.doris {
        put(&mut d, "satellite".into(), h.satellite.clone());
        put(&mut d, "first".into(), h.timeof_first_obs.map(ekey).unwrap_or_default());
        put(&mut d, "last".into(), h.timeof_last_obs.map(ekey).unwrap_or_default());
        put(&mut d, "observables".into(), format!("{:?}", h.observables.iter().map(|o| o.to_string()).collect::<Vec<_>>()));
        put(&mut d, "offset ns".into(), h.u2_s1_time_offset.total_nanoseconds().to_string());
        for s in &h.stations {
            put(&mut d, "station".into(), sid(s));
        }
        for (o, f) in &h.scaling {
            put(&mut d, format!("scale {o}"), f.to_string());
        }
    }
    finish(&mut d);
    d
}

pub fn sid(s: &rinex::doris::Station) -> String {
    format!("{} '{}' {} g{} k{}", s.label, s.site, s.domes, s.gen, s.k_factor)
}

pub fn dump_into(rec: &rinex::doris::Record, d: &mut Dump) {
    for (k, v) in rec.iter() {
        let k = format!("{} f{}", ekey(k.epoch), k.flag as u8);
        put(d, format!("{k} clock"), format!("{} {}", fv(v.clock.offset_s), v.clock_extrapolated));
        for (s, o) in &v.signals {
            put(d, format!("{k} {} {}", sid(&s.station), s.observable), format!("{} {:?} {:?}", fv(o.value), o.m1, o.m2));
        }
    }
}
/// how the library prints a code
pub fn printed(code: &str) -> &str {
    OBS.iter().find(|o| o.0 == code).map(|o| o.1).unwrap_or(code)
}
