//! An analysis center publishing ionosphere maps.
use super::*;
use rinex::ionex::Record as IonexRecord;

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub lat: (i64, i64, i64),
    pub lon: (i64, i64, i64),
    /// kilometres, tenths
    pub hgt: (i64, i64, i64),
    pub exponent: i8,
    pub explicit_exponent: bool,
    /// (epoch, tec per cell, rms per cell)
    pub maps: Vec<(Civil, Vec<Option<i64>>, Vec<Option<i64>>)>,
    pub has_rms: bool,
    /// scaling announced within each TEC and RMS map, when it is
    pub map_exponents: Vec<Option<(i8, i8)>>,
}

fn axis(a: (i64, i64, i64)) -> Vec<i64> {
    if a.2 == 0 {
        return vec![a.0];
    }
    let n = (a.1 - a.0) / a.2;
    (0..=n).map(|i| a.0 + i * a.2).collect()
}
fn tenth(v: i64) -> String {
    format!("{}{}.{}", if v < 0 { "-" } else { "" }, v.unsigned_abs() / 10, v.unsigned_abs() % 10)
}

pub fn draw(s: &mut Source, max_maps: usize) -> Model {
    let mut m = Model::default();
    // tenths of degrees; the ends are multiples of the start and of the spacing
    m.lat = *s.pick(&[(875, -875, -875), (875, -875, -25), (100, -100, -50), (25, -25, -25), (900, -900, -450), (-875, 875, 875)]);
    m.lon = *s.pick(&[(-1800, 1800, 900), (-1800, 1800, 50), (-100, 100, 25), (-1800, 1800, 1800), (-50, 50, 10), (-1800, 1750, 50), (0, 3550, 50), (-1750, 1750, 350), (200, 100, -50), (1800, -1800, -300)]);
    if m.lat.2.abs() == 25 && m.lat.0 == 875 && m.lon.2 == 50 || m.lat.2.abs() == 25 && m.lon.2 == 50 && m.lon.1 > 1000 {
        m.lon = (-1800, 1800, 450);
    }
    m.hgt = *s.pick(&[(4500, 4500, 0), (3500, 3500, 0), (2000, 4000, 2000), (4505, 4505, 0), (5067, 5067, 0), (3500, 4500, 500)]);
    m.exponent = *s.pick(&[-1i8, -2, 0, 1, -3]);
    m.explicit_exponent = m.exponent != -1 || s.chance(2, 3);
    m.has_rms = s.chance(1, 2);
    let vary = s.chance(1, 4);
    let mut t = to_ns(draw_start(s));
    let step = *s.pick(&[7200i128, 3600, 900]) * 1_000_000_000;
    let cells = axis(m.lat).len() * axis(m.lon).len() * axis(m.hgt).len();
    for _ in 0..s.range(1, max_maps as i64) {
        // values fill their five columns when the unit is small
        let base = if s.chance(1, 5) { s.range(9_800, 99_000) } else { s.range(0, 900) };
        let dense = s.chance(1, 2);
        // one draw decides the texture of a map, so that files stay cheap to draw
        let k = s.range(1, 1 << 30) as u64;
        let mut x = k;
        let mut cell = |lo: i64, span: i64| -> Option<i64> {
            let r = crate::source::splitmix(&mut x);
            if !dense && r % 5 == 0 {
                return None;
            }
            // 9999 says that there is no value
            Some(lo + ((r >> 8) % span as u64) as i64).filter(|v| *v != 9999)
        };
        let tec: Vec<Option<i64>> = (0..cells).map(|_| cell(base - 20, 600)).collect();
        let rms: Vec<Option<i64>> = (0..cells).map(|_| cell(if base > 9_000 { base / 4 * 3 } else { 1 }, 99)).collect();
        m.maps.push((from_ns(t), tec, rms));
        m.map_exponents.push(vary.then(|| (*s.pick(&[-1i8, -2, 0, -3, 1]), *s.pick(&[-1i8, -2, 0, -3]))));
        t += step;
    }
    m
}

impl Model {
    fn map_lines(&self, i: usize, kind: &str) -> (Vec<String>, Vec<(String, String)>) {
        let (c, tec, rms) = &self.maps[i];
        let data = if kind == "TEC" { tec } else { rms };
        let mut l = vec![hl(&format!("{:6}", i + 1), &format!("START OF {kind} MAP"))];
        l.push(hl(&format!("{:6}{:6}{:6}{:6}{:6}{:6}", c.y, c.m, c.d, c.hh, c.mm, c.ss), "EPOCH OF CURRENT MAP"));
        let e = self.map_exponents[i].map(|(t, r)| if kind == "TEC" { t } else { r });
        if let Some(e) = e {
            l.push(hl(&format!("{e:6}"), "EXPONENT"));
        }
        let mut items = vec![];
        let mut n = 0;
        let (lats, lons, hs) = (axis(self.lat), axis(self.lon), axis(self.hgt));
        for h in &hs {
            for la in &lats {
                l.push(hl(&format!("  {:>6}{:>6}{:>6}{:>6}{:>6}", tenth(*la), tenth(self.lon.0), tenth(self.lon.1), tenth(self.lon.2), tenth(*h)), "LAT/LON1/LON2/DLON/H"));
                let mut row = String::new();
                for (k, lo) in lons.iter().enumerate() {
                    let v = data[n];
                    row.push_str(&format!("{:5}", v.unwrap_or(9999)));
                    if k % 16 == 15 {
                        l.push(std::mem::take(&mut row));
                    }
                    if let Some(v) = v {
                        let key = format!("{} {} {} {}", c.key(TimeScale::UTC), tenth(*la), tenth(*lo), tenth(*h));
                        if kind == "TEC" || tec[n].is_some() {
                            items.push((format!("{key} {kind}"), scaled(v, e.unwrap_or(self.exponent))));
                        }
                    }
                    n += 1;
                }
                if !row.is_empty() {
                    l.push(row);
                }
            }
        }
        l.push(hl(&format!("{:6}", i + 1), &format!("END OF {kind} MAP")));
        (l, items)
    }
    pub fn header(&self) -> Vec<String> {
        let mut h = vec![];
        h.push(hl(&format!("{:6}.{}            {:<20}{:<20}", 1, 0, "IONOSPHERE MAPS", "GPS"), "IONEX VERSION / TYPE"));
        h.push(hl(&format!("{:<20}{:<20}{:<20}", "SIMION", "SIMLAB", "20240101 000000 UTC"), "PGM / RUN BY / DATE"));
        h.push(hl("SIMULATED IONOSPHERE MAPS", "DESCRIPTION"));
        let e = |c: &Civil| format!("{:6}{:6}{:6}{:6}{:6}{:6}", c.y, c.m, c.d, c.hh, c.mm, c.ss);
        h.push(hl(&e(&self.maps[0].0), "EPOCH OF FIRST MAP"));
        h.push(hl(&e(&self.maps.last().unwrap().0), "EPOCH OF LAST MAP"));
        h.push(hl("  7200", "INTERVAL"));
        h.push(hl(&format!("{:6}", self.maps.len()), "# OF MAPS IN FILE"));
        h.push(hl("  NONE", "MAPPING FUNCTION"));
        h.push(hl("     0.0", "ELEVATION CUTOFF"));
        h.push(hl("", "OBSERVABLES USED"));
        h.push(hl("  6371.0", "BASE RADIUS"));
        h.push(hl(if self.hgt.2 == 0 { "     2" } else { "     3" }, "MAP DIMENSION"));
        let a = |v: (i64, i64, i64)| format!("  {:>6}{:>6}{:>6}", tenth(v.0), tenth(v.1), tenth(v.2));
        h.push(hl(&a(self.hgt), "HGT1 / HGT2 / DHGT"));
        h.push(hl(&a(self.lat), "LAT1 / LAT2 / DLAT"));
        h.push(hl(&a(self.lon), "LON1 / LON2 / DLON"));
        if self.explicit_exponent {
            h.push(hl(&format!("{:6}", self.exponent), "EXPONENT"));
        }
        h.push(hl("", "END OF HEADER"));
        h
    }
    /// TEC maps first, then RMS maps, one block per map
    pub fn doc(&self) -> Doc {
        let mut d = Doc { kind: "IONEX", header: self.header(), eol: "\n", final_eol: true, trailer: vec![hl("", "END OF FILE")], last_tec_lost: true, ..Default::default() };
        for i in 0..self.maps.len() {
            let (lines, items) = self.map_lines(i, "TEC");
            d.blocks.push(Block { lines, items, comment: false });
        }
        if self.has_rms {
            for i in 0..self.maps.len() {
                let (lines, items) = self.map_lines(i, "RMS");
                d.blocks.push(Block { lines, items, comment: false });
            }
            d.features.push("rms".into());
        }
        if self.hgt.2 != 0 {
            d.features.push("3d".into());
        }
        d.features.push(format!("exp{}", self.exponent));
        if self.map_exponents.iter().any(|x| x.is_some()) {
            d.features.push("map_exponents".into());
        }
        if !self.explicit_exponent {
            d.features.push("default_exponent".into());
        }
        if self.maps.iter().any(|m| m.1.iter().any(|v| v.is_none())) {
            d.features.push("gaps".into());
        }
        d.span_s = (to_ns(self.maps.last().unwrap().0) - to_ns(self.maps[0].0)) as f64 / 1e9;
        d
    }
}

/// The library does not recover the last TEC map before RMS maps or the end of
/// file: its own keys are removed, for TEC and for RMS.
pub fn without_last_map(exp: &Dump, blocks: &[Block]) -> Dump {
    let mut d = exp.clone();
    if let Some(b) = blocks.iter().filter(|b| b.lines.first().map(|l| l.contains("START OF TEC MAP")).unwrap_or(false)).last() {
        for (k, _) in &b.items {
            d.remove(k);
            d.remove(&k.replace(" TEC", " RMS"));
        }
    }
    d
}

/// value × 10^exponent, in thousandths (exact)
fn scaled(v: i64, exponent: i8) -> String {
    (v * 10i64.pow((exponent + 3) as u32)).to_string()
}
pub fn coord(v: f64) -> String {
    tenth((v * 10.0).round() as i64)
}
pub fn dump_into(rec: &IonexRecord, d: &mut Dump) {
    for (k, v) in rec.iter() {
        let key = format!("{} {} {} {}", ekey(k.epoch), coord(k.coordinates.latitude_ddeg()), coord(k.coordinates.longitude_ddeg()), coord(k.coordinates.altitude_km()));
        let q = |v: f64| {
            let t = v * 1000.0;
            if (t - t.round()).abs() < 1e-6 * t.abs().max(1.0) {
                format!("{}", t.round() as i64)
            } else {
                format!("~{v:?}")
            }
        };
        put(d, format!("{key} TEC"), q(v.tecu()));
        if let Some(r) = v.rms_tec() {
            put(d, format!("{key} RMS"), q(r));
        }
    }
}
