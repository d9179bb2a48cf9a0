//! A weather station logging measurements.
use super::*;

const CODES: [&str; 10] = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"];

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub major: u8,
    pub minor: u8,
    pub codes: Vec<&'static str>,
    /// tenths
    pub eps: Vec<(Civil, Vec<Option<i64>>)>,
    pub trim: bool,
    pub short_type: bool,
}

pub fn draw(s: &mut Source, max_epochs: usize) -> Model {
    let mut m = Model { major: *s.pick(&[2, 3, 4]), ..Default::default() };
    m.minor = match m.major {
        2 => *s.pick(&[11, 10]),
        3 => *s.pick(&[3, 0, 5]),
        _ => 0,
    };
    let n = match s.us(3) {
        0 => s.range(1, 4),
        1 => s.range(7, 9),
        _ => s.range(1, 10),
    } as usize;
    let start = s.us(CODES.len());
    let stride = *s.pick(&[1usize, 3, 7]);
    m.codes = (0..n).map(|i| CODES[(start + i * stride) % CODES.len()]).collect();
    m.trim = s.chance(1, 2);
    m.short_type = s.chance(1, 5);
    let mut t = to_ns(draw_start(s));
    let step = *s.pick(&[300i128, 30, 1, 3600]) * 1_000_000_000;
    for _ in 0..s.range(1, max_epochs as i64) {
        let mut v: Vec<Option<i64>> = m
            .codes
            .iter()
            .map(|c| {
                if s.chance(1, 6) {
                    return None;
                }
                Some(match *c {
                    "PR" => s.range(8_000, 10_800),
                    "TD" => s.range(-500, 500),
                    "HR" => s.range(0, 1000),
                    "WD" => s.range(0, 3599),
                    "RI" => s.range(0, 99_999),
                    "ZD" | "ZT" | "ZW" => s.range(-99_999, 999_999),
                    _ => s.range(0, 999),
                })
            })
            .collect();
        if v.iter().all(|x| x.is_none()) {
            v[0] = Some(1);
        }
        m.eps.push((from_ns(t), v));
        t += step * if s.chance(1, 8) { s.range(2, 400) as i128 } else { 1 };
    }
    m
}
pub fn f1(v: i64) -> String {
    format!("{}{}.{}", if v < 0 { "-" } else { "" }, v.abs() / 10, v.abs() % 10)
}
impl Model {
    pub fn doc(&self) -> Doc {
        let mut h = vec![];
        h.push(hl(&format!("{:6}.{:02}           {:<20}", self.major, self.minor, if self.short_type { "M" } else { "METEOROLOGICAL DATA" }), "RINEX VERSION / TYPE"));
        h.push(hl(&format!("{:<20}{:<20}{:<20}", "SIMMET", "SIMLAB", "20240101 000000 UTC"), "PGM / RUN BY / DATE"));
        h.push(hl("SIM0", "MARKER NAME"));
        h.push(hl("13502M004", "MARKER NUMBER"));
        for (k, ch) in self.codes.chunks(9).enumerate() {
            let mut l = if k == 0 { format!("{:6}", self.codes.len()) } else { "      ".into() };
            for c in ch {
                l.push_str(&format!("    {c:>2}"));
            }
            h.push(hl(&l, "# / TYPES OF OBSERV"));
        }
        h.push(hl("PAROSCIENTIFIC      740-16B                       0.2    PR", "SENSOR MOD/TYPE/ACC"));
        h.push(hl("", "END OF HEADER"));
        let mut d = Doc { kind: "MET", header: h, eol: "\n", final_eol: true, ..Default::default() };
        for (c, v) in &self.eps {
            let mut b = Block::default();
            let mut l = if self.major == 2 { format!(" {:02}", c.y % 100) } else { format!(" {:04}", c.y) };
            l.push_str(&format!(" {:>2} {:>2} {:>2} {:>2} {:>2}", c.m, c.d, c.hh, c.mm, c.ss));
            for (i, x) in v.iter().enumerate() {
                if i >= 8 && (i - 8) % 10 == 0 {
                    b.lines.push(std::mem::replace(&mut l, "    ".into()));
                }
                match x {
                    Some(x) => {
                        l.push_str(&format!("{:>7}", f1(*x)));
                        b.items.push((format!("{} {}", c.key(TimeScale::UTC), self.codes[i]), ftext(&f1(*x))));
                    },
                    None => l.push_str("       "),
                }
            }
            b.lines.push(l);
            if self.trim {
                for l in b.lines.iter_mut() {
                    *l = l.trim_end().to_string();
                }
            }
            d.blocks.push(b);
        }
        d.span_s = (to_ns(self.eps.last().unwrap().0) - to_ns(self.eps[0].0)) as f64 / 1e9;
        d.features.push(format!("v{}", self.major));
        if self.codes.len() > 8 {
            d.features.push("continued".into());
        }
        if self.trim {
            d.features.push("trimmed".into());
        }
        d
    }
}

pub fn dump_into(rec: &rinex::meteo::Record, d: &mut Dump) {
    for (k, v) in rec.iter() {
        put(d, format!("{} {}", ekey(k.epoch), k.observable), fv(*v));
    }
}
