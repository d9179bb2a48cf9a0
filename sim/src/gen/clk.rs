//! An analysis center publishing clock solutions.
use super::nav::{draw_num, val, Style};
use super::*;
use rinex::clock::{ClockType, Record as ClkRecord};
use std::collections::BTreeSet;

const STATIONS: [&str; 10] = ["AREQ", "GOLD", "HARK", "TIBD", "USNO", "USN3", "WTZR", "ONSA", "B4E1", "MIZU"];
const LONG: [&str; 4] = ["AREQ00USA", "USN700USA", "ONSA00SWE", "WTZR00DEU"];

pub fn draw_doc(s: &mut Source, max: usize) -> Doc {
    let (major, minor) = *s.pick(&[(3, 0), (2, 0), (3, 2), (3, 4)]);
    let modern = major == 3 && minor == 4;
    let ts_name = *s.pick(&["GPS", "UTC", "GAL", "TAI", "BDT"]);
    let ts = match ts_name {
        "GPS" => TimeScale::GPST,
        "UTC" => TimeScale::UTC,
        "GAL" => TimeScale::GST,
        "TAI" => TimeScale::TAI,
        _ => TimeScale::BDT,
    };
    let absent = s.chance(1, 5) && ts == TimeScale::GPST;
    let mut h = vec![];
    h.push(hl(&format!("{major:6}.{minor:02}           {:<20}{:<20}", *s.pick(&["CLOCK DATA", "C"]), if absent { "" } else { "M" }), "RINEX VERSION / TYPE"));
    h.push(hl(&format!("{:<20}{:<20}{:<20}", "SIMCLK", "SIMLAB", "20240101 000000 UTC"), "PGM / RUN BY / DATE"));
    if !absent {
        h.push(hl(&format!("   {ts_name}"), "TIME SYSTEM ID"));
    }
    h.push(hl("    18", "LEAP SECONDS"));
    h.push(hl("     5    AR    AS    CR    DR    MS", "# / TYPES OF DATA"));
    h.push(hl("SIM  SIMULATED ANALYSIS CENTER", "ANALYSIS CENTER"));
    h.push(hl("", "END OF HEADER"));
    let mut d = Doc { kind: "CLK", header: h, eol: "\n", final_eol: true, ..Default::default() };
    let trim = s.chance(1, 2);
    let st = *s.pick(&[Style::E, Style::LowE]);
    let mut f: BTreeSet<String> = BTreeSet::new();
    f.insert(format!("v{major}.{minor:02}"));
    f.insert(ts_name.into());
    let mut t = to_ns(draw_start(s));
    let t0 = t;
    let n_ep = s.range(1, max as i64);
    for _ in 0..n_ep {
        let mut used: BTreeSet<String> = Default::default();
        let c = from_ns(t);
        for _ in 0..s.range(1, 7) {
            let sat = s.chance(1, 2);
            let (name, profile) = if sat {
                let sys = *s.pick(&['G', 'R', 'E', 'C', 'J']);
                let p = s.range(1, super::obs::max_prn(sys) as i64);
                (format!("{sys}{p:02}"), *s.pick(&["AS", "MS"]))
            } else {
                let n = if modern && s.chance(1, 2) { *s.pick(&LONG) } else { *s.pick(&STATIONS) };
                (n.to_string(), *s.pick(&["AR", "CR", "DR"]))
            };
            let key = format!("{} {profile} {}{name}", c.key(ts), if sat { "sv " } else { "st " });
            if !used.insert(key.clone()) {
                continue;
            }
            let n = *s.pick(&[1usize, 2, 2, 3, 4, 5, 6]);
            let v: Vec<String> = (0..n).map(|_| draw_num(s, st)).collect();
            let w = if modern { 9 } else { 4 };
            let mut b = Block::default();
            let mut l = format!("{profile} {name:<w$} {:04} {:02} {:02} {:02} {:02}{:>3}.{:06}{:>3}   {}", c.y, c.m, c.d, c.hh, c.mm, c.ss, c.ns / 1000, n, v[0]);
            if n > 1 {
                l.push_str(&format!(" {}", v[1]));
            }
            b.lines.push(l);
            if n > 2 {
                f.insert("continued".into());
                let mut l = "   ".to_string();
                for x in &v[2..] {
                    l.push_str(&format!("{x} "));
                }
                b.lines.push(l);
            }
            if trim {
                for l in b.lines.iter_mut() {
                    *l = l.trim_end().to_string();
                }
            }
            for (i, x) in v.iter().enumerate() {
                b.items.push((format!("{key} v{i}"), fv(val(x))));
            }
            d.blocks.push(b);
        }
        t += match s.us(4) {
            0 => *s.pick(&[30i128, 300, 5]) * 1_000_000_000,
            1 => 500_000_000,
            2 => s.range(1, 100_000) as i128 * 1_000_000_000,
            _ => 100_000_000,
        };
    }
    // by epoch, by station or satellite, by type, or as they came
    match s.us(5) {
        0 => {
            f.insert("by_name".into());
            d.blocks.sort_by_key(|b| b.lines[0][3..12].to_string());
        },
        1 => {
            f.insert("by_type".into());
            d.blocks.sort_by_key(|b| b.lines[0][..2].to_string());
        },
        2 => {
            f.insert("unordered".into());
            for i in (1..d.blocks.len()).rev() {
                let j = s.us(i + 1);
                d.blocks.swap(i, j);
            }
        },
        _ => {},
    }
    if (t - t0) % 1_000_000_000 != 0 {
        f.insert("sub_second".into());
    }
    d.span_s = (t - t0) as f64 / 1e9;
    d.features = f.into_iter().collect();
    d
}

pub fn dump_into(rec: &ClkRecord, d: &mut Dump) {
    for (e, m) in rec.iter() {
        for (k, p) in m.iter() {
            let who = match &k.clock_type {
                ClockType::SV(sv) => format!("sv {sv:x}"),
                ClockType::Station(s) => format!("st {s}"),
            };
            let key = format!("{} {} {who}", ekey(*e), k.profile_type);
            put(d, format!("{key} v0"), fv(p.bias));
            for (i, v) in [p.bias_dev, p.drift, p.drift_dev, p.drift_change, p.drift_change_dev].iter().enumerate() {
                if let Some(v) = v {
                    put(d, format!("{key} v{}", i + 1), fv(*v));
                }
            }
        }
    }
}
