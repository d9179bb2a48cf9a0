//! An antenna calibration catalogue.
use super::*;
use rinex::antex::{AntennaSpecific, Record as AntexRecord};

const RX: [&str; 6] = ["TRM59800.00", "LEIAR25.R4", "LEIAR25", "ASH701945C_M", "JAV_RINGANT_G3T", "AOAD/M_T"];
const SVT: [&str; 4] = ["BLOCK IIA", "GLONASS-M", "GALILEO-2", "BEIDOU-2M"];
const METHODS: [(&str, &str); 6] = [("CHAMBER", "Chamber"), ("FIELD", "Field"), ("ROBOT", "Robot"), ("COPIED", "Copied"), ("CONVERTED", "Converted"), ("", "Unknown")];

fn carrier(sys: char, n: u8) -> &'static str {
    match (sys, n) {
        ('G', 1) | ('J', 1) => "L1",
        ('G', 2) | ('J', 2) => "L2",
        ('G', 5) | ('J', 5) => "L5",
        ('J', 6) => "L6",
        ('S', 1) | ('I', 1) => "L1",
        ('S', 5) | ('I', 5) => "L5",
        ('I', 9) => "S",
        ('R', 1) => "G1",
        ('R', 2) => "G2",
        ('R', 3) => "G3",
        ('E', 1) => "E1",
        ('E', 5) => "E5a",
        ('E', 6) => "E6",
        ('E', 7) => "E5b",
        ('E', 8) => "E5",
        ('C', 1) => "B1C",
        ('C', 2) => "B1I",
        ('C', 5) => "B2A",
        ('C', 6) => "B3",
        ('C', 7) => "B2B",
        ('C', 8) => "B2",
        _ => panic!(),
    }
}
pub const CARRIERS: [&str; 19] = ["S", "L1", "L2", "L5", "L6", "G1", "G2", "G3", "E1", "E5a", "E6", "E5b", "E5", "B1C", "B1I", "B2A", "B3", "B2B", "B2"];
const FREQS: [(char, &[u8]); 7] = [('G', &[1, 2, 5]), ('R', &[1, 2, 3]), ('E', &[1, 5, 6, 7, 8]), ('C', &[1, 2, 5, 6, 7, 8]), ('J', &[1, 2, 5, 6]), ('S', &[1, 5]), ('I', &[5, 9])];

#[derive(Clone, Debug, Default)]
pub struct Ant {
    /// satellite, or receiver antenna type and serial number
    pub sv: Option<String>,
    pub ty: String,
    pub serial: Option<String>,
    pub valid: Option<(Civil, Civil)>,
    /// carrier, north east up as written
    pub fr: Vec<(&'static str, [String; 3])>,
}
pub fn draw_doc(s: &mut Source, max: usize) -> Doc {
    draw_cat(s, max, false).0
}
/// A catalogue; `crowded`: few vehicles and antennas, calibrated again and
/// again, each calibration relieving the previous one.
pub fn draw_cat(s: &mut Source, max: usize, crowded: bool) -> (Doc, Vec<Ant>) {
    let mut cat: Vec<Ant> = vec![];
    let crowd: Vec<(char, i64)> = (0..3).map(|_| (*s.pick(&['G', 'R', 'E', 'C', 'J']), s.range(1, 7))).collect();
    let t0 = to_ns(draw_start(s));
    let mut h = vec![];
    h.push(hl(&format!("{:6}.{}            {:<20}", 1, 4, "M"), "ANTEX VERSION / SYST"));
    h.push(hl("A", "PCV TYPE / REFANT"));
    h.push(hl("", "END OF HEADER"));
    let mut d = Doc { kind: "ANTEX", header: h, eol: "\n", final_eol: true, ..Default::default() };
    for nth in 0..s.range(1, max as i64) {
        let mut b = Block::default();
        let k = format!("{nth:03}");
        let mut item = |k2: &str, v: String| b.items.push((format!("{k} {k2}"), v));
        let mut l = vec![hl("", "START OF ANTENNA")];
        let sv = s.chance(1, 2);
        if sv {
            let ty = *s.pick(&SVT);
            let (sys, prn) = if crowded {
                *s.pick(&crowd)
            } else {
                let sys = *s.pick(&['G', 'R', 'E', 'C', 'J', 'I']);
                (sys, s.range(1, super::obs::max_prn(sys) as i64))
            };
            let (yr, la, pc) = (s.range(1978, 2030), s.range(1, 150), *s.pick(&['A', 'B', 'C']));
            l.push(hl(&format!("{ty:<20}{:<20}{:<10}{:<10}", format!("{sys}{prn:02}"), format!("{sys}{:03}", s.range(1, 899)), format!("{yr}-{la:03}{pc}")), "TYPE / SERIAL NO"));
            item("type", ty.into());
            item("sv", format!("{sys}{prn:02}"));
            cat.push(Ant { sv: Some(format!("{sys}{prn:02}")), ty: ty.into(), ..Default::default() });
            item("cospar", format!("{yr}-{la:03}{pc}"));
        } else {
            let ty = *s.pick(&RX);
            let sn = *s.pick(&["", "NONE", "727259", "CR15-3", "7272", "CR15", "59", "C"]);
            cat.push(Ant { ty: ty.into(), serial: if sn.is_empty() || sn == "NONE" { None } else { Some(sn.into()) }, ..Default::default() });
            l.push(hl(&format!("{ty:<20}{sn:<20}{:<20}", ""), "TYPE / SERIAL NO"));
            item("type", ty.into());
            item("serial", if sn.is_empty() || sn == "NONE" { "-".into() } else { sn.into() });
        }
        let (mt, mv) = *s.pick(&METHODS);
        let n = s.range(0, 99);
        let month = *s.pick(&["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]);
        let month = if s.chance(1, 3) { format!("{}{}", &month[..1], month[1..].to_lowercase()) } else { month.into() };
        let year = *s.pick(&[17, 20, 11, 5, 0, 99, 96, 35]);
        let date = format!("{:02}-{month}-{year:02}", s.range(1, 28));
        let agency = *s.pick(&["IGS/SIM", "TUM", "", "IGG, Univ. Bonn"]);
        l.push(hl(&format!("{mt:<20}{agency:<20}{n:6}    {date:<10}"), "METH / BY / # / DATE"));
        item("method", mv.into());
        item("agency", agency.into());
        item("number", n.to_string());
        l.push(hl("     0.0", "DAZI"));
        let (z1, z2, dz) = *s.pick(&[(0, 170, 10), (0, 900, 50), (0, 140, 10), (0, 800, 50)]);
        let t1 = |v: i64| format!("{}.{}", v / 10, v % 10);
        l.push(hl(&format!("  {:>6}{:>6}{:>6}", t1(z1), t1(z2), t1(dz)), "ZEN1 / ZEN2 / DZEN"));
        item("zen", format!("{} {} {}", ftext(&t1(z1)), ftext(&t1(z2)), ftext(&t1(dz))));
        // frequencies
        let mut fr: Vec<(char, u8)> = vec![];
        for (sys, ns) in FREQS {
            if s.chance(1, 2) {
                for n in s.subset(ns, 1, 2) {
                    fr.push((sys, n));
                }
            }
        }
        // one carrier once per antenna
        let mut seen: Vec<&str> = vec![];
        fr.retain(|(a, b)| {
            let c = carrier(*a, *b);
            !seen.contains(&c) && {
                seen.push(c);
                true
            }
        });
        if fr.is_empty() {
            fr.push(('G', 1));
        }
        l.push(hl(&format!("{:6}", fr.len()), "# OF FREQUENCIES"));
        if s.chance(if crowded { 4 } else { 1 }, if crowded { 5 } else { 2 }) {
            let mut a = from_ns(to_ns(draw_start(s)));
            let mut len = s.range(1, 400_000_000);
            if crowded {
                len = *s.pick(&[86_400i64, 86_399, 43_200]);
                a = from_ns(t0 + s.range(0, 6) as i128 * 43_200_000_000_000);
                // relieves an earlier calibration at its end
                if let (Some((_, u)), true) = (cat.iter().rev().find_map(|c| c.valid), s.chance(1, 2)) {
                    a = from_ns(to_ns(u) + s.range(0, 1) as i128 * 1_000_000_000);
                }
            }
            let bb = from_ns(to_ns(a) + len as i128 * 1_000_000_000);
            cat.last_mut().unwrap().valid = Some((a, bb));
            let f = |c: &Civil| format!("{:6}{:6}{:6}{:6}{:6}{:5}.0000000", c.y, c.m, c.d, c.hh, c.mm, c.ss);
            l.push(hl(&f(&a), "VALID FROM"));
            l.push(hl(&f(&bb), "VALID UNTIL"));
            item("valid", format!("{} .. {}", a.key(TimeScale::UTC), bb.key(TimeScale::UTC)));
        }
        let sinex = *s.pick(&["IGS14_2163", "IGS08_1930", "", "IGS20_2200"]);
        if !sinex.is_empty() {
            l.push(hl(sinex, "SINEX CODE"));
        }
        item("sinex", sinex.into());
        for (sys, n) in fr {
            l.push(hl(&format!("   {sys}{n:02}"), "START OF FREQUENCY"));
            let v: Vec<String> = (0..3)
                .map(|_| {
                    let x = s.range(-9_999_999, 9_999_999) / 10;
                    format!("{}{}.{:02}", if x < 0 { "-" } else { "" }, x.unsigned_abs() / 100, x.unsigned_abs() % 100)
                })
                .collect();
            l.push(hl(&format!("{:>10}{:>10}{:>10}", v[0], v[1], v[2]), "NORTH / EAST / UP"));
            let mut row = "   NOAZI".to_string();
            for i in 0..((z2 - z1) / dz + 1) {
                row.push_str(&format!("{:>8}", format!("-{}.{:02}", i % 9, (i * 7) % 100)));
            }
            l.push(row);
            l.push(hl(&format!("   {sys}{n:02}"), "END OF FREQUENCY"));
            cat.last_mut().unwrap().fr.push((carrier(sys, n), [v[0].clone(), v[1].clone(), v[2].clone()]));
            item(&format!("freq {}", carrier(sys, n)), format!("{} {} {}", ftext(&v[0]), ftext(&v[1]), ftext(&v[2])));
        }
        l.push(hl("", "END OF ANTENNA"));
        b.lines = l;
        d.blocks.push(b);
        d.features.push(if sv { "satellite_antenna".into() } else { "receiver_antenna".into() });
    }
    d.features.sort();
    d.features.dedup();
    d.positional = true;
    (d, cat)
}

pub fn dump_into(rec: &AntexRecord, d: &mut Dump) {
    for (i, (a, f)) in rec.iter().enumerate() {
        let k = format!("{i:03}");
        match &a.specific {
            AntennaSpecific::SvAntenna(v) => {
                put(d, format!("{k} type"), v.igs_type.clone());
                put(d, format!("{k} sv"), format!("{:x}", v.sv));
                put(d, format!("{k} cospar"), format!("{}", v.cospar));
            },
            AntennaSpecific::RxAntenna(v) => {
                put(d, format!("{k} type"), v.igs_type.clone());
                put(d, format!("{k} serial"), v.serial_number.clone().unwrap_or("-".into()));
            },
        }
        put(d, format!("{k} method"), format!("{:?}", a.calibration.method));
        put(d, format!("{k} agency"), a.calibration.agency.clone());
        put(d, format!("{k} number"), a.calibration.number.to_string());
        put(d, format!("{k} zen"), format!("{} {} {}", fv(a.zenith_grid.start), fv(a.zenith_grid.end), fv(a.zenith_grid.spacing)));
        if let Some((x, y)) = a.calibration.validity_period {
            put(d, format!("{k} valid"), format!("{} .. {}", ekey(x), ekey(y)));
        }
        put(d, format!("{k} sinex"), a.sinex_code.clone());
        for (c, v) in f {
            let (n, e, u) = v.apc_eccentricity;
            let cs = cname(c);
            put(d, format!("{k} freq {cs}"), format!("{} {} {}", fv(n), fv(e), fv(u)));
        }
    }
}

pub fn cname(c: &rinex::prelude::Carrier) -> String {
    let t = format!("{c:?}");
    t.split('(').next().unwrap_or("").to_string()
}
