//! Headers of published products: navigation, clocks, ionosphere maps, antennas.
use super::common::*;
use super::write::{common_records, dump_header, gname, one, word, Rec};
use super::PropDef;
use crate::ctx::{fail, Ctx, Res};
use crate::gen::{self, antex, clk, hl, ionex, nav, put, Doc, Dump};
use crate::source::Source;
use rinex::navigation::IonosphereModel;
use rinex::prelude::{Constellation, Header, TimeScale};

pub static C34: PropDef = PropDef {
    id: "C34",
    run: c34,
    quick_runs: 48000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded control segment, clock provider, ionosphere centre or antenna laboratory publishes a file with a drawn selection of header records in drawn order, foreign and short lines in between; the file is read back under a drawn delivery and header and body are compared with what was published; non-trivial: at least three optional header records",
    faults: &["records_reordered", "foreign_line", "short_line", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writers follow the published layouts"],
};

/// a coefficient in a 12 column field
fn coef(s: &mut Source, d: bool) -> String {
    let m = s.range(-99_999, 99_999);
    let e = s.range(-9, 6);
    let x = if d { *s.pick(&['D', 'E']) } else { 'E' };
    let x = if x == 'E' && s.chance(1, 3) { 'e' } else { x };
    let (n, m) = (if m < 0 { "-" } else { "" }, m.abs());
    if s.chance(1, 2) {
        format!("{n}{}.{:04}{x}{}{:02}", m / 10_000, m % 10_000, if e < 0 { '-' } else { '+' }, e.abs())
    } else {
        format!("{n}0.{:04}{x}{}{:02}", m % 10_000, if e < 0 { '-' } else { '+' }, e.abs())
    }
}
fn number(t: &str) -> String {
    gen::ftext(&t.replace(['D', 'd'], "E"))
}
fn leap(s: &mut Source, systems: &[&str]) -> Rec {
    let l = s.range(10, 37);
    if s.chance(1, 2) {
        return one(format!("{l:6}"), "LEAP SECONDS", vec![("leap", l.to_string())]);
    }
    let (t, w, d) = (s.range(10, 19), s.range(800, 2400), s.range(1, 7));
    let ts = *s.pick(systems);
    let tk = match ts {
        "GPS" => "GPST",
        "BDS" => "BDT",
        _ => "-",
    };
    one(format!("{l:6}{t:6}{w:6}{d:6}{ts}"), "LEAP SECONDS", vec![("leap", format!("{l} {t} {w} {d} {tk}"))])
}
/// what a header of any product may hold
fn shared(s: &mut Source) -> Vec<Rec> {
    common_records(s).into_iter().filter(|r| !r.items.iter().any(|(k, _)| k.starts_with("marker"))).collect()
}

fn nav_records(s: &mut Source, m: &nav::Model) -> Vec<Rec> {
    let mut v = shared(s);
    if m.major < 4 {
        v.retain(|r| !["doi", "license", "station url"].contains(&r.items[0].0.as_str()));
    }
    if s.chance(2, 3) {
        v.push(if m.major == 2 { let l = s.range(10, 18); one(format!("{l:6}"), "LEAP SECONDS", vec![("leap", l.to_string())]) } else { leap(s, &["", "GPS", "BDS"]) });
    }
    if m.major == 2 && m.sys == 'G' && s.chance(3, 4) {
        for (label, k) in [("ION ALPHA", "alpha"), ("ION BETA", "beta")] {
            let c: Vec<String> = (0..4).map(|_| coef(s, true)).collect();
            let l: String = c.iter().map(|x| format!("{x:>12}")).collect();
            v.push(one(format!("  {l}"), label, vec![(&format!("iono GPS {k}"), c.iter().map(|x| number(x)).collect::<Vec<_>>().join(" "))]));
        }
        v.push(one(String::new(), "", vec![("iono GPS region", "Worldwide".into())]));
        if s.chance(1, 2) {
            v.push(one("     .133179128170D-06 .107469588780D-12   552960     1025".into(), "DELTA-UTC: A0,A1,T,W", vec![]));
        }
    }
    if m.major == 3 {
        let mut any = vec![];
        for (sys, name) in [('G', "GPS"), ('C', "BDS"), ('J', "QZS"), ('I', "IRN"), ('E', "GAL")] {
            if !s.chance(1, 3) {
                continue;
            }
            any.push(name);
            let full = gname(sys);
            if sys == 'E' {
                let c: Vec<String> = (0..3).map(|_| coef(s, true)).collect();
                let l: String = c.iter().map(|x| format!("{x:>12}")).collect();
                let z = if s.chance(1, 2) { format!("{:>12}", "0.0000E+00") } else { String::new() };
                v.push(one(format!("GAL  {l}{z}"), "IONOSPHERIC CORR", vec![("iono GAL nequick", c.iter().map(|x| number(x)).collect::<Vec<_>>().join(" "))]));
                continue;
            }
            let tail = if sys == 'C' && s.chance(1, 2) { format!(" {} {:02}", *s.pick(&['A', 'F', 'X']), s.range(1, 60)) } else { String::new() };
            for (x, k) in [('A', "alpha"), ('B', "beta")] {
                let c: Vec<String> = (0..4).map(|_| coef(s, true)).collect();
                let l: String = c.iter().map(|x| format!("{x:>12}")).collect();
                v.push(one(format!("{name}{x} {l}{tail}"), "IONOSPHERIC CORR", vec![(&format!("iono {full} {k}"), c.iter().map(|x| number(x)).collect::<Vec<_>>().join(" "))]));
            }
            v.push(one(String::new(), "", vec![(&format!("iono {full} region"), if sys == 'J' { "Japan".into() } else { "Worldwide".into() })]));
        }
        for _ in 0..s.us(3) {
            v.push(one(format!("{} {:>17}{:>16} {:6} {:4}", *s.pick(&["GPUT", "GAUT", "BDUT", "GLUT"]), "-9.3132257462E-10", "0.000000000E+00", s.range(0, 604800), s.range(1000, 2300)), "TIME SYSTEM CORR", vec![]));
        }
    }
    v
}

/// a clock file of revision 3.04 has wider header lines
fn wide(r: Rec) -> Rec {
    Rec { lines: r.lines.iter().map(|l| format!("{:<65}{}", l[..60].trim_end(), &l[60..])).collect(), items: r.items }
}
fn clk_records(s: &mut Source, modern: bool) -> Vec<Rec> {
    let mut v = shared(s);
    v.retain(|r| modern || !["doi", "license", "station url"].contains(&r.items[0].0.as_str()));
    if modern {
        for r in v.iter_mut() {
            if r.items[0].0 == "program" {
                let (a, b) = (r.items[0].1.clone(), r.items[1].1.clone());
                r.lines = vec![format!("{a:<20} {b:<20} {:<23}PGM / RUN BY / DATE", "20240101  010203 UTC")];
                r.items[2].1 = "20240101  010203 UTC".into();
            } else {
                *r = wide(r.clone());
            }
        }
    }
    let put = |v: &mut Vec<Rec>, r: Rec| v.push(if modern { wide(r) } else { r });
    if s.chance(1, 2) {
        let l = s.range(10, 37);
        put(&mut v, one(format!("{l:6}"), if modern && l < 19 { "LEAP SECONDS GNSS" } else { "LEAP SECONDS" }, vec![("leap", l.to_string())]));
    }
    let codes = s.subset(&["AS", "AR", "CR", "DR", "MS"], 1, 2);
    let codes = if codes.is_empty() { vec!["AS"] } else { codes };
    let l: String = codes.iter().map(|c| format!("{c:>6}")).collect();
    put(&mut v, one(format!("{:6}{l}", codes.len()), "# / TYPES OF DATA", vec![("clock codes", codes.join(" "))]));
    if s.chance(2, 3) {
        let (a, b) = (*s.pick(&["IGS", "COD", "GRG", "USN"]), word(s, 50));
        put(&mut v, one(format!("{a}  {b}"), "ANALYSIS CENTER", vec![("clock center", format!("{a} / {b}"))]));
    }
    let domes = |s: &mut Source| format!("{:05}{}{:03}", s.range(0, 99_999), *s.pick(&['M', 'S']), s.range(0, 999));
    if s.chance(1, 3) {
        let (a, b) = (*s.pick(&["USNO", "PTBB", "ONSA"]), domes(s));
        put(&mut v, one(format!("{a} {b}"), "STATION NAME / NUM", vec![("clock site", format!("{a} {b}"))]));
        if s.chance(1, 2) {
            let w = *s.pick(&["UTC(USNO) MASTER CLOCK VIA CONTINUOUS CABLE MONITOR", "H-MASER 7", "UTC(PTB)"]);
            put(&mut v, one(w.into(), "STATION CLK REF", vec![("clock ref", w.into())]));
        }
    }
    // references, each after the period it served in
    for i in 0..s.us(4) {
        let mut r = Rec { lines: vec![], items: vec![] };
        let c = gen::draw_start(s);
        if s.chance(2, 3) {
            let t = format!("{:4} {:02} {:02} {:2} {:2}{:10.6}", c.y, c.m, c.d, c.hh, c.mm, c.ss as f64);
            r.lines.push(format!("{:<w$}{}", format!("{:6} {t} {t}", i + 1), "# OF CLK REF", w = if modern { 65 } else { 60 }));
        }
        let name = if modern && s.chance(1, 2) { *s.pick(&["USN700USA", "ONSA00SWE"]) } else { *s.pick(&["USNO", "PIE1", "TIDB", "B4E1"]) };
        let d = domes(s);
        let k = if s.chance(2, 3) { Some(nav::draw_num(s, nav::Style::E)) } else { None };
        let kt = k.clone().unwrap_or_default();
        if modern {
            r.lines.push(format!("{name:<9} {d:<20}{:15}{kt:>19} ANALYSIS CLK REF", ""));
        } else {
            r.lines.push(hl(&format!("{name:<4} {d:<20}{:15}{kt:>19}", ""), "ANALYSIS CLK REF"));
        }
        r.items.push((format!("work clock {name} {d}"), k.map(|k| number(&k)).unwrap_or("-".into())));
        v.push(r);
    }
    for (label, key) in [("SYS / DCBS APPLIED", "dcb"), ("SYS / PCVS APPLIED", "pcv")] {
        for c in ['G', 'R', 'E'] {
            if s.chance(1, 4) {
                let (p, u) = (*s.pick(&["CC2NONCC", "GINS   V11.1", "PAGES"]), *s.pick(&["p1c1bias.hist @ goby.nrl.navy.mil", "igs14_2108.atx"]));
                put(&mut v, one(format!("{c} {p:<17} {u:<40}"), label, vec![(key, format!("{} {p} {u}", gname(c)))]));
            }
        }
    }
    if s.chance(1, 2) {
        put(&mut v, one("G    4 C1W L1W C2W L2W".into(), "SYS / # / OBS TYPES", vec![]));
        put(&mut v, one("     2    ITRF2014".into(), "# OF SOLN STA / TRF", vec![]));
        put(&mut v, one("AREQ 42202M005           1942826726 -5804070245 -1796893993".into(), "SOLN STA NAME / NUM", vec![]));
        put(&mut v, one("     3".into(), "# OF SOLN SATS", vec![]));
        put(&mut v, one("G01 G02 G03".into(), "PRN LIST", vec![]));
    }
    v
}

fn f1(v: i64) -> String {
    format!("{}.{}", v / 10, v % 10)
}
fn ionex_records(s: &mut Source, m: &ionex::Model, keep: Vec<Rec>) -> Vec<Rec> {
    let mut v = shared(s);
    v.retain(|r| !["doi", "license", "station url"].contains(&r.items[0].0.as_str()));
    v.extend(keep);
    let n = s.us(4);
    for _ in 0..n {
        let w = word(s, 60);
        v.push(one(w.clone(), "DESCRIPTION", vec![("ionex description", w)]));
    }
    let e = |c: &gen::Civil| format!("{:6}{:6}{:6}{:6}{:6}{:6}", c.y, c.m, c.d, c.hh, c.mm, c.ss);
    for (c, label, k) in [(&m.maps[0].0, "EPOCH OF FIRST MAP", "ionex first"), (&m.maps.last().unwrap().0, "EPOCH OF LAST MAP", "ionex last")] {
        v.push(one(e(c), label, vec![(k, c.key(TimeScale::UTC))]));
    }
    let i = *s.pick(&[7200i64, 3600, 900, 0]);
    v.push(one(format!("{i:6}"), "INTERVAL", if i > 0 { vec![("interval ns", (i as i128 * 1_000_000_000).to_string())] } else { vec![] }));
    v.push(one(format!("{:6}", m.maps.len()), "# OF MAPS IN FILE", vec![("ionex maps", m.maps.len().to_string())]));
    let (t, k) = *s.pick(&[("COSZ", "CosZ"), ("QFAC", "QFac"), ("NONE", "-")]);
    v.push(one(format!("  {t}"), "MAPPING FUNCTION", vec![("ionex mapping", k.into())]));
    let c = *s.pick(&[0i64, 100, 150, 75, 200]);
    v.push(one(format!("{:>8}", f1(c)), "ELEVATION CUTOFF", vec![("ionex cutoff", f1(c))]));
    let o = *s.pick(&["", "double-difference carrier phase", "One-way carrier phase leveled to code", "TEC values"]);
    v.push(one(o.into(), "OBSERVABLES USED", vec![("ionex observables", if o.is_empty() { "theoretical".into() } else { format!("measured: {o}") })]));
    let r = *s.pick(&[63_710i64, 63_781, 63_700]);
    v.push(one(format!("{:>8}", f1(r)), "BASE RADIUS", vec![("ionex radius", f1(r))]));
    if s.chance(2, 3) {
        let n = s.range(1, 400);
        v.push(one(format!("{n:6}"), "# OF STATIONS", vec![("ionex stations", n.to_string())]));
    }
    if s.chance(2, 3) {
        let n = s.range(1, 120);
        v.push(one(format!("{n:6}"), "# OF SATELLITES", vec![("ionex satellites", n.to_string())]));
    }
    v
}
fn antex_records(s: &mut Source) -> Vec<Rec> {
    let mut v = shared(s);
    v.retain(|r| !["doi", "license", "station url", "program"].contains(&r.items[0].0.as_str()));
    let sn = if s.chance(1, 2) { *s.pick(&["CR519991201", "370", "0-12", "ASH700936D_M SN 1234"]) } else { "" };
    let sk = if sn.is_empty() { "-" } else { sn };
    if s.chance(1, 2) {
        v.push(one(format!("{:<20}{:<20}{sn:<20}", "A", ""), "PCV TYPE / REFANT", vec![("pcv type", format!("absolute {sk}"))]));
    } else {
        let t = *s.pick(&["", "AOAD/M_B", "ASH700936D_M"]);
        v.push(one(format!("{:<20}{t:<20}{sn:<20}", "R"), "PCV TYPE / REFANT", vec![("pcv type", format!("relative {} {sk}", if t.is_empty() { "AOAD/M_T" } else { t }))]));
    }
    v
}

fn dump_product(h: &Header) -> Dump {
    let mut d = dump_header(h);
    d.remove("version");
    put(&mut d, "revision".into(), format!("{}.{:02} {:?} {:?}", h.version.major, h.version.minor, h.rinex_type, h.constellation));
    let t4 = |a: (f64, f64, f64, f64)| format!("{} {} {} {}", gen::fv(a.0), gen::fv(a.1), gen::fv(a.2), gen::fv(a.3));
    for (c, m) in &h.ionod_corrections {
        if h.version.major == 2 && *c != Constellation::GPS {
            // one set of coefficients, offered for every constellation
            continue;
        }
        let c = super::write::cname(*c);
        match m {
            IonosphereModel::Klobuchar(k) => {
                put(&mut d, format!("iono {c} alpha"), t4(k.alpha));
                put(&mut d, format!("iono {c} beta"), t4(k.beta));
                put(&mut d, format!("iono {c} region"), if k.region == rinex::navigation::KbRegionCode::Japan { "Japan".into() } else { "Worldwide".into() });
            },
            IonosphereModel::NequickG(n) => put(&mut d, format!("iono {c} nequick"), format!("{} {} {}", gen::fv(n.a.0), gen::fv(n.a.1), gen::fv(n.a.2))),
            IonosphereModel::Bdgim(_) => put(&mut d, format!("iono {c} bdgim"), "?".into()),
        }
    }
    if let Some(c) = &h.clock {
        if let Some(t) = c.timescale {
            put(&mut d, "clock scale".into(), format!("{t:?}"));
        }
        put(&mut d, "clock codes".into(), c.codes.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
        if let Some(i) = &c.igs {
            put(&mut d, "clock center".into(), format!("{i} / {}", c.full_name.clone().unwrap_or_default()));
        }
        if let Some(i) = &c.site {
            put(&mut d, "clock site".into(), format!("{i} {}", c.domes.as_ref().map(|d| d.to_string()).unwrap_or_default()));
        }
        if let Some(i) = &c.ref_clock {
            put(&mut d, "clock ref".into(), i.clone());
        }
        for w in &c.work_clock {
            put(&mut d, format!("work clock {} {}", w.name, w.domes.as_ref().map(|d| d.to_string()).unwrap_or_default()), w.constraint.map(gen::fv).unwrap_or("-".into()));
        }
        let n: Vec<String> = c.work_clock.iter().map(|w| w.name.clone()).collect();
        put(&mut d, "work clocks".into(), n.join(" "));
    }
    if let Some(x) = &h.ionex {
        let o = |v: f32| format!("{v:.1}");
        put(&mut d, "ionex reference".into(), format!("{:?}", x.reference));
        if let Some(t) = &x.description {
            put(&mut d, "ionex description".into(), t.clone());
        }
        put(&mut d, "ionex first".into(), gen::ekey(x.epoch_of_first_map));
        put(&mut d, "ionex last".into(), gen::ekey(x.epoch_of_last_map));
        put(&mut d, "ionex maps".into(), x.number_of_maps.to_string());
        put(&mut d, "ionex mapping".into(), x.mapping.as_ref().map(|m| format!("{m:?}")).unwrap_or("-".into()));
        put(&mut d, "ionex cutoff".into(), o(x.elevation_cutoff));
        put(&mut d, "ionex radius".into(), o(x.base_radius));
        let model = x.is_theoretical_model();
        put(&mut d, "ionex observables".into(), match &x.observables {
            Some(o) => format!("{}: {o}", if model { "theoretical" } else { "measured" }),
            None => (if model { "theoretical" } else { "measured" }).to_string(),
        });
        if x.nb_stations > 0 {
            put(&mut d, "ionex stations".into(), x.nb_stations.to_string());
        }
        if x.nb_satellites > 0 {
            put(&mut d, "ionex satellites".into(), x.nb_satellites.to_string());
        }
        put(&mut d, "ionex exponent".into(), x.exponent.to_string());
        put(&mut d, "ionex dimension".into(), x.map_dimension.to_string());
        for (n, g) in [("lat", &x.grid.latitude), ("lon", &x.grid.longitude), ("hgt", &x.grid.height)] {
            put(&mut d, format!("ionex {n}"), format!("{:.1} {:.1} {:.1}", g.start, g.end, g.spacing));
        }
    }
    if let Some(a) = &h.antex {
        let t = match &a.pcv_type {
            rinex::antex::Pcv::Absolute => "absolute".to_string(),
            rinex::antex::Pcv::Relative(t) => format!("relative {t}"),
        };
        put(&mut d, "pcv type".into(), format!("{t} {}", a.reference_ant_sn.clone().unwrap_or("-".into())));
    }
    d
}

fn c34(ctx: &mut Ctx) -> Res {
    let mut doc: Doc;
    let mut recs: Vec<Rec>;
    let mut exp = Dump::new();
    let revision: String;
    // the body must be recovered too, known findings set aside
    let body: Dump;
    match ctx.src.us(4) {
        0 => {
            let m = nav::draw(&mut ctx.src, 2, None);
            doc = m.doc();
            body = doc.expected();
            recs = nav_records(&mut ctx.src, &m);
            let c = match m.sys {
                ' ' => "Mixed",
                'G' => "GPS",
                'R' => "Glonass",
                'E' => "Galileo",
                'C' => "BeiDou",
                _ => "QZSS",
            };
            revision = format!("{}.{:02} NavigationData Some({c})", m.major, m.minor);
        },
        1 => {
            doc = clk::draw_doc(&mut ctx.src, 2);
            body = doc.expected();
            let v: String = doc.header[0].trim_start()[..4].into();
            recs = clk_records(&mut ctx.src, v == "3.04");
            let scale = doc.header.iter().find(|l| l.contains("TIME SYSTEM ID")).cloned();
            if let Some(l) = scale {
                let k = match l.trim().split(' ').next().unwrap() {
                    "GPS" => "GPST",
                    "GAL" => "GST",
                    t => if t == "BDT" { "BDT" } else if t == "TAI" { "TAI" } else { "UTC" },
                };
                recs.push(Rec { lines: vec![l], items: vec![("clock scale".into(), k.into())] });
            }
            let c = if doc.header[0][40..60].trim() == "M" { "Some(Mixed)" } else { "Some(Mixed)" };
            revision = format!("{v} ClockData {c}");
        },
        2 => {
            let mut m = ionex::draw(&mut ctx.src, 2);
            m.lat = (m.lat.0, m.lat.1, m.lat.2);
            doc = m.doc();
            body = doc.recovered(&doc.blocks);
            let (sys, k) = *ctx.src.pick(&[("GPS", "GnssConstellation(GPS)"), ("GLO", "GnssConstellation(Glonass)"), ("GNSS", "GnssConstellation(Mixed)"), ("BEN", "ObservationSystem(BENt)"), ("ENV", "ObservationSystem(ENVisat)"), ("ERS", "ObservationSystem(ERS)"), ("IRI", "ObservationSystem(IRI)"), ("NNS", "Model(NNS)"), ("TOP", "Model(TOP)")]);
            doc.header[0] = hl(&format!("{:6}.{}            {:<20}{sys:<20}", 1, 0, "IONOSPHERE MAPS"), "IONEX VERSION / TYPE");
            put(&mut exp, "ionex reference".into(), k.into());
            put(&mut exp, "ionex exponent".into(), m.exponent.to_string());
            let keep = doc.header.iter().filter(|l| l[60..].contains("/ D") && !l[60..].contains("DATE") || l[60..].contains("EXPONENT") || l[60..].contains("DIMENSION"));
            let keep = keep.map(|l| Rec { lines: vec![l.clone()], items: vec![] }).collect();
            put(&mut exp, "ionex dimension".into(), if m.hgt.2 == 0 { "2" } else { "3" }.into());
            let t = |v: i64| format!("{:.1}", v as f64 / 10.0);
            for (n, g) in [("lat", m.lat), ("lon", m.lon), ("hgt", m.hgt)] {
                put(&mut exp, format!("ionex {n}"), format!("{} {} {}", t(g.0), t(g.1), t(g.2)));
            }
            recs = ionex_records(&mut ctx.src, &m, keep);
            revision = "1.00 IonosphereMaps".to_string();
        },
        _ => {
            doc = antex::draw_doc(&mut ctx.src, 2);
            body = doc.expected();
            recs = antex_records(&mut ctx.src);
            revision = "1.04 AntennaData Some(Mixed)".to_string();
        },
    }
    if ctx.src.chance(2, 3) {
        for i in (1..recs.len()).rev() {
            let j = ctx.src.us(i + 1);
            recs.swap(i, j);
        }
        ctx.fault("records_reordered");
    }
    let first = doc.header[0].clone();
    doc.header = vec![first];
    let mut n = 0;
    for r in &recs {
        if ctx.src.chance(1, 30) {
            doc.header.push(hl("whatever 1 2 3", *ctx.src.pick(&["FUTURE RECORD", "XYZ / ABC", "SIGNAL STRENGTH UNIT"])));
            ctx.fault("foreign_line");
        }
        if ctx.src.chance(1, 30) {
            doc.header.push((*ctx.src.pick(&["", "  ", "LEAP SECONDS", "     5"])).into());
            ctx.fault("short_line");
        }
        doc.header.extend(r.lines.iter().filter(|l| !l.trim().is_empty()).cloned());
        n += !r.items.is_empty() as usize;
        for (k, v) in r.items.iter().filter(|x| !x.1.is_empty()) {
            put(&mut exp, k.clone(), v.clone());
        }
    }
    doc.header.push(hl("", "END OF HEADER"));
    put(&mut exp, "revision".into(), revision.clone());
    if doc.kind == "CLK" {
        let names: Vec<&str> = recs.iter().flat_map(|r| &r.items).filter_map(|(k, _)| k.strip_prefix("work clock ")).map(|k| k.split(' ').next().unwrap()).collect();
        put(&mut exp, "work clocks".into(), names.join(" "));
    }
    if let Some(v) = exp.get_mut("ionex description") {
        *v = vec![v.join(" ")];
    }
    let comments = exp.get("comment").cloned();
    gen::finish(&mut exp);
    if let Some(c) = comments {
        exp.insert("comment".into(), c);
    }
    let rnx = decode_check(ctx, &doc, "header")?;
    ctx.nontrivial = n >= 3;
    let mut got = ctx.lib("inspect", || dump_product(&rnx.header))?;
    let comments = got.get("comment").cloned();
    gen::finish(&mut got);
    if let Some(c) = comments {
        got.insert("comment".into(), c);
    }
    for sys in ['G', 'R', 'E', 'C'] {
        use rinex::prelude::Constellation as C;
        let c = match sys {
            'G' => C::GPS,
            'R' => C::Glonass,
            'E' => C::Galileo,
            _ => C::BeiDou,
        };
        let has = |k: &str| exp.get(k).map(|v| v.iter().any(|x| x.split(' ').next() == Some(gname(sys)))).unwrap_or(false);
        let (e, g) = ((has("dcb"), has("pcv")), ctx.lib("compensation", || (rnx.dcb_compensation(c), rnx.pcv_compensation(c)))?);
        if e != g {
            return fail("compensation", format!("{sys}: (dcb_compensation, pcv_compensation) {g:?}, expected {e:?}"));
        }
    }
    if doc.kind == "IONEX" || doc.kind == "CLK" {
        // these headers name no constellation, or not always
        if let Some(v) = got.get_mut("revision") {
            let w = revision.split(" Some").next().unwrap();
            if v[0].starts_with(w) {
                *v = vec![revision.clone()];
            }
        }
    }
    if let Some(d) = gen::diff(&exp, &got) {
        return fail("product-header", d);
    }
    expect_content(ctx, "product-body", &rnx, &body)
}
