//! What a producer logged is what a reader recovers (reference writers).
use super::common::*;
use super::PropDef;
use crate::ctx::{fail, Ctx, Res};
use crate::gen::{self, antex, clk, doris, ionex, met, nav, obs};

pub static C07: PropDef = PropDef {
    id: "C07",
    run: c07,
    quick_runs: 36000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded receiver history (constellations, satellites rising and setting, signal outages, gaps, power failures, clock offsets) is written by a reference writer in V2, V3 or V4 layout and read back; non-trivial: at least one epoch with data",
    faults: &["short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writer follows the RINEX 2.11/3.0x/4.00 column layout"],
};

fn c07(ctx: &mut Ctx) -> Res {
    let max_epochs = draw_size(&mut ctx.src, 12, 1500);
    let m = obs::draw(&mut ctx.src, obs::Opt { max_epochs, trim_v2: true, specials: true, ..Default::default() });
    let doc = m.doc();
    let rnx = decode_check(ctx, &doc, "obs")?;
    let exp = doc.expected();
    if m.major == 2 && m.trim {
        let short = m.expected_trimmed_v2();
        let got = ctx.lib("inspect", || gen::dump(&rnx))?;
        if short != exp && got == short {
            let d = gen::diff(&exp, &got).unwrap_or_default();
            return fail("v2-trimmed-line-loses-satellites", d);
        }
    }
    expect_content(ctx, "obs-content", &rnx, &exp)
}

pub static C15: PropDef = PropDef {
    id: "C15",
    run: c15,
    quick_runs: 48000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded log of broadcast frames (constellation, message type, frame type, spares and blanks, number styles, out of order instants) is written by a reference writer in V2, V3 or V4 layout and read back under a drawn delivery; non-trivial: at least one frame",
    faults: &["short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writer follows the RINEX 2.11/3.0x/4.00 navigation layout"],
};

fn c15(ctx: &mut Ctx) -> Res {
    let n = draw_size(&mut ctx.src, 14, 9000);
    let mut doc = nav::draw(&mut ctx.src, n, None).doc();
    let twins = if doc.kind == "NAV3" && ctx.src.chance(1, 6) { galileo_twins(ctx, &mut doc) } else { None };
    let rnx = decode_check(ctx, &doc, "nav")?;
    let exp = doc.expected();
    if let Some(without) = twins {
        // the kind of message may be named after its data source
        let anon = |d: gen::Dump| -> gen::Dump {
            let mut o = gen::Dump::new();
            for (k, v) in d {
                for x in v {
                    gen::put(&mut o, k.replace(" INAV ", " LNAV ").replace(" FNAV ", " LNAV "), x);
                }
            }
            gen::finish(&mut o);
            o
        };
        let got = ctx.lib("inspect", || anon(gen::dump(&rnx)))?;
        if got == anon(without) {
            return fail("v3-galileo-message-replaced", gen::diff(&anon(exp), &got).unwrap_or_default());
        }
        return match gen::diff(&anon(exp), &got) {
            Some(d) => fail("nav-content", d),
            None => Ok(()),
        };
    }
    expect_content(ctx, "nav-content", &rnx, &exp)
}
/// a Galileo vehicle broadcasts one data set in I/NAV and in F/NAV: two records of one
/// vehicle and one time of clock. Returns the content without the first of both.
fn galileo_twins(ctx: &mut Ctx, doc: &mut gen::Doc) -> Option<gen::Dump> {
    let at: Vec<usize> = (0..doc.blocks.len()).filter(|i| doc.blocks[*i].lines[0].starts_with('E')).collect();
    if at.len() < 2 {
        return None;
    }
    let i = *ctx.src.pick(&at);
    let others: Vec<usize> = at.into_iter().filter(|j| *j != i).collect();
    let j = *ctx.src.pick(&others);
    let mut twin = doc.blocks[j].clone();
    let head = doc.blocks[i].lines[0][..23].to_string();
    twin.lines[0].replace_range(..23, &head);
    let key = |k: &str| -> String { k.split(' ').take(5).collect::<Vec<_>>().join(" ") };
    let (from, to) = (key(&twin.items[0].0), key(&doc.blocks[i].items[0].0));
    for (k, _) in twin.items.iter_mut() {
        *k = k.replacen(&from, &to, 1);
    }
    let mut without = doc.clone();
    without.blocks[i] = twin.clone();
    doc.blocks.insert(i + 1, twin);
    doc.features.push("galileo_twins".into());
    Some(without.expected())
}

pub static C16: PropDef = PropDef {
    id: "C16",
    run: |ctx| {
        let n = draw_size(&mut ctx.src, 8, 70000);
        let doc = clk::draw_doc(&mut ctx.src, n);
        let rnx = decode_check(ctx, &doc, "clk")?;
        expect_content(ctx, "clk-content", &rnx, &doc.expected())
    },
    quick_runs: 36000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded series of clock solutions (stations and satellites, one to six values, sub second epochs, four revisions, five time systems) is written and read back under a drawn delivery; non-trivial: at least one solution",
    faults: &["short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writer follows the clock RINEX 2.00/3.00/3.02/3.04 layout"],
};

pub static C17: PropDef = PropDef {
    id: "C17",
    run: c17,
    quick_runs: 18000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded sequence of TEC maps (2D or 3D grid, exponent, missing cells), optionally followed by RMS maps, is written and read back under a drawn delivery; non-trivial: at least one map",
    faults: &["short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writer follows the IONEX 1.0 layout", "TEC maps precede RMS maps; height maps are not written"],
};

fn c17(ctx: &mut Ctx) -> Res {
    let n = draw_size(&mut ctx.src, 4, 40);
    let doc = ionex::draw(&mut ctx.src, n).doc();
    let rnx = decode_check(ctx, &doc, "ionex")?;
    let exp = doc.expected();
    let short = doc.recovered(&doc.blocks);
    let got = ctx.lib("inspect", || gen::dump(&rnx))?;
    if short != exp && got == short {
        return fail("ionex-last-tec-map-lost", gen::diff(&exp, &got).unwrap_or_default());
    }
    // anything else than the known loss is judged against what should remain
    match gen::diff(if gen::diff(&exp, &got).is_some() { &short } else { &exp }, &got) {
        None => Ok(()),
        Some(d) => fail("ionex-content", d),
    }
}

pub static C18: PropDef = PropDef {
    id: "C18",
    run: |ctx| {
        let n = draw_size(&mut ctx.src, 6, 800);
        let doc = antex::draw_doc(&mut ctx.src, n);
        let rnx = decode_check(ctx, &doc, "antex")?;
        expect_content(ctx, "antex-content", &rnx, &doc.expected())
    },
    quick_runs: 36000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded antenna catalogue (receiver and satellite antennas, frequencies of five constellations) is written and read back under a drawn delivery; non-trivial: at least one antenna",
    faults: &["short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writer follows the ANTEX 1.4 layout", "phase patterns and the calibration date are not compared: the library does not expose the former and misreads the latter in a way its tests pin"],
};

pub static C19: PropDef = PropDef {
    id: "C19",
    run: c19,
    quick_runs: 36000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded weather station history (sensors, missing measurements, gaps) is written in V2, V3 or V4 layout, read back under a drawn delivery, written by the library and read again; non-trivial: at least one measurement",
    faults: &["short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writer follows the RINEX 2.11/3.0x/4.00 meteorological layout"],
};

fn c19(ctx: &mut Ctx) -> Res {
    let n = draw_size(&mut ctx.src, 10, 70000);
    let doc = met::draw(&mut ctx.src, n).doc();
    let rnx = decode_check(ctx, &doc, "met")?;
    expect_content(ctx, "met-content", &rnx, &doc.expected())?;
    let bytes = format_plain(ctx, &rnx, "met-write")?;
    log_text(ctx, "rewritten", &String::from_utf8_lossy(&bytes));
    match parse_plain(ctx, &bytes)? {
        Ok(r) => expect_content(ctx, "met-roundtrip", &r, &doc.expected()),
        Err(e) => fail("met-roundtrip", format!("the library rejects what it wrote: {e}")),
    }
}

pub static C35: PropDef = PropDef {
    id: "C35",
    run: c35,
    quick_runs: 36000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded pass history of a DORIS satellite (beacons rising and setting, missing measurements, flags, clock estimates measured, extrapolated or absent, power failures, ids that are not contiguous) is written by a reference writer and read back under a drawn delivery; records, header and iterators are compared; it is then written by the library, over a sink that takes it in pieces, and read again, up to twice; non-trivial: at least one epoch",
    faults: &["short_read", "read_eintr", "short_write", "write_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writer follows the DORIS RINEX 3.00 layout"],
};

fn c35(ctx: &mut Ctx) -> Res {
    let n = draw_size(&mut ctx.src, 10, 3000);
    let m = doris::draw(&mut ctx.src, n);
    let doc = m.doc();
    let rnx = decode_check(ctx, &doc, "doris")?;
    let exp = doc.expected();
    expect_content(ctx, "doris-content", &rnx, &exp)?;
    let got = ctx.lib("header", || doris::declared_by(&rnx.header))?;
    if let Some(d) = gen::diff(&m.declared(), &got) {
        return fail("doris-header", d);
    }
    for st in rnx.header.doris.iter().flat_map(|h| h.stations.iter()) {
        let f = 0.75 + 87.0 * st.k_factor as f64 / (5.0 * 67_108_864.0);
        for (name, e, g) in [("S1", 543.0 * 5.0E6 * f, st.s1_frequency_shift()), ("U2", 107.0 * 5.0E6 * f, st.u2_frequency_shift())] {
            if !((e - g).abs() < 1.0E-3) {
                return fail("doris-frequency", format!("{} k {}: {name} is {e} Hz, library says {g}", st.label, st.k_factor));
            }
        }
    }
    // written and read again
    let mut again = rnx.clone();
    let mut prev: Option<Vec<u8>> = None;
    for generation in 1..=ctx.src.range(1, 2) {
        let bytes = super::write::format_delivered(ctx, &again, "doris-write")?;
        log_text(ctx, &format!("generation {generation}"), &String::from_utf8_lossy(&bytes));
        again = match parse_plain(ctx, &bytes)? {
            Ok(r) => r,
            Err(e) => return fail("doris-rewrite-rejected", format!("generation {generation}: the library rejects what it wrote: {e}")),
        };
        expect_content(ctx, "doris-roundtrip", &again, &exp)?;
        let got = ctx.lib("header", || doris::declared_by(&again.header))?;
        if let Some(d) = gen::diff(&m.declared(), &got) {
            return fail("doris-header-roundtrip", d);
        }
        if let Some(p) = prev {
            if p != bytes {
                return fail("doris-rewrite-differs", super::write::first_diff(&p, &bytes));
            }
        }
        prev = Some(bytes);
    }
    let walked = ctx.lib("iterate", || {
        let mut d = gen::Dump::new();
        let mut last = None;
        let mut sorted = true;
        for (k, c) in rnx.doris_satellite_clock_offset_iter() {
            sorted &= last.map_or(true, |l| l <= k.epoch);
            last = Some(k.epoch);
            gen::put(&mut d, format!("{} f{} clock", gen::ekey(k.epoch), k.flag as u8), gen::fv(c.offset_s));
        }
        let keys: Vec<_> = rnx.doris_satellite_clock_offset_iter().map(|x| (x.0.epoch, x.0.flag)).collect();
        sorted &= keys.iter().copied().eq(rnx.doris_observation_keys().map(|k| (k.epoch, k.flag)));
        sorted &= keys.iter().copied().eq(rnx.doris_observation_iter().map(|x| (x.0.epoch, x.0.flag)));
        for (k, s, o) in rnx.doris_ground_station_signals_iter() {
            gen::put(&mut d, format!("{} f{} {} {}", gen::ekey(k.epoch), k.flag as u8, doris::sid(&s.station), s.observable), format!("{} {:?} {:?}", gen::fv(o.value), o.m1, o.m2));
        }
        gen::finish(&mut d);
        (d, sorted)
    })?;
    if !walked.1 {
        return fail("doris-iterators", "clock offsets and epochs are not listed alike, in chronological order");
    }
    let mut seen: Vec<String> = exp.keys().filter(|k| !k.ends_with(" clock")).filter_map(|k| k.rsplit(' ').next()).map(|o| o.to_string()).collect();
    seen.sort();
    seen.dedup();
    let mut got = ctx.lib("observables_iter", || rnx.observables_iter().map(|o| o.to_string()).collect::<Vec<_>>())?;
    got.sort();
    if got != seen {
        return fail("doris-observables", format!("measured {seen:?}, listed {got:?}"));
    }
    for (name, code, list) in [
        ("temperature_iter", "TD", ctx.lib("iterate", || rnx.temperature_iter().collect::<Vec<_>>())?),
        ("pressure_iter", "PR", ctx.lib("iterate", || rnx.pressure_iter().collect::<Vec<_>>())?),
        ("moisture_rate_iter", "HR", ctx.lib("iterate", || rnx.moisture_rate_iter().collect::<Vec<_>>())?),
    ] {
        let mut e: Vec<String> = exp.iter().filter(|(k, _)| k.ends_with(&format!(" {code}"))).flat_map(|(k, v)| v.iter().map(|v| format!("{} {}", k.split(" f").next().unwrap(), v.split(' ').next().unwrap())).collect::<Vec<_>>()).collect();
        let mut g: Vec<String> = list.iter().map(|(t, v)| format!("{} {}", gen::ekey(*t), gen::fv(*v))).collect();
        e.sort();
        g.sort();
        if e != g {
            return fail("doris-weather", format!("{name}: expected {} values, got {}: {:?} against {:?}", e.len(), g.len(), e.first(), g.first()));
        }
    }
    let mut exp = exp;
    for (k, v) in exp.iter_mut() {
        if k.ends_with(" clock") {
            for v in v.iter_mut() {
                *v = v.split(' ').next().unwrap_or("").to_string();
            }
        }
    }
    match gen::diff(&exp, &walked.0) {
        None => Ok(()),
        Some(d) => fail("doris-iterators", d),
    }
}
