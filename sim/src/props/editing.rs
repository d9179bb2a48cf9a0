//! A log edited in memory: an editor works on a log, saves it to a device that
//! may fail, dies and starts again from what was last saved.
use super::common::*;
use super::faults::{note_sink, soft_sink};
use super::write::{dump_header, f4, maybe, word};
use super::PropDef;
use crate::ctx::{fail, Ctx, Res, Violation};
use crate::gen::{self, from_ns, met, obs, put, Dump};
use crate::simio::{WStep, KINDS};
use crate::source::Source;
use obs::{ts_of, Ep, Model, Sat, Val};
use rinex::observation::{HeaderFields, LliFlags, SNR};
use rinex::prelude::obs::{EpochFlag, ObsKey, Observations, SignalObservation};
use rinex::prelude::{Constellation, Epoch, GeodeticMarker, Header, MeteoKey, Observable, Record, Rinex, RinexType, TimeScale, Version, SV};
use std::str::FromStr;

pub static C37: PropDef = PropDef {
    id: "C37",
    run: c37,
    quick_runs: 16000,
    max_classes: 10,
    recheck: false,
    rule: "an editor opens a log (parsed, or assembled from nothing) and carries out up to twelve operations drawn at random: edits, conversions, saves to a device that may fail, crashes followed by a restart from the last save; a reference log follows; non-trivial: at least one edit",
    faults: &["write_error", "write_zero", "flush_error", "short_write", "write_eintr", "crash", "short_read", "read_eintr"],
    real: &["rinex: records and headers in memory, formatting, compression and parsing of observation, meteo and DORIS files", "hifitime, gnss-rs", "std::io::BufReader and BufWriter"],
    stub: STUB_IO,
    assumptions: &["every satellite belongs to a system and every signal to an observable that the header declares", "values fit the fields of the format and are not zero"],
};

fn sv(s: &Sat) -> SV {
    SV::from_str(&s.s()).expect("satellite")
}
fn key(m: &Model, e: &Ep) -> ObsKey {
    let flag = match e.flag {
        1 => EpochFlag::PowerFailure,
        6 => EpochFlag::CycleSlip,
        _ => EpochFlag::Ok,
    };
    ObsKey { epoch: instant(m, e), flag }
}
fn instant(m: &Model, e: &Ep) -> Epoch {
    from_ns(e.t_ns).epoch(ts_of(m.ts))
}
fn clk(m: &Model, c: i64) -> f64 {
    c as f64 / if m.major == 2 { 1e9 } else { 1e12 }
}
fn signal(sat: &Sat, code: &str, v: &Val, with: bool) -> SignalObservation {
    let o = Observable::from_str(code).expect("observable");
    let mut x = SignalObservation::new(sv(sat), o, v.milli as f64 / 1e3);
    x.lli = v.lli.map(|l| LliFlags::from_bits(l).unwrap());
    match v.snr {
        Some(n) if with => x = x.with_snr(SNR::from(n)),
        n => x.snr = n.map(SNR::from),
    }
    x
}
fn codes(m: &Model, sys: char) -> &[String] {
    &m.codes.iter().find(|c| c.0 == sys).unwrap().1
}
fn assemble(m: &Model, e: &Ep) -> Observations {
    let mut o = Observations::default();
    if let Some(c) = e.clock {
        o = o.with_clock_offset_s(instant(m, e), clk(m, c));
    }
    for (sat, vals) in &e.sats {
        for (i, v) in vals.iter().enumerate() {
            if let Some(v) = v {
                o.signals.push(signal(sat, &codes(m, sat.sys)[i], v, i % 2 == 0));
            }
        }
    }
    o
}
fn constellation(c: char) -> Constellation {
    match c {
        'G' => Constellation::GPS,
        'R' => Constellation::Glonass,
        'E' => Constellation::Galileo,
        'C' => Constellation::BeiDou,
        'J' => Constellation::QZSS,
        'I' => Constellation::IRNSS,
        'S' => Constellation::SBAS,
        _ => Constellation::Mixed,
    }
}
pub fn expected(m: &Model) -> Dump {
    let mut d = Dump::new();
    for e in &m.eps {
        for (k, v) in m.items(e) {
            put(&mut d, k, v);
        }
    }
    gen::finish(&mut d);
    d
}
/// who made the log, with what: built piece by piece
fn station(s: &mut Source, h: Header) -> (Header, Vec<(&'static str, String)>) {
    let (p, r, a) = (word(s, 20), word(s, 20), word(s, 40));
    let mut h = h.with_general_information(&p, &r, &a);
    let mut v = vec![("program", p), ("run by", r), ("agency", a)];
    if s.chance(1, 2) {
        let (a, b, c) = (word(s, 20), maybe(s, 20), word(s, 20));
        h = h.with_receiver(rinex::hardware::Receiver::default().with_model(&a).with_serial_number(&b).with_firmware(&c));
        v.extend([("rx model", a), ("rx sn", b), ("rx firmware", c)]);
    }
    if s.chance(1, 2) {
        let (a, b) = (word(s, 20), maybe(s, 20));
        let d: Vec<f64> = (0..3).map(|_| s.range(-9_999, 99_999) as f64 / 1e4).collect();
        h = h.with_receiver_antenna(
            rinex::hardware::Antenna::default()
                .with_model(&a)
                .with_serial_number(&b)
                .with_height(d[0])
                .with_eastern_component(d[1])
                .with_northern_component(d[2]),
        );
        v.extend([("ant model", a), ("ant sn", b), ("ant h", gen::fv(d[0])), ("ant e", gen::fv(d[1])), ("ant n", gen::fv(d[2]))]);
    }
    if s.chance(1, 2) {
        let n = word(s, 20);
        h.geodetic_marker = Some(GeodeticMarker::default().with_name(&n));
        v.push(("marker name", n));
    }
    if s.chance(1, 2) {
        // a state in km, at any instant
        let d: Vec<String> = (0..3).map(|_| f4(s.range(-64_000_000_000, 64_000_000_000))).collect();
        let x: Vec<f64> = d.iter().map(|d| d.parse::<f64>().unwrap() / 1e3).collect();
        let frame = anise::constants::frames::IAU_EARTH_FRAME;
        h = h.with_rx_orbit(rinex::prelude::nav::Orbit::from_position(x[0], x[1], x[2], Epoch::from_gregorian_utc_at_midnight(2022, 5, 6), frame));
        for (k, d) in ["pos x", "pos y", "pos z"].into_iter().zip(&d) {
            v.push((k, gen::ftext(d)));
        }
    }
    let list: Vec<String> = (0..s.us(3)).map(|_| word(s, 60)).collect();
    if s.chance(1, 2) {
        h = h.with_comments(list.clone());
    } else {
        for c in &list {
            h = h.with_comment(c);
        }
    }
    v.extend(list.into_iter().map(|c| ("comment", c)));
    v.retain(|x| !x.1.is_empty());
    (h, v)
}
fn check_station(class: &str, h: &Header, want: &[(&'static str, String)]) -> Res {
    let got = dump_header(h);
    let mut exp = Dump::new();
    for (k, v) in want {
        put(&mut exp, k.to_string(), v.clone());
    }
    for (k, v) in &exp {
        if got.get(k) != Some(v) {
            return fail(class, format!("header [{k}] = {v:?}, got {:?}", got.get(k)));
        }
    }
    Ok(())
}
pub fn from_nothing(ctx: &mut Ctx, m: &Model) -> Result<(Rinex, Vec<(&'static str, String)>), Violation> {
    let mut fields = HeaderFields::default();
    fields.timeof_first_obs = Some(instant(m, &m.eps[0]));
    for (c, l) in &m.codes {
        fields.codes.insert(constellation(*c), l.iter().map(|x| Observable::from_str(x).unwrap()).collect());
    }
    let packed = ctx.src.chance(1, 4);
    let base = if packed { Rinex::basic_crinex() } else { Rinex::basic_obs() };
    let version = Version::new(m.major, m.minor);
    let (h, v) = station(&mut ctx.src, base.header.with_version(version).with_type(RinexType::ObservationData).with_constellation(constellation(m.sys)).with_observation_fields(fields));
    let rec: rinex::observation::Record = m.eps.iter().map(|e| (key(m, e), assemble(m, e))).collect();
    let r = ctx.lib("assemble", || {
        let mut r = if packed { base.with_header(h.clone()).with_record(Record::ObsRecord(rec.clone())) } else { Rinex::new(h.clone(), Record::ObsRecord(rec.clone())) };
        if packed {
            r.rnx2crnx_mut();
        }
        r
    })?;
    Ok((r, v))
}

fn c37(ctx: &mut Ctx) -> Res {
    match ctx.src.us(6) {
        0 => return c37_met(ctx),
        1 => return c37_doris(ctx),
        _ => {},
    }
    let mut m = obs::draw(&mut ctx.src, obs::Opt { max_epochs: 6, ..Default::default() });
    let mut want = vec![];
    let mut rnx = if ctx.src.chance(1, 2) {
        let doc = m.doc();
        decode_check(ctx, &doc, "edit-open")?
    } else {
        m.doc().note(ctx);
        m.blank_sys = false;
        ctx.reach("from_nothing");
        let (r, w) = from_nothing(ctx, &m)?;
        want = w;
        r
    };
    expect_content(ctx, "edit-open", &rnx, &expected(&m))?;
    // what was last saved: the log, and the file
    let mut saved: Option<(Model, Vec<u8>)> = None;
    let n = ctx.src.range(2, 12);
    let mut ops = String::new();
    for k in 0..n {
        let op = if k == n - 1 { 20 } else { ctx.src.us(24) };
        let what = edit(ctx, &mut m, &mut rnx, op)?;
        if let Some(what) = what {
            ctx.ev(format!("{k}: {what}"));
            ops.push_str(&format!("{what}; "));
            ctx.reach(&format!("op {what}"));
            if what == "readable again" {
                // the library signs what it converted
                want.retain(|w| w.0 != "program");
            }
            ctx.nontrivial = true;
            expect_content(ctx, "edit-lost", &rnx, &expected(&m))?;
            continue;
        }
        match op {
            22 | 23 => {
                let Some((sm, bytes)) = &saved else { continue };
                // the editor dies and starts again from the last save
                ctx.fault("crash");
                let d = Delivery::draw(&mut ctx.src, bytes.len());
                rnx = match parse_delivered(ctx, "reopen", &std::rc::Rc::new(bytes.clone()), &d)? {
                    Ok(r) => r,
                    Err(e) => return fail("edit-save-unreadable", format!("after {ops}: the saved log is rejected: {e}")),
                };
                m = sm.clone();
                ops.push_str("restart; ");
                expect_content(ctx, "edit-save", &rnx, &expected(&m))?;
            },
            _ => {
                if let Some(bytes) = save(ctx, &rnx)? {
                    log_text(ctx, "saved", &String::from_utf8_lossy(&bytes));
                    let back = match parse_plain(ctx, &bytes)? {
                        Ok(r) => r,
                        Err(e) => return fail("edit-save-unreadable", format!("after {ops}: the saved log is rejected: {e}")),
                    };
                    expect_content(ctx, "edit-save", &back, &expected(&m)).map_err(|mut v| {
                        v.msg = format!("after {ops}: {}", v.msg);
                        v
                    })?;
                    if back.header.is_crinex() != rnx.header.is_crinex() {
                        return fail("edit-save", format!("after {ops}: compressed {} is read back as {}", rnx.header.is_crinex(), back.header.is_crinex()));
                    }
                    check_station("edit-save-header", &back.header, &want)?;
                    saved = Some((m.clone(), bytes));
                    ops.push_str("save; ");
                } else {
                    ops.push_str("failed save; ");
                }
                // saving changes nothing in memory
                expect_content(ctx, "edit-lost", &rnx, &expected(&m))?;
            },
        }
    }
    Ok(())
}

/// a save: Some(file) when it succeeded
pub fn save(ctx: &mut Ctx, rnx: &Rinex) -> Result<Option<Vec<u8>>, Violation> {
    let (mut w, st, cap) = soft_sink(ctx);
    let mut hard = false;
    if ctx.src.chance(1, 4) {
        // the file as an undisturbed device would have it
        let len = format_plain(ctx, rnx, "edit-save-refused")?.len();
        hard = true;
        let kind = *ctx.src.pick(&KINDS);
        let at = ctx.src.us(len);
        match ctx.src.us(3) {
            0 => w.fail_at = Some((at, WStep::Fail(kind), ctx.src.chance(1, 2))),
            1 => w.fail_at = Some((at, WStep::Zero, false)),
            _ => w.flush_fail = Some(kind),
        }
    }
    let flush_only = w.flush_fail.is_some();
    let r = ctx.lib("format", || {
        let mut bw = std::io::BufWriter::with_capacity(cap, w);
        let r = rnx.format(&mut bw);
        if r.is_err() {
            // what is left in the buffer of a failed save is given up
            let _ = bw.into_parts();
        }
        r
    })?;
    note_sink(ctx, &st);
    let st = st.borrow().clone();
    ctx.fault_n("write_error", st.failed);
    ctx.fault_n("write_zero", st.zero);
    ctx.fault_n("flush_error", st.flush_failed);
    match (r, hard) {
        (Ok(()), true) => fail("edit-save-lied", format!("a save to a device that failed {} reported success", if flush_only { "to flush" } else { "to write" })),
        (Err(e), false) => fail("edit-save-refused", format!("a save to a sound device failed: {e}")),
        (Ok(()), false) => Ok(Some(st.out)),
        (Err(_), true) => Ok(None),
    }
}

fn pick_val(ctx: &mut Ctx, m: &Model, some: bool) -> Option<(usize, usize, usize)> {
    let e = ctx.src.us(m.eps.len());
    let s = ctx.src.us(m.eps[e].sats.len());
    let v = &m.eps[e].sats[s].1;
    let c: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_some() == some).collect();
    if c.is_empty() {
        None
    } else {
        Some((e, s, c[ctx.src.us(c.len())]))
    }
}
fn draw_val(s: &mut Source) -> Val {
    let mut v = s.range(-9_999_999_999, 99_999_999_999);
    if v == 0 {
        v = 1;
    }
    Val { milli: v, lli: if s.chance(1, 3) { Some(s.us(8) as u8) } else { None }, snr: if s.chance(1, 2) { Some(s.range(1, 9) as u8) } else { None } }
}

/// one edit of the log, followed by the reference; None: the operation is none
/// of these
pub fn edit(ctx: &mut Ctx, m: &mut Model, rnx: &mut Rinex, op: usize) -> Result<Option<&'static str>, Violation> {
    Ok(Some(match op {
        0..=2 => {
            let Some((e, s, c)) = pick_val(ctx, m, true) else { return Ok(Some("nothing")) };
            let v = draw_val(&mut ctx.src);
            m.eps[e].sats[s].1[c] = Some(v);
            let (k, sat) = (key(m, &m.eps[e]), m.eps[e].sats[s].0);
            let new = signal(&sat, &codes(m, sat.sys)[c], &v, false);
            let n = ctx.lib("signal_observations_iter_mut", || {
                let mut n = 0;
                for (kk, x) in rnx.signal_observations_iter_mut() {
                    if kk == k && x.sv == new.sv && x.observable == new.observable {
                        *x = new.clone();
                        n += 1;
                    }
                }
                n
            })?;
            if n != 1 {
                return fail("edit-iterator", format!("signal_observations_iter_mut gives {n} signals for {k:?} {} {}", new.sv, new.observable));
            }
            "value"
        },
        3 => {
            // every value of one satellite is shifted: alignment
            let e = ctx.src.us(m.eps.len());
            let sat = m.eps[e].sats[ctx.src.us(m.eps[e].sats.len())].0;
            let d = ctx.src.range(1, 5_000_000);
            for e in m.eps.iter_mut() {
                for (s, vals) in e.sats.iter_mut() {
                    if *s == sat {
                        for v in vals.iter_mut().flatten() {
                            // a value may not become zero, which means missing
                            v.milli = shifted(v.milli, d);
                        }
                    }
                }
            }
            let x = sv(&sat);
            ctx.lib("signal_observations_iter_mut", || {
                for (_, s) in rnx.signal_observations_iter_mut() {
                    if s.sv == x {
                        s.value = shifted((s.value * 1e3).round() as i64, d) as f64 / 1e3;
                    }
                }
            })?;
            "shift"
        },
        4 | 5 => {
            let Some((e, s, c)) = pick_val(ctx, m, true) else { return Ok(Some("nothing")) };
            let (k, sat) = (key(m, &m.eps[e]), m.eps[e].sats[s].0);
            let left = m.eps[e].sats[s].1.iter().flatten().count();
            if left == 1 && m.eps[e].sats.len() == 1 {
                return Ok(Some("nothing"));
            }
            let o = Observable::from_str(&codes(m, sat.sys)[c]).unwrap();
            m.eps[e].sats[s].1[c] = None;
            if left == 1 {
                m.eps[e].sats.remove(s);
            }
            ctx.lib("observations_iter_mut", || {
                for (kk, x) in rnx.observations_iter_mut() {
                    if *kk == k {
                        x.signals.retain(|y| !(y.sv == sv(&sat) && y.observable == o));
                    }
                }
            })?;
            "signal removed"
        },
        6 | 7 => {
            let Some((e, s, c)) = pick_val(ctx, m, false) else { return Ok(Some("nothing")) };
            let v = draw_val(&mut ctx.src);
            m.eps[e].sats[s].1[c] = Some(v);
            let (k, sat) = (key(m, &m.eps[e]), m.eps[e].sats[s].0);
            let x = signal(&sat, &codes(m, sat.sys)[c], &v, true);
            let at = ctx.src.us(100);
            ctx.lib("as_mut_obs", || {
                if let Some(o) = rnx.record.as_mut_obs().and_then(|r| r.get_mut(&k)) {
                    let at = at % (o.signals.len() + 1);
                    o.signals.insert(at, x);
                }
            })?;
            "signal added"
        },
        8 => {
            // a satellite that was not seen
            let e = ctx.src.us(m.eps.len());
            let i = ctx.src.us(m.codes.len());
            let (sys, n) = (m.codes[i].0, m.codes[i].1.len());
            let prn = ctx.src.range(1, obs::max_prn(sys).min(20) as i64) as u8;
            let sat = Sat { sys, prn: if sys == 'S' { 23 } else { prn } };
            if m.eps[e].sats.iter().any(|s| s.0 == sat) {
                return Ok(Some("nothing"));
            }
            let mut vals = vec![None; n];
            let c = ctx.src.us(n);
            vals[c] = Some(draw_val(&mut ctx.src));
            let x = signal(&sat, &codes(m, sys)[c], &vals[c].unwrap(), false);
            let k = key(m, &m.eps[e]);
            m.eps[e].sats.push((sat, vals));
            ctx.lib("as_mut_obs", || {
                if let Some(o) = rnx.record.as_mut_obs().and_then(|r| r.get_mut(&k)) {
                    o.signals.push(x);
                }
            })?;
            "satellite added"
        },
        9 => {
            if m.eps.len() == 1 {
                return Ok(Some("nothing"));
            }
            let e = ctx.src.us(m.eps.len());
            let gone = m.eps.remove(e);
            let k = key(m, &gone);
            ctx.lib("as_mut_obs", || rnx.record.as_mut_obs().map(|r| r.remove(&k)))?;
            "epoch removed"
        },
        10 | 11 => {
            // before, between or after
            let e = ctx.src.us(m.eps.len());
            let mut x = m.eps[e].clone();
            x.t_ns += *ctx.src.pick(&[100i128, -100, 30_000_000_000, -30_000_000_000, 900, 500_000_000]) * ctx.src.range(1, 9) as i128;
            x.flag = *ctx.src.pick(&[0u8, 0, 1, 6]);
            for (_, vals) in x.sats.iter_mut() {
                for v in vals.iter_mut().flatten() {
                    *v = draw_val(&mut ctx.src);
                }
            }
            let c = from_ns(x.t_ns);
            if m.eps.iter().any(|y| y.t_ns == x.t_ns) || (m.major == 2 && !(1980..=2078).contains(&c.y)) {
                return Ok(Some("nothing"));
            }
            let (k, o) = (key(m, &x), assemble(m, &x));
            m.eps.push(x);
            m.eps.sort_by_key(|e| e.t_ns);
            ctx.lib("as_mut_obs", || rnx.record.as_mut_obs().map(|r| r.insert(k, o)))?;
            "epoch added"
        },
        12 | 13 => {
            let e = ctx.src.us(m.eps.len());
            let lim = if m.major == 2 { 999_999_999 } else { 99_999_999_999 };
            let mut c = ctx.src.range(-lim, lim);
            if c == 0 {
                c = 1;
            }
            let had = m.eps[e].clock.is_some();
            m.eps[e].clock = Some(c);
            let (k, t, v) = (key(m, &m.eps[e]), instant(m, &m.eps[e]), clk(m, c));
            let n = ctx.lib("clock_observations_iter_mut", || {
                let mut n = 0;
                for (kk, x) in rnx.clock_observations_iter_mut() {
                    if kk == k {
                        x.set_offset_s(t, v);
                        n += 1;
                    }
                }
                if n == 0 {
                    if let Some(o) = rnx.record.as_mut_obs().and_then(|r| r.get_mut(&k)) {
                        *o = o.with_clock_offset_s(t, v);
                    }
                }
                n
            })?;
            if n != had as usize {
                return fail("edit-iterator", format!("clock_observations_iter_mut gives {n} offsets for {k:?}"));
            }
            "clock"
        },
        14 => {
            let e = ctx.src.us(m.eps.len());
            m.eps[e].clock = None;
            let k = key(m, &m.eps[e]);
            ctx.lib("observations_iter_mut", || rnx.observations_iter_mut().for_each(|(kk, o)| if *kk == k { o.clock = None }))?;
            "clock removed"
        },
        15 => {
            ctx.lib("rnx2crnx_mut", || rnx.rnx2crnx_mut())?;
            if !rnx.header.is_crinex() {
                return fail("edit-convert", "rnx2crnx_mut leaves a readable log");
            }
            "compressed"
        },
        16 => {
            ctx.lib("crnx2rnx_mut", || rnx.crnx2rnx_mut())?;
            if rnx.header.is_crinex() {
                return fail("edit-convert", "crnx2rnx_mut leaves a compressed log");
            }
            "readable again"
        },
        17 => {
            // the log moves into another one
            let rec = rnx.record.clone();
            *rnx = ctx.lib("with_header", || {
                let mut r = Rinex::basic_obs();
                r.replace_header(rnx.header.clone());
                r.replace_record(rec);
                r
            })?;
            "moved"
        },
        _ => return Ok(None),
    }))
}
fn shifted(v: i64, d: i64) -> i64 {
    let x = v - d;
    if x == 0 || x < -9_999_999_999 {
        v
    } else {
        x
    }
}

// a weather log
fn c37_met(ctx: &mut Ctx) -> Res {
    let mut m = met::draw(&mut ctx.src, 6);
    let mut want = vec![];
    // the sensors, and their description
    let mut built: Vec<(String, String)> = vec![];
    let mkey = |m: &met::Model, e: usize, c: usize| MeteoKey { epoch: m.eps[e].0.epoch(TimeScale::UTC), observable: Observable::from_str(m.codes[c]).unwrap() };
    let mut rnx = if ctx.src.chance(1, 2) {
        let d = m.doc();
        decode_check(ctx, &d, "edit-open")?
    } else {
        m.doc().note(ctx);
        ctx.reach("from_nothing");
        let mut sensors = vec![];
        for c in &m.codes {
            if ctx.src.chance(1, 2) {
                continue;
            }
            let s = &mut ctx.src;
            let (a, b, acc) = (word(s, 20), word(s, 20), s.range(1, 999));
            let acc: f32 = format!("{}.{}", acc / 10, acc % 10).parse().unwrap();
            let mut x = rinex::meteo::Sensor::new(Observable::from_str(c).unwrap()).with_model(&a).with_type(&b).with_accuracy(acc);
            let mut item = format!("{a} / {b} / {acc:?}");
            if s.chance(1, 2) {
                let d: Vec<String> = (0..4).map(|_| f4(s.range(-64_000_000_000, 64_000_000_000))).collect();
                let f: Vec<f64> = d.iter().map(|d| d.parse().unwrap()).collect();
                x = x.with_position((f[0], f[1], f[2])).with_height(f[3]);
                item.push_str(&format!(" / {} {} {} {}", gen::ftext(&d[0]), gen::ftext(&d[1]), gen::ftext(&d[2]), gen::ftext(&d[3])));
            } else {
                item.push_str(" / -");
            }
            built.push((c.to_string(), item));
            sensors.push(x);
        }
        let fields = rinex::meteo::HeaderFields { codes: m.codes.iter().map(|c| Observable::from_str(c).unwrap()).collect(), sensors };
        let (mut h, w) = station(&mut ctx.src, Header::default().with_version(Version::new(m.major, m.minor)).with_type(RinexType::MeteoData));
        h.meteo = Some(fields);
        want = w;
        let mut rec = rinex::meteo::Record::new();
        for (e, (_, vals)) in m.eps.iter().enumerate() {
            for (c, v) in vals.iter().enumerate() {
                if let Some(v) = v {
                    rec.insert(mkey(&m, e, c), *v as f64 / 10.0);
                }
            }
        }
        ctx.lib("assemble", || Rinex::new(h, Record::MeteoRecord(rec)))?
    };
    let expected = |m: &met::Model| m.doc().expected();
    expect_content(ctx, "edit-open", &rnx, &expected(&m))?;
    let mut saved: Option<(met::Model, Vec<u8>)> = None;
    let n = ctx.src.range(2, 10);
    for k in 0..n {
        let op = if k == n - 1 { 9 } else { ctx.src.us(12) };
        let e = ctx.src.us(m.eps.len());
        let c = ctx.src.us(m.codes.len());
        let x = ctx.src.range(1, 9_999);
        let what = match op {
            0..=2 if m.eps[e].1[c].is_some() => {
                m.eps[e].1[c] = Some(x);
                let kk = mkey(&m, e, c);
                let n = ctx.lib("meteo_observations_iter_mut", || rnx.meteo_observations_iter_mut().filter(|(k, _)| **k == kk).map(|(_, v)| *v = x as f64 / 10.0).count())?;
                if n != 1 {
                    return fail("edit-iterator", format!("meteo_observations_iter_mut gives {n} values for {kk:?}"));
                }
                "value"
            },
            0..=4 if m.eps[e].1[c].is_none() => {
                m.eps[e].1[c] = Some(x);
                let kk = mkey(&m, e, c);
                ctx.lib("as_mut_meteo", || rnx.record.as_mut_meteo().map(|r| r.insert(kk, x as f64 / 10.0)))?;
                "value added"
            },
            3 | 4 if m.eps[e].1.iter().flatten().count() > 1 => {
                let kk = mkey(&m, e, c);
                m.eps[e].1[c] = None;
                ctx.lib("as_mut_meteo", || rnx.record.as_mut_meteo().map(|r| r.remove(&kk)))?;
                "value removed"
            },
            5 if m.eps.len() > 1 => {
                let kk = mkey(&m, e, c);
                m.eps.remove(e);
                ctx.lib("as_mut_meteo", || rnx.record.as_mut_meteo().map(|r| r.retain(|k, _| k.epoch != kk.epoch)))?;
                "epoch removed"
            },
            6 => {
                let t = gen::to_ns(m.eps[e].0) + *ctx.src.pick(&[-60i128, 1, 60, 7200]) * ctx.src.range(1, 9) as i128 * 1_000_000_000;
                let civ = from_ns(t);
                if m.eps.iter().any(|y| gen::to_ns(y.0) == t) || (m.major == 2 && !(1980..=2078).contains(&civ.y)) {
                    continue;
                }
                let mut v = vec![None; m.codes.len()];
                v[c] = Some(x);
                m.eps.push((civ, v));
                m.eps.sort_by_key(|y| gen::to_ns(y.0));
                let e = m.eps.iter().position(|y| y.0 == civ).unwrap();
                let kk = mkey(&m, e, c);
                ctx.lib("as_mut_meteo", || rnx.record.as_mut_meteo().map(|r| r.insert(kk, x as f64 / 10.0)))?;
                "epoch added"
            },
            10 | 11 => {
                let Some((sm, bytes)) = &saved else { continue };
                ctx.fault("crash");
                let d = Delivery::draw(&mut ctx.src, bytes.len());
                rnx = match parse_delivered(ctx, "reopen", &std::rc::Rc::new(bytes.clone()), &d)? {
                    Ok(r) => r,
                    Err(e) => return fail("edit-save-unreadable", format!("the saved log is rejected: {e}")),
                };
                m = sm.clone();
                "restart"
            },
            7..=9 => {
                if let Some(bytes) = save(ctx, &rnx)? {
                    log_text(ctx, "saved", &String::from_utf8_lossy(&bytes));
                    let back = match parse_plain(ctx, &bytes)? {
                        Ok(r) => r,
                        Err(e) => return fail("edit-save-unreadable", format!("the saved log is rejected: {e}")),
                    };
                    expect_content(ctx, "edit-save", &back, &expected(&m))?;
                    check_station("edit-save-header", &back.header, &want)?;
                    if !built.is_empty() {
                        let got = dump_header(&back.header);
                        for (c, x) in &built {
                            if got.get(&format!("sensor {c}")) != Some(&vec![x.clone()]) {
                                return fail("edit-save-header", format!("sensor {c}: built as {x}, saved as {:?}", got.get(&format!("sensor {c}"))));
                            }
                        }
                    }
                    saved = Some((m.clone(), bytes));
                }
                "save"
            },
            _ => continue,
        };
        ctx.ev(format!("{k}: {what}"));
        ctx.reach(&format!("met op {what}"));
        ctx.nontrivial |= what != "save";
        expect_content(ctx, "edit-lost", &rnx, &expected(&m))?;
    }
    Ok(())
}

// a log of ground beacons
fn c37_doris(ctx: &mut Ctx) -> Res {
    use gen::doris::{self, sid, Meas};
    use rinex::doris::{DorisKey, Observations, SignalKey, SignalObservation};
    let mut m = doris::draw(&mut ctx.src, 6);
    let expected = |m: &doris::Model| m.doc().expected();
    let mut rnx = decode_check(ctx, &m.doc(), "edit-open")?;
    expect_content(ctx, "edit-open", &rnx, &expected(&m))?;
    let first = m.eps[0].t;
    let dkey = |m: &doris::Model, e: usize| DorisKey { epoch: m.eps[e].t.epoch(TimeScale::TAI), flag: if m.eps[e].flag == 1 { EpochFlag::PowerFailure } else { EpochFlag::Ok } };
    let obs_of = |m: &doris::Model, c: usize| Observable::from_str(m.name(c)).unwrap();
    let flags = |s: &mut Source| if s.chance(1, 2) { Some(s.range(0, 9) as u8) } else { None };
    let mut saved: Option<(doris::Model, Vec<u8>)> = None;
    let n = ctx.src.range(2, 10);
    for k in 0..n {
        let op = if k == n - 1 { 11 } else { ctx.src.us(15) };
        let e = ctx.src.us(m.eps.len());
        let c = ctx.src.us(m.codes.len());
        let h = ctx.src.us(m.eps[e].heard.len());
        let b = ctx.src.us(m.beacons.len());
        let x = Meas { v: ctx.src.range(-9_999_999_999, 9_999_999_999), m1: flags(&mut ctx.src), m2: flags(&mut ctx.src) };
        let val = || SignalObservation { value: x.v as f64 / 1e3, m1: x.m1, m2: x.m2 };
        let kk = dkey(&m, e);
        let station = |rnx: &Rinex, m: &doris::Model, b: usize| rnx.header.doris.as_ref().and_then(|h| h.stations.iter().find(|s| sid(s) == m.beacons[b].id()).cloned());
        let refused = || Violation { class: "edit-station".into(), msg: "the header names no such beacon".into() };
        let what = match op {
            0..=3 => {
                let who = m.eps[e].heard[h].0;
                let sk = SignalKey { observable: obs_of(&m, c), station: station(&rnx, &m, who).ok_or_else(refused)? };
                let had = m.eps[e].heard[h].1[c].is_some();
                let left = m.eps[e].heard[h].1.iter().flatten().count();
                match (op, had) {
                    (0 | 1, true) => {
                        m.eps[e].heard[h].1[c] = Some(x.clone());
                        let n = ctx.lib("doris_observation_iter_mut", || {
                            let mut n = 0;
                            for (k, v) in rnx.doris_observation_iter_mut() {
                                if *k == kk {
                                    if let Some(o) = v.signals.get_mut(&sk) {
                                        *o = val();
                                        n += 1;
                                    }
                                }
                            }
                            n
                        })?;
                        if n != 1 {
                            return fail("edit-iterator", format!("doris_observation_iter_mut gives {n} values for {kk:?} {sk:?}"));
                        }
                        "value"
                    },
                    (_, false) => {
                        m.eps[e].heard[h].1[c] = Some(x.clone());
                        ctx.lib("as_mut_doris", || rnx.record.as_mut_doris().and_then(|r| r.get_mut(&kk)).map(|v| v.signals.insert(sk, val())))?;
                        "value added"
                    },
                    (_, true) if left > 1 => {
                        m.eps[e].heard[h].1[c] = None;
                        ctx.lib("as_mut_doris", || rnx.record.as_mut_doris().and_then(|r| r.get_mut(&kk)).map(|v| v.signals.remove(&sk)))?;
                        "value removed"
                    },
                    _ => continue,
                }
            },
            4 if m.eps[e].heard.len() > 1 => {
                let (who, _) = m.eps[e].heard.remove(h);
                let st = station(&rnx, &m, who).ok_or_else(refused)?;
                ctx.lib("as_mut_doris", || rnx.record.as_mut_doris().and_then(|r| r.get_mut(&kk)).map(|v| v.signals.retain(|k, _| k.station != st)))?;
                "beacon removed"
            },
            5 if !m.eps[e].heard.iter().any(|y| y.0 == b) => {
                let mut v = vec![None; m.codes.len()];
                v[c] = Some(x.clone());
                m.eps[e].heard.push((b, v));
                let sk = SignalKey { observable: obs_of(&m, c), station: station(&rnx, &m, b).ok_or_else(refused)? };
                ctx.lib("as_mut_doris", || rnx.record.as_mut_doris().and_then(|r| r.get_mut(&kk)).map(|v| v.signals.insert(sk, val())))?;
                "beacon added"
            },
            6 if m.eps.len() > 1 => {
                m.eps.remove(e);
                ctx.lib("as_mut_doris", || rnx.record.as_mut_doris().map(|r| r.remove(&kk)))?;
                "epoch removed"
            },
            7 => {
                let t = gen::to_ns(m.eps[e].t) + *ctx.src.pick(&[-3i128, 3, 7, 10]) * ctx.src.range(1, 900) as i128 * 1_000_000_000;
                // the header gives the time of the first observation
                if m.eps.iter().any(|y| gen::to_ns(y.t) == t) || t < gen::to_ns(first) {
                    continue;
                }
                let mut v = vec![None; m.codes.len()];
                v[c] = Some(x.clone());
                let off = ctx.src.range(1, 4_000_000_000);
                m.eps.push(doris::Ep { t: from_ns(t), flag: ctx.src.chance(1, 6) as u8, clock: Some((off, false)), heard: vec![(b, v)] });
                m.eps.sort_by_key(|y| gen::to_ns(y.t));
                let e = m.eps.iter().position(|y| gen::to_ns(y.t) == t).unwrap();
                let kk = dkey(&m, e);
                let sk = SignalKey { observable: obs_of(&m, c), station: station(&rnx, &m, b).ok_or_else(refused)? };
                ctx.lib("as_mut_doris", || {
                    let mut o = Observations::default();
                    o.clock.set_offset_s(kk.epoch, off as f64 / 1e9);
                    o.signals.insert(sk, val());
                    rnx.record.as_mut_doris().map(|r| r.insert(kk, o))
                })?;
                "epoch added"
            },
            8 | 9 => {
                let off = ctx.src.range(-4_000_000_000, 4_000_000_000);
                let ex = ctx.src.chance(1, 2);
                m.eps[e].clock = Some((off, ex));
                ctx.lib("set_offset_s", || {
                    for (k, v) in rnx.doris_observation_iter_mut() {
                        if *k == kk {
                            v.clock.set_offset_s(kk.epoch, off as f64 / 1e9);
                            v.clock_extrapolated = ex;
                        }
                    }
                })?;
                "clock"
            },
            12 | 13 => {
                let Some((sm, bytes)) = &saved else { continue };
                ctx.fault("crash");
                let d = Delivery::draw(&mut ctx.src, bytes.len());
                rnx = match parse_delivered(ctx, "reopen", &std::rc::Rc::new(bytes.clone()), &d)? {
                    Ok(r) => r,
                    Err(e) => return fail("edit-save-unreadable", format!("the saved log is rejected: {e}")),
                };
                m = sm.clone();
                "restart"
            },
            10 | 11 => {
                if let Some(bytes) = save(ctx, &rnx)? {
                    log_text(ctx, "saved", &String::from_utf8_lossy(&bytes));
                    let back = match parse_plain(ctx, &bytes)? {
                        Ok(r) => r,
                        Err(e) => return fail("edit-save-unreadable", format!("the saved log is rejected: {e}")),
                    };
                    expect_content(ctx, "edit-save", &back, &expected(&m))?;
                    saved = Some((m.clone(), bytes));
                }
                "save"
            },
            _ => continue,
        };
        ctx.ev(format!("{k}: {what}"));
        ctx.reach(&format!("doris op {what}"));
        ctx.nontrivial |= what != "save";
        expect_content(ctx, "edit-lost", &rnx, &expected(&m))?;
    }
    Ok(())
}
