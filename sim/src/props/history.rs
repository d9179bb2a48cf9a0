//! Queries over a logged history: what happened, when data was missing, which
//! message was in force. Expected answers come from the model of the producer.
use super::common::*;
use super::PropDef;
use crate::ctx::{fail, Ctx, Res, Violation};
use crate::gen::obs::{self, Model, Sat, Val};
use crate::gen::{doris, antex, ekey, fv, ftext, f3, from_ns, met, Civil};
use rinex::observation::{LliFlags, SignalObservation, SNR};
use rinex::prelude::{Duration, Epoch, Rinex, TimeScale, SV};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub type Bag = Vec<String>;

fn sorted(mut v: Bag) -> Bag {
    v.sort();
    v
}
/// equal as multisets
pub fn same_bag(class: &str, what: &str, exp: Bag, got: Bag) -> Res {
    let (e, g) = (sorted(exp), sorted(got));
    if e == g {
        return Ok(());
    }
    let count = |v: &Bag| {
        let mut m: BTreeMap<String, i64> = BTreeMap::new();
        for x in v {
            *m.entry(x.clone()).or_default() += 1;
        }
        m
    };
    let (ce, cg) = (count(&e), count(&g));
    let miss: Vec<&String> = ce.iter().filter(|(k, n)| cg.get(*k).unwrap_or(&0) < n).map(|x| x.0).take(3).collect();
    let extra: Vec<&String> = cg.iter().filter(|(k, n)| ce.get(*k).unwrap_or(&0) < n).map(|x| x.0).take(3).collect();
    fail(class, format!("{what}: expected {} item(s), got {}; missing {miss:?}; unexpected {extra:?}", e.len(), g.len()))
}
/// expected list in order
pub fn same_list(class: &str, what: &str, exp: Bag, got: Bag) -> Res {
    if exp == got {
        return Ok(());
    }
    let i = exp.iter().zip(got.iter()).position(|(a, b)| a != b).unwrap_or(exp.len().min(got.len()));
    fail(class, format!("{what}: expected {} item(s), got {}; item {i}: expected {:?}, got {:?}", exp.len(), got.len(), exp.get(i), got.get(i)))
}

// ---------------------------------------------------------- receiver history
/// more power failures, cycle slips and indicators than a quiet receiver shows
pub fn trouble(ctx: &mut Ctx, m: &mut Model) {
    let (nf, nl) = (ctx.src.range(1, 4) as u64, ctx.src.range(1, 4) as u64);
    for i in 0..m.eps.len() {
        if m.eps[i].is_special() {
            continue;
        }
        if ctx.src.chance(nf, 8) {
            m.eps[i].flag = *ctx.src.pick(&[1, 6, 0]);
        }
        match m.eps[i].flag {
            1 => ctx.fault("power_failure"),
            6 => ctx.fault("cycle_slip_epoch"),
            _ => {},
        }
        for j in 0..m.eps[i].sats.len() {
            let codes = m.codes.iter().find(|c| c.0 == m.eps[i].sats[j].0.sys).unwrap().1.clone();
            for (k, c) in codes.iter().enumerate() {
                match &mut m.eps[i].sats[j].1[k] {
                    Some(v) => {
                        if (c.starts_with('L') || c.starts_with('C')) && ctx.src.chance(nl, 8) {
                            v.lli = Some(ctx.src.range(0, 7) as u8);
                        }
                        if c.starts_with('L') {
                            let l = v.lli.unwrap_or(0);
                            if l & 1 != 0 {
                                ctx.fault("lock_loss");
                            }
                            if l & 2 != 0 {
                                ctx.fault("half_cycle");
                            }
                            if l & 4 != 0 {
                                ctx.fault("anti_spoofing");
                            }
                        }
                    },
                    None => ctx.fault("signal_lost"),
                }
            }
        }
    }
    for w in m.eps.windows(2) {
        if (w[1].t_ns - w[0].t_ns) as f64 > m.interval_s * 1.5e9 {
            ctx.fault("outage");
        }
    }
}

pub struct Sig {
    pub t: String,
    pub flag: u8,
    pub sat: Sat,
    pub code: String,
    pub v: Val,
}
impl Sig {
    fn body(&self) -> String {
        format!("{} {} {}", self.sat.s(), self.code, obs::ftext_obs(self.v.milli, obs::opt(self.v.lli), obs::opt(self.v.snr)))
    }
    fn full(&self) -> String {
        format!("{} {} {}", self.t, obs::flag_name(self.flag), self.body())
    }
    fn timed(&self) -> String {
        format!("{} {}", self.t, self.body())
    }
    fn phase(&self) -> bool {
        self.code.starts_with('L')
    }
}
pub fn signals(m: &Model) -> Vec<Sig> {
    let mut out = vec![];
    for ep in m.eps.iter().filter(|e| !e.is_special()) {
        let t = from_ns(ep.t_ns).key(obs::ts_of(m.ts));
        for (sat, vals) in &ep.sats {
            let codes = &m.codes.iter().find(|c| c.0 == sat.sys).unwrap().1;
            for (i, v) in vals.iter().enumerate() {
                if let Some(v) = v {
                    out.push(Sig { t: t.clone(), flag: ep.flag, sat: *sat, code: codes[i].clone(), v: *v });
                }
            }
        }
    }
    out
}
fn sig_body(s: &SignalObservation) -> String {
    format!("{:x} {} {} lli {} snr {}", s.sv, s.observable, fv(s.value), obs::opt(s.lli.map(|l| l.bits())), obs::opt(s.snr.map(obs::snr_digit)))
}
fn full(k: &rinex::prelude::obs::ObsKey, s: &SignalObservation) -> String {
    format!("{} {:?} {}", ekey(k.epoch), k.flag, sig_body(s))
}
fn timed(t: Epoch, s: &SignalObservation) -> String {
    format!("{} {}", ekey(t), sig_body(s))
}
fn in_order(class: &str, what: &str, t: &[Epoch]) -> Res {
    for w in t.windows(2) {
        if w[1] < w[0] {
            return fail(class, format!("{what}: {} comes after {}", w[1], w[0]));
        }
    }
    Ok(())
}

pub static C27: PropDef = PropDef {
    id: "C27",
    run: c27,
    quick_runs: 12000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded receiver history with power failures, cycle slip epochs, losses of lock, half cycles, anti-spoofing, missing signals and outages is logged by a reference writer, read back under a drawn delivery, and every event and signal filter is compared with the history; non-trivial: at least one epoch with data",
    faults: &["power_failure", "cycle_slip_epoch", "lock_loss", "half_cycle", "anti_spoofing", "signal_lost", "outage", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writer follows the RINEX 2.11/3.0x/4.00 column layout", "epochs of event flags 2 to 5 carry records, not observations, and are not part of the history"],
};

fn c27(ctx: &mut Ctx) -> Res {
    let mut m = obs::draw(&mut ctx.src, obs::Opt { specials: true, ..Default::default() });
    trouble(ctx, &mut m);
    let rnx = decode_check(ctx, &m.doc(), "events")?;
    let all = signals(&m);
    let pick = |f: &dyn Fn(&Sig) -> bool, with_flag: bool| -> Bag { all.iter().filter(|s| f(s)).map(|s| if with_flag { s.full() } else { s.timed() }).collect() };

    let exp: Bag = m.eps.iter().filter(|e| !e.is_special() && e.flag != 0).map(|e| format!("{} {}", from_ns(e.t_ns).key(obs::ts_of(m.ts)), obs::flag_name(e.flag))).collect();
    let got: Bag = ctx.lib("epoch_anomalies", || rnx.epoch_anomalies().map(|k| format!("{} {:?}", ekey(k.epoch), k.flag)).collect())?;
    same_list("anomalies", "epoch_anomalies", exp, got)?;

    macro_rules! keyed {
        ($name:ident, $f:expr) => {{
            let got: Vec<(Epoch, String)> = ctx.lib(stringify!($name), || rnx.$name().map(|(k, s)| (k.epoch, full(&k, s))).collect())?;
            in_order("filter-order", stringify!($name), &got.iter().map(|x| x.0).collect::<Vec<_>>())?;
            same_bag(concat!("filter-", stringify!($name)), stringify!($name), pick(&$f, true), got.into_iter().map(|x| x.1).collect())?;
        }};
    }
    macro_rules! timely {
        ($name:ident, $f:expr) => {{
            let got: Vec<(Epoch, String)> = ctx.lib(stringify!($name), || rnx.$name().map(|(t, s)| (t, timed(t, s))).collect())?;
            in_order("filter-order", stringify!($name), &got.iter().map(|x| x.0).collect::<Vec<_>>())?;
            same_bag(concat!("filter-", stringify!($name)), stringify!($name), pick(&$f, false), got.into_iter().map(|x| x.1).collect())?;
        }};
    }
    let pr = |s: &Sig| s.code.starts_with('C') || s.code.starts_with('P');
    let ph = |s: &Sig| s.phase();
    let ok = |s: &Sig| s.flag == 0;
    let lli = |s: &Sig| s.v.lli.unwrap_or(0);
    keyed!(signal_observations_iter, |_| true);
    keyed!(pseudo_range_observations_iter, pr);
    keyed!(phase_range_observations_iter, ph);
    keyed!(doppler_observations_iter, |s: &Sig| s.code.starts_with('D'));
    keyed!(ssi_observations_iter, |s: &Sig| s.code.starts_with('S'));
    timely!(signal_observations_sampling_ok_iter, ok);
    timely!(pseudo_range_sampling_ok_iter, |s: &Sig| ok(s) && pr(s));
    timely!(phase_range_sampling_ok_iter, |s: &Sig| ok(s) && ph(s));
    timely!(phase_range_tracking_ok_iter, |s: &Sig| ok(s) && ph(s) && lli(s) & 3 == 0);
    keyed!(phase_cycle_slip_events, |s: &Sig| ph(s) && lli(s) & 1 != 0);
    keyed!(phase_half_full_cycle_slip_events, |s: &Sig| ph(s) && lli(s) & 3 != 0);

    // what a user may rely on: no indicator but zero, and strong when that is known
    let sound = |s: &Sig| lli(s) == 0;
    let want = ctx.src.range(0, 9) as u8;
    let strong = |s: &Sig, min: u8| s.v.snr.map(|n| n >= min);
    let got: Bag = ctx.lib("is_ok", || rnx.signal_observations_iter().filter(|(_, s)| (*s).clone().is_ok()).map(|(k, s)| full(&k, s)).collect())?;
    same_bag("filter-is-ok", "signals that are OK", pick(&|s| sound(s) && strong(s, 5).unwrap_or(true), true), got)?;
    let got: Bag = ctx.lib("is_ok_snr", || rnx.signal_observations_iter().filter(|(_, s)| s.is_ok_snr(SNR::from(want))).map(|(k, s)| full(&k, s)).collect())?;
    same_bag("filter-is-ok-snr", &format!("signals that are OK with SNR {want} or more"), pick(&|s| sound(s) && strong(s, want).unwrap_or(false), true), got)?;

    // receiver clock
    let exp: Bag = m
        .eps
        .iter()
        .filter(|e| !e.is_special())
        .filter_map(|e| {
            let c = e.clock?;
            let t = if m.major == 2 { obs::clk2(c) } else { obs::clk3(c) };
            if c == 0 {
                return None;
            }
            Some(format!("{} {} {}", from_ns(e.t_ns).key(obs::ts_of(m.ts)), obs::flag_name(e.flag), ftext(&t)))
        })
        .collect();
    let got: Bag = ctx.lib("clock_observations_iter", || rnx.clock_observations_iter().map(|(k, c)| format!("{} {:?} {}", ekey(k.epoch), k.flag, fv(c.offset_s))).collect())?;
    same_list("clock", "clock_observations_iter", exp.clone(), got)?;
    let (keys, got, sig): (Bag, Bag, Bag) = ctx.lib("observations_iter", || {
        (
            rnx.observations_iter().map(|(k, _)| format!("{} {:?}", ekey(k.epoch), k.flag)).collect(),
            rnx.observations_iter().filter_map(|(k, o)| o.clock.map(|c| format!("{} {:?} {}", ekey(k.epoch), k.flag, fv(c.offset_s)))).collect(),
            rnx.observations_iter().flat_map(|(k, o)| o.signals.iter().map(move |s| full(k, s))).collect(),
        )
    })?;
    let (keys2, sig2): (Bag, Bag) = ctx.lib("observation_keys", || {
        (rnx.observation_keys().map(|k| format!("{} {:?}", ekey(k.epoch), k.flag)).collect(), rnx.signal_observations_iter().map(|(k, s)| full(&k, s)).collect())
    })?;
    same_list("clock", "observations_iter", exp, got)?;
    same_list("epochs", "observations_iter", keys2, keys)?;
    same_list("signals", "observations_iter", sig2, sig)?;

    // masking by indicator
    let bits = ctx.src.range(1, 7) as u8;
    let mask = LliFlags::from_bits(bits).unwrap();
    let keep = |s: &Sig| !ph(s) || s.v.lli.map(|l| l & bits != 0).unwrap_or(false);
    let exp = pick(&keep, true);
    let masked = ctx.lib("lli_masking", || rnx.observation_phase_tracking_lli_masking(mask))?;
    let got: Bag = ctx.lib("inspect", || masked.signal_observations_iter().map(|(k, s)| full(&k, s)).collect())?;
    same_bag("lli-mask", &format!("LLI mask {bits}"), exp, got)?;
    let exp: Bag = {
        let set: BTreeSet<String> = all.iter().filter(|s| keep(s)).map(|s| format!("{} {}", s.t, obs::flag_name(s.flag))).collect();
        set.into_iter().collect()
    };
    let got: Bag = ctx.lib("inspect", || masked.observation_keys().map(|k| format!("{} {:?}", ekey(k.epoch), k.flag)).collect())?;
    same_bag("lli-mask-epochs", &format!("epochs left by LLI mask {bits}"), exp, got)?;
    // the original is untouched
    let got: Bag = ctx.lib("inspect", || rnx.signal_observations_iter().map(|(k, s)| full(&k, s)).collect())?;
    same_bag("lli-mask-original", "history after a copy was masked", pick(&|_| true, true), got)
}

// ------------------------------------------------------- outages and sampling
pub static C28: PropDef = PropDef {
    id: "C28",
    run: c28,
    quick_runs: 16000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded producer (receiver, weather station, clock provider, ionosphere centre) logs at its interval with outages of random length, the file is read back under a drawn delivery, and the time span, histogram, dominant interval, gap reports under drawn tolerances and the population of vehicles and observables are compared with the log; non-trivial: at least one epoch",
    faults: &["outage", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["hifitime computes the difference of two instants correctly", "equally frequent intervals may each be called dominant"],
};

/// instant named by the first two words of an item key
pub fn instant(key: &str) -> Option<(String, Epoch)> {
    let mut w = key.split(' ');
    let (d, ts) = (w.next()?, w.next()?);
    let ts = match ts {
        "GPST" => TimeScale::GPST,
        "GST" => TimeScale::GST,
        "BDT" => TimeScale::BDT,
        "QZSST" => TimeScale::QZSST,
        "UTC" => TimeScale::UTC,
        "TAI" => TimeScale::TAI,
        _ => return None,
    };
    let n = |a: usize, b: usize| d.get(a..b)?.parse::<u32>().ok();
    let c = Civil { y: n(0, 4)? as i32, m: n(5, 7)? as u8, d: n(8, 10)? as u8, hh: n(11, 13)? as u8, mm: n(14, 16)? as u8, ss: n(17, 19)? as u8, ns: n(20, 29)? };
    Some((format!("{d} {ts:?}"), c.epoch(ts)))
}

fn c28(ctx: &mut Ctx) -> Res {
    let k = *ctx.src.pick(&[0usize, 5, 1, 6, 7, 2, 9]);
    let size = *ctx.src.pick(&[12usize, 4, 24]);
    let mut doc = crate::gen::draw_kind(&mut ctx.src, k, size);
    // the producer announces an interval and does not keep it
    if !["CLK", "IONEX", "ANTEX"].contains(&doc.kind) && ctx.src.chance(1, 2) {
        let i = *ctx.src.pick(&["30.000", "1.000", "0.100", "3600.000", "15.000"]);
        let n = doc.header.len() - 1;
        doc.header.insert(n, crate::gen::hl(&format!("{i:>10}"), "INTERVAL"));
        ctx.probe("interval_announced");
    }
    let rnx = decode_check(ctx, &doc, "sampling")?;
    let dump = doc.recovered(&doc.blocks);
    let mut at: BTreeMap<String, Epoch> = BTreeMap::new();
    for k in dump.keys() {
        if let Some((s, e)) = instant(k) {
            at.insert(s, e);
        }
    }
    // text order is chronological on one time scale
    let ep: Vec<Epoch> = at.values().copied().collect();
    let names: Bag = at.keys().cloned().collect();
    let got: Bag = ctx.lib("epoch_iter", || rnx.epoch_iter().map(ekey).collect())?;
    same_list("epochs", "epoch_iter", names.clone(), got)?;
    let eq = |class: &str, e: String, g: String| -> Res {
        if e == g {
            Ok(())
        } else {
            fail(class, format!("{class}: expected {e}, got {g}"))
        }
    };
    let first = ctx.lib("first_epoch", || rnx.first_epoch().map(ekey))?;
    let last = ctx.lib("last_epoch", || rnx.last_epoch().map(ekey))?;
    eq("first-epoch", format!("{:?}", names.first()), format!("{:?}", first.as_ref()))?;
    eq("last-epoch", format!("{:?}", names.last()), format!("{:?}", last.as_ref()))?;
    let dur = ctx.lib("duration", || rnx.duration())?;
    let exp = if ep.is_empty() { None } else { Some(*ep.last().unwrap() - ep[0]) };
    eq("duration", format!("{exp:?}"), format!("{dur:?}"))?;

    let steps: Vec<(Epoch, Duration)> = ep.windows(2).map(|w| (w[0], w[1] - w[0])).collect();
    let mut hist: BTreeMap<i128, usize> = BTreeMap::new();
    for (_, d) in &steps {
        *hist.entry(d.total_nanoseconds()).or_default() += 1;
    }
    let got: Bag = ctx.lib("sampling_histogram", || rnx.sampling_histogram().map(|(d, n)| format!("{} x{n}", d.total_nanoseconds())).collect())?;
    same_bag("histogram", "sampling_histogram", hist.iter().map(|(d, n)| format!("{d} x{n}")).collect(), got)?;
    let most = hist.values().max().copied().unwrap_or(0);
    let modes: Vec<i128> = hist.iter().filter(|x| *x.1 == most).map(|x| *x.0).collect();
    let dom = ctx.lib("dominant_sampling_interval", || rnx.dominant_sampling_interval())?;
    match dom {
        None if modes.is_empty() => {},
        Some(d) if modes.contains(&d.total_nanoseconds()) => {},
        _ => return fail("dominant", format!("dominant sampling interval {dom:?} is none of the most frequent intervals {modes:?} ns")),
    }
    let rate = ctx.lib("dominant_sampling_rate_hz", || rnx.dominant_sampling_rate_hz())?;
    match (rate, dom) {
        (None, None) => {},
        (Some(r), Some(_)) if modes.iter().any(|m| (r * (*m as f64) / 1e9 - 1.0).abs() < 1e-9) => {},
        _ => return fail("dominant-rate", format!("dominant rate {rate:?} Hz does not match the most frequent intervals {modes:?} ns")),
    }
    let steady = ctx.lib("steady_sampling", || rnx.steady_sampling())?;
    if steady != (hist.len() == 1) {
        return fail("steady", format!("steady_sampling is {steady} with intervals {hist:?}"));
    }
    let ts = ctx.lib("timeseries", || rnx.timeseries().map(|t| t.take(100_000).map(ekey).collect::<Bag>()))?;
    match ts {
        None if modes.is_empty() => {},
        Some(v) if !modes.is_empty() => {
            let span = exp.unwrap().total_nanoseconds();
            let ok = modes.iter().any(|m| v.len() as i128 == (span / m + 1).min(100_000)) && v.first() == names.first();
            if !ok {
                return fail("timeseries", format!("time series has {} instants from {:?}; span {span} ns, intervals {modes:?} ns", v.len(), v.first()));
            }
        },
        t => return fail("timeseries", format!("time series {:?} with {} interval(s)", t.map(|v| v.len()), hist.len())),
    }
    // gaps
    let gaps = |tol: i128| -> Bag { steps.iter().filter(|s| s.1.total_nanoseconds() > tol).map(|s| format!("{} {}", ekey(s.0), s.1.total_nanoseconds())).collect() };
    let mut tols: Vec<i128> = hist.keys().copied().collect();
    if let Some(m) = modes.first() {
        tols.push(m - 1);
        tols.push(m * 3);
        let n = gaps(*m).len() as u64;
        ctx.fault_n("outage", n);
    }
    tols.push(1_000_000_000);
    for _ in 0..3 {
        let tol = *ctx.src.pick(&tols);
        let got: Bag = ctx.lib("data_gaps", || rnx.data_gaps(Some(Duration::from_total_nanoseconds(tol))).map(|(e, d)| format!("{} {}", ekey(e), d.total_nanoseconds())).collect())?;
        same_list("gaps", &format!("gaps over {tol} ns"), gaps(tol), got)?;
    }
    let got: Bag = ctx.lib("data_gaps", || rnx.data_gaps(None).map(|(e, d)| format!("{} {}", ekey(e), d.total_nanoseconds())).collect())?;
    if modes.is_empty() {
        same_list("gaps", "gaps of a single epoch", vec![], got)?;
    } else if !modes.iter().any(|m| gaps(*m) == got) {
        return fail("gaps-dominant", format!("gaps against the dominant interval ({modes:?} ns): {got:?}"));
    }
    // population
    let word = |k: &str, n: usize| k.split(' ').nth(n).map(|x| x.to_string());
    let mut svs: BTreeSet<String> = BTreeSet::new();
    let mut obsv: BTreeSet<String> = BTreeSet::new();
    for k in dump.keys() {
        match doc.kind {
            "OBS2" | "OBS3" => {
                svs.extend(word(k, 3));
                obsv.extend(word(k, 4));
            },
            "MET" => obsv.extend(word(k, 2)),
            "CLK" if word(k, 3).as_deref() == Some("sv") => svs.extend(word(k, 4)),
            _ => {},
        }
    }
    let got: Vec<SV> = ctx.lib("sv_iter", || rnx.sv_iter().collect())?;
    same_bag("vehicles", "sv_iter", svs.iter().cloned().collect(), got.iter().map(|s| format!("{s:x}")).collect())?;
    let letters: BTreeSet<String> = svs.iter().map(|s| s[..1].to_string()).collect();
    let gotc = ctx.lib("constellations_iter", || rnx.constellations_iter().collect::<Vec<_>>())?;
    let got: BTreeSet<String> = gotc.iter().map(|c| if c.is_sbas() { "S".into() } else { format!("{c:x}") }).collect();
    if got != letters || gotc.iter().collect::<BTreeSet<_>>().len() != gotc.len() {
        return fail("constellations", format!("constellations {gotc:?}, expected {letters:?}"));
    }
    if doc.kind == "OBS3" {
        let exp: BTreeSet<String> = obsv.iter().map(|o| o[1..].to_string()).collect();
        let got: Bag = ctx.lib("signal_code_iter", || rnx.signal_code_iter().collect())?;
        same_bag("signal-codes", "signal_code_iter", exp.into_iter().collect(), got)?;
    }
    if doc.kind.starts_with("OBS") {
        // the carriers, those of GLONASS apart: they depend on the vehicle
        use rinex::prelude::Carrier;
        let hz: BTreeSet<String> = dump
            .keys()
            .filter_map(|k| Some((word(k, 3)?, word(k, 4)?)))
            .filter(|(s, o)| !s.starts_with('R') && in_scope(s, o))
            .map(|(s, o)| format!("{:.0}", freq(s.chars().next().unwrap(), &o).unwrap()))
            .collect();
        let all_known = dump.keys().all(|k| match (word(k, 3), word(k, 4)) {
            (Some(s), Some(o)) if s.len() == 3 && !s.starts_with('R') && k.len() > 35 => in_scope(&s, &o),
            _ => true,
        });
        let got: Vec<Carrier> = ctx.lib("carrier_iter", || rnx.carrier_iter().collect())?;
        let glo = |c: &Carrier| matches!(c, Carrier::G1(_) | Carrier::G1a | Carrier::G2(_) | Carrier::G2a | Carrier::G3);
        let got_hz: BTreeSet<String> = got.iter().filter(|c| !glo(c)).map(|c| format!("{:.0}", c.frequency())).collect();
        if hz.iter().any(|h| !got_hz.contains(h)) || (all_known && got_hz != hz) {
            return fail("carriers", format!("carrier_iter {got:?}, expected those of {hz:?} Hz"));
        }
        if got.iter().enumerate().any(|(i, c)| got[..i].contains(c)) {
            return fail("carriers", format!("carrier_iter gives a carrier twice: {got:?}"));
        }
        if all_known {
            ctx.probe("carriers_all_known");
        }
    }
    if matches!(doc.kind, "OBS2" | "OBS3" | "MET") {
        let got: Bag = ctx.lib("observables_iter", || rnx.observables_iter().map(|o| o.to_string()).collect())?;
        same_bag("observables", "observables_iter", obsv.into_iter().collect(), got)?;
    }
    Ok(())
}

// --------------------------------------------------------------- combinations
const C0: f64 = 299_792_458.0;
fn freq(sys: char, code: &str) -> Option<f64> {
    // GLONASS carriers depend on the vehicle; two character names of RINEX 2 are covered where their
    // meaning is the same in every revision
    if code.len() != 3 && !matches!(sys, 'G' | 'J') {
        return None;
    }
    let mhz = match (sys, code.as_bytes()[1]) {
        ('G' | 'J' | 'E' | 'C' | 'S', b'1') => 1575.42,
        ('G' | 'J', b'2') => 1227.60,
        ('G' | 'J' | 'E' | 'C' | 'S' | 'I', b'5') => 1176.45,
        ('E' | 'J', b'6') => 1278.75,
        ('E' | 'C', b'7') => 1207.14,
        ('E' | 'C', b'8') => 1191.795,
        ('C', b'2') => 1561.098,
        ('C', b'6') => 1268.52,
        ('I', b'9') => 2492.028,
        _ => return None,
    };
    Some(mhz * 1e6)
}
fn in_scope(sv: &str, code: &str) -> bool {
    freq(sv.chars().next().unwrap(), code).is_some()
}
fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-11 * scale.abs().max(1.0)
}

pub static C30: PropDef = PropDef {
    id: "C30",
    run: c30,
    quick_runs: 12000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded receiver history whose signals appear, disappear and come back (vehicles rising and setting, missing signals, outages, power failures) is read back under a drawn delivery, and every combination, code multipath and dual frequency TEC is compared with the value computed from the signals of that epoch alone; non-trivial: at least one epoch with data",
    faults: &["power_failure", "cycle_slip_epoch", "signal_lost", "outage", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["carrier frequencies as published; GLONASS, whose carriers depend on the vehicle, is simulated and ignored", "any signal of the first frequency may serve as the reference"],
};

fn c30(ctx: &mut Ctx) -> Res {
    let major = if ctx.src.chance(1, 4) { 2 } else { 3 };
    let mut m = obs::draw(&mut ctx.src, obs::Opt { max_epochs: 8, major: Some(major), ..Default::default() });
    // the reference signal comes and goes
    for ep in m.eps.iter_mut() {
        for (_, v) in ep.sats.iter_mut() {
            if ctx.src.chance(1, 5) && v.iter().filter(|x| x.is_some()).count() > 1 {
                let i = ctx.src.us(v.len());
                if v[i].is_some() {
                    v[i] = None;
                }
            }
        }
    }
    trouble(ctx, &mut m);
    let rnx = decode_check(ctx, &m.doc(), "combinations")?;
    use rinex::prelude::obs::Combination as K;
    struct S {
        t: String,
        flag: u8,
        sat: Sat,
        code: String,
        f: f64,
        /// metres
        m: f64,
        raw: f64,
    }
    let mut sig: Vec<S> = vec![];
    for s in signals(&m) {
        let kind = s.code.as_bytes()[0];
        if !matches!(kind, b'C' | b'P' | b'L') {
            continue;
        }
        if let Some(f) = freq(s.sat.sys, &s.code) {
            let raw: f64 = f3(s.v.milli).parse().unwrap();
            let v = if kind == b'L' { raw * C0 / f } else { raw };
            sig.push(S { t: s.t, flag: s.flag, sat: s.sat, code: s.code, f, m: v, raw });
        }
    }
    let mut groups: BTreeMap<(String, u8, Sat), Vec<&S>> = BTreeMap::new();
    for s in &sig {
        groups.entry((s.t.clone(), s.flag, s.sat)).or_default().push(s);
    }
    let phase = |s: &&S| s.code.starts_with('L');
    // BeiDou has two first frequencies, one of which serves the ionosphere
    let l1 = |s: &&S| s.f == 1575.42e6 || s.f == 1561.098e6;
    let l1c = |s: &&S| s.f == 1575.42e6;
    let value = |k: K, r: &S, v: &S| -> f64 {
        match k {
            K::GeometryFree if v.code.starts_with('L') => r.m - v.m,
            K::GeometryFree => v.m - r.m,
            K::IonosphereFree => (r.f * r.f * r.m - v.f * v.f * v.m) / (r.f * r.f - v.f * v.f),
            K::WideLane => (r.f * r.m - v.f * v.m) / (r.f - v.f),
            K::NarrowLane => (r.f * r.m + v.f * v.m) / (r.f + v.f),
            K::MelbourneWubbena => unreachable!(),
        }
    };
    for k in [K::GeometryFree, K::IonosphereFree, K::WideLane, K::NarrowLane, K::MelbourneWubbena] {
        let got = ctx.lib("signals_combination", || {
            rnx.signals_combination(k)
                .into_iter()
                .map(|(key, v)| (ekey(key.epoch), format!("{:?}", key.flag), format!("{:x}", key.sv), key.lhs.to_string(), key.reference.to_string(), v))
                .collect::<Vec<_>>()
        })?;
        let mut by: BTreeMap<String, Vec<(String, f64)>> = BTreeMap::new();
        for (t, fl, sv, lhs, r, v) in got {
            if !in_scope(&sv, &lhs) {
                continue;
            }
            by.entry(format!("{t} {fl} {sv} {lhs}")).or_default().push((r, v));
        }
        let mut n = 0u64;
        for ((t, fl, sat), g) in &groups {
            // measurements of very different sizes may be combined
            let scale: f64 = g.iter().map(|s| s.m.abs()).sum();
            for v in g.iter().filter(|s| !l1(s)) {
                if k == K::MelbourneWubbena && !phase(v) {
                    continue;
                }
                // acceptable (reference, value)
                let mut ok: Vec<(String, f64)> = vec![];
                for r in g.iter().filter(|s| l1(s) && phase(s) == phase(v)) {
                    if k != K::MelbourneWubbena {
                        ok.push((r.code.clone(), value(k, r, v)));
                        continue;
                    }
                    for c in g.iter().filter(|s| !phase(s) && s.code.len() == 3 && s.code[1..] == v.code[1..]) {
                        for cr in g.iter().filter(|s| !phase(s) && l1(s)) {
                            ok.push((r.code.clone(), value(K::WideLane, r, v) - value(K::NarrowLane, cr, c)));
                        }
                    }
                }
                if k == K::MelbourneWubbena && v.code.len() != 3 {
                    continue;
                }
                let key = format!("{t} {} {} {}", obs::flag_name(*fl), sat.s(), v.code);
                let have = by.remove(&key).unwrap_or_default();
                match (have.len(), ok.is_empty()) {
                    (0, true) => {},
                    (0, false) => return fail(&format!("{k:?}-missing"), format!("{k}: nothing for {key}, reference {:?} was observed", ok[0].0)),
                    (_, true) => return fail(&format!("{k:?}-unexpected"), format!("{k}: {key} = {have:?}, but no reference signal was observed")),
                    (1, false) => {
                        let (r, x) = &have[0];
                        if !ok.iter().any(|(a, b)| a == r && close(*x, *b, scale)) {
                            return fail(&format!("{k:?}-value"), format!("{k}: {key} = {x} against {r}, expected one of {:?}", &ok[..ok.len().min(3)]));
                        }
                        n += 1;
                    },
                    _ => return fail(&format!("{k:?}-twice"), format!("{k}: {key} reported {have:?}")),
                }
            }
        }
        by.retain(|key, _| major != 2 || k != K::MelbourneWubbena || key.is_empty());
        if let Some((key, v)) = by.iter().next() {
            return fail(&format!("{k:?}-unexpected"), format!("{k}: {key} = {v:?} is no combination of two signals of that epoch"));
        }
        if n > 0 {
            ctx.probe(&format!("combined:{k:?}"));
        }
    }
    // code multipath: three character signals only
    let got = ctx.lib("signals_multipath", || rnx.signals_multipath().into_iter().map(|(k, v)| (ekey(k.epoch), format!("{:x}", k.sv), k.signal.to_string(), k.rhs.to_string(), v)).collect::<Vec<_>>())?;
    if major != 2 {
        let mut by: BTreeMap<String, Vec<f64>> = BTreeMap::new();
        for (t, sv, s, r, v) in got {
            if in_scope(&sv, &s) {
                by.entry(format!("{t} {sv} {s} {r}")).or_default().push(v);
            }
        }
        let mut n = 0;
        for ((t, _, sat), g) in &groups {
            for p in g.iter().filter(|s| phase(s)) {
                for c in g.iter().filter(|s| !phase(s) && s.code[1..] == p.code[1..]) {
                    for j in g.iter().filter(|s| phase(s) && s.f != p.f) {
                        let key = format!("{t} {} {} {}", sat.s(), p.code, j.code);
                        let e = c.m - p.m - 2.0 * j.f * j.f / (p.f * p.f - j.f * j.f) * (p.m - j.m);
                        let scale = (p.m - j.m) * j.f * j.f / (p.f * p.f - j.f * j.f);
                        match by.remove(&key).as_deref() {
                            Some([x]) if close(*x, e, scale.abs() + p.m.abs()) => n += 1,
                            x => return fail("multipath", format!("multipath {key}: expected {e}, got {x:?}")),
                        }
                    }
                }
            }
        }
        if let Some((key, v)) = by.iter().next() {
            return fail("multipath-unexpected", format!("multipath {key} = {v:?} without its three signals at that epoch"));
        }
        if n > 0 {
            ctx.probe("multipath");
        }
    }
    // ionosphere
    let got = ctx.lib("dual_phase_tec", || rnx.observation_dual_phase_ionosphere_tec().into_iter().map(|(k, v)| (ekey(k.epoch), format!("{:x}", k.sv), k.reference.to_string(), k.rhs.to_string(), v.tecu())).collect::<Vec<_>>())?;
    let mut by: BTreeMap<String, f64> = BTreeMap::new();
    for (t, sv, r, l, v) in got {
        if in_scope(&sv, &r) {
            by.insert(format!("{t} {sv} {r} {l}"), v);
        }
    }
    let mut n = 0;
    for ((t, fl, sat), g) in &groups {
        if *fl != 0 {
            continue;
        }
        for r in g.iter().filter(|s| phase(s) && l1c(s)) {
            for v in g.iter().filter(|s| phase(s) && !l1c(s)) {
                let key = format!("{t} {} {} {}", sat.s(), r.code, v.code);
                let (a, b) = (r.f * r.f, v.f * v.f);
                let e = (a * b / (a - b) / 40.308 * (r.raw - v.raw)).abs() / 1e17;
                match by.remove(&key) {
                    Some(x) if (x - e).abs() <= 1e-5 + 1e-9 * e => n += 1,
                    x => return fail("tec", format!("TEC {key}: expected {e} TECu, got {x:?}")),
                }
            }
        }
    }
    if let Some((key, v)) = by.iter().next() {
        return fail("tec-unexpected", format!("TEC {key} = {v}: not two phases of two frequencies at a healthy epoch"));
    }
    if n > 0 {
        ctx.probe("tec");
    }
    Ok(())
}

// ---------------------------------------------------------------- differencing
pub static C31: PropDef = PropDef {
    id: "C31",
    run: c31,
    quick_runs: 12000,
    max_classes: 8,
    recheck: false,
    rule: "two seeded receivers (or weather stations) share an antenna and part of their schedule: each loses epochs, vehicles and signals of its own and lists vehicles in its own order; one log is subtracted from the other and every value compared with the difference of the two histories; non-trivial: at least one epoch",
    faults: &["epoch_lost", "vehicle_lost", "signal_lost", "power_failure", "cycle_slip_epoch", "lock_loss", "half_cycle", "anti_spoofing", "outage", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writers follow the RINEX layouts", "a difference is one f64 subtraction of the two decoded values"],
};

fn c31(ctx: &mut Ctx) -> Res {
    match ctx.src.us(5) {
        0 => return c31_met(ctx),
        1 => return c31_doris(ctx),
        _ => {},
    }
    let mut a = obs::draw(&mut ctx.src, obs::Opt::default());
    trouble(ctx, &mut a);
    let mut b = a.clone();
    for m in [&mut a, &mut b] {
        let n = m.eps.len();
        let keep: Vec<bool> = (0..n).map(|_| !ctx.src.chance(1, 5)).collect();
        let lost = keep.iter().filter(|k| !**k).count();
        if lost < n {
            ctx.fault_n("epoch_lost", lost as u64);
            let mut it = keep.iter();
            m.eps.retain(|_| *it.next().unwrap());
        }
        for ep in m.eps.iter_mut() {
            if ctx.src.chance(1, 12) {
                ep.flag = *ctx.src.pick(&[1, 6]);
            }
            if ep.sats.len() > 1 && ctx.src.chance(1, 3) {
                let i = ctx.src.us(ep.sats.len());
                ep.sats.remove(i);
                ctx.fault("vehicle_lost");
            }
            if ep.sats.len() > 1 && ctx.src.chance(1, 3) {
                let i = ctx.src.us(ep.sats.len());
                let x = ep.sats.remove(i);
                ep.sats.push(x);
            }
            for (_, v) in ep.sats.iter_mut() {
                for i in 0..v.len() {
                    if ctx.src.chance(1, 10) && v.iter().filter(|x| x.is_some()).count() > 1 && v[i].is_some() {
                        v[i] = None;
                        ctx.fault("signal_lost");
                    }
                    if let Some(x) = &mut v[i] {
                        if ctx.src.chance(2, 3) {
                            let y = x.milli + ctx.src.range(-40_000, 40_000);
                            if y != 0 && y.abs() < 99_999_999_999 {
                                x.milli = y;
                            }
                        }
                    }
                }
            }
        }
        m.first = Some(from_ns(m.eps[0].t_ns));
    }
    let ra = decode_check(ctx, &a.doc(), "lhs")?;
    let rb = decode_check(ctx, &b.doc(), "rhs")?;
    let val = |v: &Val| -> f64 { f3(v.milli).parse().unwrap() };
    let mut rhs: BTreeMap<(String, u8, Sat, String), f64> = BTreeMap::new();
    for s in signals(&b) {
        rhs.insert((s.t.clone(), s.flag, s.sat, s.code.clone()), val(&s.v));
    }
    let mut common = 0;
    let exp: Bag = signals(&a)
        .into_iter()
        .map(|s| {
            let v = val(&s.v);
            let r = match rhs.get(&(s.t.clone(), s.flag, s.sat, s.code.clone())) {
                Some(r) => {
                    common += 1;
                    v - r
                },
                None => v,
            };
            format!("{} {} {} {} {} lli {} snr {}", s.t, obs::flag_name(s.flag), s.sat.s(), s.code, fv(r), obs::opt(s.v.lli), obs::opt(s.v.snr))
        })
        .collect();
    if common > 0 {
        ctx.probe("common");
    }
    let d = ctx.lib("observation_substract", || ra.observation_substract(&rb))?;
    let got: Bag = ctx.lib("inspect", || d.signal_observations_iter().map(|(k, s)| full(&k, s)).collect())?;
    same_bag("difference", "observation_substract", exp, got)?;
    let got: Bag = ctx.lib("inspect", || ra.signal_observations_iter().map(|(k, s)| full(&k, s)).collect())?;
    same_bag("difference-original", "left hand side after a copy was differenced", signals(&a).iter().map(|s| s.full()).collect(), got)
}
fn c31_met(ctx: &mut Ctx) -> Res {
    let mut a = met::draw(&mut ctx.src, 12);
    let mut b = a.clone();
    for m in [&mut a, &mut b] {
        let n = m.eps.len();
        let keep: Vec<bool> = (0..n).map(|_| !ctx.src.chance(1, 4)).collect();
        let lost = keep.iter().filter(|k| !**k).count();
        if lost < n {
            ctx.fault_n("epoch_lost", lost as u64);
            let mut it = keep.iter();
            m.eps.retain(|_| *it.next().unwrap());
        }
        for (_, v) in m.eps.iter_mut() {
            for i in 0..v.len() {
                if ctx.src.chance(1, 6) && v.iter().filter(|x| x.is_some()).count() > 1 && v[i].is_some() {
                    v[i] = None;
                    ctx.fault("signal_lost");
                }
                if let Some(x) = &mut v[i] {
                    *x = (*x + ctx.src.range(-30, 30)).clamp(-99_999, 999_999);
                }
            }
        }
    }
    let ra = decode_check(ctx, &a.doc(), "lhs")?;
    let rb = decode_check(ctx, &b.doc(), "rhs")?;
    let items = |m: &met::Model| -> BTreeMap<String, f64> {
        let mut o = BTreeMap::new();
        for (c, v) in &m.eps {
            for (i, x) in v.iter().enumerate() {
                if let Some(x) = x {
                    o.insert(format!("{} {}", c.key(TimeScale::UTC), m.codes[i]), met::f1(*x).parse::<f64>().unwrap());
                }
            }
        }
        o
    };
    let (ia, ib) = (items(&a), items(&b));
    let exp: Bag = ia.iter().map(|(k, v)| format!("{k} {}", fv(ib.get(k).map(|r| v - r).unwrap_or(*v)))).collect();
    let d = ctx.lib("observation_substract", || ra.observation_substract(&rb))?;
    let got: Bag = ctx.lib("inspect", || d.meteo_observations_iter().map(|(k, v)| format!("{} {} {}", ekey(k.epoch), k.observable, fv(*v))).collect())?;
    same_bag("difference-met", "observation_substract", exp, got)
}
fn c31_doris(ctx: &mut Ctx) -> Res {
    let mut a = doris::draw(&mut ctx.src, 12);
    let mut b = a.clone();
    for m in [&mut a, &mut b] {
        let n = m.eps.len();
        let keep: Vec<bool> = (0..n).map(|_| !ctx.src.chance(1, 4)).collect();
        let lost = keep.iter().filter(|k| !**k).count();
        if lost < n {
            ctx.fault_n("epoch_lost", lost as u64);
            let mut it = keep.iter();
            m.eps.retain(|_| *it.next().unwrap());
        }
        for e in m.eps.iter_mut() {
            if ctx.src.chance(1, 12) {
                e.flag ^= 1;
            }
            if e.heard.len() > 1 && ctx.src.chance(1, 4) {
                let i = ctx.src.us(e.heard.len());
                e.heard.remove(i);
                ctx.fault("beacon_lost");
            }
            for (_, v) in e.heard.iter_mut() {
                for i in 0..v.len() {
                    if ctx.src.chance(1, 8) && v.iter().filter(|x| x.is_some()).count() > 1 && v[i].is_some() {
                        v[i] = None;
                        ctx.fault("signal_lost");
                    }
                    if let Some(x) = &mut v[i] {
                        x.v += ctx.src.range(-3000, 3000);
                        if ctx.src.chance(1, 4) {
                            x.m2 = None;
                        }
                    }
                }
            }
        }
    }
    let (da, db) = (a.doc(), b.doc());
    let ra = decode_check(ctx, &da, "lhs")?;
    let rb = decode_check(ctx, &db, "rhs")?;
    let (ia, ib) = (da.expected(), db.expected());
    let num = |v: &str| v.split(' ').next().unwrap_or("").parse::<f64>().unwrap();
    let mut exp = ia.clone();
    for (k, v) in exp.iter_mut().filter(|(k, _)| !k.ends_with(" clock")) {
        if let Some(r) = ib.get(k) {
            let rest = v[0].split_once(' ').unwrap().1;
            v[0] = format!("{} {rest}", fv(num(&v[0]) - num(&r[0])));
        }
    }
    let d = ctx.lib("observation_substract", || ra.observation_substract(&rb))?;
    let got = ctx.lib("inspect", || crate::gen::dump(&d))?;
    if let Some(d) = crate::gen::diff(&exp, &got) {
        return fail("difference-doris", d);
    }
    match crate::gen::diff(&ia, &ctx.lib("inspect", || crate::gen::dump(&ra))?) {
        None => Ok(()),
        Some(d) => fail("difference-original", d),
    }
}

// ------------------------------------------------------------ broadcast service
use crate::gen::brd;

fn clock_name(c: [f64; 3]) -> String {
    format!("clock {} {} {}", fv(c[0]), fv(c[1]), fv(c[2]))
}
fn toc_epoch(f: &brd::Frame) -> Epoch {
    from_ns(f.toc_ns).epoch(crate::gen::nav::ts(f.sys))
}
fn toe_epoch(f: &brd::Frame) -> Epoch {
    let ts = if f.sys == 'C' { TimeScale::BDT } else { TimeScale::GPST };
    from_ns(brd::week_zero_ns(f.sys) + f.week as i128 * 604_800_000_000_000 + f.toe_s as i128 * 1_000_000_000).epoch(ts)
}
/// time that really passed between two instants (differences of UTC readings
/// do not count the leap second in between)
fn elapsed(t: Epoch, from: Epoch) -> Duration {
    t.to_time_scale(TimeScale::TAI) - from.to_time_scale(TimeScale::TAI)
}
/// the message in force at t
fn in_force<'a>(m: &'a brd::Model, sat: (char, u8), t: Epoch) -> Option<&'a brd::Frame> {
    let mut best: Option<&brd::Frame> = None;
    for f in m.frames.iter().filter(|f| (f.sys, f.prn) == sat) {
        let toc = toc_epoch(f);
        if sat.0 == 'S' {
            best = match best {
                None => Some(f),
                Some(b) => {
                    let tb = toc_epoch(b);
                    let better = match (toc <= t, tb <= t) {
                        (true, false) => true,
                        (false, true) => false,
                        (true, true) => toc > tb,
                        (false, false) => toc < tb,
                    };
                    Some(if better { f } else { b })
                },
            };
            continue;
        }
        let toe = toe_epoch(f);
        let valid = toc <= t && toe < t && t < toe + Duration::from_seconds(brd::validity_s(sat.0) as f64);
        if valid && best.map(|b| toc > toc_epoch(b)).unwrap_or(true) {
            best = Some(f);
        }
    }
    best
}
fn on_boundary(m: &brd::Model, t: Epoch) -> bool {
    m.frames.iter().any(|f| {
        let e = toe_epoch(f);
        t == e || t == e + Duration::from_seconds(brd::validity_s(f.sys) as f64)
    })
}
/// an instant of the run, on one of the time scales users work in
fn draw_query(ctx: &mut Ctx, m: &brd::Model) -> Epoch {
    let s = 1_000_000_000i128;
    let ns = match ctx.src.us(3) {
        0 => m.frames[ctx.src.us(m.frames.len())].toc_ns + *ctx.src.pick(&[0i128, 1, -1, 60, 7199, 7201]) * s,
        1 => {
            let f = &m.frames[ctx.src.us(m.frames.len())];
            let e = brd::week_zero_ns(f.sys) + f.week as i128 * 604_800 * s + f.toe_s as i128 * s;
            let v = brd::validity_s(f.sys) as i128;
            e + *ctx.src.pick(&[1i128, -1, v - 1, v + 1]) * s + *ctx.src.pick(&[0i128, 500_000_000, -500_000_000])
        },
        _ => m.start_ns - 7200 * s + ctx.src.range(0, ((m.end_ns - m.start_ns) / s) as i64 + 36_000) as i128 * s + 500_000_000,
    };
    let base = *ctx.src.pick(&[TimeScale::GPST, TimeScale::BDT]);
    let mut t = from_ns(ns).epoch(base);
    if on_boundary(m, t) {
        t = from_ns(ns + 500_000_000).epoch(base);
    }
    let ts = *ctx.src.pick(&[TimeScale::GPST, TimeScale::UTC, TimeScale::TAI, TimeScale::BDT, TimeScale::GST]);
    let u = t.to_time_scale(ts);
    // within a leap second, UTC readings are ambiguous
    if u.to_time_scale(base) == t {
        u
    } else {
        t
    }
}
fn note_service(ctx: &mut Ctx, m: &brd::Model) {
    ctx.fault_n("leap_second", m.leap as u64);
    ctx.fault_n("upload_missed", m.missed);
    ctx.fault_n("message_late", m.late);
    ctx.fault_n("data_set_repeated", m.repeated);
    ctx.fault_n("week_rollover", m.rollover);
}

pub static C29: PropDef = PropDef {
    id: "C29",
    run: c29,
    quick_runs: 16000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded broadcast service uploads ephemerides of GPS, QZSS, Galileo, BeiDou and SBAS vehicles around week boundaries; uploads are missed, repeated under a new clock reference, logged late or out of order; a user asks at instants before, between and after uploads on several time scales which message is in force; message listings of mixed logs are compared per kind; non-trivial: at least one frame",
    faults: &["upload_missed", "message_late", "data_set_repeated", "week_rollover", "leap_second", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["instants that coincide with the time of ephemeris or the end of validity are not asked for", "hifitime converts between time scales correctly"],
};

fn c29(ctx: &mut Ctx) -> Res {
    if ctx.src.chance(1, 4) {
        return c29_listing(ctx);
    }
    let m = brd::draw(&mut ctx.src, 4);
    note_service(ctx, &m);
    let rnx = decode_check(ctx, &m.doc(), "service")?;
    let got: Bag = ctx.lib("nav_sv_clock_iter", || rnx.nav_sv_clock_iter().map(|(k, c)| format!("{} {:x} {}", ekey(k.epoch), k.sv, clock_name([c.0, c.1, c.2]))).collect())?;
    let sbas = |s: String| -> String {
        // the third clock word of SBAS messages is not a drift rate
        if s.contains(" S") && s.split(' ').nth(2).map(|w| w.starts_with('S')).unwrap_or(false) {
            s.rsplit_once(' ').unwrap().0.to_string()
        } else {
            s
        }
    };
    let exp: Bag = m.frames.iter().map(|f| sbas(format!("{} {} {}", from_ns(f.toc_ns).key(crate::gen::nav::ts(f.sys)), f.sat(), clock_name(f.clk))))
        .chain(m.frames.iter().filter_map(|f| Some(format!("{} {} {}", from_ns(f.toc_ns).key(crate::gen::nav::ts(f.sys)), f.sat(), clock_name(f.beside_clk?)))))
        .collect();
    same_bag("clocks", "nav_sv_clock_iter", exp, got.into_iter().map(sbas).collect())?;
    for _ in 0..12 {
        let sat = *ctx.src.pick(&m.sats);
        let t = draw_query(ctx, &m);
        let exp = in_force(&m, sat, t);
        let sv = SV::from_str(&format!("{}{:02}", sat.0, sat.1)).unwrap();
        let got = ctx.lib("nav_ephemeris_selection", || rnx.nav_ephemeris_selection(sv, t).map(|(toc, toe, e)| (toc, toe, [e.clock_bias, e.clock_drift])))?;
        ctx.probe(if exp.is_some() { "in_force" } else { "none_in_force" });
        match (exp, got) {
            (None, None) => {},
            (Some(f), Some((toc, toe, c))) => {
                let etoe = if f.sys == 'S' { toc_epoch(f) } else { toe_epoch(f) };
                if toc != toc_epoch(f) || c[0] != f.clk[0] || c[1] != f.clk[1] {
                    return fail("selection", format!("{sv:x} at {t}: message of {toc} selected, {} is in force", toc_epoch(f)));
                }
                if toe != etoe {
                    return fail("selection-toe", format!("{sv:x} at {t}: time of ephemeris {toe}, expected {etoe}"));
                }
            },
            (None, Some((toc, toe, _))) => return fail("selection-invalid", format!("{sv:x} at {t}: message of {toc} (time of ephemeris {toe}) selected, none is in force")),
            (Some(f), None) => return fail("selection-none", format!("{sv:x} at {t}: nothing selected, the message of {} (time of ephemeris {}) is in force", toc_epoch(f), toe_epoch(f))),
        }
    }
    // a vehicle nobody heard
    let got = ctx.lib("nav_ephemeris_selection", || rnx.nav_ephemeris_selection(SV::from_str("E36").unwrap(), toc_epoch(&m.frames[0])).is_some())?;
    if got && !m.sats.contains(&('E', 36)) {
        return fail("selection-stranger", "a message was selected for a vehicle that sent none".to_string());
    }
    Ok(())
}

fn c29_listing(ctx: &mut Ctx) -> Res {
    let doc = crate::gen::nav::draw(&mut ctx.src, 14, Some(4)).doc();
    let rnx = decode_check(ctx, &doc, "listing")?;
    let dump = doc.expected();
    // frame key -> (field -> value)
    let mut frames: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    for (k, v) in &dump {
        let w: Vec<&str> = k.split(' ').collect();
        frames.entry(w[..5].join(" ")).or_default().insert(w[5..].join(" "), v[0].clone());
    }
    let all = |frm: &str, has: &str| -> Bag { frames.iter().filter(|(k, f)| k.ends_with(frm) && (has.is_empty() || f.contains_key(has))).map(|x| x.0.clone()).collect() };
    macro_rules! listing {
        ($name:ident, $frm:expr, $has:expr) => {{
            let got: Bag = ctx.lib(stringify!($name), || rnx.$name().map(|(k, _)| format!("{} {:x} {} {}", ekey(k.epoch), k.sv, k.msgtype, k.frmtype)).collect())?;
            same_bag(concat!("listing-", stringify!($name)), stringify!($name), all($frm, $has), got)?;
        }};
    }
    listing!(nav_ephemeris_frames_iter, "EPH", "");
    listing!(nav_earth_orientation_frames_iter, "EOP", "");
    listing!(nav_system_time_frames_iter, "STO", "");
    listing!(nav_ionosphere_models_iter, "ION", "");
    listing!(nav_klobuchar_models_iter, "ION", "kb0");
    listing!(nav_nequickg_models_iter, "ION", "ng0");
    listing!(nav_bdgim_models_iter, "ION", "bd0");
    let got: Bag = ctx.lib("nav_message_types_iter", || rnx.nav_message_types_iter().map(|(t, sv, msg)| format!("{} {sv:x} {msg}", ekey(t))).collect())?;
    same_bag("listing-types", "nav_message_types_iter", frames.keys().map(|k| k.rsplit_once(' ').unwrap().0.to_string()).collect(), got)?;
    let got: Bag = ctx.lib("navigation_keys", || rnx.navigation_keys().map(|k| format!("{} {:x} {} {}", ekey(k.epoch), k.sv, k.msgtype, k.frmtype)).collect())?;
    same_bag("listing-keys", "navigation_keys", all("", ""), got)?;
    let got: Bag = ctx.lib("nav_delta_tai_ut1_iter", || rnx.nav_delta_tai_ut1_iter().map(|d| format!("{} {:?}", ekey(d.epoch), d.delta_tai_minus_ut1)).collect())?;
    let exp: Bag = frames
        .iter()
        .filter(|(k, _)| k.ends_with("EOP"))
        .map(|(k, f)| format!("{} {:?}", k.split(' ').take(2).collect::<Vec<_>>().join(" "), Duration::from_seconds(f["e6"].parse::<f64>().unwrap())))
        .collect();
    same_bag("listing-ut1", "nav_delta_tai_ut1_iter", exp, got)
}

// --------------------------------------------------------------- satellite states
pub static C23: PropDef = PropDef {
    id: "C23",
    run: c23,
    quick_runs: 12000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded constellation (GPS, QZSS, Galileo, BeiDou medium and geostationary orbits, SBAS) flies while its broadcast service misses, repeats and delays uploads; at drawn instants and time scales the position, velocity and clock the library derives are compared with an independent evaluation of the interface equations on the message in force; non-trivial: at least one frame",
    faults: &["upload_missed", "message_late", "data_set_repeated", "week_rollover", "leap_second", "short_read", "read_eintr"],
    real: &["rinex: navigation parsing, ephemeris selection, Kepler solver, clock correction", "anise: state vector type", "hifitime, gnss-rs"],
    stub: STUB_IO,
    assumptions: &["no field of an ephemeris is zero or blank", "positions agree within 1 cm, velocities within 1 mm/s, clocks within 2 ns"],
};

struct Pv([f64; 3]);
/// position by the interface control documents [m]
fn icd_position(f: &brd::Frame, tk: f64) -> Pv {
    let gm = if f.sys == 'G' || f.sys == 'J' { 3.986_005e14 } else { 3.986_004_418e14 };
    let we = if f.sys == 'C' { 7.292_115e-5 } else { 7.292_115_146_7e-5 };
    let a = f.get("sqrta") * f.get("sqrta");
    let n = (gm / (a * a * a)).sqrt() + f.get("deltaN");
    let mk = f.get("m0") + n * tk;
    let e = f.get("e");
    // Newton
    let mut ek = mk;
    for _ in 0..50 {
        ek -= (ek - e * ek.sin() - mk) / (1.0 - e * ek.cos());
    }
    let nu = 2.0 * (((1.0 + e) / (1.0 - e)).sqrt() * (ek / 2.0).tan()).atan();
    let phi = nu + f.get("omega");
    let (s2, c2) = ((2.0 * phi).sin(), (2.0 * phi).cos());
    let u = phi + f.get("cus") * s2 + f.get("cuc") * c2;
    let r = a * (1.0 - e * ek.cos()) + f.get("crs") * s2 + f.get("crc") * c2;
    let i = f.get("i0") + f.get("cis") * s2 + f.get("cic") * c2 + f.get("idot") * tk;
    let (x, y) = (r * u.cos(), r * u.sin());
    let geo = brd::geo(f.sys, f.prn);
    // the node of geostationary vehicles is counted in a frame that does not rotate
    let om = f.get("omega0") + (f.get("omegaDot") - if geo { 0.0 } else { we }) * tk - we * f.toe_s as f64;
    let p = [x * om.cos() - y * i.cos() * om.sin(), x * om.sin() + y * i.cos() * om.cos(), y * i.sin()];
    if !geo {
        return Pv(p);
    }
    let (ci, si) = ((-5.0f64).to_radians().cos(), (-5.0f64).to_radians().sin());
    let q = [p[0], p[1] * ci + p[2] * si, -p[1] * si + p[2] * ci];
    let (cz, sz) = ((we * tk).cos(), (we * tk).sin());
    Pv([q[0] * cz + q[1] * sz, -q[0] * sz + q[1] * cz, q[2]])
}

fn c23(ctx: &mut Ctx) -> Res {
    let m = brd::draw(&mut ctx.src, 3);
    note_service(ctx, &m);
    let rnx = decode_check(ctx, &m.doc(), "constellation")?;
    for _ in 0..10 {
        let sat = *ctx.src.pick(&m.sats);
        let t = draw_query(ctx, &m);
        let sv = SV::from_str(&format!("{}{:02}", sat.0, sat.1)).unwrap();
        let f = in_force(&m, sat, t);
        let orbit = ctx.lib("sv_orbit", || rnx.sv_orbit(sv, t))?;
        let (f, o) = match (f, orbit) {
            (None, None) => continue,
            (None, Some(_)) => return fail("state-invalid", format!("{sv:x} at {t}: a state without a message in force")),
            (Some(f), None) => return fail("state-none", format!("{sv:x} at {t}: no state, message of {} is in force", toc_epoch(f))),
            (Some(f), Some(o)) => (f, o),
        };
        let got = [o.radius_km.x, o.radius_km.y, o.radius_km.z];
        if o.epoch != t {
            return fail("state-epoch", format!("{sv:x}: state at {} instead of {t}", o.epoch));
        }
        if f.sys == 'S' {
            let e = [f.get("satPosX"), f.get("satPosY"), f.get("satPosZ")];
            if got != e {
                return fail("state-sbas", format!("{sv:x} at {t}: {got:?} km, broadcast position is {e:?}"));
            }
            ctx.probe("state:S");
        } else {
            let tk = elapsed(t, toe_epoch(f)).to_seconds();
            let p = icd_position(f, tk).0;
            for k in 0..3 {
                if (p[k] / 1000.0 - got[k]).abs() > 1e-5 {
                    return fail("position", format!("{sv:x} at {t} ({tk} s after the time of ephemeris): {got:?} km, expected {:?} m", p));
                }
            }
            let (a, b) = (icd_position(f, tk - 0.5).0, icd_position(f, tk + 0.5).0);
            let v = [o.velocity_km_s.x, o.velocity_km_s.y, o.velocity_km_s.z];
            for k in 0..3 {
                if ((b[k] - a[k]) / 1000.0 - v[k]).abs() > 1e-6 {
                    return fail("velocity", format!("{sv:x} at {t}: velocity {v:?} km/s, positions move by {:?} m/s", [b[0] - a[0], b[1] - a[1], b[2] - a[2]]));
                }
            }
            ctx.probe(&format!("state:{}{}", f.sys, if brd::geo(f.sys, f.prn) { "-geo" } else { "" }));
        }
        // clock of that message
        let n = ctx.src.us(5);
        let sel = ctx.lib("nav_ephemeris_selection", || rnx.nav_ephemeris_selection(sv, t).map(|(toc, _, e)| (toc, e.clone())))?;
        let Some((toc, eph)) = sel else { return fail("state-none", "selection vanished") };
        // the message itself gives that state
        let state = [o.radius_km.x, o.radius_km.y, o.radius_km.z, o.velocity_km_s.x, o.velocity_km_s.y, o.velocity_km_s.z];
        let near = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a - b).abs() < 1e-8);
        let list = |o: rinex::prelude::nav::Orbit| vec![o.radius_km.x, o.radius_km.y, o.radius_km.z, o.velocity_km_s.x, o.velocity_km_s.y, o.velocity_km_s.z];
        let got = ctx.lib("kepler2position", || eph.kepler2position(sv, toc, t).map(list))?;
        if !got.as_ref().map_or(false, |g| near(g, &state)) {
            return fail("state-message", format!("{sv:x} at {t}: kepler2position gives {got:?}, sv_orbit {state:?}"));
        }
        if f.sys != 'J' {
            let got = ctx.lib("kepler2position_velocity", || eph.kepler2position_velocity(sv, toc, t).map(|(p, v)| vec![p[0], p[1], p[2], v[0], v[1], v[2]]))?;
            let mut exp = state;
            if f.sys == 'S' {
                exp[3] = f.get("velX");
                exp[4] = f.get("velY");
                exp[5] = f.get("velZ");
            }
            if !got.as_ref().map_or(false, |g| near(g, &exp)) && (f.sys != 'S' || exp[3] * exp[4] * exp[5] != 0.0) {
                return fail("state-message", format!("{sv:x} at {t}: kepler2position_velocity gives {got:?}, expected {exp:?}"));
            }
        }
        if f.sys != 'S' {
            // taken to pieces, and put together again
            let got = ctx.lib("with_kepler", || {
                let (k, p) = (eph.kepler()?, eph.perturbations()?);
                let bare = eph.with_kepler(Default::default()).with_perturbations(Default::default());
                bare.with_perturbations(p).with_kepler(k).kepler2position(sv, toc, t).map(list)
            })?;
            if !got.as_ref().map_or(false, |g| near(g, &state)) {
                return fail("state-rebuilt", format!("{sv:x} at {t}: {state:?}, and {got:?} once its parameters are set again"));
            }
        }
        if f.sys != 'S' {
            let got = ctx.lib("clock_correction", || eph.clock_correction(toc, t, sv, n))?;
            let mut dt = elapsed(t, toc_epoch(f)).to_seconds();
            let poly = |dt: f64| f.clk[0] + f.clk[1] * dt + f.clk[2] * dt * dt;
            for _ in 0..n {
                dt -= poly(dt);
            }
            match got {
                Some(c) if (c.to_seconds() - poly(dt)).abs() < 2e-9 => {},
                c => return fail("clock", format!("{sv:x} at {t}: clock correction {c:?}, expected {} s", poly(dt))),
            }
            let before = toc - Duration::from_seconds(1.0);
            let got = ctx.lib("clock_correction", || eph.clock_correction(toc, before, sv, n))?;
            if got.is_some() {
                return fail("clock-before", format!("{sv:x}: a clock correction before the clock reference"));
            }
            if matches!(f.sys, 'G' | 'J') {
                let got = ctx.lib("tgd", || eph.tgd())?;
                let e = Duration::from_seconds(f.get("tgd"));
                if got != Some(e) {
                    return fail("tgd", format!("{sv:x}: group delay {got:?}, expected {e:?}"));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ seen from a receiver
pub static C36: PropDef = PropDef {
    id: "C36",
    run: c36,
    quick_runs: 40000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded broadcast history is read back under a drawn delivery; receivers at drawn places of the ellipsoid ask for azimuth, elevation, slant range and range rate of vehicles at drawn instants (in and out of validity, week rollovers), compared with the geometry of the position the model computes and the receiver's local east, north and up; non-trivial: at least one message",
    faults: &["outage", "late_upload", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the interface control documents' user algorithms", "WGS 84 ellipsoid", "receivers are fixed to the ground, away from the poles"],
};
/// An almanac with a single ephemeris, the Earth's (which does not move):
/// positions on the ground only need the Earth itself.
fn earth_almanac() -> rinex::prelude::nav::Almanac {
    let mut b: Vec<u8> = Vec::new();
    let pad = |b: &mut Vec<u8>, n: usize, c: u8| b.resize(n, c);
    b.extend(b"DAF/SPK ");
    b.extend(2u32.to_le_bytes());
    b.extend(6u32.to_le_bytes());
    pad(&mut b, 76, b' ');
    for v in [2u32, 2, 397] {
        b.extend(v.to_le_bytes());
    }
    b.extend(b"LTL-IEEE");
    pad(&mut b, 1024, 0);
    for v in [0.0f64, 0.0, 1.0, -3.0e9, 6.0e9] {
        b.extend(v.to_le_bytes());
    }
    for v in [399i32, 0, 1, 2, 385, 396] {
        b.extend(v.to_le_bytes());
    }
    pad(&mut b, 2048, 0);
    b.extend(b"EARTH");
    pad(&mut b, 3072, b' ');
    for v in [1.5e9f64, 4.5e9, 1.0e8, 0.0, -2.0e7, 0.0, 3.0e6, 0.0, -3.0e9, 9.0e9, 8.0, 1.0] {
        b.extend(v.to_le_bytes());
    }
    pad(&mut b, 4096, 0);
    let spk = anise::naif::SPK::parse(b).expect("ephemeris of the Earth");
    rinex::prelude::nav::Almanac::default().with_spk(spk).expect("ephemeris of the Earth")
}
fn c36(ctx: &mut Ctx) -> Res {
    let m = brd::draw(&mut ctx.src, 3);
    note_service(ctx, &m);
    let rnx = decode_check(ctx, &m.doc(), "visibility")?;
    let almanac = earth_almanac();
    for _ in 0..10 {
        let sat = *ctx.src.pick(&m.sats);
        let t = draw_query(ctx, &m);
        let sv = SV::from_str(&format!("{}{:02}", sat.0, sat.1)).unwrap();
        // the receiver
        let (lat, lon, h) = (ctx.src.range(-880, 880) as f64 / 10.0, ctx.src.range(-1800, 1799) as f64 / 10.0, ctx.src.range(-4, 90) as f64 / 10.0);
        let (phi, lam) = (lat.to_radians(), lon.to_radians());
        let (a, b) = (6378.137, 6356.752314245);
        let e2 = 1.0 - b * b / (a * a);
        let n = a / (1.0 - e2 * phi.sin().powi(2)).sqrt();
        let rx = [(n + h) * phi.cos() * lam.cos(), (n + h) * phi.cos() * lam.sin(), (n * (1.0 - e2) + h) * phi.sin()];
        let frame = anise::constants::frames::IAU_EARTH_FRAME.with_mu_km3_s2(398600.435436096);
        let frame = rinex::prelude::nav::Frame { shape: Some(anise::structure::planetocentric::ellipsoid::Ellipsoid::from_spheroid(a, b)), ..frame };
        let orbit = rinex::prelude::nav::Orbit::from_position(rx[0], rx[1], rx[2], t, frame);
        let f = in_force(&m, sat, t);
        let got = ctx.lib("nav_azimuth_elevation_range", || rnx.nav_azimuth_elevation_range(sv, t, orbit, &almanac))?;
        let (f, got) = match (f, got) {
            (None, None) => continue,
            (None, Some(_)) => return fail("seen-invalid", format!("{sv:x} at {t}: seen without a message in force")),
            (Some(f), None) => return fail("seen-none", format!("{sv:x} at {t}: not seen, message of {} is in force", toc_epoch(f))),
            (Some(f), Some(g)) => (f, g),
        };
        let tk = elapsed(t, toe_epoch(f)).to_seconds();
        let at = |dt: f64| -> [f64; 3] {
            if f.sys == 'S' {
                [f.get("satPosX"), f.get("satPosY"), f.get("satPosZ")]
            } else {
                let p = icd_position(f, tk + dt).0;
                [p[0] / 1000.0, p[1] / 1000.0, p[2] / 1000.0]
            }
        };
        let sub = |p: [f64; 3]| [p[0] - rx[0], p[1] - rx[1], p[2] - rx[2]];
        let dot = |x: [f64; 3], y: [f64; 3]| x[0] * y[0] + x[1] * y[1] + x[2] * y[2];
        let p = at(0.0);
        let d = sub(p);
        let range = dot(d, d).sqrt();
        let east = [-lam.sin(), lam.cos(), 0.0];
        let north = [-phi.sin() * lam.cos(), -phi.sin() * lam.sin(), phi.cos()];
        let up = [phi.cos() * lam.cos(), phi.cos() * lam.sin(), phi.sin()];
        let (de, dn, du) = (dot(d, east) / range, dot(d, north) / range, dot(d, up) / range);
        let (before, after) = (sub(at(-0.5)), sub(at(0.5)));
        let rate = if f.sys == 'S' { 0.0 } else { dot(after, after).sqrt() - dot(before, before).sqrt() };
        let check = |name: &str, got: &rinex::prelude::nav::AzElRange, rates: bool| -> Res {
            let (az, el) = (got.azimuth_deg.to_radians(), got.elevation_deg.to_radians());
            let g = [el.cos() * az.sin(), el.cos() * az.cos(), el.sin()];
            let far = (0..3).map(|k| (g[k] - [de, dn, du][k]).abs()).fold(0.0, f64::max);
            // (nearly overhead, the sine tells little about the angle)
            let tol = if du.abs() > 0.999_999 { 1e-4 } else { 1e-7 };
            if !(far < tol) || !(0.0..=360.0).contains(&got.azimuth_deg) {
                return fail("direction", format!("{name}: {sv:x} at {t} seen from {lat} {lon} {h} km at azimuth {} elevation {}, expected {} {}", got.azimuth_deg, got.elevation_deg, de.atan2(dn).to_degrees(), du.asin().to_degrees()));
            }
            if !((got.range_km - range).abs() < 1e-4) {
                return fail("range", format!("{name}: {sv:x} at {t} seen from {lat} {lon} {h} km at {} km, expected {range}", got.range_km));
            }
            if rates && !((got.range_rate_km_s - rate).abs() < 1e-5) {
                return fail("range-rate", format!("{name}: {sv:x} at {t} seen from {lat} {lon} {h} km: {} km/s, expected {rate}", got.range_rate_km_s));
            }
            if got.epoch != t {
                return fail("seen-epoch", format!("{name}: {sv:x}: seen at {} instead of {t}", got.epoch));
            }
            Ok(())
        };
        check("nav_azimuth_elevation_range", &got, true)?;
        let got = ctx.lib("elevation_azimuth_range", || rinex::navigation::Ephemeris::elevation_azimuth_range(t, &almanac, frame, (p[0], p[1], p[2]), (rx[0], rx[1], rx[2])).map_err(|e| e.to_string()))?;
        match got {
            Ok(g) => check("elevation_azimuth_range", &g, false)?,
            Err(e) => return fail("seen-error", format!("elevation_azimuth_range: {sv:x} at {t} seen from {lat} {lon} {h} km: {e}")),
        }
        ctx.probe(&format!("seen:{}{}", f.sys, if du > 0.0 { "" } else { "-below" }));
    }
    Ok(())
}

// --------------------------------------------------------- antenna calibrations
pub static C32: PropDef = PropDef {
    id: "C32",
    run: c32,
    quick_runs: 16000,
    max_classes: 8,
    recheck: false,
    rule: "a calibration laboratory publishes a catalogue in which few vehicles and receiver antennas are calibrated again and again, each validity period relieving another, with and without certificate; the catalogue is read back under a drawn delivery and the calibrations in force and phase centre offsets at drawn instants (ends of periods, handovers, between) are compared with the catalogue; non-trivial: at least one antenna",
    faults: &["handover", "calibration_expired", "no_certificate", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["where several calibrations of one antenna are in force, the offset of any of them may be given"],
};
fn carrier_of(n: &str) -> rinex::prelude::Carrier {
    use rinex::prelude::Carrier as C;
    match n {
        "L1" => C::L1,
        "L2" => C::L2,
        "L5" => C::L5,
        "L6" => C::L6,
        "S" => C::S,
        "G1" => C::G1(None),
        "G2" => C::G2(None),
        "G3" => C::G3,
        "E1" => C::E1,
        "E5a" => C::E5a,
        "E6" => C::E6,
        "E5b" => C::E5b,
        "E5" => C::E5,
        "B1C" => C::B1C,
        "B1I" => C::B1I,
        "B2A" => C::B2A,
        "B3" => C::B3,
        "B2B" => C::B2B,
        _ => C::B2,
    }
}
fn ant_name(sv: Option<String>, ty: &str, serial: Option<&String>, valid: Option<(Epoch, Epoch)>, mut fr: Vec<String>) -> String {
    fr.sort();
    let v = valid.map(|(a, b)| format!("{} .. {}", ekey(a), ekey(b))).unwrap_or("always".into());
    match sv {
        Some(sv) => format!("{ty} {sv} {v} {fr:?}"),
        None => format!("{ty} {} {v} {fr:?}", serial.cloned().unwrap_or("-".into())),
    }
}
fn neu(v: (f64, f64, f64)) -> String {
    format!("{} {} {}", fv(v.0), fv(v.1), fv(v.2))
}
fn random_case(ctx: &mut Ctx, s: &str) -> String {
    match ctx.src.us(3) {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}
fn c32(ctx: &mut Ctx) -> Res {
    use rinex::antex::AntennaSpecific as A;
    use rinex::prelude::antex::AntennaMatcher;
    let (doc, cat) = antex::draw_cat(&mut ctx.src, 14, true);
    let rnx = decode_check(ctx, &doc, "catalogue")?;
    let utc = |c: &Civil| c.epoch(TimeScale::UTC);
    let fr = |f: &[(&'static str, [String; 3])]| -> Vec<String> { f.iter().map(|(c, v)| format!("{c} {} {} {}", ftext(&v[0]), ftext(&v[1]), ftext(&v[2]))).collect() };
    let texp = |a: &antex::Ant| ant_name(a.sv.clone(), &a.ty, a.serial.as_ref(), a.valid.map(|(a, b)| (utc(&a), utc(&b))), fr(&a.fr));
    let dump = |l: Vec<(&rinex::antex::Antenna, &std::collections::HashMap<rinex::prelude::Carrier, rinex::antex::FrequencyDependentData>)>| -> Bag {
        l.into_iter()
            .map(|(a, f)| {
                let fr = f.iter().map(|(c, d)| format!("{} {}", antex::cname(c), neu(d.apc_eccentricity))).collect();
                match &a.specific {
                    A::SvAntenna(s) => ant_name(Some(format!("{:x}", s.sv)), &s.igs_type, None, a.calibration.validity_period, fr),
                    A::RxAntenna(r) => ant_name(None, &r.igs_type, r.serial_number.as_ref(), a.calibration.validity_period, fr),
                }
            })
            .collect()
    };
    let got = ctx.lib("antennas", || dump(rnx.antennas().map(|(a, f)| (a, f)).collect()))?;
    same_list("antennas", "antennas", cat.iter().map(texp).collect(), got)?;
    let ends: Vec<i128> = cat.iter().filter_map(|a| a.valid).flat_map(|(a, b)| [crate::gen::to_ns(a), crate::gen::to_ns(b)]).collect();
    for _ in 0..8 {
        let s = 1_000_000_000i128;
        let ns = if ends.is_empty() { crate::gen::to_ns(crate::gen::draw_start(&mut ctx.src)) } else { *ctx.src.pick(&ends) };
        let ns = ns + *ctx.src.pick(&[0, 0, 1, -1, s, -s, 3600 * s, -3600 * s, 40_000 * s, 400_000 * s]);
        let t = utc(&from_ns(ns));
        let on = |a: &antex::Ant| a.valid.map(|(a, b)| crate::gen::to_ns(a) <= ns && ns <= crate::gen::to_ns(b)).unwrap_or(true);
        // hand over: two periods meet
        if ends.iter().filter(|e| (**e - ns).abs() <= s).count() > 1 {
            ctx.fault("handover");
        }
        for a in &cat {
            match a.valid {
                None => ctx.fault("no_certificate"),
                Some((_, b)) if crate::gen::to_ns(b) < ns => ctx.fault("calibration_expired"),
                _ => {},
            }
        }
        let now = if ctx.src.chance(1, 2) { t } else { t.to_time_scale(*ctx.src.pick(&[TimeScale::GPST, TimeScale::TAI, TimeScale::BDT])) };
        let got = ctx.lib("antex_valid_calibrations", || dump(rnx.antex_valid_calibrations(now).collect()))?;
        same_list("valid", &format!("antex_valid_calibrations at {now}"), cat.iter().filter(|a| on(a)).map(texp).collect(), got)?;
        let a = ctx.src.pick(&cat).clone();
        let c = if ctx.src.chance(4, 5) { ctx.src.pick(&a.fr).0 } else { *ctx.src.pick(&antex::CARRIERS) };
        let cand = |f: &dyn Fn(&antex::Ant) -> bool| -> Bag { cat.iter().filter(|a| on(a) && f(a)).flat_map(|a| a.fr.iter().filter(|x| x.0 == c)).map(|(_, v)| format!("{} {} {}", ftext(&v[0]), ftext(&v[1]), ftext(&v[2]))).collect() };
        let judge = |what: String, exp: Bag, got: Option<(f64, f64, f64)>| -> Res {
            let got = got.map(neu);
            match &got {
                None if exp.is_empty() => Ok(()),
                Some(g) if exp.contains(g) => Ok(()),
                _ => fail("offset", format!("{what} {c} at {now}: {got:?}, calibrations in force give {exp:?}")),
            }
        };
        match &a.sv {
            Some(name) => {
                let sv = SV::from_str(name).unwrap();
                let got = ctx.lib("sv_antenna_apc_offset", || rnx.sv_antenna_apc_offset(now, sv, carrier_of(c)))?;
                judge(format!("antenna of {name}"), cand(&|x| x.sv.as_ref() == Some(name)), got)?;
                ctx.probe("satellite_offset");
            },
            None => {
                // now and then only a part of the name is asked for
                let part = |ctx: &mut Ctx, v: String| -> String {
                    match ctx.src.us(6) {
                        0 => v[..1 + ctx.src.us(v.len())].trim().to_string(),
                        1 => v[ctx.src.us(v.len())..].trim().to_string(),
                        _ => v,
                    }
                };
                let ty = part(ctx, a.ty.clone());
                let code = random_case(ctx, &ty);
                let got = ctx.lib("rx_antenna_apc_offset", || rnx.rx_antenna_apc_offset(now, AntennaMatcher::IGSCode(code.clone()), carrier_of(c)))?;
                judge(format!("antenna {code}"), cand(&|x| x.sv.is_none() && x.ty == ty), got)?;
                let sn = part(ctx, a.serial.clone().unwrap_or("XYZ-1".into()));
                let w = random_case(ctx, &sn);
                let got = ctx.lib("rx_antenna_apc_offset", || rnx.rx_antenna_apc_offset(now, AntennaMatcher::SerialNumber(w.clone()), carrier_of(c)))?;
                judge(format!("antenna serial {w}"), cand(&|x| x.sv.is_none() && x.serial.as_ref() == Some(&sn)), got)?;
                ctx.probe("receiver_offset");
            },
        }
    }
    Ok(())
}

// ------------------------------------------------- weather, clocks, ionosphere
pub static C33: PropDef = PropDef {
    id: "C33",
    run: c33,
    quick_runs: 12000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded weather station (rain, hail, wind, sensors that drop out), clock provider or ionosphere centre logs its history, the file is read back under a drawn delivery, and the query methods of that format (rain and hail events, wind and zenith delay series, vehicle and station clocks, TEC and RMS series, map geometry) are compared with the history; non-trivial: at least one record",
    faults: &["sensor_lost", "outage", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["the reference writers follow the published layouts"],
};
fn c33(ctx: &mut Ctx) -> Res {
    match ctx.src.us(4) {
        0 | 1 => c33_met(ctx),
        2 => c33_clk(ctx),
        _ => c33_ionex(ctx),
    }
}
fn c33_met(ctx: &mut Ctx) -> Res {
    let mut m = met::draw(&mut ctx.src, 16);
    // dry spells, showers
    let dry = ctx.src.us(3);
    for (_, v) in m.eps.iter_mut() {
        for (i, x) in v.iter_mut().enumerate() {
            if matches!(m.codes[i], "RI" | "HI") && x.is_some() && (dry == 0 || (dry == 1 && ctx.src.chance(3, 4))) {
                *x = Some(0);
            }
        }
    }
    for w in m.eps.windows(2) {
        if (crate::gen::to_ns(w[1].0) - crate::gen::to_ns(w[0].0)) > 4000 * 1_000_000_000 {
            ctx.fault("outage");
        }
    }
    let lost = m.eps.iter().flat_map(|e| e.1.iter()).filter(|x| x.is_none()).count() as u64;
    ctx.fault_n("sensor_lost", lost);
    let rnx = decode_check(ctx, &m.doc(), "weather")?;
    let of = |c: &str| -> Vec<(String, i64)> {
        let Some(i) = m.codes.iter().position(|x| *x == c) else { return vec![] };
        m.eps.iter().filter_map(|(t, v)| Some((t.key(TimeScale::UTC), v[i]?))).collect()
    };
    let got: Vec<(Epoch, String)> = ctx.lib("meteo_observation_keys", || rnx.meteo_observation_keys().map(|k| (k.epoch, format!("{} {}", ekey(k.epoch), k.observable))).collect())?;
    in_order("weather-order", "meteo_observation_keys", &got.iter().map(|x| x.0).collect::<Vec<_>>())?;
    let logged: Bag = m.codes.iter().flat_map(|c| of(c).into_iter().map(move |(t, _)| format!("{t} {c}"))).collect();
    same_bag("weather-keys", "meteo_observation_keys", logged, got.into_iter().map(|x| x.1).collect())?;
    let series = |c: &str| -> Bag { of(c).into_iter().map(|(t, v)| format!("{t} {}", ftext(&met::f1(v)))).collect() };
    macro_rules! weather {
        ($($f:ident $c:literal)*) => {$(
            let got: Bag = ctx.lib(stringify!($f), || rnx.$f().map(|(t, v)| format!("{} {}", ekey(t), fv(v))).collect())?;
            same_list(concat!("weather-", $c), stringify!($f), series($c), got)?;
        )*};
    }
    weather!(wind_speed_iter "WS" wind_direction_iter "WD" accumulated_rain_iter "RI" zenith_total_delay_iter "ZT" zenith_dry_delay_iter "ZD" zenith_wet_delay_iter "ZW" pressure_iter "PR" temperature_iter "TD" moisture_rate_iter "HR");
    let rain: i64 = of("RI").iter().map(|x| x.1).sum();
    let got = ctx.lib("total_accumulated_rain", || rnx.total_accumulated_rain())?;
    if (got - rain as f64 / 10.0).abs() > 1e-6 * (rain as f64 + 1.0) {
        return fail("rain", format!("total_accumulated_rain: {got}, it rained {}", met::f1(rain)));
    }
    let got = ctx.lib("rain_detected", || rnx.rain_detected())?;
    if got != (rain > 0) {
        return fail("rain-detected", format!("rain_detected: {got}, it rained {}", met::f1(rain)));
    }
    let hail = of("HI").iter().any(|x| x.1 > 0);
    let got = ctx.lib("hail_detected", || rnx.hail_detected())?;
    if got != hail {
        return fail("hail-detected", format!("hail_detected: {got}, expected {hail}"));
    }
    ctx.probe(if rain > 0 { "rain" } else { "dry" });
    ctx.probe(if hail { "hail" } else { "no_hail" });
    Ok(())
}
fn c33_clk(ctx: &mut Ctx) -> Res {
    let doc = crate::gen::clk::draw_doc(&mut ctx.src, 8);
    let rnx = decode_check(ctx, &doc, "clocks")?;
    let dump = doc.expected();
    let p = |v: &rinex::clock::ClockProfile| -> Vec<String> { [Some(v.bias), v.bias_dev, v.drift, v.drift_dev, v.drift_change, v.drift_change_dev].iter().enumerate().filter_map(|(i, v)| v.map(|v| format!("v{i} {}", fv(v)))).collect() };
    let exp = |who: &str| -> Bag {
        let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (k, v) in &dump {
            let w: Vec<&str> = k.split(' ').collect();
            if w[3] == who {
                m.entry(format!("{} {} {} {}", w[0], w[1], w[2], w[4])).or_default().push(format!("{} {}", w[5], v[0]));
            }
        }
        m.into_iter().map(|(k, v)| format!("{k} {v:?}")).collect()
    };
    let got: Vec<(Epoch, String)> = ctx.lib("precise_sv_clock", || rnx.precise_sv_clock().map(|(t, sv, ty, v)| (t, format!("{} {ty} {sv:x} {:?}", ekey(t), p(&v)))).collect())?;
    in_order("clock-order", "precise_sv_clock", &got.iter().map(|x| x.0).collect::<Vec<_>>())?;
    same_bag("clock-sv", "precise_sv_clock", exp("sv"), got.into_iter().map(|x| x.1).collect())?;
    let got: Vec<(Epoch, String)> = ctx.lib("precise_station_clock", || rnx.precise_station_clock().map(|(t, st, ty, v)| (t, format!("{} {ty} {st} {:?}", ekey(t), p(&v)))).collect())?;
    in_order("clock-order", "precise_station_clock", &got.iter().map(|x| x.0).collect::<Vec<_>>())?;
    same_bag("clock-station", "precise_station_clock", exp("st"), got.into_iter().map(|x| x.1).collect())
}
fn c33_ionex(ctx: &mut Ctx) -> Res {
    let m = crate::gen::ionex::draw(&mut ctx.src, 3);
    let doc = m.doc();
    let rnx = decode_check(ctx, &doc, "maps")?;
    let dump = doc.recovered(&doc.blocks);
    let pick = |kind: &str| -> Bag { dump.iter().filter(|(k, _)| k.ends_with(kind)).map(|(k, v)| format!("{} {}", k.strip_suffix(kind).unwrap().trim_end(), v[0])).collect() };
    let th = |v: f64| format!("{}", (v * 1000.0).round() as i64);
    use crate::gen::ionex::coord;
    let got: Vec<(Epoch, String)> = ctx.lib("ionex_tecu_iter", || rnx.ionex_tecu_latlong_ddeg_alt_km_iter().map(|(t, la, lo, h, v)| (t, format!("{} {} {} {} {}", ekey(t), coord(la), coord(lo), coord(h), th(v)))).collect())?;
    in_order("maps-order", "ionex_tecu_latlong_ddeg_alt_km_iter", &got.iter().map(|x| x.0).collect::<Vec<_>>())?;
    same_bag("maps-tec", "ionex_tecu_latlong_ddeg_alt_km_iter", pick(" TEC"), got.into_iter().map(|x| x.1).collect())?;
    let got: Vec<(Epoch, String)> = ctx.lib("ionex_tec_maps_keys", || {
        rnx.ionex_tec_maps_keys().map(|k| (k.epoch, format!("{} {} {} {}", ekey(k.epoch), coord(k.coordinates.latitude_ddeg()), coord(k.coordinates.longitude_ddeg()), coord(k.coordinates.altitude_km())))).collect()
    })?;
    in_order("maps-order", "ionex_tec_maps_keys", &got.iter().map(|x| x.0).collect::<Vec<_>>())?;
    let nodes: Bag = pick(" TEC").into_iter().map(|k| k.rsplit_once(' ').unwrap().0.to_string()).collect();
    same_bag("maps-keys", "ionex_tec_maps_keys", nodes, got.into_iter().map(|x| x.1).collect())?;
    let got: Bag = ctx.lib("ionex_rms_iter", || {
        rnx.ionex_rms_tec_maps_iter()
            .map(|(k, v)| format!("{} {} {} {} {}", ekey(k.epoch), coord(k.coordinates.latitude_ddeg()), coord(k.coordinates.longitude_ddeg()), coord(k.coordinates.altitude_km()), th(v)))
            .collect()
    })?;
    same_bag("maps-rms", "ionex_rms_tec_maps_iter", pick(" RMS"), got)?;
    let d = |v: i64| v as f64 / 10.0;
    let e3 = m.hgt.2 != 0;
    let mm = |v: (i64, i64, i64)| (d(v.0.min(v.1)), d(v.0.max(v.1)));
    let exp = format!("{:?} {:?} {:?} {} {}", Some((mm(m.lat), mm(m.lon))), if e3 { None } else { Some(d(m.hgt.0)) }, Some(mm(m.hgt)), !e3, e3);
    let got = ctx.lib("ionex_geometry", || format!("{:?} {:?} {:?} {} {}", rnx.tec_map_borders(), rnx.ionex_2d_fixed_altitude_km(), rnx.ionex_altitude_range_km(), rnx.is_ionex_2d(), rnx.is_ionex_3d()))?;
    if exp != got {
        return fail("maps-geometry", format!("borders, fixed altitude, altitude range, 2D, 3D: {got}, expected {exp}"));
    }
    Ok(())
}
