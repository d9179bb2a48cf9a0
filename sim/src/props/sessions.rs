//! Histories: records delivered again or out of order, files rolled over,
//! sessions sharing a process, runs repeated on another machine, files on a disk
//! that fails and restarts.
use super::common::*;
use super::faults::{add_comments, gzip, note_disk, product, same};
use super::PropDef;
use crate::ctx::{fail, guarded, Ctx, Res, Violation};
use crate::gen::{self, Block, Doc, Dump};
use crate::seam::{self, FilePlan, Op};
use crate::simio::{SimReader, SimWriter};
use crate::source::Source;
use rinex::prelude::Rinex;
use std::io::{BufReader, BufWriter, Read, Write};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

// ------------------------------------------------------------------ C12
pub static C12: PropDef = PropDef {
    id: "C12",
    run: c12,
    quick_runs: 36000,
    max_classes: 8,
    recheck: false,
    rule: "the records of a well formed file of any format are split over consecutive files, delivered several times or out of order; non-trivial: at least one record was duplicated, moved or rolled over",
    faults: &["rollover", "record_duplicated", "records_reordered"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["records of one file have distinct keys", "IONEX: TEC maps stay before RMS maps", "ANTEX records are a list: order and repetition are content"],
};

fn c12(ctx: &mut Ctx) -> Res {
    let mut doc = gen::draw_doc(&mut ctx.src, 10);
    add_comments(&mut ctx.src, &mut doc);
    doc.note(ctx);
    let n = doc.blocks.len();
    let k = ctx.src.us(3);
    if k == 0 || doc.positional || doc.last_tec_lost {
        // rollover
        let parts = ctx.src.range(2, 4) as usize;
        let mut cuts: Vec<usize> = (0..parts - 1).map(|_| ctx.src.us(n + 1)).collect();
        cuts.sort();
        let mut a = 0;
        let mut all = Dump::new();
        for c in cuts.into_iter().chain([n]) {
            let part = doc.blocks[a..c].to_vec();
            a = c;
            ctx.fault("rollover");
            let text = doc.text_of(&part);
            log_text(ctx, "part", &text);
            let r = match parse_plain(ctx, text.as_bytes())? {
                Ok(r) => r,
                Err(e) => return fail("part-rejected", format!("{}: part of a rolled over log rejected: {e}", doc.kind)),
            };
            let mut exp = doc.recovered(&part);
            if doc.last_tec_lost {
                // RMS maps alone have no TEC to join
                exp.retain(|key, _| !key.ends_with("RMS") || part.iter().any(|b| b.items.iter().any(|(k2, _)| *k2 == key.replace(" RMS", " TEC"))));
            }
            if doc.positional {
                exp = reposition(&exp);
            }
            let got = ctx.lib("inspect", || gen::dump(&r))?;
            let got2 = if doc.last_tec_lost { strip_rms(&got, &exp) } else { got };
            if let Some(d) = gen::diff(&exp, &got2) {
                return fail("rollover-content", format!("{}: {d}", doc.kind));
            }
            for (k, v) in exp {
                all.insert(k, v);
            }
        }
        return Ok(());
    }
    let mut blocks: Vec<Block> = doc.blocks.clone();
    if k == 1 {
        for _ in 0..ctx.src.range(1, 4) {
            let i = ctx.src.us(blocks.len());
            let at = ctx.src.us(blocks.len() + 1);
            let b = blocks[i].clone();
            ctx.ev(format!("record {i} delivered again at {at}"));
            blocks.insert(at, b);
            ctx.fault("record_duplicated");
        }
    } else {
        for _ in 0..ctx.src.range(1, 6) {
            let i = ctx.src.us(blocks.len());
            let b = blocks.remove(i);
            let at = ctx.src.us(blocks.len() + 1);
            ctx.ev(format!("record {i} delivered at {at}"));
            blocks.insert(at, b);
            ctx.fault("records_reordered");
        }
    }
    let text = doc.text_of(&blocks);
    log_text(ctx, "file", &text);
    let r = match parse_plain(ctx, text.as_bytes())? {
        Ok(r) => r,
        Err(e) => return fail("reordered-rejected", format!("{}: {e}", doc.kind)),
    };
    expect_content(ctx, if k == 1 { "duplicates-change-content" } else { "order-changes-content" }, &r, &doc.expected())
}
/// RMS values that a shortened TEC part may or may not carry are not compared
fn strip_rms(got: &Dump, exp: &Dump) -> Dump {
    got.iter().filter(|(k, _)| !k.ends_with(" RMS") || exp.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn reposition(d: &Dump) -> Dump {
    let mut out = Dump::new();
    let mut ids: Vec<String> = vec![];
    for (k, v) in d {
        let id = k[..3].to_string();
        if ids.last() != Some(&id) {
            ids.push(id);
        }
        out.insert(format!("{:03}{}", ids.len() - 1, &k[3..]), v.clone());
    }
    out
}

// ------------------------------------------------------------------ C13
pub static C13: PropDef = PropDef {
    id: "C13",
    run: c13,
    quick_runs: 15000,
    max_classes: 8,
    recheck: true,
    rule: "two to four sessions (parsing and writing files of any format, some damaged) share a process as threads; a seeded scheduler decides at every read and write which one proceeds; non-trivial: at least one switch between unfinished sessions",
    faults: &["context_switch"],
    real: &["rinex: parsing and formatting of every format, its lazily built static tables", "real threads, one running at a time"],
    stub: &["thread scheduler (baton held by the simulator)", "byte sources and sinks", "entropy for hash keys (seeded)", "wall clock (scripted)"],
    assumptions: &["switches happen at I/O calls only: the library shares no memory between sessions by contract"],
};

struct Baton {
    m: Mutex<(usize, Vec<bool>)>,
    cv: Condvar,
}
const CTRL: usize = usize::MAX;
impl Baton {
    fn wait(&self, id: usize) {
        let mut g = self.m.lock().unwrap();
        while g.0 != id {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn give(&self, id: usize) {
        self.m.lock().unwrap().0 = id;
        self.cv.notify_all();
    }
    fn pause(&self, id: usize) {
        self.give(CTRL);
        self.wait(id);
    }
}
struct Yielding<T> {
    inner: T,
    b: Arc<Baton>,
    id: usize,
}
impl<T: Read> Read for Yielding<T> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.b.pause(self.id);
        self.inner.read(buf)
    }
}
impl<T: Write> Write for Yielding<T> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.b.pause(self.id);
        self.inner.write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.b.pause(self.id);
        self.inner.flush()
    }
}

#[derive(Clone)]
struct Job {
    bytes: Vec<u8>,
    chunk: usize,
    cap: usize,
    hash_seed: u64,
}

/// parse, then write what was parsed; the outcome in canonical form
fn session(j: &Job, b: Option<(Arc<Baton>, usize)>) -> Result<String, Violation> {
    guarded("session", || {
        let mut r = SimReader::new(Rc::new(j.bytes.clone()));
        r.tail = j.chunk;
        let w = SimWriter::new();
        let st = w.st.clone();
        let parsed = match &b {
            Some((b, id)) => Rinex::parse(&mut BufReader::with_capacity(j.cap, Yielding { inner: r, b: b.clone(), id: *id })),
            None => Rinex::parse(&mut BufReader::with_capacity(j.cap, r)),
        };
        match parsed {
            Err(e) => format!("error {e}"),
            Ok(x) => {
                let f = match &b {
                    Some((b, id)) => x.format(&mut BufWriter::with_capacity(j.cap, Yielding { inner: w, b: b.clone(), id: *id })),
                    None => x.format(&mut BufWriter::with_capacity(j.cap, w)),
                };
                let out = String::from_utf8_lossy(&st.borrow().out).to_string();
                format!("{:?}\n{:?}\nformat {}\n{out}", gen::dump(&x), x.comments, f.is_ok())
            },
        }
    })
}

fn c13(ctx: &mut Ctx) -> Res {
    let n = ctx.src.range(2, 4) as usize;
    let mut jobs: Vec<Job> = vec![];
    let twin = ctx.src.chance(1, 4);
    for i in 0..n {
        if twin && i == 1 {
            // the same file twice
            let mut j: Job = Job::clone(&jobs[0]);
            j.hash_seed = ctx.src.below(1 << 32);
            jobs.push(j);
            break;
        }
        let mut doc = super::crinex::draw_any(&mut ctx.src, 4);
        add_comments(&mut ctx.src, &mut doc);
        doc.note(ctx);
        let mut bytes = doc.text().into_bytes();
        if ctx.src.chance(1, 4) {
            super::faults::hostile(&mut ctx.src, &mut bytes);
        }
        let cap = *ctx.src.pick(&[8192usize, 64, 400, 1000]);
        let chunk = *ctx.src.pick(&[usize::MAX, 100, 700]);
        jobs.push(Job { bytes, chunk, cap, hash_seed: ctx.src.below(1 << 32) });
    }
    let n = jobs.len();
    for (i, j) in jobs.iter().enumerate() {
        log_text(ctx, &format!("session {i}"), &String::from_utf8_lossy(&j.bytes));
    }
    // alone
    let alone: Vec<Result<String, Violation>> = jobs
        .iter()
        .map(|j| {
            let j = j.clone();
            std::thread::spawn(move || {
                seam::enter(j.hash_seed);
                session(&j, None)
            })
            .join()
            .expect("session thread")
        })
        .collect();
    // together
    let b = Arc::new(Baton { m: Mutex::new((CTRL, vec![false; n])), cv: Condvar::new() });
    let hs: Vec<_> = jobs
        .iter()
        .enumerate()
        .map(|(id, j)| {
            let (b, j) = (b.clone(), j.clone());
            std::thread::spawn(move || {
                seam::enter(j.hash_seed);
                b.wait(id);
                let r = session(&j, Some((b.clone(), id)));
                b.m.lock().unwrap().1[id] = true;
                b.give(CTRL);
                r
            })
        })
        .collect();
    let mut sched = String::new();
    let mut last = CTRL;
    let sticky = *ctx.src.pick(&[0u64, 3, 20]);
    let mut switches = 0;
    loop {
        let live: Vec<usize> = {
            let g = b.m.lock().unwrap();
            (0..n).filter(|i| !g.1[*i]).collect()
        };
        if live.is_empty() {
            break;
        }
        let id = if live.contains(&last) && sticky > 0 && !ctx.src.chance(1, sticky) { last } else { live[ctx.src.us(live.len())] };
        if last != CTRL && id != last && live.contains(&last) {
            switches += 1;
        }
        last = id;
        sched.push((b'0' + id as u8) as char);
        b.give(id);
        b.wait(CTRL);
    }
    ctx.ev(format!("schedule {sched}"));
    ctx.fault_n("context_switch", switches);
    let together: Vec<Result<String, Violation>> = hs.into_iter().map(|h| h.join().expect("session thread")).collect();
    for (i, (a, t)) in alone.iter().zip(&together).enumerate() {
        match (a, t) {
            (Ok(a), Ok(t)) if a == t => {
                ctx.ev_bytes("outcome", a.as_bytes());
            },
            (Ok(a), Ok(t)) => {
                let d = a.lines().zip(t.lines()).find(|(x, y)| x != y);
                let d: String = format!("{d:?}").chars().take(600).collect();
                return fail("session-interference", format!("session {i} of {n} differs from the same session alone: {d}"));
            },
            (Err(v), _) => return Err(v.clone()),
            (_, Err(v)) => return fail("session-interference", format!("session {i} of {n}: {}", v.msg)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
pub static C14: PropDef = PropDef {
    id: "C14",
    run: c14,
    quick_runs: 24000,
    max_classes: 8,
    recheck: true,
    rule: "the same bytes are parsed, inspected and written back on two simulated machines with different hash keys and different, jumping wall clocks; non-trivial: always",
    faults: &["hash_keys_changed", "clock_jump"],
    real: &["rinex: parsing, iterators, file naming and formatting of every format"],
    stub: &["entropy for hash keys (seeded)", "wall clock (scripted)", "byte sources and sinks"],
    assumptions: &["iterators documented as unordered are compared as sets", "the conversion date stamped by CRINEX compression is the only use of the wall clock"],
};

fn machine(bytes: Vec<u8>, hash: u64, clock: Vec<(i64, i64)>) -> Result<(Vec<(&'static str, String)>, usize), Violation> {
    std::thread::spawn(move || {
        seam::enter(hash);
        seam::set_clock(clock);
        guarded("machine", || {
            let mut out: Vec<(&'static str, String)> = vec![];
            match Rinex::parse(&mut BufReader::new(SimReader::new(Rc::new(bytes)))) {
                Err(e) => out.push(("parse error", e.to_string())),
                Ok(r) => {
                    out.push(("content", format!("{:?}", gen::dump(&r))));
                    out.push(("comments", format!("{:?}", r.comments)));
                    out.push(("header comments", format!("{:?}", r.header.comments)));
                    out.push(("epochs", format!("{:?}", r.epoch_iter().collect::<Vec<_>>())));
                    out.push(("satellites", format!("{:?}", r.sv_iter().collect::<Vec<_>>())));
                    out.push(("constellations", format!("{:?}", r.constellations_iter().collect::<Vec<_>>())));
                    out.push(("observables", format!("{:?}", r.observables_iter().collect::<Vec<_>>())));
                    if r.is_observation_rinex() {
                        out.push(("signals", format!("{:?}", r.signal_observations_iter().collect::<Vec<_>>())));
                    }
                    out.push(("interval", format!("{:?}", r.dominant_sampling_interval())));
                    let mut hist: Vec<String> = r.sampling_histogram().map(|x| format!("{x:?}")).collect();
                    hist.sort();
                    out.push(("histogram", format!("{hist:?}")));
                    if !(r.is_clock_rinex() || r.is_antex() || r.is_doris()) {
                        out.push(("file name", format!("{:?} {:?}", r.standard_filename(true, None, None), r.standard_filename(false, None, None))));
                    }
                    let w = SimWriter::new();
                    let st = w.st.clone();
                    let ok = r.format(&mut BufWriter::new(w)).is_ok();
                    out.push(("written", format!("{ok}\n{}", String::from_utf8_lossy(&st.borrow().out))));
                },
            }
            (out, seam::clock_reads())
        })
    })
    .join()
    .expect("machine thread")
}

fn c14(ctx: &mut Ctx) -> Res {
    let mut doc = super::crinex::draw_any(&mut ctx.src, 6);
    add_comments(&mut ctx.src, &mut doc);
    doc.note(ctx);
    let mut bytes = doc.text().into_bytes();
    if ctx.src.chance(1, 4) {
        super::faults::hostile(&mut ctx.src, &mut bytes);
    }
    log_text(ctx, "file", &String::from_utf8_lossy(&bytes));
    let clock = |s: &mut Source| -> Vec<(i64, i64)> { (0..3).map(|_| (s.range(0, 4_000_000_000), s.range(0, 999_999_999))).collect() };
    let (h1, h2) = (ctx.src.below(1 << 40), ctx.src.below(1 << 40));
    let (c1, c2) = (clock(&mut ctx.src), clock(&mut ctx.src));
    ctx.fault("hash_keys_changed");
    ctx.fault("clock_jump");
    let (a, n1) = machine(bytes.clone(), h1, c1)?;
    let (b, n2) = machine(bytes, h2, c2)?;
    ctx.ev(format!("clock readings: {n1} / {n2}"));
    for (x, y) in a.iter().zip(&b) {
        if x != y {
            let d = x.1.lines().zip(y.1.lines()).find(|(p, q)| p != q);
            let d: String = format!("{d:?}").chars().take(600).collect();
            return fail(&format!("not-deterministic:{}", x.0), format!("{}: {} differs between two machines: {d}", doc.kind, x.0));
        }
    }
    if a.len() != b.len() {
        return fail("not-deterministic:result", format!("{}: {} / {} outputs", doc.kind, a.len(), b.len()));
    }
    Ok(())
}

// ------------------------------------------------------------------ C20
pub static C20: PropDef = PropDef {
    id: "C20",
    run: c20,
    quick_runs: 15000,
    max_classes: 8,
    recheck: false,
    rule: "a history of up to fourteen operations on a simulated disk: write plain, write gzip, overwrite, read back, copy torn or truncated, machine crash inside a write followed by a restart, full disk, refused opens; a model holds what each path contains; non-trivial: at least one fault or one overwrite",
    faults: &["crash_in_write", "disk_full", "disk_write_error", "disk_read_error", "open_error", "file_truncated", "overwrite", "disk_short_write", "disk_short_read", "disk_write_eintr", "disk_read_eintr"],
    real: &["rinex: to_file, to_gzip_file, from_file, from_gzip_file", "flate2", "std::fs::File, BufReader, BufWriter"],
    stub: &["disk below libc (open, read, write, lseek, close)", "entropy for hash keys (seeded)", "wall clock (scripted)"],
    assumptions: &["data written before a crash is durable in write order; nothing is claimed atomic", "an interrupted plain file holds a prefix of what was being written"],
};

#[derive(Clone, Debug)]
enum State {
    /// product number, gzip
    Whole(usize, bool),
    /// a prefix of that product, or nothing
    Torn(usize, bool),
    Absent,
}

fn c20(ctx: &mut Ctx) -> Res {
    let mut prods: Vec<(Rinex, Doc, Vec<u8>)> = vec![];
    for _ in 0..ctx.src.range(1, 3) {
        let n = *ctx.src.pick(&[2usize, 12]);
        let (r, d) = product(ctx, n)?;
        let b = format_plain(ctx, &r, "plain-write-failed")?;
        prods.push((r, d, b));
    }
    let paths: Vec<String> = (0..3).map(|i| format!("{}f{i}", seam::ROOT)).collect();
    let mut model = vec![State::Absent; 3];
    for step in 0..ctx.src.range(2, 14) {
        let p = ctx.src.us(3);
        let path = paths[p].clone();
        match ctx.src.us(7) {
            0..=2 => {
                let i = ctx.src.us(prods.len());
                let gz = ctx.src.chance(1, 3);
                let mut plan = FilePlan::default();
                let mut faulty = false;
                match ctx.src.us(6) {
                    0 => {
                        plan.capacity = Some(ctx.src.us(prods[i].2.len() + 1));
                        faulty = true;
                    },
                    1 => {
                        for _ in 0..ctx.src.us(4) {
                            plan.ops.push(Op::Plain);
                        }
                        plan.ops.push(Op::Err(seam::EIO));
                        faulty = true;
                    },
                    2 => {
                        plan.open_errno = seam::EACCES;
                        faulty = true;
                    },
                    3 => {
                        seam::crash_after_writes(Some(ctx.src.us(4)));
                        faulty = true;
                    },
                    _ => {
                        for _ in 0..ctx.src.us(8) {
                            plan.ops.push(if ctx.src.chance(1, 2) { Op::Err(seam::EINTR) } else { Op::Short(ctx.src.range(1, 5000) as usize) });
                        }
                    },
                }
                let refused = plan.open_errno != 0;
                if !matches!(model[p], State::Absent) {
                    ctx.fault("overwrite");
                }
                seam::plan(&path, plan);
                let ok = {
                    let r = &prods[i].0;
                    ctx.lib("write", || if gz { r.to_gzip_file(&path).is_ok() } else { r.to_file(&path).is_ok() })?
                };
                let crashed = seam::crashed();
                let hard = note_disk(ctx) > 0 || crashed;
                seam::plan(&path, FilePlan::default());
                ctx.ev(format!("#{step} write product {i} gzip {gz} to {path}: ok {ok}, fault {hard}, crash {crashed}"));
                if ok && hard {
                    return fail("write-failure-swallowed", format!("step {step}: writing reported success although the disk failed"));
                }
                if !ok && !hard {
                    return fail("write-failed-without-fault", format!("step {step}: writing failed although the disk did not"));
                }
                let _ = faulty;
                if crashed {
                    seam::restart();
                } else if seam::open_handles() != 0 {
                    return fail("handle-leak", format!("step {step}: {} handles left open", seam::open_handles()));
                }
                seam::crash_after_writes(None);
                if ok {
                    model[p] = State::Whole(i, gz);
                } else if !refused {
                    model[p] = State::Torn(i, gz);
                }
            },
            3 => {
                if let (Some(b), State::Whole(i, gz)) = (seam::get(&path), model[p].clone()) {
                    let keep = ctx.src.us(b.len());
                    seam::put(&path, b[..keep].to_vec());
                    ctx.fault("file_truncated");
                    ctx.ev(format!("#{step} {path} truncated to {keep} of {} bytes", b.len()));
                    model[p] = State::Torn(i, gz);
                }
            },
            _ => {
                let gz = match model[p] {
                    State::Whole(_, g) | State::Torn(_, g) => g,
                    _ => false,
                };
                let mut plan = FilePlan::default();
                match ctx.src.us(4) {
                    0 => {
                        for _ in 0..ctx.src.us(4) {
                            plan.ops.push(Op::Plain);
                        }
                        plan.ops.push(Op::Err(seam::EIO));
                    },
                    1 => {
                        for _ in 0..ctx.src.us(8) {
                            plan.ops.push(if ctx.src.chance(1, 2) { Op::Err(seam::EINTR) } else { Op::Short(ctx.src.range(1, 5000) as usize) });
                        }
                    },
                    _ => {},
                }
                seam::plan(&path, plan);
                let r = ctx.lib("read", || if gz { Rinex::from_gzip_file(&path) } else { Rinex::from_file(&path) })?;
                let hard = note_disk(ctx) > 0;
                seam::plan(&path, FilePlan::default());
                ctx.ev(format!("#{step} read {path}: ok {}, fault {hard}, {:?}", r.is_ok(), model[p]));
                if seam::open_handles() != 0 {
                    return fail("handle-leak", format!("step {step}: {} handles left open", seam::open_handles()));
                }
                match (&model[p], r) {
                    (_, Ok(_)) if hard => return fail("failure-swallowed", format!("step {step}: reading reported success although the disk failed")),
                    (_, Err(_)) if hard => {},
                    (State::Absent, Ok(_)) => return fail("absent-file-read", format!("step {step}: a file that does not exist was read")),
                    (State::Absent, Err(_)) => {},
                    (State::Whole(i, _), Err(e)) => return fail("whole-file-rejected", format!("step {step}: product {i} was written completely, reading it: {e}")),
                    (State::Whole(i, _), Ok(x)) => {
                        let exp = prods[*i].1.expected();
                        expect_content(ctx, "whole-file-content", &x, &exp)?;
                    },
                    (State::Torn(_, _), Err(_)) => {},
                    (State::Torn(_, true), Ok(_)) => {
                        // only a file that happens to be complete can be accepted
                        let z = seam::get(&path).unwrap_or_default();
                        let mut v = vec![];
                        if flate2::read::MultiGzDecoder::new(&z[..]).read_to_end(&mut v).is_err() || z.is_empty() {
                            return fail("torn-gzip-accepted", format!("step {step}: an incomplete gzip file was accepted"));
                        }
                    },
                    (State::Torn(i, false), Ok(x)) => {
                        // nothing but a prefix of the product
                        let b = seam::get(&path).unwrap_or_default();
                        let full = &prods[*i].2;
                        if !full.starts_with(&b) {
                            return fail("torn-file-content", format!("step {step}: what is left of {path} is not a prefix of what was written"));
                        }
                        let got = ctx.lib("inspect", || gen::dump(&x))?;
                        let exp = prods[*i].1.expected();
                        let lost = got.keys().filter(|k| !exp.contains_key(*k)).count();
                        // the cut record itself may be misread
                        let insts: std::collections::BTreeSet<&str> = got.keys().filter(|k| exp.get(*k) != Some(&got[*k])).map(|k| &k[..k.len().min(29)]).collect();
                        if insts.len() > 1 {
                            return fail("torn-file-content", format!("step {step}: {lost} items of {} instants were invented", insts.len()));
                        }
                    },
                }
            },
        }
    }
    let _ = gzip;
    let _ = same;
    Ok(())
}

// ------------------------------------------------------------------ C22
pub static C22: PropDef = PropDef {
    id: "C22",
    run: c22,
    quick_runs: 24000,
    max_classes: 8,
    recheck: false,
    rule: "a session is rolled over into files named by the library; each is stored on the simulated disk under that name, read back and named again; other files carry names that follow no convention; non-trivial: at least one file stored",
    faults: &["rollover", "odd_file_name"],
    real: &["rinex: file naming, file name parsing, file readers and writers", "std::fs on a simulated disk"],
    stub: &["disk (simulated)", "entropy for hash keys (seeded)", "wall clock (scripted)"],
    assumptions: &["station names of four capitals or digits", "the sampling field is compared when one interval dominates"],
};

fn ffu_of(ns: i128) -> String {
    let s = ns / 1_000_000_000;
    if s < 60 {
        format!("{s:02}S")
    } else if s < 3600 {
        format!("{:02}M", (s as f64 / 60.0).round() as i64)
    } else if s < 86400 {
        format!("{:02}H", (s as f64 / 3600.0).round() as i64)
    } else {
        format!("{:02}D", (s as f64 / 86400.0).round() as i64)
    }
}

fn ctx_short(batch: u8) -> bool {
    batch % 2 == 1
}
fn doy_of(t: gen::Civil) -> u32 {
    ((gen::to_ns(t) - gen::to_ns(gen::Civil { y: t.y, m: 1, d: 1, hh: 0, mm: 0, ss: 0, ns: 0 })) / 86_400_000_000_000 + 1) as u32
}
/// the attributes guessed from the content alone
fn check_guess(ctx: &mut Ctx, rnx: &Rinex, t: gen::Civil, doy: u32, span_ns: i128, ffu: Option<&str>) -> Res {
    use rinex::prod::PPU;
    let g = ctx.lib("guess_production_attributes", || rnx.guess_production_attributes())?;
    let min = span_ns as f64 / 60e9;
    let ppu = if min >= 365.25 * 1440.0 {
        PPU::Yearly
    } else if min > 1440.0 {
        PPU::Unspecified
    } else if min > 60.0 {
        PPU::Daily
    } else if min > 15.0 {
        PPU::Hourly
    } else if min > 5.0 {
        PPU::QuarterHour
    } else {
        PPU::Unspecified
    };
    let d = g.v3_details.clone().unwrap_or_default();
    let near = [365.0, 365.2425, 365.25].iter().any(|d| (min - d * 1440.0).abs() < 2000.0);
    if g.year != t.y as u32 || g.doy != doy || (d.hh, d.mm) != (t.hh, t.mm) || (d.ppu != ppu && !near) {
        return fail("guess", format!("guessed {g:?} for a log of {min} min that starts {t:?}, day {doy}"));
    }
    if let Some(f) = ffu {
        let got = d.ffu.map(|f| f.to_string());
        if got.as_deref().unwrap_or("XXX") != f {
            return fail("guess", format!("guessed sampling {got:?}, expected {f}"));
        }
    }
    Ok(())
}

/// weather, navigation and ionosphere files
fn c22_products(ctx: &mut Ctx) -> Res {
    use rinex::prod::{DataSource, DetailedProductionAttributes, ProductionAttributes, PPU};
    let name: String = (0..4).map(|_| *ctx.src.pick(&['A', 'Z', '0', '9', 'K'])).collect();
    let country = ctx.src.pick(&["FRA", "ESP", "XXX"]).to_string();
    let batch = *ctx.src.pick(&[0u8, 1, 9, 10, 42, 99]);
    let (ppu, ppu_t) = *ctx.src.pick(&[(PPU::Daily, "01D"), (PPU::Hourly, "01H"), (PPU::QuarterHour, "15M"), (PPU::Yearly, "01Y"), (PPU::Unspecified, "00U")]);
    let kind = ctx.src.us(3);
    let (doc, sys) = match kind {
        0 => (gen::met::draw(&mut ctx.src, 6).doc(), ' '),
        1 => {
            let m = gen::nav::draw(&mut ctx.src, 6, None);
            (m.doc(), m.sys)
        },
        _ => (gen::ionex::draw(&mut ctx.src, 4).doc(), ' '),
    };
    doc.note(ctx);
    let rnx = match parse_plain(ctx, doc.text().as_bytes())? {
        Ok(r) => r,
        Err(e) => return fail("product-rejected", e.to_string()),
    };
    // first and last instants of what is recovered
    let mut all: Vec<rinex::prelude::Epoch> = vec![];
    for k in doc.recovered(&doc.blocks).keys() {
        let v: Vec<&str> = k.split_whitespace().collect();
        let (Some(d), Some(z)) = (v.first(), v.get(1)) else { continue };
        let z = z.trim_matches(|c: char| !c.is_ascii_alphanumeric());
        match format!("{d} {z}").parse::<rinex::prelude::Epoch>() {
            Ok(e) => all.push(e),
            Err(_) => return fail("harness", format!("no instant in {k}")),
        }
    }
    let (Some(first), Some(last)) = (all.iter().min().copied(), all.iter().max().copied()) else { return Ok(()) };
    if all.iter().any(|e| e.time_scale != first.time_scale) {
        // which instant is the first one is then read on several clocks
        ctx.reach("mixed time scales");
        return Ok(());
    }
    ctx.nontrivial = true;
    let key = gen::ekey(first);
    let n = |a: usize, b: usize| key[a..b].parse::<u32>().unwrap_or(0);
    let t = gen::Civil { y: n(0, 4) as i32, m: n(5, 7) as u8, d: n(8, 10) as u8, hh: n(11, 13) as u8, mm: n(14, 16) as u8, ss: n(17, 19) as u8, ns: 0 };
    let doy = doy_of(t);
    check_guess(ctx, &rnx, t, doy, (last - first).total_nanoseconds(), None)?;
    let region = *ctx.src.pick(&[None, Some('G'), Some('E')]);
    let custom = ProductionAttributes {
        name: name.clone(),
        year: t.y as u32,
        doy,
        v3_details: if kind == 2 { None } else { Some(DetailedProductionAttributes { country: country.clone(), batch, data_src: DataSource::Receiver, ppu, ffu: None, hh: t.hh, mm: t.mm }) },
        region: if kind == 2 { region } else { None },
    };
    let ty = match (kind, sys) {
        (0, _) => "MM".to_string(),
        (1, ' ') => "MN".to_string(),
        (_, c) => format!("{c}N"),
    };
    let long_e = format!("{name}{batch:02}{country}_R_{:04}{doy:03}{:02}{:02}_{ppu_t}_{ty}.rnx", t.y, t.hh, t.mm);
    let short_e = match kind {
        0 => format!("{name}{doy:03}0.{:02}M", t.y % 100),
        1 => format!("{name}{doy:03}0.{:02}{}", t.y % 100, if sys == 'R' { 'G' } else { 'N' }),
        _ => format!("{}{}{doy:03}0.{:02}I", &name[..3], region.unwrap_or('G'), t.y % 100),
    };
    for (short, exp) in [(false, &long_e), (true, &short_e)] {
        if kind == 2 && !short {
            continue;
        }
        let got = ctx.lib("file name", || rnx.standard_filename(short, None, Some(custom.clone())))?;
        ctx.ev(&got);
        if got != *exp {
            return fail(if short { "short-name" } else { "long-name" }, format!("{got}, expected {exp}"));
        }
        let shown = match ctx.src.us(3) {
            0 => got.clone(),
            1 => got.to_uppercase(),
            _ => got.to_lowercase(),
        };
        let path = format!("{}{shown}", seam::ROOT);
        seam::put(&path, doc.text().into_bytes());
        let r = match ctx.lib("read", || Rinex::from_file(&path))? {
            Ok(r) => r,
            Err(e) => return fail("named-file-rejected", format!("{path}: {e}")),
        };
        let p = &r.production;
        let d = p.v3_details.clone().unwrap_or_default();
        let want_region = if kind == 2 { Some(region.unwrap_or('G')) } else { None };
        if p.name != name[..if kind == 2 { 3 } else { 4 }]
            || p.year != t.y as u32
            || p.doy != doy
            || p.region != want_region
            || (!short && (p.v3_details.is_none() || d.batch != batch || d.country != country || d.ppu != ppu || d.hh != t.hh || d.mm != t.mm || d.data_src != DataSource::Receiver))
        {
            return fail("name-not-recovered", format!("{shown}: {p:?}"));
        }
        let again = ctx.lib("file name", || r.standard_filename(short, None, None))?;
        if again != *exp {
            return fail("name-not-stable", format!("{exp} was read and named again {again}"));
        }
        check_guess(ctx, &r, t, doy, (last - first).total_nanoseconds(), None)?;
    }
    Ok(())
}

fn c22(ctx: &mut Ctx) -> Res {
    use rinex::prod::{DataSource, DetailedProductionAttributes, ProductionAttributes, PPU};
    if ctx.src.chance(1, 3) {
        return c22_products(ctx);
    }
    let m = gen::obs::draw(&mut ctx.src, gen::obs::Opt { max_epochs: 14, sub_second: false, ..Default::default() });
    let doc = m.doc();
    doc.note(ctx);
    let name: String = (0..4).map(|_| *ctx.src.pick(&['A', 'Z', '0', '9', 'K'])).collect();
    let country = ctx.src.pick(&["FRA", "ESP", "XXX"]).to_string();
    let batch = *ctx.src.pick(&[0u8, 1, 9, 10, 42, 99]);
    let (ppu, ppu_t) = *ctx.src.pick(&[(PPU::Daily, "01D"), (PPU::Hourly, "01H"), (PPU::QuarterHour, "15M"), (PPU::Yearly, "01Y")]);
    let n = m.eps.len();
    let parts = ctx.src.range(1, 3) as usize;
    let mut cuts: Vec<usize> = (0..parts - 1).map(|_| ctx.src.us(n)).collect();
    cuts.push(n);
    cuts.sort();
    let mut a = 0;
    for c in cuts {
        if a == c {
            continue;
        }
        ctx.fault("rollover");
        let part = doc.blocks[a..c].to_vec();
        let eps = &m.eps[a..c];
        a = c;
        let rnx = match parse_plain(ctx, doc.text_of(&part).as_bytes())? {
            Ok(r) => r,
            Err(e) => return fail("part-rejected", e.to_string()),
        };
        let t = gen::from_ns(eps[0].t_ns);
        let doy = (gen::to_ns(t) - gen::to_ns(gen::Civil { y: t.y, m: 1, d: 1, hh: 0, mm: 0, ss: 0, ns: 0 })) / 86_400_000_000_000 + 1;
        // dominant interval, if there is one
        let mut pops: std::collections::BTreeMap<i128, usize> = Default::default();
        for w in eps.windows(2) {
            *pops.entry(w[1].t_ns - w[0].t_ns).or_default() += 1;
        }
        let top = pops.values().max().copied().unwrap_or(0);
        let dom: Vec<i128> = pops.iter().filter(|(_, p)| **p == top).map(|(k, _)| *k).collect();
        let ffu = match dom.len() {
            0 => Some("XXX".to_string()),
            1 => Some(ffu_of(dom[0])),
            _ => None,
        };
        let packed = ctx.src.chance(1, 3);
        let rnx = if packed { ctx.lib("rnx2crnx", || rnx.rnx2crnx())? } else { rnx };
        let (ext, letter) = if packed { ("crx", 'D') } else { ("rnx", 'O') };
        let (data_src, src_c) = if doc.header.iter().any(|l| l.contains("REC # / TYPE")) {
            // a receiver is known
            (DataSource::Receiver, 'R')
        } else {
            *ctx.src.pick(&[(DataSource::Receiver, 'R'), (DataSource::Stream, 'S'), (DataSource::Unknown, 'U')])
        };
        let custom = ProductionAttributes {
            name: name.clone(),
            year: t.y as u32,
            doy: doy as u32,
            v3_details: Some(DetailedProductionAttributes { country: country.clone(), batch, data_src, ppu, ffu: None, hh: t.hh, mm: t.mm }),
            region: None,
        };
        let span = eps.last().unwrap().t_ns - eps[0].t_ns;
        check_guess(ctx, &rnx, t, doy as u32, span, ffu.as_deref())?;
        let long = ctx.lib("file name", || rnx.standard_filename(false, None, Some(custom.clone())))?;
        let short = ctx.lib("file name", || rnx.standard_filename(true, None, Some(custom.clone())))?;
        ctx.ev(format!("{long} {short}"));
        let head = format!("{name}{batch:02}{country}_{src_c}_{:04}{doy:03}{:02}{:02}_{ppu_t}_", t.y, t.hh, t.mm);
        let ok = long.starts_with(&head) && long.ends_with(&format!("_MO.{ext}")) && ffu.as_ref().map_or(true, |f| long[head.len()..] == format!("{f}_MO.{ext}"));
        if !ok {
            return fail("long-name", format!("{long}, expected {head}{}_MO.{ext}", ffu.unwrap_or("???".into())));
        }
        let exp = format!("{name}{doy:03}0.{:02}{letter}", t.y % 100);
        if short != exp {
            return fail("short-name", format!("{short}, expected {exp}"));
        }
        let suffixed = ctx.lib("file name", || rnx.standard_filename(ctx_short(batch), Some(".gz"), Some(custom.clone())))?;
        if suffixed != format!("{}.gz", if ctx_short(batch) { &short } else { &long }) {
            return fail("name-suffix", format!("{suffixed}, expected {short} or {long}, and .gz"));
        }
        for (i, f) in [&long, &short].into_iter().enumerate() {
            // names as they are, in capitals, in small letters
            let shown = match ctx.src.us(3) {
                0 => f.clone(),
                1 => f.to_uppercase(),
                _ => f.to_lowercase(),
            };
            let gz = i == 0 && ctx.src.chance(1, 3);
            let path = format!("{}{shown}{}", seam::ROOT, if gz { ".gz" } else { "" });
            let ok = ctx.lib("write", || if gz { rnx.to_gzip_file(&path).is_ok() } else { rnx.to_file(&path).is_ok() })?;
            if !ok {
                return fail("write-failed-without-fault", path);
            }
            let r = match ctx.lib("read", || if gz { Rinex::from_gzip_file(&path) } else { Rinex::from_file(&path) })? {
                Ok(r) => r,
                Err(e) => return fail("named-file-rejected", format!("{path}: {e}")),
            };
            let p = &r.production;
            let mut bad = vec![];
            if p.name != name {
                bad.push(format!("name {}", p.name));
            }
            if p.year != t.y as u32 {
                bad.push(format!("year {}", p.year));
            }
            if p.doy != doy as u32 {
                bad.push(format!("day {}", p.doy));
            }
            if i == 0 {
                match &p.v3_details {
                    None => bad.push("no details".into()),
                    Some(d) => {
                        if d.batch != batch || d.country != country || d.ppu != ppu || d.hh != t.hh || d.mm != t.mm || d.data_src != data_src {
                            bad.push(format!("{d:?}"));
                        }
                        let dffu = d.ffu.map(|f| f.to_string()).unwrap_or_default();
                        if let Some(f) = &ffu {
                            if f != "XXX" && dffu != *f {
                                bad.push(format!("sampling {dffu}"));
                            }
                        }
                    },
                }
            }
            if !bad.is_empty() {
                return fail("name-not-recovered", format!("{shown}: {}", bad.join(", ")));
            }
            let again = ctx.lib("file name", || r.standard_filename(i == 1, None, None))?;
            if again != *f {
                return fail("name-not-stable", format!("{f} was read and named again {again}"));
            }
        }
    }
    // anything else may be read under any name
    for _ in 0..ctx.src.range(0, 3) {
        let base: Vec<char> = "ACOR00ESP_R_20213550000_01D_30S_MO.crx".chars().collect();
        let mut v: Vec<char> = if ctx.src.chance(1, 2) { base } else { "AJAC3550.21O".chars().collect() };
        for _ in 0..ctx.src.range(1, 4) {
            if v.is_empty() {
                break;
            }
            let i = ctx.src.us(v.len());
            match ctx.src.us(4) {
                0 => {
                    v.remove(i);
                },
                1 => v[i] = *ctx.src.pick(&['.', 'é', '日', ' ', '9', 'x', '_']),
                2 => v.insert(i, *ctx.src.pick(&['.', 'é', '日', '0', '_'])),
                _ => v.truncate(i),
            }
        }
        let f: String = v.into_iter().collect();
        if f.is_empty() || f == "." || f == ".." {
            continue;
        }
        ctx.fault("odd_file_name");
        let path = format!("{}{f}", seam::ROOT);
        ctx.ev(&path);
        seam::put(&path, doc.text().into_bytes());
        match ctx.lib("read", || Rinex::from_file(&path))? {
            Ok(r) => expect_content(ctx, "odd-name-content", &r, &doc.expected())?,
            Err(e) => return fail("odd-name-rejected", format!("{path}: {e}")),
        }
    }
    Ok(())
}
