//! Compact RINEX.
use super::common::*;
use super::faults::add_comments;
use super::write::format_delivered;
use super::PropDef;
use crate::ctx::{fail, Ctx, Res, Violation};
use crate::gen::crx::{self, Restart};
use crate::gen::{self, obs, Block, Doc};
use crate::simio::record_delivery;
use crate::source::Source;
use rinex::hatanaka::{Decompressor, DecompressorIO};
use rinex::prelude::{Constellation, Epoch, Observable};
use std::io::{BufReader, ErrorKind, Read};
use std::rc::Rc;
use std::str::FromStr;

const REAL_CRX: &[&str] = &["rinex: CRINEX compressor and decompressor, header and record parsing and formatting", "hifitime, gnss-rs", "std::io::BufReader and BufWriter"];

/// a file of any kind, compact RINEX included
pub fn draw_any(s: &mut Source, size: usize) -> Doc {
    if s.chance(1, 6) {
        draw_crx(s, size, None)
    } else {
        gen::draw_doc(s, size)
    }
}
pub fn draw_crx(s: &mut Source, size: usize, restart: Option<Restart>) -> Doc {
    let major = *s.pick(&[3u8, 2, 3, 4]);
    let restart = restart.unwrap_or_else(|| *s.pick(&[Restart::Rare, Restart::Often, Restart::Always]));
    let m = obs::draw(s, obs::Opt { max_epochs: size, major: Some(major), first_signal: restart == Restart::Always, ..Default::default() });
    crx::doc(s, &m, restart)
}

// ------------------------------------------------------------------ C09
pub static C09: PropDef = PropDef {
    id: "C09",
    run: c09,
    quick_runs: 24000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded receiver history (satellites rising and setting, signal outages, power failures, clock offsets) is read, compressed by the library, written to a drawn sink, decoded by a reference Hatanaka decoder and by the library, decompressed and compressed again; non-trivial: at least one epoch with data",
    faults: &["short_write", "write_eintr", "short_read", "read_eintr"],
    real: REAL_CRX,
    stub: STUB_IO,
    assumptions: &["the reference decoder follows Hatanaka (2008), CRINEX 1.0 and 3.0", "values fit the F14.3 fields of the format"],
};

fn lines_after_header(ctx: &mut Ctx, bytes: &[u8]) -> Result<(Vec<String>, Vec<String>), Violation> {
    let _ = ctx;
    let t = match String::from_utf8(bytes.to_vec()) {
        Ok(t) => t,
        Err(_) => return fail("crx-not-text", "compressed output is not text"),
    };
    let all: Vec<String> = t.lines().map(|l| l.to_string()).collect();
    match all.iter().position(|l| l.ends_with("END OF HEADER")) {
        Some(p) => Ok((all[..=p].to_vec(), all[p + 1..].to_vec())),
        None => fail("crx-no-header", "compressed output has no END OF HEADER"),
    }
}

fn c09(ctx: &mut Ctx) -> Res {
    let m = obs::draw(&mut ctx.src, obs::Opt::default());
    let from_crx = ctx.src.chance(1, 4);
    let doc = if from_crx {
        let r = *ctx.src.pick(&[Restart::Rare, Restart::Often, Restart::Always]);
        crx::doc(&mut ctx.src, &m, r)
    } else {
        m.doc()
    };
    let mut rnx = decode_check(ctx, &doc, "obs")?;
    let exp = m.doc().expected();
    let n = ctx.src.range(1, 2);
    for generation in 1..=n {
        let mut c = ctx.lib("rnx2crnx", || rnx.rnx2crnx())?;
        // the program that compressed, and when
        let heading = crx::Heading::draw(&mut ctx.src, m.major > 2);
        let chosen = ctx.src.chance(1, 2);
        if chosen {
            let (y, mo, d, hh, mm) = heading.date;
            if let Some(c) = c.header.obs.as_mut().and_then(|o| o.crinex.as_mut()) {
                c.prog = heading.prog.clone();
                let s = ctx.src.range(0, 59) as u8;
                c.date = Epoch::from_gregorian_utc(y, mo, d, hh, mm, s, 0);
            }
        }
        let bytes = format_delivered(ctx, &c, "crx-write")?;
        log_text(ctx, &format!("compressed {generation}"), &String::from_utf8_lossy(&bytes));
        let (head, body) = lines_after_header(ctx, &bytes)?;
        let want = if m.major == 2 { "1.0" } else { "3.0" };
        if !head[0].starts_with(want) || !head[0].ends_with("CRINEX VERS   / TYPE") {
            return fail("crx-version", format!("first header line: {:?}", head[0]));
        }
        // any decoder
        match crx::decode(&m, &body) {
            Err(e) => return fail("crx-not-decodable", e),
            Ok(got) => {
                if let Some(d) = gen::diff(&exp, &got) {
                    return fail("crx-content", format!("reference decoder: {d}"));
                }
            },
        }
        // ours
        let back = match parse_plain(ctx, &bytes)? {
            Ok(r) => r,
            Err(e) => return fail("crx-rejected", format!("the library rejects what it compressed: {e}")),
        };
        expect_content(ctx, "crx-roundtrip", &back, &exp)?;
        if chosen {
            same_heading(ctx, "crx-heading", &back, Some(heading))?;
        }
        // and back to readable text
        let plain = ctx.lib("crnx2rnx", || back.crnx2rnx())?;
        let bytes = format_delivered(ctx, &plain, "obs-write")?;
        log_text(ctx, &format!("readable {generation}"), &String::from_utf8_lossy(&bytes));
        rnx = match parse_plain(ctx, &bytes)? {
            Ok(r) => r,
            Err(e) => return fail("obs-rejected", format!("the library rejects what it decompressed: {e}")),
        };
        if ctx.lib("is_crinex", || rnx.header.obs.as_ref().map(|o| o.crinex.is_some()) == Some(true))? {
            return fail("still-crinex", "decompressed file still describes itself as compressed");
        }
        expect_content(ctx, "obs-roundtrip", &rnx, &exp)?;
    }
    Ok(())
}

fn same_heading(ctx: &mut Ctx, class: &str, r: &rinex::Rinex, want: Option<crx::Heading>) -> Res {
    let got = ctx.lib("crinex header", || crx::Heading::of(r))?;
    if got != want {
        return fail(class, format!("compression described as {want:?}, got {got:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
pub static C10: PropDef = PropDef {
    id: "C10",
    run: c10,
    quick_runs: 30000,
    max_classes: 8,
    recheck: false,
    rule: "a seeded receiver history is compressed by a reference Hatanaka encoder (order 1 to 5 per arc, arcs and epochs restarted at will, events with special records, comments) and read under a drawn delivery; in some runs lines are lost or damaged on the way; non-trivial: at least one epoch with data",
    faults: &["line_lost", "line_overwritten", "line_shortened", "line_inserted", "short_read", "read_eintr"],
    real: REAL_CRX,
    stub: STUB_IO,
    assumptions: &["the reference encoder follows Hatanaka (2008), CRINEX 1.0 and 3.0", "after damage, content is only predicted from the next initialized epoch on"],
};

fn c10(ctx: &mut Ctx) -> Res {
    let hurt = ctx.src.chance(1, 3);
    let restart = *ctx.src.pick(if hurt { &[Restart::Often, Restart::Always] } else { &[Restart::Rare, Restart::Often] });
    // damage must not turn one line into another valid line
    let m = obs::draw(&mut ctx.src, obs::Opt { specials: !hurt, first_signal: hurt, max_epochs: 14, ..Default::default() });
    let doc = crx::doc(&mut ctx.src, &m, restart);
    if !hurt {
        let mut d = doc.clone();
        add_comments(&mut ctx.src, &mut d);
        let rnx = decode_check(ctx, &d, "crx")?;
        expect_content(ctx, "crx-content", &rnx, &doc.expected())?;
        return same_heading(ctx, "crx-heading", &rnx, crx::Heading::read(&doc.header));
    }
    ctx.nontrivial = true;
    doc.note(ctx);
    let mut blocks = doc.blocks.clone();
    let i = ctx.src.us(blocks.len());
    let li = ctx.src.us(blocks[i].lines.len());
    let n = ctx.src.us(blocks[i].lines[li].len() + 1);
    let what = match ctx.src.us(4) {
        0 => {
            blocks[i].lines.remove(li);
            "line_lost"
        },
        1 => {
            let k = ctx.src.range(1, 80) as usize;
            blocks[i].lines[li] = super::faults::junk(&mut ctx.src, k);
            "line_overwritten"
        },
        2 => {
            blocks[i].lines[li].truncate(n);
            "line_shortened"
        },
        _ => {
            let k = ctx.src.range(1, 80) as usize;
            let j = super::faults::junk(&mut ctx.src, k);
            blocks[i].lines.insert(li, j);
            "line_inserted"
        },
    };
    ctx.fault(what);
    ctx.ev(format!("epoch {i} line {li}: {what}"));
    let text = doc.text_of(&blocks);
    log_text(ctx, "file", &text);
    let bytes = Rc::new(text.into_bytes());
    let d = if ctx.src.chance(1, 2) { Delivery::draw(&mut ctx.src, bytes.len()) } else { Delivery::plain() };
    let rnx = match parse_delivered(ctx, "parse", &bytes, &d)? {
        Ok(r) => r,
        Err(e) => return fail("crx-damage-rejected", format!("{what} in epoch {i}: {e}")),
    };
    let got = ctx.lib("inspect", || gen::dump(&rnx))?;
    // intact: everything before, and from the next initialization on
    let marker = if m.major == 2 { '&' } else { '>' };
    let resume = (i + 1..blocks.len()).find(|k| doc.blocks[*k].lines[0].starts_with(marker)).unwrap_or(blocks.len());
    ctx.probe(if resume < blocks.len() { "resumed_after_damage" } else { "nothing_to_resume_at" });
    let mut sure: Vec<Block> = doc.blocks[..i].to_vec();
    sure.extend(doc.blocks[resume..].iter().cloned());
    for (k, v) in &Doc::expected_of(&sure) {
        match got.get(k) {
            Some(g) if g == v => {},
            other => return fail("crx-damage-spreads", format!("{what} in epoch {i} of {}, initialized again at {resume}: [{k}] = {v:?} got {other:?}", blocks.len())),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C11
pub static C11: PropDef = PropDef {
    id: "C11",
    run: c11,
    quick_runs: 30000,
    max_classes: 8,
    recheck: false,
    rule: "a compact RINEX stream (with or without its header section) is decompressed through DecompressorIO, the source delivering in pieces, interrupted or failing, the reader asking for pieces of any size; or line by line into buffers that are sometimes too small; non-trivial: at least one epoch",
    faults: &["short_read", "read_eintr", "read_error", "small_buffer", "crlf"],
    real: &["rinex: DecompressorIO, Decompressor, CRINEX kernels, header parsing", "std::io::BufReader"],
    stub: STUB_IO,
    assumptions: &["the reference text is the full width RINEX layout, as CRX2RNX writes it", "the line by line interface may add a blank line after a V1 description that fills its last line, as the existing tests require"],
};

fn observables(m: &obs::Model, sys: char) -> Vec<Observable> {
    m.codes.iter().find(|c| c.0 == sys).unwrap().1.iter().map(|c| Observable::from_str(c).unwrap()).collect()
}
fn constellation(sys: char) -> Constellation {
    match sys {
        'G' => Constellation::GPS,
        'R' => Constellation::Glonass,
        'E' => Constellation::Galileo,
        'C' => Constellation::BeiDou,
        'J' => Constellation::QZSS,
        'S' => Constellation::SBAS,
        'I' => Constellation::IRNSS,
        _ => panic!(),
    }
}

fn c11(ctx: &mut Ctx) -> Res {
    ctx.nontrivial = true;
    let m = obs::draw(&mut ctx.src, obs::Opt { specials: true, ..Default::default() });
    let r = *ctx.src.pick(&[Restart::Rare, Restart::Often]);
    let c = crx::encode(&mut ctx.src, &m, r);
    let mut doc = crx::doc(&mut Source::replay(vec![]), &m, r);
    doc.blocks = m.eps.iter().zip(&c.lines).map(|(_, l)| Block { lines: l.clone(), ..Default::default() }).collect();
    doc.header = c.header.clone();
    doc.note(ctx);
    // what a reader must see
    let mut readable: Vec<Vec<String>> = m.eps.iter().map(|e| m.full_lines(e)).collect();
    // comments pass; without a header, a stream starts with an initialized epoch
    if ctx.src.chance(1, 3) {
        let i = ctx.src.us(doc.blocks.len());
        let l = gen::hl("passed through", "COMMENT");
        let at = if m.eps[i].is_special() { 0 } else { ctx.src.us(doc.blocks[i].lines.len() + 1) };
        let at = if i == 0 && at == 0 { doc.blocks[0].lines.len() } else { at };
        doc.blocks[i].lines.insert(at, l.clone());
        // it appears once everything before it has
        let n = if at + 1 == doc.blocks[i].lines.len() {
            readable[i].len()
        } else if m.eps[i].is_special() || at == 0 {
            0
        } else {
            let per = |k: usize| -> usize {
                if m.major > 2 {
                    1
                } else if k == 0 {
                    (m.eps[i].sats.len() + 11) / 12
                } else {
                    (m.eps[i].sats[k - 1].1.len() + 4) / 5
                }
            };
            // compressed lines: epoch, clock, one per satellite
            (0..at.saturating_sub(1)).map(|k| if k == 0 && m.eps[i].sats.is_empty() { 1 } else { per(k) }).sum()
        };
        readable[i].insert(n, l);
        ctx.reach("comment");
    }
    if ctx.src.chance(1, 6) {
        doc.eol = "\r\n";
        ctx.fault("crlf");
    }
    doc.final_eol = ctx.src.chance(4, 5);
    if ctx.src.chance(1, 4) {
        return line_by_line(ctx, &m, &doc, &readable);
    }
    let with_header = ctx.src.chance(2, 3);
    let mut want = String::new();
    if with_header {
        for l in &doc.header[2..] {
            want.push_str(l.trim_end());
            want.push('\n');
        }
    } else {
        doc.header.clear();
    }
    ctx.reach(if with_header { "with_header" } else { "without_header" });
    for l in readable.iter().flatten() {
        want.push_str(l);
        want.push('\n');
    }
    let text = doc.text();
    log_text(ctx, "stream", &text);
    let bytes = Rc::new(text.into_bytes());
    let d = Delivery::draw(&mut ctx.src, bytes.len());
    let mut src = d.reader(&bytes);
    // a failure to report: once, or for good
    let failing = ctx.src.us(4);
    let mut off = 0;
    if failing > 1 {
        off = ctx.src.us(bytes.len() + 1);
        let kind = *ctx.src.pick(&crate::simio::KINDS);
        src.fail_at = Some((off, kind, failing == 2));
    }
    let st = src.stats.clone();
    let sizes: Vec<usize> = (0..ctx.src.range(1, 6)).map(|_| if ctx.src.chance(1, 8) { 0 } else { ctx.src.range(1, 200) as usize }).collect();
    let own = ctx.src.chance(1, 2);
    let cap = d.cap;
    let codes = m.codes.clone();
    let m2 = m.clone();
    let (got, errors, ended) = ctx.lib("DecompressorIO", move || {
        let mut io = if own { DecompressorIO::from_bufread(BufReader::with_capacity(cap, src)) } else { DecompressorIO::from_read(src) };
        if !with_header {
            for (sys, _) in &codes {
                io.with_observables(constellation(*sys), observables(&m2, *sys));
            }
        }
        let mut got: Vec<u8> = vec![];
        let mut errors: Vec<(ErrorKind, usize)> = vec![];
        let mut ended = 0;
        let mut k = 0;
        loop {
            let n = sizes[k % sizes.len()];
            k += 1;
            let mut buf = vec![0xAAu8; n + 7];
            match io.read(&mut buf[..n]) {
                Ok(0) if n == 0 => {
                    if k > 4 * sizes.len() && sizes.iter().all(|x| *x == 0) {
                        // only empty requests: nothing to observe
                        ended = 1;
                        break;
                    }
                },
                Ok(0) => {
                    ended += 1;
                    if ended == 3 {
                        break;
                    }
                },
                Ok(p) => {
                    if ended > 0 {
                        errors.push((ErrorKind::Other, usize::MAX));
                        break;
                    }
                    if p > n || buf[n..].iter().any(|b| *b != 0xAA) {
                        errors.push((ErrorKind::Other, usize::MAX - 1));
                        break;
                    }
                    got.extend_from_slice(&buf[..p]);
                },
                Err(e) if e.kind() == ErrorKind::Interrupted => {},
                Err(e) => {
                    errors.push((e.kind(), got.len()));
                    if errors.len() > 3 {
                        break;
                    }
                },
            }
        }
        (got, errors, ended)
    })?;
    let st = st.borrow().clone();
    record_delivery(ctx, &st);
    ctx.ev(format!("{} of {} bytes recovered, errors {errors:?}, ended {ended}", got.len(), want.len()));
    if ended == 1 {
        return Ok(());
    }
    for (_, at) in &errors {
        if *at >= usize::MAX - 1 {
            return fail("read-contract", if *at == usize::MAX { "data after the end of the stream".into() } else { "wrote past the buffer it was given".to_string() });
        }
    }
    let want = want.into_bytes();
    if st.failed == 0 && !errors.is_empty() {
        return fail("spurious-error", format!("the source never failed, the decompressor did: {errors:?}"));
    }
    if st.failed > 0 && errors.is_empty() {
        return fail("failure-swallowed", format!("the source failed at byte {off}, the decompressor never did, and delivered {} of {} bytes", got.len(), want.len()));
    }
    if failing == 3 && st.failed > 0 {
        if !want.starts_with(&got) {
            return fail("stream-content", format!("before the failure at byte {off}: {}", super::write::first_diff(&want[..got.len().min(want.len())], &got)));
        }
        return Ok(());
    }
    if errors.len() as u64 != st.failed {
        return fail("spurious-error", format!("the source failed {} time(s), the decompressor {errors:?}", st.failed));
    }
    if got != want {
        return fail("stream-content", super::write::first_diff(&want, &got));
    }
    Ok(())
}

/// every line handed over in turn, into buffers that may be too small
fn line_by_line(ctx: &mut Ctx, m: &obs::Model, doc: &Doc, readable: &[Vec<String>]) -> Res {
    ctx.reach("line_by_line");
    let mut want = String::new();
    for l in readable.iter().flatten() {
        want.push_str(l);
        want.push('\n');
    }
    let lines: Vec<String> = doc.blocks.iter().flat_map(|b| b.lines.iter().cloned()).collect();
    log_text(ctx, "lines", &(lines.join("\n") + "\n"));
    let v3 = m.major > 2;
    let sys = if m.sys == ' ' { Constellation::Mixed } else { constellation(m.sys) };
    let map = m.codes.iter().map(|c| (constellation(c.0), observables(m, c.0))).collect();
    let mut first: Vec<usize> = vec![];
    for _ in &lines {
        first.push(if ctx.src.chance(1, 3) { ctx.src.range(0, 400) as usize } else { 8192 });
    }
    let r = ctx.lib("Decompressor", move || -> Result<(String, u64), String> {
        let mut dec = Decompressor::new(v3, sys, map);
        let mut out = String::new();
        let mut small = 0;
        for (l, n) in lines.iter().zip(first) {
            let mut n = n;
            loop {
                let mut buf = vec![0xAAu8; n];
                match dec.decompress(l, l.len(), &mut buf, n) {
                    Ok(p) => {
                        if p > n {
                            return Err(format!("{p} bytes in a buffer of {n}"));
                        }
                        let t = String::from_utf8(buf[..p].to_vec()).map_err(|_| "not text".to_string())?;
                        // the extra blank line that the existing tests require in V1
                        let t = if v3 { &t[..] } else { t.strip_suffix("\n ").unwrap_or(&t) };
                        if p > 0 {
                            out.push_str(t);
                            out.push('\n');
                        }
                        break;
                    },
                    Err(rinex::hatanaka::Error::BufferOverflow) if n < 8192 => {
                        small += 1;
                        n = 8192;
                    },
                    Err(e) => return Err(format!("{l:?}: {e}")),
                }
            }
        }
        Ok((out, small))
    })?;
    match r {
        Err(e) => fail("line-rejected", e),
        Ok((got, small)) => {
            ctx.fault_n("small_buffer", small);
            if got != want {
                return fail("line-content", super::write::first_diff(want.as_bytes(), got.as_bytes()));
            }
            Ok(())
        },
    }
}

