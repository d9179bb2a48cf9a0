//! Transport, device and file faults around the parsers and writers.
use super::common::*;
use super::PropDef;
use crate::ctx::{fail, Ctx, Res, Violation};
use crate::gen::{self, obs, Block, Doc, Dump};
use crate::seam::{self, FilePlan, Op};
use crate::simio::{SimWriter, WStep, KINDS};
use crate::source::Source;
use rinex::prelude::Rinex;
use std::io::{BufReader, BufWriter, Write};
use std::rc::Rc;

/// comment lines between blocks
pub fn add_comments(s: &mut Source, doc: &mut Doc) {
    if !s.chance(1, 3) {
        return;
    }
    let n = s.range(1, 4);
    for i in 0..n {
        let at = s.us(doc.blocks.len() + 1);
        let text = *s.pick(&["gathered by the simulator", "  1  2  3 > G01 R02", "*** 21  1  1  0  0  0.0000000", ""]);
        let b = Block { lines: vec![gen::hl(&format!("{text} {i}"), "COMMENT")], items: vec![], comment: true };
        doc.blocks.insert(at, b);
    }
    doc.features.push("body_comments".into());
}

/// everything observable of a parsed file, in canonical form
pub fn view(ctx: &mut Ctx, r: &Rinex) -> Result<(Dump, String), Violation> {
    ctx.lib("inspect", || {
        let mut extra = format!("{:?}", r.comments);
        if let Some(rec) = r.record.as_doris() {
            extra.push_str(&format!("{:?}", rec.keys().collect::<Vec<_>>()));
        }
        (gen::dump(r), extra)
    })
}
/// equality as a user sees it
pub fn same(ctx: &mut Ctx, a: &Rinex, b: &Rinex) -> Result<Option<String>, Violation> {
    let (da, ea) = view(ctx, a)?;
    let (db, eb) = view(ctx, b)?;
    if let Some(d) = gen::diff(&da, &db) {
        return Ok(Some(d));
    }
    if ea != eb {
        return Ok(Some(format!("comments differ: {ea} / {eb}").chars().take(400).collect()));
    }
    let eq = ctx.lib("inspect", || a.header == b.header)?;
    if !eq {
        // NaN never equals itself
        let (x, y) = (serde_json::to_string(&a.header).ok(), serde_json::to_string(&b.header).ok());
        if x != y || x.is_none() {
            return Ok(Some("headers differ".into()));
        }
    }
    Ok(None)
}

pub fn gzip(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// gzip as one member or as several
pub fn gzip_members(s: &mut Source, data: &[u8]) -> (Vec<u8>, usize) {
    let level = *s.pick(&[6u32, 0, 1, 9]);
    let n = s.range(1, 3) as usize;
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| s.us(data.len() + 1)).collect();
    cuts.sort();
    let mut out = vec![];
    let mut a = 0;
    for c in cuts.into_iter().chain([data.len()]) {
        out.extend(gzip(&data[a..c], level));
        a = c;
    }
    (out, n)
}

fn disk_delivery(s: &mut Source, len: usize) -> FilePlan {
    let mut p = FilePlan::default();
    for _ in 0..s.range(0, 40) {
        p.ops.push(match s.us(4) {
            0 => Op::Plain,
            1 => Op::Err(seam::EINTR),
            2 => Op::Short(s.range(1, 100) as usize),
            _ => Op::Short(s.range(1, (len as i64).max(2)) as usize),
        });
    }
    p
}
pub fn note_disk(ctx: &mut Ctx) -> u64 {
    let mut hard = 0;
    for (k, n) in seam::fired() {
        ctx.fault_n(k, n);
        if !k.contains("short") && !k.contains("eintr") {
            hard += n;
        }
    }
    for l in seam::disk_log() {
        ctx.ev(l);
    }
    hard
}

// ------------------------------------------------------------------ C01
pub static C01: PropDef = PropDef {
    id: "C01",
    run: c01,
    quick_runs: 30000,
    max_classes: 8,
    recheck: false,
    rule: "a file of any format, intact or damaged, is parsed once from a single read and once under a drawn delivery (reader, simulated disk file, gzip file of one or more members); non-trivial: at least one short or interrupted read",
    faults: &["short_read", "read_eintr", "disk_short_read", "disk_read_eintr"],
    real: &["rinex: header and record parsing of every format, from_file, from_gzip_file", "flate2 decoder", "std::fs::File, std::io::BufReader"],
    stub: &["byte source (scripted reader, simulated disk below libc)", "entropy for hash keys (seeded)", "wall clock (scripted)"],
    assumptions: &["a BufReader of any capacity above zero is a legal argument"],
};

fn c01(ctx: &mut Ctx) -> Res {
    let n = draw_size(&mut ctx.src, 8, 2500);
    let mut doc = super::crinex::draw_any(&mut ctx.src, n);
    add_comments(&mut ctx.src, &mut doc);
    doc.note(ctx);
    let mut bytes = doc.text().into_bytes();
    if ctx.src.chance(1, 3) {
        for _ in 0..ctx.src.range(1, 4) {
            hostile(&mut ctx.src, &mut bytes);
        }
        ctx.reach("damaged");
    }
    log_text(ctx, "file", &String::from_utf8_lossy(&bytes));
    let bytes = Rc::new(bytes);
    let plain = parse_plain(ctx, &bytes)?;
    let how = ctx.src.us(4);
    let other = match how {
        0 | 1 => {
            let d = Delivery::draw(&mut ctx.src, bytes.len());
            parse_delivered(ctx, "parse", &bytes, &d)?
        },
        2 => {
            let p = format!("{}data.rnx", seam::ROOT);
            seam::put(&p, bytes.to_vec());
            let plan = disk_delivery(&mut ctx.src, bytes.len());
            seam::plan(&p, plan);
            let r = ctx.lib("from_file", || Rinex::from_file(&p))?;
            note_disk(ctx);
            r
        },
        _ => {
            let p = format!("{}data.rnx.gz", seam::ROOT);
            let (z, n) = gzip_members(&mut ctx.src, &bytes);
            ctx.reach(&format!("gz members {n}"));
            let plan = disk_delivery(&mut ctx.src, z.len());
            seam::put(&p, z);
            seam::plan(&p, plan);
            let r = ctx.lib("from_gzip_file", || Rinex::from_gzip_file(&p))?;
            note_disk(ctx);
            r
        },
    };
    let how = ["reader", "reader", "file", "gzip file"][how];
    ctx.reach(how);
    ctx.ev(format!("{how}: {} / {}", if plain.is_ok() { "ok" } else { "error" }, if other.is_ok() { "ok" } else { "error" }));
    match (&plain, &other) {
        (Ok(a), Ok(b)) => match same(ctx, a, b)? {
            None => Ok(()),
            Some(d) => fail("delivery-content", format!("{} via {how}: {d}", doc.kind)),
        },
        (Err(a), Err(b)) => {
            if a.to_string() == b.to_string() {
                Ok(())
            } else {
                fail("delivery-error", format!("{} via {how}: '{a}' became '{b}'", doc.kind))
            }
        },
        (Ok(_), Err(e)) => fail("delivery-error", format!("{} via {how}: accepted in one piece, but: {e}", doc.kind)),
        (Err(e), Ok(_)) => fail("delivery-error", format!("{} via {how}: accepted, in one piece: {e}", doc.kind)),
    }
}

// ------------------------------------------------------------------ C02
pub static C02: PropDef = PropDef {
    id: "C02",
    run: c02,
    quick_runs: 36000,
    max_classes: 8,
    recheck: false,
    rule: "a well formed file of any format is read from a source that fails once or for good at a drawn offset (reader, simulated disk file, gzip file, truncated or corrupted gzip stream, refused open); non-trivial: the failure was delivered to the library",
    faults: &["read_error", "disk_read_error", "open_error", "gzip_truncated", "gzip_corrupted", "short_read", "read_eintr"],
    real: &["rinex: header and record parsing of every format, from_file, from_gzip_file", "flate2 decoder", "std::fs::File, std::io::BufReader"],
    stub: &["byte source (scripted reader, simulated disk below libc)", "entropy for hash keys (seeded)", "wall clock (scripted)"],
    assumptions: &["EINTR is not a failure", "a damaged gzip stream is one that the reference decoder rejects"],
};

fn c02(ctx: &mut Ctx) -> Res {
    let n = draw_size(&mut ctx.src, 8, 2500);
    let mut doc = super::crinex::draw_any(&mut ctx.src, n);
    add_comments(&mut ctx.src, &mut doc);
    doc.note(ctx);
    let text = doc.text();
    log_text(ctx, "file", &text);
    let bytes = Rc::new(text.into_bytes());
    let head = doc.head_text().len();
    let how = ctx.src.us(5);
    let off = match ctx.src.us(4) {
        0 => bytes.len(),
        1 => ctx.src.us(head),
        2 => ctx.src.us(bytes.len()),
        _ => bytes.len() - ctx.src.us(bytes.len().min(200)),
    };
    let (res, hit, what) = match how {
        0 | 1 => {
            let d = Delivery::draw(&mut ctx.src, bytes.len());
            let kind = *ctx.src.pick(&KINDS);
            let once = ctx.src.chance(1, 2);
            let mut r = d.reader(&bytes);
            r.fail_at = Some((off, kind, once));
            let st = r.stats.clone();
            let cap = d.cap;
            let out = ctx.lib("parse", move || Rinex::parse(&mut BufReader::with_capacity(cap, r)))?;
            let st = st.borrow().clone();
            crate::simio::record_delivery(ctx, &st);
            (out, st.failed > 0, format!("{kind:?} at byte {off} ({})", if once { "once" } else { "for good" }))
        },
        2 => {
            let p = format!("{}data.rnx", seam::ROOT);
            seam::put(&p, bytes.to_vec());
            let mut plan = disk_delivery(&mut ctx.src, bytes.len());
            let e = *ctx.src.pick(&[seam::EIO, seam::EACCES, seam::EISDIR, seam::ENOENT, seam::EMFILE]);
            if ctx.src.chance(1, 3) {
                plan.open_errno = e;
            } else {
                let at = ctx.src.us(plan.ops.len() + 3);
                while plan.ops.len() < at {
                    plan.ops.push(Op::Plain);
                }
                plan.ops.insert(at, Op::Err(seam::EIO));
            }
            seam::plan(&p, plan);
            let r = ctx.lib("from_file", || Rinex::from_file(&p))?;
            let hard = note_disk(ctx);
            (r, hard > 0, format!("disk error {e}"))
        },
        3 => {
            let p = format!("{}data.rnx.gz", seam::ROOT);
            let (z, _) = gzip_members(&mut ctx.src, &bytes);
            let mut plan = disk_delivery(&mut ctx.src, z.len());
            let at = ctx.src.us(plan.ops.len() + 2);
            while plan.ops.len() < at {
                plan.ops.push(Op::Plain);
            }
            plan.ops.insert(at, Op::Err(seam::EIO));
            seam::put(&p, z);
            seam::plan(&p, plan);
            let r = ctx.lib("from_gzip_file", || Rinex::from_gzip_file(&p))?;
            let hard = note_disk(ctx);
            (r, hard > 0, "disk error below gzip".to_string())
        },
        _ => {
            let p = format!("{}data.rnx.gz", seam::ROOT);
            let (mut z, _) = gzip_members(&mut ctx.src, &bytes);
            if ctx.src.chance(2, 3) {
                let keep = ctx.src.us(z.len());
                z.truncate(keep);
                ctx.fault("gzip_truncated");
            } else {
                let i = ctx.src.us(z.len());
                z[i] ^= 1 << ctx.src.us(8);
                ctx.fault("gzip_corrupted");
            }
            // the reference decoder says whether the stream is damaged
            use std::io::Read;
            let mut sink = vec![];
            let bad = flate2::bufread::MultiGzDecoder::new(&z[..]).read_to_end(&mut sink).is_err();
            if !bad && sink != **bytes {
                // cut between two members: nobody can tell
                ctx.probe("cut_between_members");
                return Ok(());
            }
            seam::put(&p, z);
            let r = ctx.lib("from_gzip_file", || Rinex::from_gzip_file(&p))?;
            note_disk(ctx);
            (r, bad, "damaged gzip stream".to_string())
        },
    };
    ctx.ev(format!("{what}: delivered {hit}, result {}", if res.is_ok() { "ok" } else { "error" }));
    match (hit, res) {
        (true, Ok(r)) => {
            let n = ctx.lib("inspect", || gen::dump(&r))?.len();
            fail("failure-swallowed", format!("{}: {what}: parsing reported success with {n} of {} items", doc.kind, doc.expected().len()))
        },
        (true, Err(_)) => Ok(()),
        (false, Err(e)) => fail("error-without-failure", format!("{}: {what} was never delivered, yet: {e}", doc.kind)),
        (false, Ok(r)) => expect_content(ctx, "unfaulted-content", &r, &doc.recovered(&doc.blocks)),
    }
}

// ------------------------------------------------------------------ C03
pub static C03: PropDef = PropDef {
    id: "C03",
    run: c03,
    quick_runs: 36000,
    max_classes: 8,
    recheck: false,
    rule: "a producer dies while writing: the file of any format ends at a drawn byte (at, after or inside a line, inside the header or the body) and is parsed under a drawn delivery; non-trivial: always (a cut)",
    faults: &["cut_in_header", "cut_between_blocks", "cut_in_block", "cut_in_line", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["what the cut block itself yields is left open, except that it cannot touch other epochs"],
};

/// the instant a key belongs to
fn instant(k: &str) -> &str {
    &k[..k.len().min(29)]
}

fn c03(ctx: &mut Ctx) -> Res {
    let mut doc = super::crinex::draw_any(&mut ctx.src, 9);
    doc.trailer.clear();
    add_comments(&mut ctx.src, &mut doc);
    doc.note(ctx);
    let text = doc.text();
    let head = doc.head_text().len();
    let cut = match ctx.src.us(5) {
        0 => ctx.src.us(head),
        _ => head + ctx.src.us(text.len() - head + 1),
    };
    let mut cut = cut;
    // some cuts fall between lines
    if ctx.src.chance(1, 3) {
        if let Some(i) = text[..cut].rfind('\n') {
            cut = i + 1;
        }
    }
    // ends of header: the label is complete
    let end = doc.head_text().trim_end().len();
    let bytes = Rc::new(text.as_bytes()[..cut].to_vec());
    log_text(ctx, "file", &text[..cut]);
    let d = if ctx.src.chance(1, 2) { Delivery::draw(&mut ctx.src, bytes.len()) } else { Delivery::plain() };
    let res = parse_delivered(ctx, "parse", &bytes, &d)?;
    if cut < end {
        ctx.fault("cut_in_header");
        return match res {
            Err(_) => Ok(()),
            Ok(r) => {
                let n = ctx.lib("inspect", || gen::dump(&r))?.len();
                fail("header-cut-accepted", format!("{}: header cut at byte {cut} of {end} was accepted ({n} items)", doc.kind))
            },
        };
    }
    let r = match res {
        Ok(r) => r,
        Err(e) => return fail("cut-rejected", format!("{}: file cut at byte {cut} of {} rejected: {e}", doc.kind, text.len())),
    };
    // complete blocks: all lines, the last one with or without its line end
    let mut pos = head;
    let mut complete: Vec<Block> = vec![];
    let mut trailing: Option<Block> = None;
    let mut partial: Option<(Block, bool)> = None;
    for b in &doc.blocks {
        let len: usize = b.lines.iter().map(|l| l.len() + 1).sum();
        if pos + len - 1 <= cut {
            complete.push(b.clone());
        } else {
            if cut > pos {
                // first line complete?
                partial = Some((b.clone(), cut >= pos + b.lines[0].len()));
            }
            break;
        }
        pos += len;
    }
    match &partial {
        None => ctx.fault("cut_between_blocks"),
        Some(_) if text.as_bytes()[cut - 1] == b'\n' => ctx.fault("cut_in_block"),
        _ => ctx.fault("cut_in_line"),
    }
    // what is left of a comment is foreign text at the end of the record before it
    if let Some((b, _)) = &partial {
        if b.comment {
            while let Some(c) = complete.pop() {
                if !c.comment {
                    trailing = Some(c);
                    break;
                }
            }
        }
    }
    if let Some(c) = trailing {
        partial = Some((c, true));
    }
    let got = ctx.lib("inspect", || gen::dump(&r))?;
    // an incomplete map still shows that the previous one is complete
    let mut seen = complete.clone();
    if doc.last_tec_lost {
        if let Some((b, true)) = &partial {
            seen.push(Block { lines: b.lines.clone(), items: b.items.clone(), comment: false });
        }
    }
    let exp = Doc::expected_of(&complete);
    let low = if doc.last_tec_lost {
        let mut d = doc.recovered(&seen);
        d.retain(|k, _| exp.contains_key(k));
        d
    } else {
        exp.clone()
    };
    let open: Vec<String> = partial.iter().flat_map(|(b, _)| b.items.iter().map(|(k, _)| instant(k).to_string())).collect();
    for (k, v) in &low {
        match got.get(k) {
            Some(g) if g == v => {},
            // a cut block of the same instant may replace an item of the same name
            other => {
                if open.iter().any(|i| i == instant(k)) && partial.as_ref().map(|(b, _)| b.items.iter().any(|(k2, _)| k2 == k)).unwrap_or(false) {
                    continue;
                }
                return fail("complete-block-lost", format!("{}: cut at byte {cut}: [{k}] = {v:?} was complete, got {other:?}", doc.kind));
            },
        }
    }
    let full = doc.expected();
    for (k, v) in &got {
        if low.contains_key(k) || exp.contains_key(k) {
            continue;
        }
        match &partial {
            None => return fail("invented", format!("{}: cut at byte {cut}, between blocks: unexpected [{k}] = {v:?}", doc.kind)),
            Some((_, true)) if !open.is_empty() && !doc.positional => {
                if !open.iter().any(|i| i == instant(k)) {
                    return fail("invented", format!("{}: cut at byte {cut}: [{k}] = {v:?} does not belong to the block that was cut", doc.kind));
                }
            },
            _ => {},
        }
    }
    let _ = full;
    Ok(())
}

// ------------------------------------------------------------------ C04
pub static C04: PropDef = PropDef {
    id: "C04",
    run: c04,
    quick_runs: 36000,
    max_classes: 8,
    recheck: false,
    rule: "body lines of one to three records of a file of any format are damaged (overwritten, shortened, lost, repeated, foreign lines inserted, non ASCII text); non-trivial: always (damage)",
    faults: &["line_overwritten", "line_shortened", "line_lost", "line_repeated", "line_inserted", "bytes_replaced"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["damage never spells the start of another valid record: replaced characters are not digits", "the damaged record and, where a damaged first line lets it swallow the next lines, the one before it are left open", "an IONEX map whose epoch line is damaged rejects the file, as documented in the code"],
};

const JUNK: [char; 12] = ['#', '?', 'x', '@', '*', '~', '!', ';', '_', 'é', '東', '|'];
pub fn junk(s: &mut Source, n: usize) -> String {
    (0..n).map(|_| *s.pick(&JUNK)).collect()
}

fn c04(ctx: &mut Ctx) -> Res {
    // compressed epochs depend on each other unless each starts over
    let mut doc = if ctx.src.chance(1, 6) { super::crinex::draw_crx(&mut ctx.src, 9, Some(gen::crx::Restart::Always)) } else { gen::draw_doc(&mut ctx.src, 9) };
    add_comments(&mut ctx.src, &mut doc);
    doc.note(ctx);
    let mut blocks = doc.blocks.clone();
    let mut open: Vec<usize> = vec![];
    let mut edges: Vec<usize> = vec![];
    let mut epoch_line_hit = false;
    for _ in 0..ctx.src.range(1, 3) {
        let i = ctx.src.us(blocks.len());
        if blocks[i].comment || blocks[i].lines.is_empty() {
            continue;
        }
        let li = if ctx.src.chance(1, 3) { 0 } else { ctx.src.us(blocks[i].lines.len()) };
        let line = blocks[i].lines[li].clone();
        epoch_line_hit |= line.contains("EPOCH OF CURRENT MAP") || line.contains("EXPONENT");
        let k = ctx.src.us(6);
        let what = match k {
            0 => {
                let n = ctx.src.range(0, 90) as usize;
                blocks[i].lines[li] = junk(&mut ctx.src, n);
                "line_overwritten"
            },
            1 => {
                // a first line is cut inside its first field, so that it cannot name another instant
                // (RINEX 4 messages are dated by their second line, and an earlier damage may have moved lines)
                let dated = li == 0 || (doc.kind == "NAV4" && li == 1) || open.contains(&i);
                let max = if dated { 3.min(line.len()) } else { line.len() };
                let mut n = ctx.src.us(max + 1);
                while !line.is_char_boundary(n) {
                    n -= 1;
                }
                blocks[i].lines[li] = line[..n].to_string();
                "line_shortened"
            },
            2 => {
                blocks[i].lines.remove(li);
                "line_lost"
            },
            3 => {
                blocks[i].lines.insert(li, line.clone());
                "line_repeated"
            },
            4 => {
                let n = ctx.src.range(0, 90) as usize;
                let j = junk(&mut ctx.src, n);
                blocks[i].lines.insert(li, j);
                "line_inserted"
            },
            _ => {
                let mut c: Vec<char> = line.chars().collect();
                if !c.is_empty() {
                    for _ in 0..ctx.src.range(1, 5) {
                        let p = ctx.src.us(c.len());
                        c[p] = *ctx.src.pick(&JUNK);
                    }
                }
                blocks[i].lines[li] = c.into_iter().collect();
                "bytes_replaced"
            },
        };
        ctx.ev(format!("block {i} line {li}: {what}"));
        ctx.fault(what);
        open.push(i);
        if li == 0 || doc.kind == "CLK" {
            edges.push(i);
        }
    }
    // a lost or foreign first line hands the rest to the record before it,
    // unless the marker of a new record is still in place
    for i in edges {
        if doc.blocks[i].lines[0].starts_with('>') && blocks[i].lines.first().map_or(false, |l| l.starts_with('>')) {
            ctx.probe("marker-kept");
            continue;
        }
        let mut p = i;
        while p > 0 {
            p -= 1;
            if !blocks[p].comment {
                open.push(p);
                break;
            }
        }
    }
    let text = doc.text_of(&blocks);
    log_text(ctx, "file", &text);
    let r = match parse_plain(ctx, text.as_bytes())? {
        Ok(r) => r,
        Err(e) => {
            if epoch_line_hit {
                return Ok(());
            }
            return fail("damage-rejects-file", format!("{}: damaged body line rejects the whole file: {e}", doc.kind));
        },
    };
    let got = ctx.lib("inspect", || gen::dump(&r))?;
    if doc.positional {
        // antennas are told apart by content
        let group = |d: &Dump, i: &str| -> String { d.iter().filter(|(k, _)| k.starts_with(i)).map(|(k, v)| format!("{}={v:?};", &k[4..])).collect() };
        let have: Vec<String> = (0..64).map(|i| group(&got, &format!("{i:03} "))).collect();
        for (i, b) in doc.blocks.iter().enumerate() {
            if open.contains(&i) || b.comment {
                continue;
            }
            let e = Doc::expected_of(&[b.clone()]);
            let id = e.keys().next().unwrap()[..4].to_string();
            let want = group(&e, &id);
            if !have.contains(&want) {
                return fail("damage-spreads", format!("{}: intact block {i} not recovered: {want}", doc.kind));
            }
        }
        return Ok(());
    }
    let touched: Vec<String> = open.iter().flat_map(|i| doc.blocks[*i].items.iter().map(|(k, _)| instant(k).to_string())).collect();
    let exp = doc.recovered(&doc.blocks);
    for (i, b) in doc.blocks.iter().enumerate() {
        if open.contains(&i) {
            continue;
        }
        for (k, _) in &b.items {
            let Some(v) = exp.get(k) else { continue };
            if doc.kind == "IONEX" && touched.iter().any(|t| t == instant(k)) {
                continue;
            }
            // the map before the damaged start of a map
            match got.get(k) {
                Some(g) if g == v => {},
                other => return fail("damage-spreads", format!("{}: damaged blocks {open:?}: intact block {i} [{k}] = {v:?} got {other:?}", doc.kind)),
            }
        }
    }
    for k in got.keys() {
        if !exp.contains_key(k) && !touched.iter().any(|t| t == instant(k)) {
            return fail("damage-invents", format!("{}: damaged blocks {open:?}: unexpected [{k}] = {:?}", doc.kind, got[k]));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C05
pub static C05: PropDef = PropDef {
    id: "C05",
    run: c05,
    quick_runs: 72000,
    max_classes: 12,
    recheck: false,
    rule: "a file of any format, header included, suffers up to forty byte level and line level mutations and in one run of forty has a part of it repeated up to a megabyte; it is parsed under a drawn delivery, and what parses is inspected and written back; non-trivial: always (mutations)",
    faults: &["hostile_mutations", "swollen", "short_read", "read_eintr"],
    real: &["rinex: header and record parsing and formatting of every format", "hifitime, gnss-rs"],
    stub: STUB_IO,
    assumptions: &["overflow checks are on", "allocation above 3 GiB counts as a failure", "a run is given a step budget and a budget of allocated bytes, both linear in the size of its input"],
};

const NASTY: [&str; 34] = [
    "-1", "99999", "1e308", "-0", "NaN", "inf", "1E-999", "é", "東京", "\u{0}", "\t", "9999999999999999999999", "-9999", "0", ">", "&", "1&", "3&123456789012", " ", "", "\r", "END OF HEADER", "COMMENT", "     ", "G00", "S99", "X99", "00000000000000000000", "2147483648", "65536", "256",
    "\u{feff}", "G 1", "0.0",
];

pub fn hostile(s: &mut Source, b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    let line_bounds = |b: &Vec<u8>, p: usize| -> (usize, usize) {
        let a = b[..p].iter().rposition(|c| *c == b'\n').map(|i| i + 1).unwrap_or(0);
        let e = b[p..].iter().position(|c| *c == b'\n').map(|i| p + i).unwrap_or(b.len());
        (a, e)
    };
    let p = s.us(b.len());
    match s.us(13) {
        0 => b[p] ^= 1 << s.us(8),
        1 => b[p] = s.range(0x20, 0x7e) as u8,
        2 => b[p] = *s.pick(b"0123456789 .-+"),
        3 => {
            let t = *s.pick(&NASTY);
            let e = (p + t.len()).min(b.len());
            b.splice(p..e, t.bytes());
        },
        4 => {
            let t = *s.pick(&NASTY);
            b.splice(p..p, t.bytes());
        },
        5 => {
            let (a, e) = line_bounds(b, p);
            let keep = a + s.us(e - a + 1);
            b.drain(keep..e);
        },
        6 => {
            let (a, e) = line_bounds(b, p);
            b.drain(a..(e + 1).min(b.len()));
        },
        7 => {
            let (a, e) = line_bounds(b, p);
            let l: Vec<u8> = b[a..(e + 1).min(b.len())].to_vec();
            let q = s.us(b.len());
            let (qa, _) = line_bounds(b, q);
            b.splice(qa..qa, l);
        },
        8 => {
            // shift the columns of a line
            let (a, e) = line_bounds(b, p);
            if s.chance(1, 2) && e > a {
                b.remove(a + s.us(e - a));
            } else {
                b.insert(a + s.us(e - a + 1), b' ');
            }
        },
        9 => {
            let n = s.range(1, 30) as usize;
            let e = (p + n).min(b.len());
            b.drain(p..e);
        },
        10 => {
            let keep = p;
            b.truncate(keep);
        },
        11 => {
            // a whole field becomes blank
            let (a, e) = line_bounds(b, p);
            let x = a + s.us(e - a + 1);
            let y = (x + s.range(1, 20) as usize).min(e);
            b[x..y].iter_mut().for_each(|c| *c = b' ');
        },
        _ => {
            // one number replaced by another
            let (a, e) = line_bounds(b, p);
            if let Some(i) = b[a..e].iter().position(|c| c.is_ascii_digit()).map(|i| a + i) {
                let j = b[i..e].iter().position(|c| !c.is_ascii_digit()).map(|j| i + j).unwrap_or(e);
                let t = *s.pick(&["0", "1", "-1", "99", "999", "100000", "4294967296", "18446744073709551616", "1.5", ""]);
                b.splice(i..j, t.bytes());
            }
        },
    }
}

const DORIS: &str = include_str!("../gen/doris.txt");

fn c05(ctx: &mut Ctx) -> Res {
    let (kind, mut bytes) = match ctx.src.us(12) {
        0 => ("DORIS", DORIS.as_bytes().to_vec()),
        _ => {
            let mut d = super::crinex::draw_any(&mut ctx.src, 6);
            add_comments(&mut ctx.src, &mut d);
            d.note(ctx);
            (d.kind, d.text().into_bytes())
        },
    };
    ctx.reach(kind);
    let header = bytes.windows(13).position(|w| w == b"END OF HEADER").unwrap_or(0);
    let n = *ctx.src.pick(&[1, 2, 4, 10, 40]);
    for _ in 0..ctx.src.range(1, n) {
        if ctx.src.chance(1, 3) && bytes.len() > header && header > 0 {
            // the header decides how the body is read
            let mut h = bytes[..header].to_vec();
            hostile(&mut ctx.src, &mut h);
            bytes.splice(..header.min(bytes.len()), h);
        } else {
            hostile(&mut ctx.src, &mut bytes);
        }
        ctx.fault("hostile_mutations");
    }
    if ctx.src.chance(1, 12) {
        // a system takes the name of another one, or of none, throughout
        let (a, z) = (*ctx.src.pick(b"GRECJSI"), *ctx.src.pick(b"MXJISREGC W"));
        let body = if ctx.src.chance(3, 4) { 0 } else { header.min(bytes.len()) };
        rename(&mut bytes[body..], a, z);
        ctx.fault("hostile_mutations");
    }
    let swollen = ctx.src.chance(1, 40);
    if swollen {
        swell(&mut ctx.src, &mut bytes);
        ctx.fault("swollen");
    }
    log_text(ctx, "file", &String::from_utf8_lossy(&bytes));
    let bytes = Rc::new(bytes);
    let d = if !swollen && ctx.src.chance(1, 4) { Delivery::draw(&mut ctx.src, bytes.len()) } else { Delivery::plain() };
    let work = crate::allocated();
    let parsed = parse_delivered(ctx, "parse", &bytes, &d)?;
    let work = crate::allocated() - work;
    if std::env::var("RNX_WORK").is_ok() {
        eprintln!("WORK {} {} {} {swollen} {kind}", work / (bytes.len() as u64 + 1), work, bytes.len());
    }
    if work > WORK_BASE + WORK_PER_BYTE * bytes.len() as u64 {
        return fail("work-not-proportional", format!("parsing {} bytes allocated {work} bytes in all", bytes.len()));
    }
    if let Ok(r) = parsed {
        ctx.reach("accepted");
        if !swollen {
            view(ctx, &r)?;
            ctx.lib("accessors", || inspect_all(&r))?;
        }
        let w = SimWriter::new();
        let st = w.st.clone();
        let work = crate::allocated();
        let _ = ctx.lib("format", || {
            let mut bw = BufWriter::new(w);
            r.format(&mut bw)
        })?;
        let work = crate::allocated() - work;
        let size = bytes.len() as u64 + st.borrow().out.len() as u64;
        if std::env::var("RNX_WORK").is_ok() {
            eprintln!("WRITE {} {} {} {swollen} {kind}", work / (size + 1), work, size);
        }
        if work > WORK_BASE + WORK_PER_BYTE * size {
            return fail("work-not-proportional", format!("formatting {size} bytes allocated {work} bytes in all"));
        }
    }
    Ok(())
}

/// the letter at the start of a line, or followed by two digits
fn rename(b: &mut [u8], a: u8, z: u8) {
    for i in 0..b.len() {
        let start = i == 0 || b[i - 1] == b'\n';
        let named = i + 2 < b.len() && b[i + 1..i + 3].iter().all(|c| c.is_ascii_digit() || *c == b' ');
        if b[i] == a && named && (start || b[i - 1].is_ascii_digit() || b[i - 1] == b' ') {
            b[i] = z;
        }
    }
}
const WORK_BASE: u64 = 4 << 20;
const WORK_PER_BYTE: u64 = 3000;

/// a part of the file is repeated until it is large
fn swell(s: &mut Source, b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    let size = *s.pick(&[400_000usize, 100_000, 30_000, 1_200_000]);
    let lines: Vec<(usize, usize)> = {
        let mut v = vec![];
        let mut a = 0;
        for (i, c) in b.iter().enumerate() {
            if *c == b'\n' {
                v.push((a, i + 1));
                a = i + 1;
            }
        }
        if a < b.len() {
            v.push((a, b.len()));
        }
        v
    };
    let i = s.us(lines.len());
    let (a, e) = match s.us(4) {
        // the rest of the file
        0 => (lines[i].0, b.len()),
        // one line
        1 => lines[i],
        // few lines
        2 => (lines[i].0, lines[(i + s.us(12)).min(lines.len() - 1)].1),
        // a piece of a line, without line end
        _ => {
            let (x, y) = lines[i];
            let y = if y > x + 1 { y - 1 } else { y };
            let p = x + s.us(y - x);
            (p, (p + s.range(1, 20) as usize).min(y))
        },
    };
    let piece: Vec<u8> = b[a..e].to_vec();
    let n = size / piece.len().max(1);
    let mut more = Vec::with_capacity(size);
    for _ in 0..n {
        more.extend_from_slice(&piece);
    }
    b.splice(e..e, more);
}

/// every query of the interface, whatever the content
fn inspect_all(r: &Rinex) {
    use rinex::prelude::obs::Combination as K;
    use rinex::prelude::{Duration, TimeScale};
    let _ = r.epoch_iter().take(100).count();
    let (first, last) = (r.first_epoch(), r.last_epoch());
    let _ = r.duration();
    let _ = r.sampling_interval();
    let _ = r.dominant_sampling_interval();
    let _ = r.dominant_sampling_rate_hz();
    let _ = r.sampling_histogram().count();
    let _ = r.steady_sampling();
    let _ = r.timeseries().map(|t| t.take(50).count());
    let _ = r.data_gaps(None).count();
    let _ = r.data_gaps(Some(Duration::from_seconds(30.0))).count();
    let svs: Vec<_> = r.sv_iter().collect();
    let _ = r.constellations_iter().count();
    let _ = r.observables_iter().count();
    let _ = r.is_merged();
    let _ = r.guess_production_attributes();
    if r.is_observation_rinex() {
        let _ = r.carrier_iter().count();
        let _ = r.signal_code_iter().count();
        let _ = r.epoch_anomalies().count();
        let _ = r.clock_observations_iter().count();
        let _ = r.pseudo_range_sampling_ok_iter().count();
        let _ = r.phase_range_tracking_ok_iter().count();
        let _ = r.doppler_observations_iter().count();
        let _ = r.ssi_observations_iter().count();
        let _ = r.phase_cycle_slip_events().count();
        let _ = r.phase_half_full_cycle_slip_events().count();
        let _ = r.observation_phase_tracking_lli_masking(rinex::observation::LliFlags::LOCK_LOSS);
        let _ = r.observation_substract(r);
        for k in [K::GeometryFree, K::IonosphereFree, K::WideLane, K::NarrowLane, K::MelbourneWubbena] {
            let _ = r.signals_combination(k).len();
        }
        let _ = r.signals_multipath().len();
        let _ = r.observation_dual_phase_ionosphere_tec().len();
    }
    if r.is_meteo_rinex() {
        let _ = r.observation_substract(r);
        let _ = (r.wind_speed_iter().count(), r.wind_direction_iter().count(), r.zenith_total_delay_iter().count());
        let _ = (r.total_accumulated_rain(), r.rain_detected(), r.hail_detected());
        let _ = r.meteo_sensors_iter().count();
    }
    let _ = (r.precise_clock().count(), r.precise_sv_clock().count(), r.precise_station_clock().count());
    let _ = (r.ionex_tecu_latlong_ddeg_alt_km_iter().count(), r.ionex_rms_tec_maps_iter().count());
    let _ = (r.tec_map_borders(), r.ionex_2d_fixed_altitude_km(), r.ionex_altitude_range_km());
    let _ = (r.doris_satellite_clock_offset_iter().count(), r.doris_ground_station_signals_iter().count());
    let _ = (r.temperature_iter().count(), r.pressure_iter().count(), r.moisture_rate_iter().count());
    if r.is_doris() {
        let _ = r.observation_substract(r);
    }
    let _ = (r.doris_ground_stations_iter().count(), r.nav_delta_tai_ut1_iter().count());
    let _ = (r.nav_earth_orientation_frames_iter().count(), r.nav_system_time_frames_iter().count(), r.nav_sv_clock_iter().count());
    let _ = (r.nav_klobuchar_models_iter().count(), r.nav_nequickg_models_iter().count(), r.nav_bdgim_models_iter().count());
    let mut instants = vec![];
    for t in [first, last].into_iter().flatten() {
        for s in [0.0, 1.0, 3600.0, 7200.5, -1.0] {
            instants.push(t + Duration::from_seconds(s));
        }
        instants.push(t.to_time_scale(TimeScale::UTC));
    }
    for t in instants.iter() {
        let _ = r.antex_valid_calibrations(*t).count();
        for sv in svs.iter().take(4) {
            let _ = r.sv_antenna_apc_offset(*t, *sv, rinex::prelude::Carrier::L1);
            let _ = r.nav_ephemeris_selection(*sv, *t).is_some();
            let _ = r.sv_orbit(*sv, *t);
        }
    }
    for (k, e) in r.nav_ephemeris_frames_iter().take(20) {
        let _ = (e.tgd(), e.glonass_freq_channel(), e.sv_clock());
        let _ = e.toe(TimeScale::GPST);
        if let Some(ts) = k.sv.constellation.timescale() {
            let _ = e.toe(ts);
        }
        for t in instants.iter().take(4) {
            let _ = e.clock_correction(k.epoch, *t, k.sv, 2);
        }
    }
}

// ------------------------------------------------------------------ C06
pub static C06: PropDef = PropDef {
    id: "C06",
    run: c06,
    quick_runs: 30000,
    max_classes: 8,
    recheck: false,
    rule: "an observation (readable or CRINEX), meteo or DORIS product is written to a faulty device (writer, simulated disk file, gzip file): short and interrupted writes, errors, full disk, refused open, failing flush; non-trivial: a fault fired",
    faults: &["write_error", "write_zero", "flush_error", "short_write", "write_eintr", "disk_short_write", "disk_write_eintr", "disk_write_error", "disk_full", "open_error"],
    real: &["rinex: Rinex::format, to_file, to_gzip_file", "flate2 encoder", "std::fs::File, std::io::BufWriter"],
    stub: &["byte sink (scripted writer, simulated disk below libc)", "entropy for hash keys (seeded)", "wall clock (scripted)"],
    assumptions: &["EINTR and short writes are not failures"],
};

pub fn product(ctx: &mut Ctx, n: usize) -> Result<(Rinex, Doc), Violation> {
    let k = ctx.src.us(8);
    let doc = match k {
        0 => gen::met::draw(&mut ctx.src, n).doc(),
        1 => gen::doris::draw(&mut ctx.src, n).doc(),
        _ => obs::draw(&mut ctx.src, obs::Opt { max_epochs: n, ..Default::default() }).doc(),
    };
    doc.note(ctx);
    let mut r = must_parse(ctx, "setup-rejected", &doc, doc.text().as_bytes())?;
    if k > 1 && ctx.src.chance(1, 4) {
        // stored compressed
        r = ctx.lib("rnx2crnx", || r.rnx2crnx())?;
        ctx.ev("product compressed to CRINEX".to_string());
    }
    Ok((r, doc))
}

fn c06(ctx: &mut Ctx) -> Res {
    let (rnx, doc) = product(ctx, 10)?;
    let reference = format_plain(ctx, &rnx, "plain-write-failed")?;
    log_text(ctx, "product", &String::from_utf8_lossy(&reference));
    let len = reference.len();
    match ctx.src.us(3) {
        0 => {
            let mut w = SimWriter::new();
            let (script, tail, cap) = crate::simio::draw_delivery(&mut ctx.src, len);
            w.script = script
                .into_iter()
                .map(|x| match x {
                    crate::simio::RStep::Eintr => WStep::Eintr,
                    crate::simio::RStep::Chunk(n) => WStep::Chunk(n),
                    _ => WStep::Chunk(1),
                })
                .collect();
            w.tail = tail;
            let k = ctx.src.us(4);
            let mut cap = cap;
            if k != 0 {
                // anywhere, near the end, or right at an end of line; for good
                // or once only (the device works again for the next call)
                let off = match ctx.src.us(4) {
                    0 => len - ctx.src.us(len.min(90)) - 1,
                    1 => {
                        let ends: Vec<usize> = (0..len).filter(|i| reference[*i] == b'\n').collect();
                        let i = *ctx.src.pick(&ends);
                        (i + ctx.src.us(2)).min(len - 1)
                    },
                    _ => ctx.src.us(len),
                };
                let kind = *ctx.src.pick(&KINDS);
                let once = ctx.src.chance(1, 2);
                if once && ctx.src.chance(2, 3) {
                    // unbuffered: every write of the library meets the device
                    cap = 0;
                }
                match k {
                    1 => w.fail_at = Some((off, WStep::Zero, once)),
                    2 => w.fail_at = Some((off, WStep::Fail(kind), once)),
                    _ => {
                        w.flush_fail = Some(kind);
                        w.flush_once = once;
                    },
                }
            }
            let st = w.st.clone();
            let r = ctx.lib("format", || {
                let mut bw = BufWriter::with_capacity(cap, w);
                let r = rnx.format(&mut bw);
                // the device is gone with the writer: nothing more can reach it
                let (_, _) = bw.into_parts();
                r
            })?;
            let st = st.borrow().clone();
            ctx.fault_n("short_write", st.short);
            ctx.fault_n("write_eintr", st.eintr);
            ctx.fault_n("write_error", st.failed);
            ctx.fault_n("write_zero", st.zero);
            ctx.fault_n("flush_error", st.flush_failed);
            ctx.ev(format!("writer: {} of {len} bytes, {} errors, {} zero, {} flush errors, result {}", st.out.len(), st.failed, st.zero, st.flush_failed, r.is_ok()));
            let hard = st.failed + st.zero + st.flush_failed > 0;
            judge_write(doc.kind, "format", hard, r.is_ok(), Some(st.out), &reference)
        },
        g => {
            let gz = g == 2;
            let p = format!("{}out.rnx{}", seam::ROOT, if gz { ".gz" } else { "" });
            if ctx.src.chance(1, 3) {
                // something older and longer is there
                seam::put(&p, vec![b'x'; len * 2 + 100]);
            }
            let mut plan = FilePlan::default();
            for _ in 0..ctx.src.range(0, 20) {
                plan.ops.push(match ctx.src.us(3) {
                    0 => Op::Plain,
                    1 => Op::Err(seam::EINTR),
                    _ => Op::Short(ctx.src.range(1, 9000) as usize),
                });
            }
            match ctx.src.us(5) {
                0 => {},
                1 => plan.open_errno = *ctx.src.pick(&[seam::EACCES, seam::ENOSPC, seam::EISDIR, seam::EMFILE, seam::ENOENT]),
                2 => plan.capacity = Some(ctx.src.us(len + 10)),
                _ => {
                    let at = ctx.src.us(plan.ops.len() + 2);
                    while plan.ops.len() < at {
                        plan.ops.push(Op::Plain);
                    }
                    let e = *ctx.src.pick(&[seam::EIO, seam::ENOSPC]);
                    plan.ops.insert(at, Op::Err(e));
                },
            }
            seam::plan(&p, plan);
            let r = ctx.lib("write", || if gz { rnx.to_gzip_file(&p).is_ok() } else { rnx.to_file(&p).is_ok() })?;
            let hard = note_disk(ctx) > 0;
            ctx.ev(format!("{}: hard fault {hard}, result {r}", if gz { "to_gzip_file" } else { "to_file" }));
            let mut out = seam::get(&p);
            if gz {
                out = out.and_then(|z| {
                    use std::io::Read;
                    let mut v = vec![];
                    flate2::read::MultiGzDecoder::new(&z[..]).read_to_end(&mut v).ok().map(|_| v)
                });
            }
            if seam::open_handles() != 0 {
                return fail("handle-leak", format!("{} handles left open", seam::open_handles()));
            }
            judge_write(doc.kind, if gz { "to_gzip_file" } else { "to_file" }, hard, r, out, &reference)
        },
    }
}

/// a sink that takes what it is given in pieces and is interrupted, but never fails
pub fn soft_sink(ctx: &mut Ctx) -> (SimWriter, std::rc::Rc<std::cell::RefCell<crate::simio::WState>>, usize) {
    let mut w = SimWriter::new();
    let (script, tail, cap) = crate::simio::draw_delivery(&mut ctx.src, 4000);
    w.script = script
        .into_iter()
        .map(|x| match x {
            crate::simio::RStep::Eintr => WStep::Eintr,
            crate::simio::RStep::Chunk(n) => WStep::Chunk(n),
            _ => WStep::Chunk(1),
        })
        .collect();
    w.tail = tail;
    let st = w.st.clone();
    (w, st, cap)
}
pub fn note_sink(ctx: &mut Ctx, st: &std::rc::Rc<std::cell::RefCell<crate::simio::WState>>) {
    let st = st.borrow().clone();
    ctx.fault_n("short_write", st.short);
    ctx.fault_n("write_eintr", st.eintr);
    ctx.ev(format!("sink: {} bytes in {} writes, {} short, {} interrupted", st.out.len(), st.writes, st.short, st.eintr));
}

fn judge_write(kind: &str, how: &str, hard: bool, ok: bool, out: Option<Vec<u8>>, reference: &[u8]) -> Res {
    match (hard, ok) {
        (true, true) => fail("write-failure-swallowed", format!("{kind}: {how} reported success although the device failed")),
        (false, false) => fail("write-failed-without-fault", format!("{kind}: {how} failed although the device did not")),
        (_, true) => match out {
            Some(o) if o == reference => Ok(()),
            Some(o) => {
                let at = o.iter().zip(reference).take_while(|(a, b)| a == b).count();
                fail("write-incomplete", format!("{kind}: {how} reported success: {} of {} bytes, first difference at byte {at}", o.len(), reference.len()))
            },
            None => fail("write-incomplete", format!("{kind}: {how} reported success but the file is not readable")),
        },
        (true, false) => Ok(()),
    }
}
