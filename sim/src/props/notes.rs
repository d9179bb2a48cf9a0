//! Comment lines of the body: those who edit, merge and repair logs leave them
//! anywhere, and the reader files them under the record they belong to.
use super::common::*;
use super::faults::gzip;
use super::PropDef;
use crate::ctx::{fail, Ctx, Res};
use crate::gen::{self, crx, hl, obs, Doc};
use rinex::prelude::Epoch;
use std::collections::BTreeMap;
use std::rc::Rc;

pub static C38: PropDef = PropDef {
    id: "C38",
    run: c38,
    quick_runs: 40000,
    max_classes: 10,
    recheck: false,
    rule: "a file of any kind but ANTEX, comment lines left at drawn places (between records, before the first, inside a record, after the last), delivered whole, in pieces or compressed; non-trivial: at least one comment",
    faults: &["body_comment", "comment_in_record", "comment_before_first", "short_read", "read_eintr"],
    real: REAL_PARSE,
    stub: STUB_IO,
    assumptions: &["comments of a CRINEX stand between its records"],
};

const TEXTS: &[&str] = &[
    "gathered by the simulator",
    "",
    "  leading blanks",
    "> 2022 01 01 00 00 00.0000000  0  3",
    " 22  1  1  0  0  0.0000000  0  3G01G02G03",
    "&22  1  1  0  0  0.0000000  0  3G01G02G03",
    "G01 2022 01 01 00 00 00-1.000000000000E-04",
    "     1                                                      ",
    "AS G01  2022 01 01 00 00  0.000000  1    1.000000000000E-09",
    "END OF FILE",
    "END OF HEADER",
    "EPOCH OF CURRENT MAP",
    "START OF TEC MAP",
    "EXPONENT",
    "COMMENT",
    "0123456789012345678901234567890123456789012345678901234567890123456789",
    "*** FILE MERGE ***",
    "3&123456789",
];

/// where the comments stand: (before this line of this block, text)
fn scatter(ctx: &mut Ctx, doc: &mut Doc, inside: bool) -> Vec<usize> {
    let n = doc.blocks.len();
    let mut made = vec![0; n + 1];
    let count = ctx.src.range(1, 6);
    for i in 0..count {
        let text = match ctx.src.us(4) {
            0 => format!("{} {i}", ctx.src.pick(TEXTS)),
            1 => format!("note {i}"),
            _ => ctx.src.pick(TEXTS).to_string(),
        };
        let mut line = hl(&text, "COMMENT");
        if ctx.src.chance(1, 4) {
            // to column 80
            line = format!("{line:<80}");
        }
        // the end of the body has its own block
        let b = ctx.src.us(n + 1);
        let lines = if b == n { &mut doc.trailer } else { &mut doc.blocks[b].lines };
        let k = lines.len() as i64;
        // within the last lines of a map, or after any line of a record
        let at = if b == n || !inside { 0 } else { ctx.src.range(0, (k - 1).max(0)) as usize };
        if at == 0 {
            ctx.fault(if b == 0 { "comment_before_first" } else { "body_comment" });
        } else {
            ctx.fault("comment_in_record");
        }
        lines.insert(at, line);
        made[b] += 1;
    }
    made
}

fn is_comment(l: &str) -> bool {
    l.len() > 60 && l.trim_end().ends_with("COMMENT")
}

fn c38(ctx: &mut Ctx) -> Res {
    let k = *ctx.src.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 9, 10, 10]);
    let size = *ctx.src.pick(&[6usize, 2, 14]);
    let mut doc = if k == 10 {
        let m = obs::draw(&mut ctx.src, obs::Opt { max_epochs: size, trim_v2: true, ..Default::default() });
        let r = *ctx.src.pick(&[crx::Restart::Rare, crx::Restart::Often]);
        crx::doc(&mut ctx.src, &m, r)
    } else if k < 3 && ctx.src.chance(1, 3) {
        // with events, that have records and comments of their own
        obs::draw(&mut ctx.src, obs::Opt { max_epochs: size, major: Some([3, 2, 4][k]), specials: true, ..Default::default() }).doc()
    } else {
        gen::draw_kind(&mut ctx.src, k, size)
    };
    doc.note(ctx);
    let exp = doc.recovered(&doc.blocks);
    scatter(ctx, &mut doc, k != 10);
    ctx.nontrivial = true;
    // comments go with the record they interrupt or follow,
    // those before the first go with the first
    let mut want: BTreeMap<Epoch, Vec<String>> = BTreeMap::new();
    let mut pending = vec![];
    let mut at: Option<Epoch> = None;
    let ends: Vec<&Vec<String>> = doc.blocks.iter().map(|b| &b.lines).chain([&doc.trailer]).collect();
    for (i, lines) in ends.iter().enumerate() {
        let here = doc.blocks.get(i).and_then(|b| b.items.first()).map(|x| match super::history::instant(&x.0) {
            Some(e) => e.1,
            None => panic!("no instant: {}", x.0),
        });
        let mut inside = false;
        for l in lines.iter() {
            if is_comment(l) {
                let t = l[..60].trim_end().to_string();
                match at {
                    // those that interrupt this record are its own
                    Some(t0) if !inside => want.entry(t0).or_default().push(t),
                    _ => pending.push(t),
                }
            } else if here.is_some() {
                inside = true;
                at = here;
            }
            if let Some(t0) = at {
                if !pending.is_empty() {
                    want.entry(t0).or_default().append(&mut pending);
                }
            }
        }
    }
    if !pending.is_empty() {
        // nothing was ever recorded
        want.entry(Epoch::default()).or_default().append(&mut pending);
    }
    let text = doc.text();
    log_text(ctx, "file", &text);
    let gz = ctx.src.chance(1, 6);
    let (what, bytes) = if gz { ("parse, gzip", gzip(text.as_bytes(), 6)) } else { ("parse", text.into_bytes()) };
    let bytes = Rc::new(bytes);
    let d = if ctx.src.chance(1, 2) { Delivery::draw(&mut ctx.src, bytes.len()) } else { Delivery::plain() };
    let r = if gz {
        let rd = d.reader(&bytes);
        ctx.lib(what, move || rinex::prelude::Rinex::parse(&mut std::io::BufReader::with_capacity(d.cap, flate2::read::MultiGzDecoder::new(rd))))?
    } else {
        parse_delivered(ctx, what, &bytes, &d)?
    };
    let r = match r {
        Ok(r) => r,
        Err(e) => return fail("commented-rejected", format!("{}: file with comments rejected: {e}", doc.kind)),
    };
    expect_content(ctx, "comments-change-the-record", &r, &exp)?;
    let got = r.comments.clone();
    if got != want {
        let n = |m: &BTreeMap<Epoch, Vec<String>>| m.values().map(|v| v.len()).sum::<usize>();
        let class = if n(&got) != n(&want) { "comment-lost" } else { "comment-elsewhere" };
        return fail(class, format!("{}: {got:?} for {want:?}", doc.kind));
    }
    Ok(())
}
