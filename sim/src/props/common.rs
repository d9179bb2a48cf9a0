use crate::ctx::{fail, Ctx, Res, Violation};
use crate::gen::{self, Doc, Dump};
use crate::simio::{draw_delivery, record_delivery, RStep, SimReader, SimWriter};
use crate::source::Source;
use rinex::prelude::{ParsingError, Rinex};
use std::io::{BufReader, BufWriter};
use std::rc::Rc;

pub const REAL_PARSE: &[&str] = &["rinex: header and record parsing of the format under test", "hifitime, gnss-rs", "std::io::BufReader"];
pub const STUB_IO: &[&str] = &["byte source (scripted reader)", "entropy for hash keys (seeded)", "wall clock (scripted)"];

/// whole text, one piece
pub fn parse_plain(ctx: &mut Ctx, bytes: &[u8]) -> Result<Result<Rinex, ParsingError>, Violation> {
    let r = SimReader::new(Rc::new(bytes.to_vec()));
    ctx.lib("parse", move || Rinex::parse(&mut BufReader::new(r)))
}

/// a well formed document must parse to exactly its content
pub fn expect_content(ctx: &mut Ctx, class: &str, rnx: &Rinex, exp: &Dump) -> Res {
    let got = ctx.lib("inspect", || gen::dump(rnx))?;
    match gen::diff(exp, &got) {
        None => Ok(()),
        Some(d) => fail(class, d),
    }
}

pub fn must_parse(ctx: &mut Ctx, class: &str, doc: &Doc, bytes: &[u8]) -> Result<Rinex, Violation> {
    match parse_plain(ctx, bytes)? {
        Ok(r) => Ok(r),
        Err(e) => fail(class, format!("{}: well formed file rejected: {e}", doc.kind)),
    }
}

pub fn log_text(ctx: &mut Ctx, what: &str, text: &str) {
    ctx.ev_bytes(what, text.as_bytes());
    if ctx.keep_log {
        let lines: Vec<&str> = text.lines().collect();
        let n = lines.len();
        for (i, l) in lines.iter().enumerate() {
            if n > 140 && i >= 70 && i < n - 70 {
                if i == 70 {
                    ctx.log.push(format!("   ... {} lines ...", n - 140));
                }
                continue;
            }
            ctx.log.push(format!("   |{l}"));
        }
    }
}

/// how the bytes of one file reach the library
#[derive(Clone, Debug)]
pub struct Delivery {
    pub script: Vec<RStep>,
    pub tail: usize,
    pub cap: usize,
}
impl Delivery {
    pub fn plain() -> Self {
        Delivery { script: vec![], tail: usize::MAX, cap: 8192 }
    }
    pub fn draw(s: &mut Source, len: usize) -> Self {
        let (script, tail, cap) = draw_delivery(s, len);
        Delivery { script, tail, cap }
    }
    pub fn reader(&self, bytes: &Rc<Vec<u8>>) -> SimReader {
        let mut r = SimReader::new(bytes.clone());
        r.script = self.script.clone();
        r.tail = self.tail;
        r
    }
}

/// parses under a delivery and records which faults it contained
pub fn parse_delivered(ctx: &mut Ctx, what: &str, bytes: &Rc<Vec<u8>>, d: &Delivery) -> Result<Result<Rinex, ParsingError>, Violation> {
    let r = d.reader(bytes);
    let st = r.stats.clone();
    let cap = d.cap;
    let out = ctx.lib(what, move || Rinex::parse(&mut BufReader::with_capacity(cap, r)));
    let st = st.borrow().clone();
    ctx.ev(format!("{what}: buffer {cap}, {} reads, {} short, {} interrupted, {} failed, {} of {} bytes", st.reads, st.short, st.eintr, st.failed, st.delivered, bytes.len()));
    record_delivery(ctx, &st);
    out
}

/// content of a well formed file under a drawn delivery
pub fn decode_check(ctx: &mut Ctx, doc: &Doc, class: &str) -> Result<Rinex, Violation> {
    doc.note(ctx);
    ctx.nontrivial = true;
    let text = doc.text();
    log_text(ctx, "file", &text);
    let bytes = Rc::new(text.into_bytes());
    let d = if ctx.src.chance(1, 2) { Delivery::draw(&mut ctx.src, bytes.len()) } else { Delivery::plain() };
    match parse_delivered(ctx, "parse", &bytes, &d)? {
        Ok(r) => Ok(r),
        Err(e) => fail(&format!("{class}-rejected"), format!("{}: well formed file rejected: {e}", doc.kind)),
    }
}

/// writes with the library to a writer that accepts everything
pub fn format_plain(ctx: &mut Ctx, rnx: &Rinex, class: &str) -> Result<Vec<u8>, Violation> {
    let w = SimWriter::new();
    let st = w.st.clone();
    let r = ctx.lib("format", || {
        let mut bw = BufWriter::new(w);
        rnx.format(&mut bw)
    })?;
    if let Err(e) = r {
        return fail(class, format!("cannot be written: {e}"));
    }
    let out = st.borrow().out.clone();
    Ok(out)
}

/// records of a session: `n` as a rule, now and then a hundred,
/// rarely more than counters of sixteen bits hold (`long`)
pub fn draw_size(s: &mut Source, n: usize, long: usize) -> usize {
    match s.below(4000) {
        3999 => long,
        3960..=3998 => (n * 12).min(long),
        _ => n,
    }
}
