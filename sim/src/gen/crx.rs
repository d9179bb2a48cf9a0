//! Compact RINEX after Hatanaka (2008): an encoder and a decoder of our own.
//! The encoder makes the choices the format leaves open (order of each arc,
//! arcs and epoch lines restarted at will, trailing blanks kept or dropped).
use super::obs::{clk2, clk3, ftext_obs, opt, Ep, Model};
use super::*;
use std::collections::HashMap;

/// one arc: running differences of increasing order
#[derive(Clone, Debug)]
struct Arc {
    order: usize,
    d: Vec<i64>,
}
impl Arc {
    fn start(order: usize, v: i64) -> Self {
        Arc { order, d: vec![v] }
    }
    fn push(&mut self, v: i64) -> i64 {
        let n = self.d.len().min(self.order);
        let mut new = vec![v];
        for j in 0..n {
            new.push(new[j] - self.d[j]);
        }
        let out = *new.last().unwrap();
        self.d = new;
        out
    }
    fn pull(&mut self, x: i64) -> i64 {
        let n = self.d.len().min(self.order);
        let mut new = vec![0; n + 1];
        new[n] = x;
        for j in (0..n).rev() {
            new[j] = new[j + 1].wrapping_add(self.d[j]);
        }
        self.d = new;
        self.d[0]
    }
}

/// characters that changed; '&' where one became blank
pub fn text_diff(old: &str, new: &str) -> String {
    let (o, n): (Vec<u8>, Vec<u8>) = (old.bytes().collect(), new.bytes().collect());
    let mut out = String::new();
    for i in 0..o.len().max(n.len()) {
        let a = o.get(i).copied().unwrap_or(b' ');
        let b = n.get(i).copied().unwrap_or(b' ');
        out.push(if a == b {
            ' '
        } else if b == b' ' {
            '&'
        } else {
            b as char
        });
    }
    out.trim_end().to_string()
}
fn text_patch(old: &str, diff: &str) -> String {
    let (o, n): (Vec<u8>, Vec<u8>) = (old.bytes().collect(), diff.bytes().collect());
    let mut out = String::new();
    for i in 0..o.len().max(n.len()) {
        let a = o.get(i).copied().unwrap_or(b' ');
        out.push(match n.get(i).copied().unwrap_or(b' ') {
            b' ' => a as char,
            b'&' => ' ',
            c => c as char,
        });
    }
    out
}

#[derive(Clone, Copy, PartialEq)]
pub enum Restart {
    /// only where the format requires it
    Rare,
    /// now and then
    Often,
    /// every epoch stands for itself
    Always,
}

pub struct Crx {
    pub header: Vec<String>,
    /// compressed lines of each epoch
    pub lines: Vec<Vec<String>>,
    /// the epoch starts with an initialization line
    pub init: Vec<bool>,
    pub max_order: usize,
    pub arcs: u64,
    pub resumed: u64,
}

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

/// the two lines that describe the compression
#[derive(Clone, Debug, PartialEq)]
pub struct Heading {
    pub v3: bool,
    pub prog: String,
    /// year, month, day, hour, minute
    pub date: (i32, u8, u8, u8, u8),
}
impl Heading {
    pub fn draw(s: &mut Source, v3: bool) -> Self {
        let prog = s.pick(&["RNX2CRX ver.4.0.7", "RNX2CRX ver.4.1.0", "TEQC 2019Feb25", "x", "GNSS Tool v10 (beta)"]).to_string();
        let date = (s.range(2000, 2099) as i32, s.range(1, 12) as u8, s.range(1, 28) as u8, s.range(0, 23) as u8, s.range(0, 59) as u8);
        Heading { v3, prog, date }
    }
    pub fn lines(&self) -> Vec<String> {
        let (y, mo, d, h, mi) = self.date;
        vec![
            hl(&format!("{:<20}{:<20}", if self.v3 { "3.0" } else { "1.0" }, "COMPACT RINEX FORMAT"), "CRINEX VERS   / TYPE"),
            hl(&format!("{:<40}{:<20}", self.prog, format!("{d:02}-{}-{:02} {h:02}:{mi:02}", MONTHS[mo as usize - 1], y % 100)), "CRINEX PROG / DATE"),
        ]
    }
    /// what such a pair of lines says
    pub fn read(l: &[String]) -> Option<Self> {
        let at = |i: usize, a: usize, b: usize| l.get(i)?.get(a..b).map(|t| t.trim().to_string());
        let v = at(0, 0, 20)?;
        let d = at(1, 40, 60)?;
        let mo = MONTHS.iter().position(|m| Some(*m) == d.get(3..6))? as u8 + 1;
        let n = |a: usize, b: usize| d.get(a..b)?.parse::<u8>().ok();
        let good = v == "3.0" || v == "1.0";
        if !good || l[0].get(60..)?.trim() != "CRINEX VERS   / TYPE" || l[1].get(60..)?.trim() != "CRINEX PROG / DATE" {
            return None;
        }
        Some(Heading { v3: v == "3.0", prog: at(1, 0, 40)?, date: (2000 + n(7, 9)? as i32, mo, n(0, 2)?, n(10, 12)?, n(13, 15)?) })
    }
    /// as the library describes it
    pub fn of(r: &rinex::Rinex) -> Option<Self> {
        let c = r.header.obs.as_ref()?.crinex.as_ref()?;
        let (y, mo, d, h, mi, ..) = c.date.to_gregorian_utc();
        let v3 = match (c.version.major, c.version.minor) {
            (3, 0) => true,
            (1, 0) => false,
            _ => return None,
        };
        Some(Heading { v3, prog: c.prog.clone(), date: (y, mo, d, h, mi) })
    }
}

pub fn encode(s: &mut Source, m: &Model, restart: Restart) -> Crx {
    let v3 = m.major > 2;
    let mut header = Heading::draw(s, v3).lines();
    header.extend(m.header());
    let mut out = Crx { header, lines: vec![], init: vec![], max_order: 0, arcs: 0, resumed: 0 };
    let usual = *s.pick(&[3usize, 3, 1, 2, 4, 5]);
    let vary = s.chance(1, 3);
    let trim = s.chance(1, 2);
    let mut prev: Option<String> = None;
    let mut clk: Option<Arc> = None;
    let mut arcs: HashMap<(String, usize), Arc> = HashMap::new();
    let mut flags: HashMap<String, String> = HashMap::new();
    let mut previous: Vec<String> = vec![];
    for ep in &m.eps {
        let d = descriptor(m, ep);
        let init = match restart {
            _ if prev.is_none() || ep.is_special() => true,
            Restart::Always => true,
            Restart::Often => s.chance(1, 4) || ep.flag != 0,
            Restart::Rare => s.chance(1, 40),
        };
        let mut l = vec![];
        if init {
            l.push(format!("{}{d}", if v3 { '>' } else { '&' }));
            clk = None;
            arcs.clear();
            flags.clear();
            previous.clear();
        } else {
            l.push(format!(" {}", text_diff(prev.as_ref().unwrap(), &d)).trim_end().to_string());
            if l[0].is_empty() {
                l[0].push(' ');
            }
        }
        if ep.is_special() {
            l.extend(ep.special.iter().cloned());
            prev = None;
            out.lines.push(l);
            out.init.push(true);
            continue;
        }
        prev = Some(d);
        let mut field = |s: &mut Source, arc: &mut Option<Arc>, v: i64, out: &mut Crx| -> String {
            if arc.is_none() || (restart != Restart::Rare && s.chance(1, 20)) {
                let o = if vary { s.range(1, 5) as usize } else { usual };
                out.max_order = out.max_order.max(o);
                out.arcs += 1;
                *arc = Some(Arc::start(o, v));
                format!("{o}&{v}")
            } else {
                out.resumed += 1;
                arc.as_mut().unwrap().push(v).to_string()
            }
        };
        match ep.clock {
            None => {
                clk = None;
                l.push(String::new());
            },
            Some(c) => {
                let t = field(s, &mut clk, c, &mut out);
                l.push(t);
            },
        }
        // satellites that were away have no history
        let now: Vec<String> = ep.sats.iter().map(|x| x.0.s()).collect();
        arcs.retain(|k, _| now.contains(&k.0));
        flags.retain(|k, _| now.contains(k));
        previous = now;
        for (sat, vals) in &ep.sats {
            let id = sat.s();
            let mut t = String::new();
            let mut f = String::new();
            for (i, v) in vals.iter().enumerate() {
                let mut arc = arcs.remove(&(id.clone(), i));
                match v {
                    None => f.push_str("  "),
                    Some(v) => {
                        t.push_str(&field(s, &mut arc, v.milli, &mut out));
                        f.push_str(&format!("{}{}", v.lli.map(|x| x.to_string()).unwrap_or(" ".into()), v.snr.map(|x| x.to_string()).unwrap_or(" ".into())));
                        arcs.insert((id.clone(), i), arc.unwrap());
                    },
                }
                t.push(' ');
            }
            let old = flags.get(&id).cloned().unwrap_or_default();
            t.push_str(&text_diff(&old, &f));
            flags.insert(id, f);
            if trim {
                t = t.trim_end().to_string();
            }
            l.push(t);
        }
        out.lines.push(l);
        out.init.push(init);
    }
    out
}

/// the epoch line on one line, its first character and clock left out
pub fn descriptor(m: &Model, ep: &Ep) -> String {
    let mut first = m.first_line(ep);
    first.remove(0);
    if m.major > 2 && !ep.is_special() {
        first = format!("{first:<40}");
    }
    if !ep.is_special() {
        for (sat, _) in &ep.sats {
            if m.major == 2 && m.blank_sys {
                first.push_str(&format!(" {:2}", sat.prn));
            } else {
                first.push_str(&sat.s());
            }
        }
    }
    first.trim_end().to_string()
}

/// what any decoder recovers of the lines after END OF HEADER
pub fn decode(m: &Model, body: &[String]) -> Result<Dump, String> {
    let v3 = m.major > 2;
    let mut out = Dump::new();
    let mut prev = String::new();
    let mut clk: Option<Arc> = None;
    let mut arcs: HashMap<(String, usize), Arc> = HashMap::new();
    let mut flags: HashMap<String, String> = HashMap::new();
    let mut i = 0;
    let ts = obs::ts_of(m.ts);
    fn field(arc: &mut Option<Arc>, t: &str) -> Result<i64, String> {
        let n = |t: &str| t.parse::<i64>().map_err(|_| format!("not a number: {t:?}"));
        match t.split_once('&') {
            Some((o, v)) => {
                let o: usize = o.parse().map_err(|_| format!("not an order: {t:?}"))?;
                if !(1..=9).contains(&o) {
                    return Err(format!("order {o}"));
                }
                let v = n(v)?;
                *arc = Some(Arc::start(o, v));
                Ok(v)
            },
            None => {
                let x = n(t)?;
                arc.as_mut().map(|a| a.pull(x)).ok_or(format!("{t:?} continues nothing"))
            },
        }
    }
    while i < body.len() {
        let l = &body[i];
        i += 1;
        if l.len() > 60 && l.ends_with("COMMENT") {
            continue;
        }
        let d = if let Some(r) = l.strip_prefix(if v3 { '>' } else { '&' }) {
            clk = None;
            arcs.clear();
            flags.clear();
            r.to_string()
        } else if prev.is_empty() {
            return Err(format!("line {i}: no initialization: {l:?}"));
        } else {
            text_patch(&prev, l.get(1..).unwrap_or(""))
        };
        prev = d.clone();
        let off = if v3 { 1 } else { 0 };
        let num = |a: usize, b: usize| -> Result<i64, String> { d.get(a..b).unwrap_or("").trim().parse::<i64>().map_err(|_| format!("line {i}: columns {a}..{b} of {d:?}")) };
        let (y, b) = if v3 { (num(off, off + 4)?, off + 4) } else { (num(0, 2)?, 2) };
        let y = if v3 {
            y
        } else if y < 80 {
            2000 + y
        } else {
            1900 + y
        };
        let sec = d.get(b + 12..b + 23).unwrap_or("").trim().to_string();
        let (si, sf) = sec.split_once('.').ok_or(format!("line {i}: seconds {sec:?} of {d:?}"))?;
        let c = Civil {
            y: y as i32,
            m: num(b + 1, b + 3)? as u8,
            d: num(b + 4, b + 6)? as u8,
            hh: num(b + 7, b + 9)? as u8,
            mm: num(b + 10, b + 12)? as u8,
            ss: si.trim().parse().map_err(|_| format!("line {i}: seconds {sec:?}"))?,
            ns: format!("{sf:0<9}")[..9].parse().map_err(|_| format!("line {i}: seconds {sec:?}"))?,
        };
        let flag = num(b + 23, b + 26)? as u8;
        let n = num(b + 26, b + 29)? as usize;
        let p = format!("{} {}", c.key(ts), obs::flag_name(flag));
        if (2..=5).contains(&flag) {
            i += n;
            prev.clear();
            continue;
        }
        let at = if v3 { 40 } else { b + 29 };
        let mut sats = vec![];
        for k in 0..n {
            let t = d.get(at + 3 * k..(at + 3 * k + 3).min(d.len())).unwrap_or("");
            let t = if m.blank_sys && t.starts_with(' ') { format!("{}{:>02}", m.sys, t.trim()) } else { t.replace(' ', "0") };
            if t.len() != 3 {
                return Err(format!("line {i}: satellite {k} of {n} in {d:?}"));
            }
            sats.push(t);
        }
        let cl = body.get(i).ok_or(format!("line {i}: no clock line"))?;
        i += 1;
        if cl.trim().is_empty() {
            clk = None;
            put(&mut out, p.clone(), "clock -".into());
        } else {
            let v = field(&mut clk, cl.trim()).map_err(|e| format!("line {i}: {e}"))?;
            put(&mut out, p.clone(), format!("clock {}", ftext(&if v3 { clk3(v) } else { clk2(v) })));
        }
        arcs.retain(|k, _| sats.contains(&k.0));
        flags.retain(|k, _| sats.contains(k));
        for id in sats {
            let l = body.get(i).ok_or(format!("line {i}: no line for {id}"))?;
            i += 1;
            let codes = &m.codes.iter().find(|c| id.starts_with(c.0)).ok_or(format!("line {i}: no signals for {id}"))?.1;
            let mut rest: &str = l;
            let mut vals = vec![];
            for k in 0..codes.len() {
                let (t, r) = rest.split_once(' ').unwrap_or((rest, ""));
                rest = r;
                let mut arc = arcs.remove(&(id.clone(), k));
                if t.is_empty() {
                    vals.push(None);
                } else {
                    vals.push(Some(field(&mut arc, t).map_err(|e| format!("line {i} {id} {}: {e}", codes[k]))?));
                    arcs.insert((id.clone(), k), arc.unwrap());
                }
            }
            let f = text_patch(flags.get(&id).map(|x| x.as_str()).unwrap_or(""), rest.trim_end());
            for (k, v) in vals.iter().enumerate() {
                if let Some(v) = v {
                    let digit = |a: usize| f.as_bytes().get(a).filter(|c| **c != b' ').map(|c| c.wrapping_sub(b'0'));
                    put(&mut out, format!("{p} {id} {}", codes[k]), ftext_obs(*v, opt(digit(2 * k)), opt(digit(2 * k + 1))));
                }
            }
            flags.insert(id, f);
        }
    }
    finish(&mut out);
    Ok(out)
}

/// a compressed file whose epochs are blocks
pub fn doc(s: &mut Source, m: &Model, restart: Restart) -> Doc {
    let c = encode(s, m, restart);
    let mut d = Doc { kind: if m.major == 2 { "CRX1" } else { "CRX3" }, header: c.header.clone(), eol: "\n", final_eol: true, ..Default::default() };
    for (ep, l) in m.eps.iter().zip(&c.lines) {
        d.blocks.push(Block { lines: l.clone(), items: m.items(ep), comment: false });
    }
    d.span_s = (m.eps.last().unwrap().t_ns - m.eps[0].t_ns) as f64 / 1e9;
    d.features = m.features();
    d.features.push(format!("order {}", c.max_order));
    match restart {
        Restart::Rare => d.features.push("long_arcs".into()),
        Restart::Often => d.features.push("restarts".into()),
        Restart::Always => d.features.push("self_contained".into()),
    }
    d
}
