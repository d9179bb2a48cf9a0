From 21a76196efd389e3324cc3933e39795818d8d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 01/78] fix: decode observation epochs by column: clock offset,
 LLI flags, blank systems, trimmed lines

---
 src/lib.rs                 |  21 ++
 src/observation/parsing.rs | 472 ++++++++++++-------------------------
 2 files changed, 169 insertions(+), 324 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 309b966..e283d8a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -234,6 +234,27 @@ pub(crate) fn is_rinex_comment(content: &str) -> bool {
     content.len() > 60 && content.trim_end().ends_with("COMMENT")
 }
 
+/*
+ * Splits given line at this column: unlike [str::split_at],
+ * tolerates lines that are shorter (or not made of ASCII characters).
+ */
+pub(crate) fn split_columns(line: &str, column: usize) -> (&str, &str) {
+    let mut column = column.min(line.len());
+    while !line.is_char_boundary(column) {
+        column -= 1;
+    }
+    line.split_at(column)
+}
+
+/*
+ * Content of columns [start, end) of given line,
+ * which is shorter (possibly empty) when the line is.
+ */
+pub(crate) fn columns(line: &str, start: usize, end: usize) -> &str {
+    let (head, _) = split_columns(line, end);
+    split_columns(head, start).1
+}
+
 /*
  * macro to format one header line or a comment
  */
diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index c81df9b..448a3c2 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -1,10 +1,12 @@
 //! Observation RINEX parsing
 use crate::{
+    columns,
     epoch::{parse_in_timescale as parse_epoch_in_timescale, parse_utc as parse_utc_epoch},
     observation::{
         ClockObservation, EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR,
     },
     prelude::{Constellation, Header, Observable, ParsingError, TimeScale, Version, SV},
+    split_columns,
 };
 
 use std::{
@@ -93,54 +95,35 @@ pub fn parse_epoch(
         line = line.split_at(1).1;
     }
 
-    let (date, rem) = line.split_at(offset);
+    let (date, rem) = split_columns(line, offset);
     let epoch = parse_epoch_in_timescale(date, ts)?;
 
-    let (flag, rem) = rem.split_at(3);
+    let (flag, rem) = split_columns(rem, 3);
     let flag = EpochFlag::from_str(flag.trim())?;
 
     let key = ObsKey { epoch, flag };
 
-    let (num_sat, rem) = rem.split_at(3);
+    let (num_sat, rem) = split_columns(rem, 3);
     let num_sat = num_sat
         .trim()
         .parse::<u16>()
         .map_err(|_| ParsingError::NumSatParsing)?;
 
     // grab possible clock offset
-    let offs: Option<&str> = match header.version.major < 2 {
-        true => {
-            // RINEX 2
-            // clock offsets are last 12 characters
-            if line.len() > 60 - 12 {
-                Some(line.split_at(60 - 12).1.trim())
-            } else {
-                None
-            }
-        },
-        false => {
-            // RINEX 3
-            let min_len: usize = 4+1 // y
-                +2+1 // m
-                +2+1 // d
-                +2+1 // h
-                +2+1 // m
-                +11+1// s
-                +3   // flag
-                +3; // n_sat
-            if line.len() > min_len {
-                // RINEX3: clock offset precision was increased
-                Some(line.split_at(min_len).1.trim()) // this handles it naturally
-            } else {
-                None
-            }
-        },
+    let offs = match header.version.major < 3 {
+        // RINEX 2: after the (up to 12) satellites of the first line (F12.9)
+        true => columns(line, 68, 80),
+        // RINEX 3: clock offset precision was increased, last item of this line
+        false => rem,
     };
 
-    if let Some(offset) = offs {
-        if let Ok(offset_s) = offset.parse::<f64>() {
-            observations
-                .with_clock_observation(ClockObservation::default().with_offset_s(epoch, offset_s));
+    // never inherited from a previous epoch
+    observations.clock = None;
+
+    if let Ok(offset_s) = offs.trim().parse::<f64>() {
+        // a null offset means it was not estimated
+        if offset_s != 0.0 {
+            observations.clock = Some(ClockObservation::default().with_offset_s(epoch, offset_s));
         }
     }
 
@@ -170,41 +153,37 @@ fn parse_observations(
     let obs = header.obs.as_ref().unwrap();
     let observables = &obs.codes;
 
-    // V1 / V2 tedious case
-    let rem = rem.trim();
-    let remainder_len = rem.len();
-
     if header.version.major < 3 {
-        // Sets the satellite systems description, which consits in
-        //  - end of current line
-        //  - possible following lines
-
-        // starts with first line content
-        let end = (12 * 3).min(remainder_len);
-        let mut systems_str = rem[..end].to_string();
-        let mut systems_str_len = systems_str.len();
-
-        // grab following lines (if we need to)
-        while systems_str_len / 3 < num_sat.into() {
-            if let Some(line) = lines.next() {
-                let trimmed = line.trim();
-                systems_str_len += trimmed.len();
-                systems_str.push_str(trimmed);
-            } else {
-                return Err(ParsingError::BadV2SatellitesDescription);
+        // V1 / V2 tedious case
+        // Satellites are described by the end of current line
+        // and possible following lines (12 per line)
+        const NUM_SV_PER_LINE: usize = 12;
+        const SVNN_SIZE: usize = 3;
+        const PADDING: usize = 32;
+
+        let num_sat = num_sat as usize;
+        let mut systems = Vec::<&str>::with_capacity(num_sat);
+        let mut systems_str = rem;
+
+        while systems.len() < num_sat {
+            if !systems.is_empty() {
+                let line = lines
+                    .next()
+                    .ok_or(ParsingError::BadV2SatellitesDescription)?;
+
+                systems_str = if columns(line, 0, PADDING).trim().is_empty() {
+                    split_columns(line, PADDING).1
+                } else {
+                    // tolerates non standard padding
+                    line.trim_start()
+                };
+            }
+            for i in 0..NUM_SV_PER_LINE.min(num_sat - systems.len()) {
+                systems.push(columns(systems_str, i * SVNN_SIZE, (i + 1) * SVNN_SIZE));
             }
         }
 
-        let systems_str_len = systems_str.len();
-
-        parse_signals_v2(
-            &systems_str,
-            systems_str_len,
-            constellation,
-            observables,
-            lines,
-            signals,
-        );
+        parse_signals_v2(&systems, constellation, observables, lines, signals);
     } else {
         parse_signals_v3(observables, lines, signals);
     }
@@ -212,235 +191,146 @@ fn parse_observations(
     Ok(())
 }
 
+/// Identifies [SV] from its V2 description, which may omit the constellation
+/// in old mono GNSS RINEX.
+fn parse_sv_v2(system: &str, head_constellation: Option<Constellation>) -> Option<SV> {
+    if let Ok(prn) = system.trim().parse::<u8>() {
+        match head_constellation {
+            Some(Constellation::Mixed) | None => None,
+            Some(constellation) => Some(SV { prn, constellation }),
+        }
+    } else {
+        parse_sv(system)
+    }
+}
+
+/// Identifies [SV], [None] if this is not a valid description.
+fn parse_sv(system: &str) -> Option<SV> {
+    if system.trim().is_empty() || !system.is_ascii() {
+        None
+    } else {
+        SV::from_str(system.trim()).ok()
+    }
+}
+
+/// Locates the [Observable]s specifications that apply to this [SV].
+fn sv_observables<'a>(
+    sv: &SV,
+    head_observables: &'a HashMap<Constellation, Vec<Observable>>,
+) -> Option<&'a Vec<Observable>> {
+    if sv.constellation.is_sbas() {
+        head_observables.get(&Constellation::SBAS)
+    } else {
+        head_observables.get(&sv.constellation)
+    }
+}
+
+/// Parses one [SignalObservation]: F14.3 value, followed by LLI and SNR flags.
+fn parse_signal(sv: SV, observable: &Observable, content: &str) -> Option<SignalObservation> {
+    const OBSERVABLE_F14_WIDTH: usize = 14;
+
+    let (value, flags) = split_columns(content, OBSERVABLE_F14_WIDTH);
+    let value = value.trim().parse::<f64>().ok()?;
+
+    let lli = columns(flags, 0, 1)
+        .parse::<u8>()
+        .ok()
+        .and_then(LliFlags::from_bits);
+
+    let snr = SNR::from_str(columns(flags, 1, 2)).ok();
+
+    Some(SignalObservation {
+        sv,
+        snr,
+        lli,
+        value,
+        observable: observable.clone(),
+    })
+}
+
 /// Parses all [SignalObservation]s as described by following V2 content.
 /// Old format is tedious:
 ///   - vehicle description is contained in first line
 ///   - wrapped in as many lines as needed
 /// Inputs
-///   - system_str: first line description
+///   - systems: vehicles description, in order of appearance
 ///   - constellation: [Constellation] specs defined in [Header]
 ///   - observables: reference to [Observable]s specs defined in [Header]
 ///   - lines: remaing [Lines] Iterator
 fn parse_signals_v2(
-    systems_str: &str,
-    systems_str_len: usize,
+    systems: &[&str],
     head_constellation: Option<Constellation>,
     head_observables: &HashMap<Constellation, Vec<Observable>>,
     lines: Lines<'_>,
     signals: &mut Vec<SignalObservation>,
 ) {
-    const SVNN_SIZE: usize = 3; // SVNN standard
     const MAX_OBSERVABLES_LINE: usize = 5; // max in a single line
-    const OBSERVABLE_F14_WIDTH: usize = 14;
-    const OBSERVABLE_WIDTH: usize = OBSERVABLE_F14_WIDTH + 2; // data +lli +snr +1separator
-
-    // basic check that avoid entering the loop for nothing
-    if systems_str_len < SVNN_SIZE {
-        // does not look good (=rubbish first line)
-        //#[cfg(feature = "log")]
-        //error!("parse_sig_v2(aborted): empty content");
-        return;
-    }
+    const OBSERVABLE_WIDTH: usize = 16; // F14 +2 flags
 
-    // sv pointer
-    let mut sv = SV::default();
-    let mut sv_ptr = 0;
-    let mut sv_identified = false;
-    // let numsat = systems_str_len / SVNN_SIZE;
+    let mut systems = systems.iter();
 
-    // observable pointer
+    // current vehicle, its specs and position in these specs
+    let mut current = Option::<(SV, &Vec<Observable>)>::None;
     let mut obs_ptr = 0;
-    let mut obs_identified = false;
-    let mut observables = &Vec::<Observable>::default();
 
     // browse all lines
     for line in lines {
-        // [SV] identification
+        // [SV] and [Observable]s identification
         //  1. on first line (not defined yet!)
         //  2. every time one SV is concluded
-        if !sv_identified {
-            // identify new SV
-            let sv_end = (sv_ptr + SVNN_SIZE).min(systems_str_len);
-            let system = &systems_str[sv_ptr..sv_end].trim();
-
-            // actual parsing
-            if let Ok(found) = SV::from_str(system) {
-                sv = found;
-            } else {
-                // This may fail on very old RINEX mono GNSS
-                // that omit the constellation in the description
-                match head_constellation {
-                    Some(Constellation::Mixed) | None => {
-                        //#[cfg(feature = "log")]
-                        //error!("parse_sig_v2(abort): no constell specs");
-                        break;
-                    },
-                    Some(gnss) => {
-                        if let Ok(prn) = system.trim().parse::<u8>() {
-                            sv = SV {
-                                prn,
-                                constellation: gnss,
-                            };
-                        } else {
-                            //#[cfg(feature = "log")]
-                            //error!("parse_sig_v2(abort): invalid sv");
-                            break;
-                        }
+        let (sv, observables) = match current {
+            Some(current) => current,
+            None => {
+                let identified = systems
+                    .next()
+                    .and_then(|system| parse_sv_v2(system, head_constellation))
+                    .and_then(|sv| Some((sv, sv_observables(&sv, head_observables)?)));
+
+                match identified {
+                    Some(identified) => {
+                        obs_ptr = 0;
+                        current = Some(identified);
+                        identified
                     },
+                    None => return,
                 }
-            }
-
-            // move on to next
-            sv_ptr += SVNN_SIZE;
-            sv_identified = true;
-            obs_identified = false;
-        }
-
-        // [Observable] identification
-        //  - locate [Observable]s specs for this [SV]
-        if !obs_identified {
-            observables = if sv.constellation.is_sbas() {
-                if let Some(observables) = head_observables.get(&Constellation::SBAS) {
-                    observables
-                } else {
-                    //#[cfg(feature = "log")]
-                    //error!("parse_sig_v2 (sbas): no specs");
-                    break;
-                }
-            } else {
-                if let Some(observables) = head_observables.get(&sv.constellation) {
-                    observables
-                } else {
-                    //#[cfg(feature = "log")]
-                    //error!("parse_sig_v2 ({}): no specs", sv.constellation);
-                    break;
-                }
-            };
-
-            obs_ptr = 0;
-            obs_identified = true;
-
-            //#[cfg(feature = "log")]
-            //debug!("{}: {:?}", sv, observables);
-        }
-
-        let line_width = line.len();
-        let trimmed_len = line.trim().len();
-
-        if trimmed_len == 0 {
-            //#[cfg(feature = "log")]
-            //error!("empty line: \"{}\"", line);
+            },
+        };
 
+        if line.trim().is_empty() {
             obs_ptr += MAX_OBSERVABLES_LINE;
 
             // this concludes this vehicle
             if obs_ptr >= observables.len() {
-                sv_identified = false;
-                obs_identified = false;
-                if sv_ptr == systems_str_len {
-                    // we're done
-                    return;
-                }
+                current = None;
             }
 
             continue;
         }
 
         // num obs contained this line
-        let num_obs = div_ceil(line_width, OBSERVABLE_WIDTH);
-
-        let mut offset = 0;
-
-        //#[cfg(feature = "log")]
-        //debug!(
-        //    "line: \"{}\" [sv={}/{} obs={}/{}]",
-        //    line,
-        //    sv_ptr,
-        //    systems_str_len,
-        //    obs_ptr,
-        //    observables.len()
-        //);
+        let num_obs = div_ceil(line.len(), OBSERVABLE_WIDTH).min(MAX_OBSERVABLES_LINE);
 
         // process all of them
-        for _ in 0..num_obs {
+        for i in 0..num_obs {
             if obs_ptr >= observables.len() {
-                // line is abnormally long (trailing whitespaces): abort
+                // line is abnormally long: abort
                 return;
             }
 
-            let end = (offset + OBSERVABLE_WIDTH).min(line_width);
-            let slice = &line[offset..end];
-
-            //#[cfg(feature = "log")]
-            //println!("observation: [{}] \"{}\" {}", sv, slice, observables[obs_ptr]);
-
-            // parse possible LLI
-            let mut lli = Option::<LliFlags>::None;
-
-            if slice.len() > OBSERVABLE_F14_WIDTH {
-                let lli_slice = &slice[OBSERVABLE_F14_WIDTH..OBSERVABLE_F14_WIDTH + 1];
-                //println!("lli: \"{}\"", lli_slice);
-                match lli_slice.parse::<u8>() {
-                    Ok(unsigned) => {
-                        lli = LliFlags::from_bits(unsigned);
-                    },
-                    #[cfg(feature = "log")]
-                    Err(e) => {
-                        //error!("parse_sig(v2) - lli: {}", e);
-                    },
-                    #[cfg(not(feature = "log"))]
-                    Err(_) => {},
-                }
-            }
-
-            // parse possible SNR
-            let mut snr = Option::<SNR>::None;
+            let content = columns(line, i * OBSERVABLE_WIDTH, (i + 1) * OBSERVABLE_WIDTH);
 
-            if slice.len() > OBSERVABLE_F14_WIDTH + 1 {
-                let snr_slice = &slice[OBSERVABLE_F14_WIDTH + 1..OBSERVABLE_F14_WIDTH + 2];
-                match SNR::from_str(snr_slice) {
-                    Ok(found) => {
-                        //println!("SNR (OK): \"{}\" [{:?}]", snr_slice, observables[obs_ptr]); // DEBUG
-                        snr = Some(found);
-                    },
-                    Err(_) => {
-                        // println!("SNR (ERR): {:?} [{:?}]", e, observables[obs_ptr]); // DEBUG
-                    },
-                }
-            }
-
-            // parse observed value
-            let end = slice.len().min(OBSERVABLE_F14_WIDTH);
-
-            if let Ok(value) = slice[..end].trim().parse::<f64>() {
-                signals.push(SignalObservation {
-                    sv,
-                    snr,
-                    lli,
-                    value,
-                    observable: observables[obs_ptr].clone(),
-                });
+            if let Some(signal) = parse_signal(sv, &observables[obs_ptr], content) {
+                signals.push(signal);
             }
 
             obs_ptr += 1;
-            offset += OBSERVABLE_F14_WIDTH + 2;
 
             if obs_ptr == observables.len() {
-                //#[cfg(feature = "log")]
-                //debug!("{} completed", sv);
-
-                sv_identified = false;
-                obs_identified = false;
-
-                if sv_ptr == systems_str_len {
-                    // we're done
-                    return;
-                }
-            } else {
-                //#[cfg(feature = "log")]
-                //debug!("{}/{}", obs_ptr, observables.len());
+                current = None;
+                break;
             }
-        } //num_obs
+        }
 
         if num_obs < MAX_OBSERVABLES_LINE {
             obs_ptr += MAX_OBSERVABLES_LINE - num_obs;
@@ -455,95 +345,29 @@ fn parse_signals_v3(
     signals: &mut Vec<SignalObservation>,
 ) {
     const SVNN_SIZE: usize = 3;
-    const OBSERVABLE_F14_WIDTH: usize = 14;
     const OBSERVABLE_WIDTH: usize = 16; // F14 +2 flags
 
-    let mut sv; // single alloc
-
     // browse all lines
     for line in lines {
+        let (system, line) = split_columns(line, SVNN_SIZE);
+
         // identify SV
-        let sv_str = &line[0..SVNN_SIZE];
-        match SV::from_str(sv_str) {
-            Ok(found) => {
-                sv = found;
-            },
-            #[cfg(feature = "log")]
-            Err(e) => {
-                //error!("sv parsing: {}", e);
-                continue;
-            },
-            #[cfg(not(feature = "log"))]
-            Err(_) => {
-                continue;
-            },
-        }
+        let sv = match parse_sv(system) {
+            Some(sv) => sv,
+            None => continue,
+        };
 
         // identify [Observable]s
-        let observables = if sv.constellation.is_sbas() {
-            head_observables.get(&Constellation::SBAS)
-        } else {
-            head_observables.get(&sv.constellation)
+        let observables = match sv_observables(&sv, head_observables) {
+            Some(observables) => observables,
+            None => continue,
         };
 
-        if observables.is_none() {
-            continue;
-        }
-
-        let observables = observables.unwrap();
-
-        let num_obs = line.len() / OBSERVABLE_WIDTH;
-        let mut offset = SVNN_SIZE + 1;
-
-        for i in 0..num_obs {
-            if i == observables.len() {
-                // line is abnormally long (trailing whitespaces)
-                break;
+        for (i, observable) in observables.iter().enumerate() {
+            let content = columns(line, i * OBSERVABLE_WIDTH, (i + 1) * OBSERVABLE_WIDTH);
+            if let Some(signal) = parse_signal(sv, observable, content) {
+                signals.push(signal);
             }
-
-            let end = (offset + OBSERVABLE_WIDTH).min(line.len());
-            let slice = &line[offset..end];
-
-            let mut lli = Option::<LliFlags>::None;
-
-            if slice.len() > OBSERVABLE_F14_WIDTH {
-                let start = offset + OBSERVABLE_F14_WIDTH - 1;
-                let lli_slice = &line[start..start + 1];
-                match lli_slice.parse::<u8>() {
-                    Ok(unsigned) => {
-                        lli = LliFlags::from_bits(unsigned);
-                    },
-                    Err(_e) => {
-                        //#[cfg(feature = "log")]
-                        //error!("lli: {}", e);
-                    },
-                }
-            }
-
-            let mut snr = Option::<SNR>::None;
-
-            if slice.len() > OBSERVABLE_F14_WIDTH + 1 {
-                let start = offset + OBSERVABLE_F14_WIDTH;
-                let snr_slice = &line[start..start + 1];
-
-                if let Ok(value) = snr_slice.parse::<u8>() {
-                    snr = Some(SNR::from(value));
-                }
-            }
-
-            let end = OBSERVABLE_F14_WIDTH.min(slice.len());
-
-            if let Ok(value) = slice[..end].trim().parse::<f64>() {
-                signals.push(SignalObservation {
-                    sv,
-                    value,
-                    lli,
-                    snr,
-                    observable: observables[i].clone(),
-                });
-            }
-
-            offset += OBSERVABLE_F14_WIDTH + 2;
         }
     } //browse all lines
 }
-- 
2.43.0


From 6485c12f71b8bf14b469f5d04744c9974787ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 02/78] fix: seconds fraction of epochs, invalid dates are
 errors and not panics

---
 src/epoch.rs | 75 +++++++++++++++++++++-------------------------------
 1 file changed, 30 insertions(+), 45 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 0a2ff97..7fd2af6 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -117,7 +117,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
     let mut hh = 0_u8;
     let mut mm = 0_u8;
     let mut ss = 0_u8;
-    let mut ns = 0_u64;
+    let mut ns = 0_u32;
 
     if content.split_ascii_whitespace().count() < 6 {
         return Err(ParsingError::EpochFormat);
@@ -151,26 +151,12 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             },
             5 => {
                 if let Some(dot) = item.find('.') {
-                    let is_nav = item.trim().len() < 7;
-
                     ss = item[..dot]
                         .trim()
                         .parse::<u8>()
                         .map_err(|_| ParsingError::EpochParsing)?;
 
-                    let nanos = item[dot + 1..].trim();
-
-                    ns = nanos
-                        .parse::<u64>()
-                        .map_err(|_| ParsingError::EpochParsing)?;
-
-                    if is_nav {
-                        // NAV RINEX : 100ms precision
-                        ns *= 100_000_000;
-                    } else if nanos.len() != 9 {
-                        // OBS RINEX : 100ns precision
-                        ns *= 100;
-                    }
+                    ns = parse_second_fraction(item[dot + 1..].trim())?;
                 } else {
                     ss = item
                         .trim()
@@ -184,35 +170,27 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
 
     //println!("content \"{}\"", content); // DEBUG
     //println!("Y {} M {} D {} HH {} MM {} SS {} NS {}", y, m, d, hh, mm, ss, ns); // DEBUG
-    match ts {
-        TimeScale::UTC => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        TimeScale::TAI => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        ts => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_str(&format!(
-                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06} {}",
-                y, m, d, hh, mm, ss, ns, ts
-            ))?;
-            Ok(epoch)
-        },
+
+    // Catch possible Hifitime panic on bad string content
+    if !(1..=9999).contains(&y) {
+        return Err(ParsingError::EpochFormat);
+    }
+
+    let epoch = Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns, ts)?;
+    Ok(epoch)
+}
+
+/// Parses fraction of seconds (any number of digits) as nanoseconds
+pub(crate) fn parse_second_fraction(digits: &str) -> Result<u32, ParsingError> {
+    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(ParsingError::EpochParsing);
     }
+
+    Ok(digits
+        .bytes()
+        .chain(std::iter::repeat(b'0'))
+        .take(9)
+        .fold(0, |nanos, digit| nanos * 10 + (digit - b'0') as u32))
 }
 
 pub(crate) fn parse_utc(s: &str) -> Result<Epoch, ParsingError> {
@@ -262,7 +240,14 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
             _ => {},
         }
     }
-    Ok(Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, 0))
+
+    // Catch possible Hifitime panic on bad string content
+    if !(1..=9999).contains(&y) {
+        return Err(ParsingError::EpochFormat);
+    }
+
+    let epoch = Epoch::maybe_from_gregorian_utc(y, m, d, hh, mm, ss, 0)?;
+    Ok(epoch)
 }
 
 /*
-- 
2.43.0


From 2e09f393b0e141e73dfa2962fde31f4abcfc34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 03/78] fix: IONEX RMS maps parsing, short lines and grid
 spacing that never converges

---
 src/ionex/parsing.rs   | 19 +++++++++++--------
 src/ionex/quantized.rs |  5 ++++-
 src/ionex/tec.rs       |  4 ++--
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index a34f01d..cf90ea8 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -3,6 +3,7 @@
 use crate::{
     ionex::{IonexKey, Quantized, QuantizedCoordinates, Record, TEC},
     prelude::{Epoch, ParsingError},
+    split_columns,
 };
 
 pub fn is_new_tec_map(line: &str) -> bool {
@@ -23,14 +24,15 @@ pub fn is_new_height_map(line: &str) -> bool {
 /// - long_spacing [ddeg]
 /// - fixed_altitude [km]
 fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
-    let (fixed_lat, rem) = line[2..].split_at(6);
+    let (_, rem) = split_columns(line, 2);
+    let (fixed_lat, rem) = split_columns(rem, 6);
 
     let fixed_lat = fixed_lat
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::IonexGridCoordinates)?;
 
-    let (long1, rem) = rem.split_at(6);
+    let (long1, rem) = split_columns(rem, 6);
 
     let long1 = long1
         .trim()
@@ -38,16 +40,16 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
         .map_err(|_| ParsingError::IonexGridCoordinates)?;
 
     // lon2 field is not used, we iterate using spacing starting @long1
-    let (_, rem) = rem.split_at(6);
+    let (_, rem) = split_columns(rem, 6);
 
-    let (long_spacing, rem) = rem.split_at(6);
+    let (long_spacing, rem) = split_columns(rem, 6);
 
     let long_spacing = long_spacing
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::IonexGridCoordinates)?;
 
-    let (fixed_alt, _) = rem.split_at(6);
+    let (fixed_alt, _) = split_columns(rem, 6);
 
     let fixed_alt = fixed_alt
         .trim()
@@ -86,7 +88,7 @@ pub fn parse_tec_map(
 
     for line in lines {
         if line.len() > 60 {
-            let (content, marker) = line.split_at(60);
+            let (content, marker) = split_columns(line, 60);
 
             // Handle special cases
             // * data scaler update
@@ -173,7 +175,8 @@ pub fn parse_rms_map(
 
     for line in lines {
         if line.len() > 60 {
-            let marker = line.split_at(60).1;
+            let (content, marker) = split_columns(line, 60);
+
             if marker.contains("END OF RMS MAP") {
                 return Ok(());
             } else if marker.contains("EXPONENT") {
@@ -250,7 +253,7 @@ pub fn parse_rms_map(
 
 //     for line in lines {
 //         if line.len() > 60 {
-//             let marker = line.split_at(60).1;
+//             let marker = split_columns(line, 60).1;
 //             if marker.contains("END OF HEIGHT MAP") {
 //                 return Ok(());
 //             } else if marker.contains("EXPONENT") {
diff --git a/src/ionex/quantized.rs b/src/ionex/quantized.rs
index 5c67cec..d29e983 100644
--- a/src/ionex/quantized.rs
+++ b/src/ionex/quantized.rs
@@ -11,12 +11,15 @@ pub struct Quantized {
 }
 
 impl Quantized {
+    /// Largest exponent: any [f64] converges way before.
+    const MAX_EXPONENT: i8 = 18;
+
     /// Determines best suited exponent to quantize given value
     pub fn find_exponent(value: f64) -> i8 {
         let mut val = value;
         let mut exponent = 0;
 
-        while val.fract() != 0.0 {
+        while val.fract() != 0.0 && exponent < Self::MAX_EXPONENT {
             val *= 10.0;
             exponent += 1;
         }
diff --git a/src/ionex/tec.rs b/src/ionex/tec.rs
index 687eae6..96d4691 100644
--- a/src/ionex/tec.rs
+++ b/src/ionex/tec.rs
@@ -53,7 +53,7 @@ impl TEC {
             height: None,
             tecu: Quantized {
                 quantized: tecu,
-                exponent: -exponent,
+                exponent: exponent.saturating_neg(),
             },
         }
     }
@@ -61,7 +61,7 @@ impl TEC {
     /// Updates RMS [TEC]
     pub(crate) fn set_quantized_rms(&mut self, rms: i64, exponent: i8) {
         self.rms = Some(Quantized {
-            exponent: -exponent,
+            exponent: exponent.saturating_neg(),
             quantized: rms,
         });
     }
-- 
2.43.0


From 62a0ffebeca27f7f9d3a7d9b6a970ccc647a57cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 04/78] fix: report input errors and incomplete headers,
 tolerate invalid header lines, keep body comments

---
 src/error.rs          |   4 +
 src/header/parsing.rs | 241 +++++++++++++++++++++++-------------------
 src/lib.rs            |  60 ++++++++++-
 src/record/parsing.rs |  66 +++++++-----
 4 files changed, 238 insertions(+), 133 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d8c3507..90966fe 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -164,6 +164,10 @@ pub enum ParsingError {
     DorisClockParsing,
     #[error("ionex scaling exponent")]
     IonexScalingExponent,
+    #[error("incomplete header section")]
+    IncompleteHeader,
+    #[error("i/o: input error")]
+    InputError(#[from] IoError),
 }
 
 /// Errors that may rise in Formatting process
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index dfdbc2d..d8877c1 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -2,8 +2,9 @@
 use crate::{
     antex::{HeaderFields as AntexHeader, Pcv},
     clock::{ClockProfileType, HeaderFields as ClockHeader, WorkClock},
+    columns,
     doris::{HeaderFields as DorisHeader, Station as DorisStation},
-    epoch::parse_ionex_utc as parse_ionex_utc_epoch,
+    epoch::{parse_ionex_utc as parse_ionex_utc_epoch, parse_second_fraction},
     hardware::{Antenna, Receiver, SvAntenna},
     hatanaka::CRINEX,
     header::{DcbCompensation, Header, PcvCompensation},
@@ -18,14 +19,16 @@ use crate::{
     navigation::{IonosphereModel, KbModel},
     observable::Observable,
     observation::HeaderFields as ObservationHeader,
-    prelude::{Constellation, Duration, Epoch, ParsingError, TimeScale, COSPAR, DOMES, SV},
+    parse_cospar, parse_domes, parse_sv,
+    prelude::{Constellation, Duration, Epoch, ParsingError, TimeScale, COSPAR, SV},
+    read_line, split_columns,
     types::Type,
     version::Version,
 };
 
 use std::{
     collections::HashMap,
-    io::{BufRead, BufReader, Read},
+    io::{BufReader, Read},
     str::FromStr,
 };
 
@@ -70,17 +73,29 @@ impl Header {
         let mut ionex = IonexHeaderFields::default();
         let mut doris = DorisHeader::default();
 
-        for l in reader.lines() {
-            let line = l.unwrap();
+        let mut end_of_header = false;
+
+        let mut line = String::with_capacity(128);
+
+        loop {
+            line.clear();
+
+            if read_line(reader, &mut line)? == 0 {
+                break;
+            }
+
+            let line = line.trim_end_matches(&['\r', '\n']);
+
             if line.len() < 60 {
                 continue; // --> invalid header content
             }
-            let (content, marker) = line.split_at(60);
+            let (content, marker) = split_columns(line, 60);
             ///////////////////////////////
             // [0] END OF HEADER
             //     --> done parsing
             ///////////////////////////////
             if marker.trim().eq("END OF HEADER") {
+                end_of_header = true;
                 break;
             }
             ///////////////////////////////
@@ -98,7 +113,7 @@ impl Header {
             //     and we do this at the end of the Header section
             ///////////////////////////////////////////////////////
             } else if marker.contains("CRINEX VERS") {
-                let version = Version::from_str(content[..10].trim())?;
+                let version = Version::from_str(split_columns(content, 10).0.trim())?;
                 let crinex = CRINEX::default().with_version(version);
 
                 observation.crinex = Some(crinex);
@@ -122,7 +137,7 @@ impl Header {
                 // Handled cases
                 ///////////////////////////////////////////////////////
             } else if marker.contains("ANTEX VERSION / SYST") {
-                let (vers, system) = content.split_at(8);
+                let (vers, system) = split_columns(content, 8);
                 let vers = vers.trim();
                 version = Version::from_str(vers).or(Err(ParsingError::AntexVersion))?;
 
@@ -131,9 +146,9 @@ impl Header {
                 }
                 rinex_type = Type::AntennaData;
             } else if marker.contains("PCV TYPE / REFANT") {
-                let (pcv_str, rem) = content.split_at(20);
-                let (rel_type, rem) = rem.split_at(20);
-                let (ref_sn, _) = rem.split_at(20);
+                let (pcv_str, rem) = split_columns(content, 20);
+                let (rel_type, rem) = split_columns(rem, 20);
+                let (ref_sn, _) = split_columns(rem, 20);
                 if let Ok(mut pcv) = Pcv::from_str(pcv_str.trim()) {
                     if pcv.is_relative() {
                         // try to parse "Relative Type"
@@ -151,8 +166,8 @@ impl Header {
                 if items.len() == 2 {
                     // Receiver antenna information
                     // like standard RINEX
-                    let (model, rem) = content.split_at(20);
-                    let (sn, _) = rem.split_at(20);
+                    let (model, rem) = split_columns(content, 20);
+                    let (sn, _) = split_columns(rem, 20);
                     if let Some(a) = &mut rcvr_antenna {
                         *a = a.with_model(model.trim()).with_serial_number(sn.trim());
                     } else {
@@ -165,10 +180,10 @@ impl Header {
                 } else if items.len() == 4 {
                     // Space Vehicle antenna information
                     // ANTEX RINEX specific
-                    let (model, rem) = content.split_at(10);
-                    let (svnn, rem) = rem.split_at(10);
-                    let (cospar, _) = rem.split_at(10);
-                    if let Ok(sv) = SV::from_str(svnn.trim()) {
+                    let (model, rem) = split_columns(content, 10);
+                    let (svnn, rem) = split_columns(rem, 10);
+                    let (cospar, _) = split_columns(rem, 10);
+                    if let Some(sv) = parse_sv(svnn) {
                         if let Some(a) = &mut sv_antenna {
                             *a = a
                                 .with_sv(sv)
@@ -189,9 +204,9 @@ impl Header {
             // [2] IONEX special header
             //////////////////////////////////////
             } else if marker.contains("IONEX VERSION / TYPE") {
-                let (vers_str, rem) = line.split_at(20);
-                let (type_str, rem) = rem.split_at(20);
-                let (system_str, _) = rem.split_at(20);
+                let (vers_str, rem) = split_columns(line, 20);
+                let (type_str, rem) = split_columns(rem, 20);
+                let (system_str, _) = split_columns(rem, 20);
 
                 let vers_str = vers_str.trim();
                 version = Version::from_str(vers_str).or(Err(ParsingError::IonexVersion))?;
@@ -205,9 +220,9 @@ impl Header {
             // RINEX standard / shared attributes
             ///////////////////////////////////////
             } else if marker.contains("RINEX VERSION / TYPE") {
-                let (vers, rem) = line.split_at(20);
-                let (type_str, rem) = rem.split_at(20);
-                let (constell_str, _) = rem.split_at(20);
+                let (vers, rem) = split_columns(line, 20);
+                let (type_str, rem) = split_columns(rem, 20);
+                let (constell_str, _) = split_columns(rem, 20);
 
                 let type_str = type_str.trim();
                 let constell_str = constell_str.trim();
@@ -266,40 +281,40 @@ impl Header {
                     return Err(ParsingError::NonSupportedVersion);
                 }
             } else if marker.contains("PGM / RUN BY / DATE") {
-                let (pgm, rem) = line.split_at(20);
+                let (pgm, rem) = split_columns(line, 20);
                 let pgm = pgm.trim();
                 if pgm.len() > 0 {
                     program = Some(pgm.to_string());
                 }
 
-                let (runby, rem) = rem.split_at(20);
+                let (runby, rem) = split_columns(rem, 20);
 
                 let runby = runby.trim();
                 if runby.len() > 0 {
                     run_by = Some(runby.to_string());
                 }
 
-                let date_str = rem.split_at(20).0.trim();
+                let date_str = split_columns(rem, 20).0.trim();
                 if date_str.len() > 0 {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = content.split_at(20).0.trim();
+                let name = split_columns(content, 20).0.trim();
                 geodetic_marker = Some(GeodeticMarker::default().with_name(name));
             } else if marker.contains("MARKER NUMBER") {
-                let number = content.split_at(20).0.trim();
+                let number = split_columns(content, 20).0.trim();
                 if let Some(ref mut marker) = geodetic_marker {
                     *marker = marker.with_number(number);
                 }
             } else if marker.contains("MARKER TYPE") {
-                let code = content.split_at(20).0.trim();
+                let code = split_columns(content, 20).0.trim();
                 if let Ok(mtype) = MarkerType::from_str(code) {
                     if let Some(ref mut marker) = geodetic_marker {
                         marker.marker_type = Some(mtype);
                     }
                 }
             } else if marker.contains("OBSERVER / AGENCY") {
-                let (obs, ag) = content.split_at(20);
+                let (obs, ag) = split_columns(content, 20);
                 let obs = obs.trim();
                 let ag = ag.trim();
 
@@ -315,9 +330,9 @@ impl Header {
                     rcvr = Some(receiver);
                 }
             } else if marker.contains("SYS / PCVS APPLIED") {
-                let (gnss, rem) = content.split_at(2);
-                let (program, rem) = rem.split_at(18);
-                let (url, _) = rem.split_at(40);
+                let (gnss, rem) = split_columns(content, 2);
+                let (program, rem) = split_columns(rem, 18);
+                let (url, _) = split_columns(rem, 40);
 
                 let gnss = gnss.trim();
                 let gnss = Constellation::from_str(gnss.trim())?;
@@ -344,9 +359,9 @@ impl Header {
 
                 pcv_compensations.push(pcv);
             } else if marker.contains("SYS / DCBS APPLIED") {
-                let (gnss, rem) = content.split_at(2);
-                let (program, rem) = rem.split_at(18);
-                let (url, _) = rem.split_at(40);
+                let (gnss, rem) = split_columns(content, 2);
+                let (program, rem) = split_columns(rem, 18);
+                let (url, _) = split_columns(rem, 40);
 
                 let gnss = gnss.trim();
                 let gnss = Constellation::from_str(gnss.trim())?;
@@ -376,7 +391,7 @@ impl Header {
                 // TODO:
                 //   This will not work in case several observables
                 //   are declaredn which will required to analyze more than 1 line
-                let (gnss, rem) = content.split_at(2);
+                let (gnss, rem) = split_columns(content, 2);
                 let gnss = gnss.trim();
 
                 /*
@@ -389,14 +404,14 @@ impl Header {
                 };
 
                 // Parse scaling factor
-                let (factor, rem) = rem.split_at(6);
+                let (factor, rem) = split_columns(rem, 6);
                 let factor = factor.trim();
                 let scaling = factor
                     .parse::<u16>()
                     .or(Err(ParsingError::SystemScalingFactor))?;
 
                 // parse end of line
-                let (_num, rem) = rem.split_at(3);
+                let (_num, rem) = split_columns(rem, 3);
                 for observable_str in rem.split_ascii_whitespace() {
                     let observable = Observable::from_str(observable_str)?;
 
@@ -415,10 +430,10 @@ impl Header {
                 /*
                  * Meteo: sensor position information
                  */
-                let (x, rem) = content.split_at(14);
-                let (y, rem) = rem.split_at(14);
-                let (z, rem) = rem.split_at(14);
-                let (h, phys) = rem.split_at(14);
+                let (x, rem) = split_columns(content, 14);
+                let (y, rem) = split_columns(rem, 14);
+                let (z, rem) = split_columns(rem, 14);
+                let (h, phys) = split_columns(rem, 14);
 
                 let phys = phys.trim();
                 let observable = Observable::from_str(phys)?;
@@ -442,11 +457,11 @@ impl Header {
                     }
                 }
             } else if marker.contains("LEAP SECOND") {
-                let leap_str = content.split_at(40).0.trim();
+                let leap_str = split_columns(content, 40).0.trim();
                 let parsed = Leap::from_str(leap_str)?;
                 leap = Some(parsed.clone());
             } else if marker.contains("DOI") {
-                let content = content.split_at(40).0.trim(); //  TODO: confirm please
+                let content = split_columns(content, 40).0.trim(); //  TODO: confirm please
                 if content.len() > 0 {
                     doi = Some(content.to_string());
                 }
@@ -454,12 +469,12 @@ impl Header {
                 //TODO V > 3
                 // nb# of merged files
             } else if marker.contains("STATION INFORMATION") {
-                let url = content.split_at(40).0.trim(); //TODO confirm please
+                let url = split_columns(content, 40).0.trim(); //TODO confirm please
                 if url.len() > 0 {
                     station_url = Some(url.to_string());
                 }
             } else if marker.contains("LICENSE OF USE") {
-                let lic = content.split_at(40).0.trim(); //TODO confirm please
+                let lic = split_columns(content, 40).0.trim(); //TODO confirm please
                 if lic.len() > 0 {
                     license = Some(lic.to_string());
                 }
@@ -491,8 +506,8 @@ impl Header {
                     rx_position = Some((x_ecef_m, y_ecef_m, z_ecef_m));
                 }
             } else if marker.contains("ANT # / TYPE") {
-                let (sn, rem) = content.split_at(20);
-                let (model, _) = rem.split_at(20);
+                let (sn, rem) = split_columns(content, 20);
+                let (model, _) = split_columns(rem, 20);
 
                 rcvr_antenna = Some(
                     Antenna::default()
@@ -503,13 +518,13 @@ impl Header {
                 // Antenna Base/Reference Coordinates
                 let items: Vec<&str> = content.split_ascii_whitespace().collect();
 
-                let x = items[0].trim();
+                let x = items.get(0).ok_or(ParsingError::AntennaCoordinates)?;
                 let x = f64::from_str(x).or(Err(ParsingError::AntennaCoordinates))?;
 
-                let y = items[1].trim();
+                let y = items.get(1).ok_or(ParsingError::AntennaCoordinates)?;
                 let y = f64::from_str(y).or(Err(ParsingError::AntennaCoordinates))?;
 
-                let z = items[2].trim();
+                let z = items.get(2).ok_or(ParsingError::AntennaCoordinates)?;
                 let z = f64::from_str(z).or(Err(ParsingError::AntennaCoordinates))?;
 
                 if let Some(ant) = &mut rcvr_antenna {
@@ -519,9 +534,9 @@ impl Header {
                 }
             } else if marker.contains("ANTENNA: DELTA H/E/N") {
                 // Antenna H/E/N eccentricity components
-                let (h, rem) = content.split_at(15);
-                let (e, rem) = rem.split_at(15);
-                let (n, _) = rem.split_at(15);
+                let (h, rem) = split_columns(content, 15);
+                let (e, rem) = split_columns(rem, 15);
+                let (n, _) = split_columns(rem, 15);
                 if let Ok(h) = f64::from_str(h.trim()) {
                     if let Ok(e) = f64::from_str(e.trim()) {
                         if let Ok(n) = f64::from_str(n.trim()) {
@@ -542,7 +557,7 @@ impl Header {
                     }
                 }
             } else if marker.contains("RCV CLOCK OFFS APPL") {
-                let value = content.split_at(20).0.trim();
+                let value = split_columns(content, 20).0.trim();
                 let n =
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
@@ -614,29 +629,32 @@ impl Header {
                     _ => {},
                 }
             } else if marker.contains("ANALYSIS CENTER") {
-                let (code, agency) = content.split_at(3);
+                let (code, agency) = split_columns(content, 3);
                 clock = clock.igs(code.trim());
                 clock = clock.full_name(agency.trim());
             } else if marker.contains("ANALYSIS CLK REF") {
                 let ck = WorkClock::parse(version, content);
                 clock = clock.work_clock(ck);
             } else if marker.contains("# / TYPES OF DATA") {
-                let (n, r) = content.split_at(6);
+                let (n, r) = split_columns(content, 6);
                 let n = n.trim();
                 let n = n.parse::<u8>().or(Err(ParsingError::ClockTypeofData))?;
 
                 let mut rem = r;
                 for _ in 0..n {
-                    let (code, r) = rem.split_at(6);
+                    if rem.is_empty() {
+                        break;
+                    }
+                    let (code, r) = split_columns(rem, 6);
                     if let Ok(c) = ClockProfileType::from_str(code.trim()) {
                         clock.codes.push(c);
                     }
                     rem = r;
                 }
             } else if marker.contains("STATION NAME / NUM") {
-                let (name, domes) = content.split_at(4);
+                let (name, domes) = split_columns(content, 4);
                 clock = clock.site(name.trim());
-                if let Ok(domes) = DOMES::from_str(domes.trim()) {
+                if let Some(domes) = parse_domes(domes) {
                     clock = clock.domes(domes);
                 }
             } else if marker.contains("STATION CLK REF") {
@@ -644,7 +662,7 @@ impl Header {
             } else if marker.contains("SIGNAL STRENGHT UNIT") {
                 //TODO
             } else if marker.contains("INTERVAL") {
-                let intv_str = content.split_at(20).0.trim();
+                let intv_str = split_columns(content, 20).0.trim();
                 if let Ok(interval) = f64::from_str(intv_str) {
                     if interval > 0.0 {
                         // INTERVAL = '0' may exist, in case
@@ -653,16 +671,15 @@ impl Header {
                     }
                 }
             } else if marker.contains("COSPAR NUMBER") {
-                cospar = Some(COSPAR::from_str(content.trim())?);
+                cospar = Some(parse_cospar(content)?);
             } else if marker.contains("GLONASS SLOT / FRQ #") {
                 //TODO
                 // This should be used when dealing with Glonass carriers
 
-                let slots = content.split_at(4).1.trim();
-                for i in 0..num_integer::div_ceil(slots.len(), 7) {
-                    let svnn = &slots[i * 7..i * 7 + 4];
-                    let chx = &slots[i * 7 + 4..std::cmp::min(i * 7 + 4 + 3, slots.len())];
-                    if let Ok(svnn) = SV::from_str(svnn.trim()) {
+                let slots = split_columns(content, 4).1;
+                for i in 0..8 {
+                    let (svnn, chx) = split_columns(columns(slots, i * 7, (i + 1) * 7), 4);
+                    if let Some(svnn) = parse_sv(svnn) {
                         if let Ok(chx) = chx.trim().parse::<i8>() {
                             glo_channels.insert(svnn, chx);
                         }
@@ -692,9 +709,10 @@ impl Header {
                         ] {
                             if let Some(correction) = ionod_corrections.get_mut(&c) {
                                 // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
-                                kb_model.alpha = alpha;
-                                kb_model.region = region;
+                                if let Some(kb_model) = correction.as_klobuchar_mut() {
+                                    kb_model.alpha = alpha;
+                                    kb_model.region = region;
+                                }
                             } else {
                                 ionod_corrections.insert(
                                     c,
@@ -731,8 +749,9 @@ impl Header {
                         ] {
                             if let Some(correction) = ionod_corrections.get_mut(&c) {
                                 // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
-                                kb_model.beta = beta;
+                                if let Some(kb_model) = correction.as_klobuchar_mut() {
+                                    kb_model.beta = beta;
+                                }
                             } else {
                                 ionod_corrections.insert(
                                     c,
@@ -754,12 +773,12 @@ impl Header {
                  * RINEX4 replaces that with actual file content (body) for improved correction accuracy.
                  * The description requires 2 lines when dealing with KB model and we tolerate order mixup.
                  */
-                let model_id = content.split_at(5).0;
+                let model_id = split_columns(content, 5).0;
                 if model_id.len() < 3 {
                     /* BAD RINEX */
                     continue;
                 }
-                let constell_id = &model_id[..3];
+                let constell_id = split_columns(model_id, 3).0;
                 let constell = match constell_id {
                     "GPS" => Constellation::GPS,
                     "GAL" => Constellation::Galileo,
@@ -777,12 +796,13 @@ impl Header {
                     })) => {
                         // KB requires two lines
                         if let Some(ionod_model) = ionod_corrections.get_mut(&constell) {
-                            let kb_model = ionod_model.as_klobuchar_mut().unwrap();
-                            if model_id.ends_with('A') {
-                                kb_model.alpha = alpha;
-                                kb_model.region = region;
-                            } else {
-                                kb_model.beta = beta;
+                            if let Some(kb_model) = ionod_model.as_klobuchar_mut() {
+                                if model_id.ends_with('A') {
+                                    kb_model.alpha = alpha;
+                                    kb_model.region = region;
+                                } else {
+                                    kb_model.beta = beta;
+                                }
                             }
                         } else {
                             // latch new model
@@ -842,9 +862,11 @@ impl Header {
                 if let Ok(f) = f32::from_str(content.trim()) {
                     ionex = ionex.with_base_radius(f);
                 }
-            } else if marker.contains("MAPPING FUCTION") {
-                let mapf = IonexMappingFunction::from_str(content.trim())?;
-                ionex = ionex.with_mapping_function(mapf);
+            } else if marker.contains("MAPPING FUNCTION") {
+                // "NONE" is to be expected
+                if let Ok(mapf) = IonexMappingFunction::from_str(content.trim()) {
+                    ionex = ionex.with_mapping_function(mapf);
+                }
             } else if marker.contains("# OF STATIONS") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
@@ -877,7 +899,7 @@ impl Header {
                 ionex = ionex.with_longitude_grid(grid);
             } else if marker.contains("L2 / L1 DATE OFFSET") {
                 // DORIS special case
-                let content = content[1..].trim();
+                let content = split_columns(content, 1).1.trim();
 
                 let time_offset_us = content
                     .parse::<f64>()
@@ -891,6 +913,11 @@ impl Header {
             }
         }
 
+        if !end_of_header {
+            // premature end of stream
+            return Err(ParsingError::IncompleteHeader);
+        }
+
         Ok(Header {
             version,
             rinex_type,
@@ -965,15 +992,15 @@ impl Header {
     }
 
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
-        let (_, rem) = content.split_at(2);
-        let (y, rem) = rem.split_at(4);
-        let (m, rem) = rem.split_at(6);
-        let (d, rem) = rem.split_at(6);
-        let (hh, rem) = rem.split_at(6);
-        let (mm, rem) = rem.split_at(6);
-        let (ss, rem) = rem.split_at(5);
-        let (_dot, rem) = rem.split_at(1);
-        let (ns, rem) = rem.split_at(8);
+        let (_, rem) = split_columns(content, 2);
+        let (y, rem) = split_columns(rem, 4);
+        let (m, rem) = split_columns(rem, 6);
+        let (d, rem) = split_columns(rem, 6);
+        let (hh, rem) = split_columns(rem, 6);
+        let (mm, rem) = split_columns(rem, 6);
+        let (ss, rem) = split_columns(rem, 5);
+        let (_dot, rem) = split_columns(rem, 1);
+        let (ns, rem) = split_columns(rem, 8);
 
         // println!("Y \"{}\" M \"{}\" D \"{}\" HH \"{}\" MM \"{}\" SS \"{}\" NS \"{}\"", y, m, d, hh, mm, ss, ns); // DEBUG
         let mut y = y
@@ -1013,10 +1040,7 @@ impl Header {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        let ns = ns
-            .trim()
-            .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
+        let ns = parse_second_fraction(ns.trim())?;
 
         /*
          * We set TAI as "default" Timescale.
@@ -1031,14 +1055,15 @@ impl Header {
          * offset from TAI, that we will convert back to TAI later
          */
         if !rem.is_empty() && rem != "DOR" {
-            ts = TimeScale::from_str(rem.trim())?;
+            ts = match rem {
+                // Glonass system time is aligned to UTC
+                "GLO" => TimeScale::UTC,
+                _ => TimeScale::from_str(rem)?,
+            };
         }
 
-        Epoch::from_str(&format!(
-            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:08} {}",
-            y, m, d, hh, mm, ss, ns, ts
-        ))
-        .map_err(|_| ParsingError::DatetimeParsing)
+        Epoch::maybe_from_gregorian(y as i32, m, d, hh, mm, ss, ns, ts)
+            .map_err(|_| ParsingError::DatetimeParsing)
     }
 
     /*
@@ -1094,7 +1119,7 @@ impl Header {
                 Constellation::Galileo,
             ];
         }
-        let line = line.split_at(6).1;
+        let line = split_columns(line, 6).1;
         for item in line.split_ascii_whitespace() {
             if let Ok(obs) = Observable::from_str(item.trim()) {
                 match constell {
@@ -1126,9 +1151,9 @@ impl Header {
         current_constell: &mut Option<Constellation>,
         observation: &mut ObservationHeader,
     ) {
-        let (possible_counter, items) = line.split_at(6);
+        let (possible_counter, items) = split_columns(line, 6);
         if !possible_counter.is_empty() {
-            let code = &possible_counter[..1];
+            let code = split_columns(possible_counter, 1).0;
             if let Ok(c) = Constellation::from_str(code) {
                 *current_constell = Some(c);
             }
@@ -1150,7 +1175,7 @@ impl Header {
      * Parse list of DORIS observables
      */
     fn parse_doris_observables(line: &str, doris: &mut DorisHeader) {
-        let items = line.split_at(6).1;
+        let items = split_columns(line, 6).1;
         for item in items.split_ascii_whitespace() {
             if let Ok(observable) = Observable::from_str(item) {
                 doris.observables.push(observable);
diff --git a/src/lib.rs b/src/lib.rs
index e283d8a..7a462a6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,7 +77,7 @@ mod tests;
 use std::{
     collections::HashMap,
     fs::File,
-    io::{BufReader, BufWriter, Read, Write},
+    io::{BufRead, BufReader, BufWriter, Read, Write},
     path::Path,
     str::FromStr,
 };
@@ -255,6 +255,64 @@ pub(crate) fn columns(line: &str, start: usize, end: usize) -> &str {
     split_columns(head, start).1
 }
 
+/*
+ * Appends one line to this buffer: bytes that are not valid UTF-8 are replaced,
+ * so a corrupt (or exotic) character cannot prevent from reading further.
+ * Returns 0 once EOS has been reached.
+ */
+pub(crate) fn read_line<R: BufRead>(reader: &mut R, line: &mut String) -> std::io::Result<usize> {
+    let mut bytes = Vec::with_capacity(128);
+    let size = reader.read_until(b'\n', &mut bytes)?;
+
+    match String::from_utf8(bytes) {
+        Ok(content) => line.push_str(&content),
+        Err(e) => line.extend(e.as_bytes().iter().map(|byte| match byte.is_ascii() {
+            true => *byte as char,
+            false => '?',
+        })),
+    }
+
+    Ok(size)
+}
+
+/*
+ * [SV] described by this field: [SV::from_str] only supports
+ * non empty ASCII descriptions.
+ */
+pub(crate) fn parse_sv(field: &str) -> Option<SV> {
+    let field = field.trim();
+    if field.is_empty() || !field.is_ascii() {
+        None
+    } else {
+        SV::from_str(field).ok()
+    }
+}
+
+/*
+ * [DOMES] site number described by this field: [DOMES::from_str] only supports
+ * ASCII descriptions.
+ */
+pub(crate) fn parse_domes(field: &str) -> Option<DOMES> {
+    let field = field.trim();
+    if !field.is_ascii() {
+        None
+    } else {
+        DOMES::from_str(field).ok()
+    }
+}
+
+/*
+ * [COSPAR] number described by this field: [COSPAR::from_str] only supports
+ * ASCII descriptions that are complete.
+ */
+pub(crate) fn parse_cospar(field: &str) -> Result<COSPAR, ParsingError> {
+    let field = field.trim();
+    match field.find('-') {
+        Some(dash) if field.is_ascii() && field.len() > dash + 3 => Ok(COSPAR::from_str(field)?),
+        _ => Err(gnss_rs::cospar::Error::InvalidFormat.into()),
+    }
+}
+
 /*
  * macro to format one header line or a comment
  */
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 84b5e9d..7dbca80 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -35,13 +35,15 @@ use crate::{
         Record as ObservationRecord,
     },
     prelude::{Constellation, Epoch, Header, ParsingError, TimeScale},
+    read_line,
     record::{Comments, Record},
+    split_columns,
     types::Type,
 };
 
 use std::{
     collections::BTreeMap,
-    io::{BufRead, BufReader, Read},
+    io::{BufReader, Read},
     str::from_utf8,
 };
 
@@ -185,7 +187,10 @@ impl Record {
         }
 
         // Iterate and consume, one line at a time
-        while let Ok(size) = reader.read_line(&mut line_buf) {
+        loop {
+            // input errors are never mistaken for EOS
+            let size = read_line(reader, &mut line_buf)?;
+
             if size == 0 {
                 // reached EOS
                 // we might still have something to process prior exiting
@@ -194,7 +199,7 @@ impl Record {
 
             // (special case) COMMENTS: store as is
             if is_rinex_comment(&line_buf) {
-                let comment = line_buf.split_at(60).0.trim_end();
+                let comment = split_columns(&line_buf, 60).0.trim_end();
                 comment_content.push(comment.to_string());
 
                 // skip parsing
@@ -202,13 +207,22 @@ impl Record {
                 continue;
             }
 
+            // data is solely made of ASCII characters
+            if !line_buf.is_ascii() {
+                line_buf = line_buf
+                    .chars()
+                    .map(|c| if c.is_ascii() { c } else { '?' })
+                    .collect();
+            }
+
+            let is_ionex = header.rinex_type == Type::IonosphereMaps;
+
             // (special case) IONEX exponent scaling:
             // keep up to date, so data interpretation remains correct
-            if line_buf.contains("EXPONENT") {
+            if is_ionex && line_buf.contains("EXPONENT") {
                 // we don't tolerate invalid scaling specs.
                 // This assures that data interpretation is always correct.
-                ionex_tec_exponent = line_buf
-                    .split_at(60)
+                ionex_tec_exponent = split_columns(&line_buf, 60)
                     .0
                     .trim()
                     .parse::<i8>()
@@ -220,26 +234,16 @@ impl Record {
             }
 
             // (special case) IONEX temporal classification
-            if line_buf.contains("EPOCH OF CURRENT MAP") {
+            if is_ionex && line_buf.contains("EPOCH OF CURRENT MAP") {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
-                ionex_t = parse_ionex_utc_epoch(line_buf.split_at(60).0)?;
+                ionex_t = parse_ionex_utc_epoch(split_columns(&line_buf, 60).0)?;
 
                 // skip parsing
                 line_buf.clear();
                 continue;
             }
 
-            // (special case) COMMENTS: store as is
-            if line_buf.contains("COMMENT") {
-                let content = line_buf.split_at(60).0.trim();
-                if let Some(comments) = comments.get_mut(&comment_ts) {
-                    comments.push(content.to_string());
-                } else {
-                    comments.insert(comment_ts, vec![content.to_string()]);
-                }
-            }
-
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
@@ -346,13 +350,19 @@ impl Record {
                         },
 
                         Type::AntennaData => {
-                            let (antenna, content) = parse_antex_antenna(&epoch_buf).unwrap();
-                            atx_rec.push((antenna, content));
+                            if let Ok((antenna, content)) = parse_antex_antenna(&epoch_buf) {
+                                atx_rec.push((antenna, content));
+                            }
                         },
 
                         Type::IonosphereMaps => {
-                            if is_new_tec_map(&line_buf) {
-                                match parse_ionex_tec_map(
+                            comment_ts = ionex_t; // for comments storage
+
+                            // type of the map that was just buffered
+                            let first_line = epoch_buf.lines().next().unwrap_or_default();
+
+                            if is_new_rms_map(first_line) {
+                                match parse_ionex_rms_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
@@ -364,8 +374,8 @@ impl Record {
                                     Ok(()) => {},
                                     Err(_) => {},
                                 }
-                            } else if is_new_rms_map(&line_buf) {
-                                match parse_ionex_rms_map(
+                            } else if is_new_tec_map(&line_buf) {
+                                match parse_ionex_tec_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
@@ -399,6 +409,14 @@ impl Record {
             // clear on new epoch detection
             if new_epoch {
                 epoch_buf.clear();
+
+                // comments encountered while buffering this epoch
+                if !comment_content.is_empty() {
+                    comments
+                        .entry(comment_ts)
+                        .or_default()
+                        .append(&mut comment_content);
+                }
             }
 
             // always stack new content
-- 
2.43.0


From 9fa568220028914c7f92f202babaa83b93bba649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 05/78] fix: ANTEX antenna blocks: short lines, invalid dates
 and satellites are errors, per frequency data not inherited

---
 src/antex/record.rs | 78 ++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 2622f2b..a3fecf3 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -2,8 +2,11 @@ use std::{collections::HashMap, str::FromStr};
 
 use crate::{
     antex::{Antenna, AntennaSpecific, Calibration, CalibrationMethod, RxAntenna, SvAntenna},
+    epoch::parse_second_fraction,
     linspace::Linspace,
-    prelude::{Carrier, Epoch, ParsingError, COSPAR, SV},
+    parse_cospar, parse_sv,
+    prelude::{Carrier, Epoch, ParsingError},
+    split_columns,
 };
 
 #[cfg(feature = "serde")]
@@ -121,11 +124,12 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
         .parse::<u8>()
         .map_err(|_| ParsingError::DatetimeParsing)?;
 
-    Ok(Epoch::from_gregorian_utc_at_midnight(
-        2000 + year,
-        month,
-        day,
-    ))
+    if !(0..=7999).contains(&year) {
+        return Err(ParsingError::DatetimeParsing);
+    }
+
+    let epoch = Epoch::maybe_from_gregorian_utc(2000 + year, month, day, 0, 0, 0, 0)?;
+    Ok(epoch)
 }
 
 /*
@@ -170,19 +174,19 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        nanos = ss[dot + 1..]
-            .trim()
-            .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
+        nanos = parse_second_fraction(ss[dot + 1..].trim())?;
     } else {
         secs = ss
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
     }
 
-    Ok(Epoch::from_gregorian_utc(
-        year, month, day, hh, mm, secs, nanos,
-    ))
+    if !(1..=9999).contains(&year) {
+        return Err(ParsingError::DatetimeParsing);
+    }
+
+    let epoch = Epoch::maybe_from_gregorian_utc(year, month, day, hh, mm, secs, nanos)?;
+    Ok(epoch)
 }
 
 /// Parses entire Antenna block
@@ -198,12 +202,12 @@ pub(crate) fn parse_antenna(
     let mut valid_from = Epoch::default();
 
     for line in lines {
-        let (content, marker) = line.split_at(60);
+        let (content, marker) = split_columns(line, 60);
         if marker.contains("TYPE / SERIAL NO") {
-            let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
-            let (block1, rem) = rem.split_at(20 + 4);
-            let (block2, rem) = rem.split_at(10);
-            let (block3, _rem) = rem.split_at(10);
+            let (ant_igs, rem) = split_columns(content, 16); // IGS V.1.4 does not follow the specs ?
+            let (block1, rem) = split_columns(rem, 20 + 4);
+            let (block2, rem) = split_columns(rem, 10);
+            let (block3, _rem) = split_columns(rem, 10);
 
             let (block1, block2, block3) = (block1.trim(), block2.trim(), block3.trim());
             /*
@@ -212,8 +216,8 @@ pub(crate) fn parse_antenna(
             let specificities = match block2.is_empty() && block3.is_empty() {
                 false => AntennaSpecific::SvAntenna(SvAntenna {
                     igs_type: ant_igs.trim().to_string(),
-                    sv: SV::from_str(block1)?,
-                    cospar: COSPAR::from_str(block3)?,
+                    sv: parse_sv(block1).ok_or(ParsingError::AntexFrequency)?,
+                    cospar: parse_cospar(block3)?,
                 }),
                 true => AntennaSpecific::RxAntenna(RxAntenna {
                     igs_type: ant_igs.trim().to_string(),
@@ -228,13 +232,13 @@ pub(crate) fn parse_antenna(
             };
             antenna = antenna.with_specificities(specificities);
         } else if marker.contains("METH / BY / # / DATE") {
-            let (method, rem) = content.split_at(20);
-            let (agency, rem) = rem.split_at(20);
-            let (number, rem) = rem.split_at(10); // N#
-            let (date, _) = rem.split_at(10);
+            let (method, rem) = split_columns(content, 20);
+            let (agency, rem) = split_columns(rem, 20);
+            let (number, rem) = split_columns(rem, 10); // N#
+            let (date, _) = split_columns(rem, 10);
 
             let cal = Calibration {
-                method: CalibrationMethod::from_str(method.trim()).unwrap(),
+                method: CalibrationMethod::from_str(method.trim())?,
                 number: number
                     .trim()
                     .parse::<u16>()
@@ -252,11 +256,11 @@ pub(crate) fn parse_antenna(
 
             antenna = antenna.with_validity_period(valid_from, valid_until);
         } else if marker.contains("SINEX CODE") {
-            let sinex = content.split_at(20).0;
+            let sinex = split_columns(content, 20).0;
 
             antenna.sinex_code = sinex.trim().to_string();
         } else if marker.contains("DAZI") {
-            //let dazi = content.split_at(20).0.trim();
+            //let dazi = split_columns(content, 20).0.trim();
             //if let Ok(dazi) = f64::from_str(dazi) {
             //    antenna = antenna.with_dazi(dazi)
             //}
@@ -266,13 +270,15 @@ pub(crate) fn parse_antenna(
              * it is easy to determine it from the current infrastructure
              */
         } else if marker.contains("START OF FREQUENCY") {
-            let svnn = content.split_at(10).0;
-            let sv = SV::from_str(svnn.trim())?;
+            let svnn = split_columns(content, 10).0;
+            let sv = parse_sv(svnn).ok_or(ParsingError::AntexFrequency)?;
             frequency = Carrier::from_sv(sv)?;
+            // never inherited from previous frequency
+            freq_data = FrequencyDependentData::default();
         } else if marker.contains("NORTH / EAST / UP") {
-            let (north, rem) = content.split_at(10);
-            let (east, rem) = rem.split_at(10);
-            let (up, _) = rem.split_at(10);
+            let (north, rem) = split_columns(content, 10);
+            let (east, rem) = split_columns(rem, 10);
+            let (up, _) = split_columns(rem, 10);
 
             let north = north
                 .trim()
@@ -291,9 +297,9 @@ pub(crate) fn parse_antenna(
 
             freq_data.apc_eccentricity = (north, east, up);
         } else if marker.contains("ZEN1 / ZEN2 / DZEN") {
-            let (start, rem) = content.split_at(8);
-            let (end, rem) = rem.split_at(6);
-            let (spacing, _) = rem.split_at(6);
+            let (start, rem) = split_columns(content, 8);
+            let (end, rem) = split_columns(rem, 6);
+            let (spacing, _) = split_columns(rem, 6);
 
             let start = start
                 .trim()
@@ -324,7 +330,7 @@ pub(crate) fn parse_antenna(
             // inside phase pattern
         }
         //    } else if marker.contains("SINEX CODE") {
-        //        let sinex = content.split_at(10).0;
+        //        let sinex = split_columns(content, 10).0;
         //        antenna = antenna.with_sinex_code(sinex.trim())
         //        if line.contains("NOAZI") {
         //            frequency = frequency.add_pattern(Pattern::NonAzimuthDependent(values.clone()))
-- 
2.43.0


From 8fc3fa4080ddb18e3bebc931d8c96f6db092a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 06/78] fix: navigation frames: short or damaged lines are
 errors, orbit fields aligned on their columns

---
 src/navigation/earth_orientation.rs    | 19 +++----
 src/navigation/ephemeris/parsing.rs    | 73 +++++++++++---------------
 src/navigation/ionosphere/bdgim.rs     | 15 +++---
 src/navigation/ionosphere/klobuchar.rs | 15 +++---
 src/navigation/ionosphere/mod.rs       | 28 +++++-----
 src/navigation/ionosphere/nequick_g.rs |  7 +--
 src/navigation/parsing/mod.rs          | 15 +++---
 src/navigation/parsing/v4.rs           | 12 +++--
 src/navigation/system_time.rs          | 11 ++--
 9 files changed, 97 insertions(+), 98 deletions(-)

diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index b78c038..d540814 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -3,6 +3,7 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 use std::str::FromStr;
@@ -28,17 +29,17 @@ impl EarthOrientation {
         line_3: &str,
         ts: TimeScale,
     ) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (xp, rem) = rem.split_at(19);
-        let (dxp, ddxp) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line_1, 23);
+        let (xp, rem) = split_columns(rem, 19);
+        let (dxp, ddxp) = split_columns(rem, 19);
 
-        let (_, rem) = line_2.split_at(23);
-        let (yp, rem) = rem.split_at(19);
-        let (dyp, ddyp) = rem.split_at(19);
+        let (_, rem) = split_columns(line_2, 23);
+        let (yp, rem) = split_columns(rem, 19);
+        let (dyp, ddyp) = split_columns(rem, 19);
 
-        let (t_tm, rem) = line_3.split_at(23);
-        let (dut, rem) = rem.split_at(19);
-        let (ddut, dddut) = rem.split_at(19);
+        let (t_tm, rem) = split_columns(line_3, 23);
+        let (dut, rem) = split_columns(rem, 19);
+        let (ddut, dddut) = split_columns(rem, 19);
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 6729d82..5b4429f 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -1,7 +1,10 @@
 use crate::{
+    columns,
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     navigation::{orbits::closest_nav_standards, Ephemeris, NavMessageType, OrbitItem},
+    parse_sv,
     prelude::{Constellation, Epoch, ParsingError, TimeScale, Version, SV},
+    split_columns,
 };
 
 use std::{collections::HashMap, str::Lines};
@@ -38,54 +41,42 @@ fn parse_orbits(
     let word_size: usize = 19;
     let mut map: HashMap<String, OrbitItem> = HashMap::new();
 
-    for line in lines {
-        // trim first few white spaces
-        let mut line: &str = match version.major < 3 {
-            true => &line[3..],
-            false => &line[4..],
-        };
-
-        let mut nb_missing = 4 - (line.len() / word_size);
-        // println!("LINE \"{}\" | NB MISSING {}", line, nb_missing); //DEBUG
-
-        loop {
-            if line.is_empty() {
-                key_index += nb_missing;
-                break;
-            }
+    // trim first few white spaces
+    let offset: usize = match version.major < 3 {
+        true => 3,
+        false => 4,
+    };
 
-            let (content, rem) = line.split_at(std::cmp::min(word_size, line.len()));
-            let content = content.trim();
+    for line in lines {
+        // Always 4 fields per line: some may be omitted
+        for nth in 0..4 {
+            let start = offset + nth * word_size;
+            let content = columns(line, start, start + word_size).trim();
             // println!("CONTENT \"{}\"", content); // DEBUG
 
+            let index = key_index;
+            key_index += 1;
+
             // handle omitted fields
             if content.is_empty() {
-                // omitted field
-                key_index += 1;
-                nb_missing = nb_missing.saturating_sub(1);
-                line = rem;
                 continue;
             }
 
             // zeros mean unresolved/unknown fields
             if content.starts_with("0.000000000000E+00") {
-                line = rem;
-                key_index += 1;
                 continue;
             }
 
             // zeros mean unresolved/unknown fields
             if content.starts_with("0.000000000000D+00") {
-                line = rem;
-                key_index += 1;
                 continue;
             }
 
-            if let Some((key, token)) = fields.get(key_index) {
+            if let Some((key, token)) = fields.get(index) {
                 //println!(
                 //    "Key \"{}\"(index: {}) | Token \"{}\" | Content \"{}\"",
                 //    key,
-                //    key_index,
+                //    index,
                 //    token,
                 //    content.trim()
                 //); //DEBUG
@@ -96,8 +87,6 @@ fn parse_orbits(
                     }
                 }
             }
-            key_index += 1;
-            line = rem;
         }
     }
     Ok(map)
@@ -120,21 +109,21 @@ impl Ephemeris {
             false => 4,
         };
 
-        let (svnn, rem) = line.split_at(svnn_offset);
-        let (date, rem) = rem.split_at(19);
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
+        let (svnn, rem) = split_columns(line, svnn_offset);
+        let (date, rem) = split_columns(rem, 19);
+        let (clk_bias, rem) = split_columns(rem, 19);
+        let (clk_dr, clk_drr) = split_columns(rem, 19);
 
-        let sv = match svnn.trim().parse::<SV>() {
-            Ok(sv) => sv,
-            Err(_) => {
+        let sv = match parse_sv(svnn) {
+            Some(sv) => sv,
+            None => {
                 // In very old RINex, it is possible to wind up here
                 // when constellation is omitted. Yet this is only tolerated
                 // in mono constellation contexts, MIXED context are not supported
                 // to exist in old revision anyway. We let the possibility to fail
                 // on incorrect content here.
                 let desc = format!("{:x}{:02}", constellation, svnn.trim());
-                desc.parse::<SV>()?
+                parse_sv(&desc).ok_or(ParsingError::UndefinedConstellation)?
             },
         };
 
@@ -201,13 +190,13 @@ impl Ephemeris {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (svnn, rem) = line.split_at(4);
-        let sv = svnn.trim().parse::<SV>()?;
-        let (epoch, rem) = rem.split_at(19);
+        let (svnn, rem) = split_columns(line, 4);
+        let sv = parse_sv(svnn).ok_or(ParsingError::UndefinedConstellation)?;
+        let (epoch, rem) = split_columns(rem, 19);
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
+        let (clk_bias, rem) = split_columns(rem, 19);
+        let (clk_dr, clk_drr) = split_columns(rem, 19);
 
         let clock_bias = clk_bias
             .replace('D', "E")
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index 140726b..f32391f 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -1,6 +1,7 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 use std::str::FromStr;
@@ -24,23 +25,23 @@ impl BdModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line, 23);
+        let (a0, rem) = split_columns(rem, 19);
+        let (a1, a2) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (a4, rem) = rem.split_at(19);
-        let (a5, a6) = rem.split_at(19);
+        let (a3, rem) = split_columns(line, 23);
+        let (a4, rem) = split_columns(rem, 19);
+        let (a5, a6) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a7, a8) = line.split_at(23);
+        let (a7, a8) = split_columns(line, 23);
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index 52707aa..f01b1b8 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -1,6 +1,7 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 use std::str::FromStr;
@@ -47,23 +48,23 @@ impl KbModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line, 23);
+        let (a0, rem) = split_columns(rem, 19);
+        let (a1, a2) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (b0, rem) = rem.split_at(19);
-        let (b1, b2) = rem.split_at(19);
+        let (a3, rem) = split_columns(line, 23);
+        let (b0, rem) = split_columns(rem, 19);
+        let (b1, b2) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (b3, region) = line.split_at(23);
+        let (b3, region) = split_columns(line, 23);
 
         let region: KbRegionCode = match region.trim().len() {
             0 => KbRegionCode::Worldwide,
diff --git a/src/navigation/ionosphere/mod.rs b/src/navigation/ionosphere/mod.rs
index 5aaba79..95baa72 100644
--- a/src/navigation/ionosphere/mod.rs
+++ b/src/navigation/ionosphere/mod.rs
@@ -1,4 +1,4 @@
-use crate::prelude::ParsingError;
+use crate::{prelude::ParsingError, split_columns};
 
 use std::str::FromStr;
 
@@ -33,15 +33,15 @@ impl IonosphereModel {
     /// In this case, it will apply for the entire day course.
     /// Two models may exist: Klobuchar and NequickG.
     pub(crate) fn from_rinex3_header(header: &str) -> Result<Self, ParsingError> {
-        let (system, rem) = header.split_at(5);
+        let (system, rem) = split_columns(header, 5);
         match system.trim() {
             /*
              * Models that only needs 3 fields
              */
             "GAL" => {
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, _) = rem.split_at(12);
+                let (a0, rem) = split_columns(rem, 12);
+                let (a1, rem) = split_columns(rem, 12);
+                let (a2, _) = split_columns(rem, 12);
                 let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?;
                 let a1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?;
                 let a2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::NequickGData)?;
@@ -55,10 +55,10 @@ impl IonosphereModel {
                 /*
                  * Model has 4 fields
                  */
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, rem) = rem.split_at(12);
-                let (a3, _) = rem.split_at(12);
+                let (a0, rem) = split_columns(rem, 12);
+                let (a1, rem) = split_columns(rem, 12);
+                let (a2, rem) = split_columns(rem, 12);
+                let (a3, _) = split_columns(rem, 12);
                 // World or QZSS special orbital plan
                 let region = match system.contains("QZS") {
                     true => KbRegionCode::Japan,
@@ -96,11 +96,11 @@ impl IonosphereModel {
     /// Only the Klobuchar model may exist.
     pub(crate) fn from_rinex2_header(header: &str, marker: &str) -> Result<Self, ParsingError> {
         let header = header.replace("d", "e").replace("D", "E");
-        let (_, rem) = header.split_at(2);
-        let (a0, rem) = rem.split_at(12);
-        let (a1, rem) = rem.split_at(12);
-        let (a2, rem) = rem.split_at(12);
-        let (a3, _) = rem.split_at(12);
+        let (_, rem) = split_columns(&header, 2);
+        let (a0, rem) = split_columns(rem, 12);
+        let (a1, rem) = split_columns(rem, 12);
+        let (a2, rem) = split_columns(rem, 12);
+        let (a3, _) = split_columns(rem, 12);
 
         if marker.contains("ALPHA") {
             let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 8980a78..46ecabf 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -1,6 +1,7 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 use bitflags::bitflags;
@@ -41,9 +42,9 @@ impl NgModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, rem) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line, 23);
+        let (a0, rem) = split_columns(rem, 19);
+        let (a1, rem) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
diff --git a/src/navigation/parsing/mod.rs b/src/navigation/parsing/mod.rs
index a6104c9..75d0fa4 100644
--- a/src/navigation/parsing/mod.rs
+++ b/src/navigation/parsing/mod.rs
@@ -1,7 +1,10 @@
 use crate::{
+    columns,
     epoch::parse_utc as parse_utc_epoch,
     navigation::{Ephemeris, NavFrame, NavFrameType, NavKey, NavMessageType},
-    prelude::{Header, ParsingError, Version, SV},
+    parse_sv,
+    prelude::{Header, ParsingError, Version},
+    split_columns,
 };
 
 mod v4;
@@ -44,12 +47,12 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
                           // to describe a PRN and an Epoch
         }
 
-        let (prn, _) = line.split_at(2);
+        let (prn, _) = split_columns(line, 2);
         if prn.trim().parse::<u8>().is_err() {
             return false;
         }
 
-        let datestr = &line[3..22];
+        let datestr = columns(line, 3, 22);
         parse_utc_epoch(datestr).is_ok()
     } else if v.major == 3 {
         // RINEX V3
@@ -59,13 +62,13 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
         }
 
         // 1st entry matches a valid SV description
-        let (sv, _) = line.split_at(4);
+        let (sv, _) = split_columns(line, 4);
 
-        if sv.parse::<SV>().is_err() {
+        if parse_sv(sv).is_none() {
             return false;
         }
 
-        let datestr = &line[4..23];
+        let datestr = columns(line, 4, 23);
         parse_utc_epoch(datestr).is_ok()
     } else {
         // Modern --> easy
diff --git a/src/navigation/parsing/v4.rs b/src/navigation/parsing/v4.rs
index b9022d9..3e64aa9 100644
--- a/src/navigation/parsing/v4.rs
+++ b/src/navigation/parsing/v4.rs
@@ -3,7 +3,9 @@ use crate::{
         BdModel, EarthOrientation, Ephemeris, IonosphereModel, KbModel, NavFrame, NavFrameType,
         NavKey, NavMessageType, NgModel, SystemTime,
     },
-    prelude::{Constellation, ParsingError, SV},
+    parse_sv,
+    prelude::{Constellation, ParsingError},
+    split_columns,
 };
 
 /// ([NavKey], [NavFrame]) parsing attempt for a V4 frame.
@@ -16,13 +18,13 @@ pub fn parse(content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
         _ => return Err(ParsingError::EmptyEpoch),
     };
 
-    let (_, rem) = line.split_at(2);
-    let (class, rem) = rem.split_at(4);
-    let (svnn, rem) = rem.split_at(4);
+    let (_, rem) = split_columns(line, 2);
+    let (class, rem) = split_columns(rem, 4);
+    let (svnn, rem) = split_columns(rem, 4);
 
     // frmtype defines message to follow
     let frmtype = class.trim().parse::<NavFrameType>()?;
-    let sv = svnn.trim().parse::<SV>()?;
+    let sv = parse_sv(svnn).ok_or(ParsingError::UndefinedConstellation)?;
     let msgtype = rem.trim().parse::<NavMessageType>()?;
 
     let ts = sv
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index e7b66a1..f07ac42 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -7,6 +7,7 @@ use serde::{Deserialize, Serialize};
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
+    split_columns,
 };
 
 /// System Time (offset) Message
@@ -25,14 +26,14 @@ pub struct SystemTime {
 
 impl SystemTime {
     pub fn parse(line_1: &str, line_2: &str, ts: TimeScale) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (system, rem) = rem.split_at(5);
+        let (epoch, rem) = split_columns(line_1, 23);
+        let (system, rem) = split_columns(rem, 5);
         let utc = rem.trim().to_string();
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
-        let (a0, rem) = line_2.split_at(23);
-        let (a1, rem) = rem.split_at(19);
-        let (a2, time) = rem.split_at(19);
+        let (a0, rem) = split_columns(line_2, 23);
+        let (a1, rem) = split_columns(rem, 19);
+        let (a2, time) = split_columns(rem, 19);
         let t_tm = f64::from_str(time.trim()).map_err(|_| ParsingError::SystemTimeData)?;
 
         Ok((
-- 
2.43.0


From 8747d6900de4fec863c5812ea5172ed333aaaeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 07/78] fix: meteo: last field of unterminated lines,
 continuation lines and short lines

---
 src/meteo/parsing.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/meteo/parsing.rs b/src/meteo/parsing.rs
index da97c91..d94bf9d 100644
--- a/src/meteo/parsing.rs
+++ b/src/meteo/parsing.rs
@@ -1,4 +1,5 @@
 use crate::{
+    columns,
     epoch::parse_utc as parse_utc_epoch,
     prelude::{Header, MeteoKey, ParsingError, Version},
 };
@@ -11,7 +12,7 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
             // minimum epoch descriptor
             return false;
         }
-        let datestr = &line[1..min_len.len()];
+        let datestr = columns(line, 1, min_len.len());
         parse_utc_epoch(datestr).is_ok() // valid epoch descriptor
     } else {
         let min_len = " 2021  1  7  0  0  0";
@@ -19,7 +20,7 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
             // minimum epoch descriptor
             return false;
         }
-        let datestr = &line[1..min_len.len()];
+        let datestr = columns(line, 1, min_len.len());
         parse_utc_epoch(datestr).is_ok() // valid epoch descriptor
     }
 }
@@ -29,7 +30,10 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
 ///   - header: [Header] parsed previously
 ///   - content: readable content
 pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
-    let line_len = line.len();
+    // number of observations: on first line, and following lines
+    const OBS_FIRST_LINE: usize = 8;
+    const OBS_PER_LINE: usize = 10;
+
     let mut ret = Vec::<(MeteoKey, f64)>::with_capacity(8);
 
     let mut offset: usize = 18; // YY
@@ -37,7 +41,10 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
         offset += 2; // YYYY
     }
 
-    let epoch = parse_utc_epoch(&line[0..offset])?;
+    let mut lines = line.lines();
+    let mut line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
+
+    let epoch = parse_utc_epoch(columns(line, 0, offset))?;
 
     let header = &header
         .meteo
@@ -47,9 +54,17 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
     let codes = &header.codes;
 
     // parse all remaining fields
-    for code in codes.iter() {
-        let end = (offset + 7).min(line_len - 1);
-        let slice = &line[offset..end];
+    for (nth, code) in codes.iter().enumerate() {
+        if nth >= OBS_FIRST_LINE && (nth - OBS_FIRST_LINE) % OBS_PER_LINE == 0 {
+            // continuation line
+            match lines.next() {
+                Some(next) => line = next,
+                None => break,
+            }
+            offset = 4;
+        }
+
+        let slice = columns(line, offset, offset + 7);
         if let Ok(value) = slice.trim().parse::<f64>() {
             ret.push((
                 MeteoKey {
-- 
2.43.0


From b36a21bf81979480f656638723b07415fef58510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 08/78] fix: clock record and header: short or damaged lines

---
 src/clock/mod.rs    | 32 +++++++++++---------------------
 src/clock/record.rs | 22 ++++++++++++----------
 2 files changed, 23 insertions(+), 31 deletions(-)

diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 5b58c88..f0fcf2f 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -3,14 +3,12 @@ pub mod record;
 
 pub use record::{ClockKey, ClockProfile, ClockProfileType, ClockType, Record};
 
-use std::{
-    io::{BufWriter, Write},
-    str::FromStr,
-};
+use std::io::{BufWriter, Write};
 
 use crate::{
-    fmt_rinex,
+    fmt_rinex, parse_domes,
     prelude::{FormattingError, TimeScale, Version, DOMES},
+    split_columns,
 };
 
 /// Clocks `RINEX` specific header fields
@@ -52,16 +50,12 @@ impl WorkClock {
     pub(crate) fn parse(version: Version, content: &str) -> Self {
         const LIMIT: Version = Version { major: 3, minor: 4 };
         if version < LIMIT {
-            let (name, rem) = content.split_at(4);
-            let (domes, rem) = rem.split_at(36);
-            let constraint = rem.split_at(20).0;
+            let (name, rem) = split_columns(content, 4);
+            let (domes, rem) = split_columns(rem, 36);
+            let constraint = split_columns(rem, 20).0;
             Self {
                 name: name.trim().to_string(),
-                domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
-                    Some(domes)
-                } else {
-                    None
-                },
+                domes: parse_domes(domes),
                 constraint: if let Ok(value) = constraint.trim().parse::<f64>() {
                     Some(value)
                 } else {
@@ -69,16 +63,12 @@ impl WorkClock {
                 },
             }
         } else {
-            let (name, rem) = content.split_at(10);
-            let (domes, rem) = rem.split_at(10);
-            let constraint = rem.split_at(40).0;
+            let (name, rem) = split_columns(content, 10);
+            let (domes, rem) = split_columns(rem, 10);
+            let constraint = split_columns(rem, 40).0;
             Self {
                 name: name.trim().to_string(),
-                domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
-                    Some(domes)
-                } else {
-                    None
-                },
+                domes: parse_domes(domes),
                 constraint: if let Ok(value) = constraint.trim().parse::<f64>() {
                     Some(value)
                 } else {
diff --git a/src/clock/record.rs b/src/clock/record.rs
index 6d58249..4de31c9 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -4,7 +4,9 @@ use std::{collections::BTreeMap, str::FromStr};
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    parse_sv,
     prelude::{Epoch, ParsingError, TimeScale, Version, SV},
+    split_columns,
 };
 
 #[cfg(feature = "processing")]
@@ -142,7 +144,7 @@ pub(crate) fn is_new_epoch(line: &str) -> bool {
     if line.len() < 3 {
         false
     } else {
-        let content = &line[..2];
+        let (content, _) = split_columns(line, 2);
         ClockProfileType::from_str(content).is_ok()
     }
 }
@@ -159,15 +161,15 @@ pub(crate) fn parse_epoch(
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
 
     const LIMIT: Version = Version { major: 3, minor: 4 };
-    let (dtype, mut rem) = line.split_at(3);
+    let (dtype, mut rem) = split_columns(line, 3);
     let profile_type = ClockProfileType::from_str(dtype.trim())?;
 
     let clock_type = match version < LIMIT {
         true => {
             // old revision
-            let (system_str, r) = rem.split_at(5);
+            let (system_str, r) = split_columns(rem, 5);
             rem = r;
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
+            if let Some(svnn) = parse_sv(system_str) {
                 ClockType::SV(svnn)
             } else {
                 ClockType::Station(system_str.trim().to_string())
@@ -175,14 +177,14 @@ pub(crate) fn parse_epoch(
         },
         false => {
             // modern revision
-            let (system_str, r) = rem.split_at(4);
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
-                let (_, r) = r.split_at(6);
+            let (system_str, r) = split_columns(rem, 4);
+            if let Some(svnn) = parse_sv(system_str) {
+                let (_, r) = split_columns(r, 6);
                 rem = r;
                 ClockType::SV(svnn)
             } else {
                 let mut content = system_str.to_owned();
-                let (remainder, r) = r.split_at(6);
+                let (remainder, r) = split_columns(r, 6);
                 rem = r;
                 content.push_str(remainder);
                 ClockType::Station(content.trim().to_string())
@@ -193,11 +195,11 @@ pub(crate) fn parse_epoch(
     // Epoch: Y on 4 digits, even on RINEX2
     const OFFSET: usize = "yyyy mm dd hh mm sssssssssss".len();
 
-    let (epoch, rem) = rem.split_at(OFFSET);
+    let (epoch, rem) = split_columns(rem, OFFSET);
     let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
     // nb of data fields
-    let (_n, rem) = rem.split_at(4);
+    let (_n, rem) = split_columns(rem, 4);
 
     // data fields
     let mut profile = ClockProfile::default();
-- 
2.43.0


From 03d648ad7ebc016fd27d73e385126f28c06b7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 09/78] fix: written observation and meteo files: types of
 observation label, clock offset field, empty epochs and missing meteo values

---
 src/meteo/formatting.rs       | 13 ++++++--
 src/meteo/header.rs           |  4 +--
 src/observation/formatting.rs | 59 +++++++++++++++++++++--------------
 src/observation/header.rs     |  2 +-
 4 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/meteo/formatting.rs b/src/meteo/formatting.rs
index 5daec45..d8d9d88 100644
--- a/src/meteo/formatting.rs
+++ b/src/meteo/formatting.rs
@@ -14,6 +14,10 @@ pub fn format<W: Write>(
     record: &Record,
     header: &Header,
 ) -> Result<(), FormattingError> {
+    // number of observations: on first line, and following lines
+    const OBS_FIRST_LINE: usize = 8;
+    const OBS_PER_LINE: usize = 10;
+
     let observables = &header
         .meteo
         .as_ref()
@@ -27,7 +31,12 @@ pub fn format<W: Write>(
         )?;
 
         // follow header definitions
-        for observable in observables.codes.iter() {
+        for (nth, observable) in observables.codes.iter().enumerate() {
+            if nth >= OBS_FIRST_LINE && (nth - OBS_FIRST_LINE) % OBS_PER_LINE == 0 {
+                // continuation line
+                write!(w, "\n    ")?;
+            }
+
             let key = MeteoKey {
                 epoch,
                 observable: observable.clone(),
@@ -36,7 +45,7 @@ pub fn format<W: Write>(
             if let Some(observation) = record.get(&key) {
                 write!(w, "{:7.1}", observation)?;
             } else {
-                write!(w, "           ")?;
+                write!(w, "       ")?;
             }
         }
         write!(w, "{}", '\n')?;
diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 1e709c9..409eae3 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -40,13 +40,13 @@ impl HeaderFields {
             write!(w, "    {}", observable)?;
 
             if (nth % NUM_OBSERVABLES_PER_LINE) == NUM_OBSERVABLES_PER_LINE - 1 {
-                write!(w, "# / TYPES OF OBSERV\n      ")?;
+                writeln!(w, "# / TYPES OF OBSERV")?;
             }
 
             modulo = nth % NUM_OBSERVABLES_PER_LINE;
         }
 
-        if modulo != 7 {
+        if modulo != NUM_OBSERVABLES_PER_LINE - 1 {
             writeln!(
                 w,
                 "{:>width$}",
diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index 8b14ac3..79cc63b 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -117,37 +117,48 @@ impl Observations {
         const NUM_SV_PER_LINE: usize = 12;
         const NEW_LINE_PADDING: &str = "                                ";
 
-        if let Some(clock) = self.clock {
-            write!(
-                w,
-                " {}  {} {:2}",
-                epoch_format(key.epoch, RinexType::ObservationData, 2),
-                key.flag,
-                numsat,
-            )?;
-        } else {
-            write!(
-                w,
-                " {}  {} {:2}",
-                epoch_format(key.epoch, RinexType::ObservationData, 2),
-                key.flag,
-                numsat,
-            )?;
-        }
+        write!(
+            w,
+            " {}  {} {:2}",
+            epoch_format(key.epoch, RinexType::ObservationData, 2),
+            key.flag,
+            numsat,
+        )?;
 
         for (nth, sv) in sv_list.iter().enumerate() {
             if nth > 0 && (nth % NUM_SV_PER_LINE) == 0 {
-                write!(w, "{}", NEW_LINE_PADDING)?;
+                write!(w, "\n{}", NEW_LINE_PADDING)?;
             }
+
             write!(w, "{:x}", sv)?;
-            if nth < numsat - 1 && nth % NUM_SV_PER_LINE == NUM_SV_PER_LINE - 1 {
-                write!(w, "{}", '\n')?;
-            }
-            if nth == numsat - 1 {
-                write!(w, "{}", '\n')?;
+
+            // clock offset concludes the first line
+            if nth + 1 == NUM_SV_PER_LINE.min(numsat) {
+                self.format_clock_v2(w, nth + 1)?;
             }
         }
 
+        if numsat == 0 {
+            self.format_clock_v2(w, 0)?;
+        }
+
+        write!(w, "{}", '\n')?;
+        Ok(())
+    }
+
+    /// Format possible clock offset according to V2 RINEX format:
+    /// past the field dedicated to 12 satellites.
+    fn format_clock_v2<W: Write>(
+        &self,
+        w: &mut BufWriter<W>,
+        numsat: usize,
+    ) -> Result<(), FormattingError> {
+        const NUM_SV_PER_LINE: usize = 12;
+
+        if let Some(clock) = self.clock {
+            let padding = (NUM_SV_PER_LINE - numsat) * 3;
+            write!(w, "{:padding$}{:12.9}", "", clock.offset_s)?;
+        }
         Ok(())
     }
 
@@ -231,7 +242,7 @@ impl Observations {
         if let Some(clock) = self.clock {
             writeln!(
                 w,
-                "> {}  {} {:2}  {:13.4}",
+                "> {}  {} {:2}      {:15.12}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
diff --git a/src/observation/header.rs b/src/observation/header.rs
index b419fce..3d9acd4 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -107,7 +107,7 @@ impl HeaderFields {
                 modulo = nth % 9;
             }
 
-            if modulo != 7 {
+            if modulo != 8 {
                 writeln!(
                     w,
                     "{:>width$}",
-- 
2.43.0


From cec075497dc69f9f56c7c288af01045aedb00c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 10/78] fix: QZS and GLO time system identifiers

---
 src/header/parsing.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index d8877c1..e3b4b11 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -830,8 +830,12 @@ impl Header {
                 //    time_corrections.insert(ts, (ts, corr));
                 //}
             } else if marker.contains("TIME SYSTEM ID") {
-                let timescale = content.trim();
-                let ts = TimeScale::from_str(timescale)?;
+                let ts = match content.trim() {
+                    // Glonass system time is aligned to UTC
+                    "GLO" => TimeScale::UTC,
+                    "QZS" => TimeScale::QZSST,
+                    timescale => TimeScale::from_str(timescale)?,
+                };
                 clock = clock.timescale(ts);
             } else if marker.contains("DESCRIPTION") {
                 // IONEX description
@@ -1058,6 +1062,7 @@ impl Header {
             ts = match rem {
                 // Glonass system time is aligned to UTC
                 "GLO" => TimeScale::UTC,
+                "QZS" => TimeScale::QZSST,
                 _ => TimeScale::from_str(rem)?,
             };
         }
-- 
2.43.0


From 17d53cebb2c8dd08949eea16d26a4b4d4eb3b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 11/78] fix: marker number above 99, marker types, marker lines
 in any order

---
 src/header/parsing.rs | 12 +++++-------
 src/marker.rs         | 22 ++++++++++++++++++----
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index e3b4b11..82bb1a5 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -300,18 +300,16 @@ impl Header {
                 }
             } else if marker.contains("MARKER NAME") {
                 let name = split_columns(content, 20).0.trim();
-                geodetic_marker = Some(GeodeticMarker::default().with_name(name));
+                geodetic_marker = Some(geodetic_marker.unwrap_or_default().with_name(name));
             } else if marker.contains("MARKER NUMBER") {
                 let number = split_columns(content, 20).0.trim();
-                if let Some(ref mut marker) = geodetic_marker {
-                    *marker = marker.with_number(number);
-                }
+                geodetic_marker = Some(geodetic_marker.unwrap_or_default().with_number(number));
             } else if marker.contains("MARKER TYPE") {
                 let code = split_columns(content, 20).0.trim();
                 if let Ok(mtype) = MarkerType::from_str(code) {
-                    if let Some(ref mut marker) = geodetic_marker {
-                        marker.marker_type = Some(mtype);
-                    }
+                    let mut marker = geodetic_marker.unwrap_or_default();
+                    marker.marker_type = Some(mtype);
+                    geodetic_marker = Some(marker);
                 }
             } else if marker.contains("OBSERVER / AGENCY") {
                 let (obs, ag) = split_columns(content, 20);
diff --git a/src/marker.rs b/src/marker.rs
index a0ad313..93e077c 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -61,7 +61,8 @@ pub enum MarkerType {
 impl std::str::FromStr for MarkerType {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s.to_lowercase().as_str() {
+        // standard definitions use underscores
+        match s.trim().to_lowercase().replace('_', " ").as_str() {
             "geodetic" => Ok(Self::Geodetic),
             "non geodetic" => Ok(Self::NonGeodetic),
             "ground craft" => Ok(Self::Groundcraft),
@@ -69,6 +70,7 @@ impl std::str::FromStr for MarkerType {
             "airborne" => Ok(Self::Airborne),
             "non physical" => Ok(Self::NonPhysical),
             "spaceborne" => Ok(Self::Spaceborne),
+            "fixed buoy" => Ok(Self::FixedBuoy),
             "floating ice" => Ok(Self::FloatingIce),
             "floating buoy" => Ok(Self::FloatingBuoy),
             "glacier" => Ok(Self::Glacier),
@@ -84,7 +86,19 @@ impl std::fmt::Display for MarkerType {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         match self {
             Self::Geodetic => write!(f, "GEODETIC"),
-            _ => write!(f, "HUMAN"),
+            Self::NonGeodetic => write!(f, "NON_GEODETIC"),
+            Self::NonPhysical => write!(f, "NON_PHYSICAL"),
+            Self::Spaceborne => write!(f, "SPACEBORNE"),
+            Self::Airborne => write!(f, "AIRBORNE"),
+            Self::Watercraft => write!(f, "WATER_CRAFT"),
+            Self::Groundcraft => write!(f, "GROUND_CRAFT"),
+            Self::FixedBuoy => write!(f, "FIXED_BUOY"),
+            Self::FloatingBuoy => write!(f, "FLOATING_BUOY"),
+            Self::FloatingIce => write!(f, "FLOATING_ICE"),
+            Self::Glacier => write!(f, "GLACIER"),
+            Self::Ballistic => write!(f, "BALLISTIC"),
+            Self::Animal => write!(f, "ANIMAL"),
+            Self::Human => write!(f, "HUMAN"),
         }
     }
 }
@@ -117,9 +131,9 @@ impl GeodeticMarker {
     /// Returns a GeodeticMarker with "number" only if it matches standardized format.
     pub fn with_number(&self, content: &str) -> Self {
         let mut s = self.clone();
-        if content.len() == 9 && content.chars().nth(5) == Some('M') {
+        if content.is_ascii() && content.len() == 9 && content.chars().nth(5) == Some('M') {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
-                if let Ok(monument) = u16::from_str_radix(&content[7..], 10) {
+                if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
                 }
-- 
2.43.0


From b2fd3708d10f84732770b0706cc9e7c0df56a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 12/78] fix: header formatting: GLONASS slots, missing
 constellation is an error, IONEX reference system

---
 src/header/formatting.rs | 45 +++++++++++++++++-----------------------
 src/ionex/system.rs      | 13 ++++++++++--
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index e75727e..72f63ac 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -7,6 +7,8 @@ use crate::{
     types::Type,
 };
 
+use itertools::Itertools;
+
 use std::io::{BufWriter, Write};
 
 impl Header {
@@ -62,34 +64,25 @@ impl Header {
             leap.format(w)?;
         }
 
-        let num_channels = self.glo_channels.len();
-
-        if num_channels > 0 {
-            write!(w, "{:3} ", num_channels,)?;
-        }
+        // same description whatever the storage order
+        let glo_channels = self
+            .glo_channels
+            .iter()
+            .sorted_by_key(|(sv, _)| **sv)
+            .collect::<Vec<_>>();
 
-        let mut modulo = 0;
-        for (nth, (sv, channel)) in self.glo_channels.iter().enumerate() {
-            write!(w, "{:x} {:2} ", sv, channel,)?;
-
-            if nth == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                write!(w, "GLONASS SLOT / FRQ #\n    ")?;
+        for (nth, channels) in glo_channels.chunks(NUM_GLO_CHANNELS_PER_LINE).enumerate() {
+            let mut string = if nth == 0 {
+                format!("{:3} ", glo_channels.len())
             } else {
-                if (nth % NUM_GLO_CHANNELS_PER_LINE) == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                    write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-                }
-            }
+                "    ".to_string()
+            };
 
-            modulo = nth % NUM_GLO_CHANNELS_PER_LINE;
-        }
+            for (sv, channel) in channels {
+                string.push_str(&format!("{:x} {:2} ", sv, channel));
+            }
 
-        if modulo > 0 && modulo != NUM_GLO_CHANNELS_PER_LINE - 1 {
-            writeln!(
-                w,
-                "{:>width$}",
-                "GLONASS SLOT / FRQ #",
-                width = 79 - 9 - (modulo + 1) * 6
-            )?;
+            writeln!(w, "{}", fmt_rinex(&string, "GLONASS SLOT / FRQ #"))?;
         }
 
         //TODO
@@ -144,7 +137,7 @@ impl Header {
                         )
                     )?;
                 },
-                _ => panic!("constellation must be specified when formatting a NavigationData"),
+                _ => return Err(FormattingError::NoConstellationDefinition),
             },
             Type::ObservationData => match self.constellation {
                 Some(Constellation::Mixed) => {
@@ -173,7 +166,7 @@ impl Header {
                         )
                     )?;
                 },
-                _ => panic!("constellation must be specified when formatting ObservationData"),
+                _ => return Err(FormattingError::NoConstellationDefinition),
             },
             Type::MeteoData => {
                 writeln!(
diff --git a/src/ionex/system.rs b/src/ionex/system.rs
index 3c1f8e6..37e880d 100644
--- a/src/ionex/system.rs
+++ b/src/ionex/system.rs
@@ -54,7 +54,12 @@ impl std::str::FromStr for ObsSystem {
 
 impl std::fmt::Display for ObsSystem {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::BENt => f.write_str("BEN"),
+            Self::ENVisat => f.write_str("ENV"),
+            Self::ERS => f.write_str("ERS"),
+            Self::IRI => f.write_str("IRI"),
+        }
     }
 }
 
@@ -87,7 +92,11 @@ impl std::str::FromStr for Model {
 
 impl std::fmt::Display for Model {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::MIX => f.write_str("MIX"),
+            Self::NNS => f.write_str("NNS"),
+            Self::TOP => f.write_str("TOP"),
+        }
     }
 }
 
-- 
2.43.0


From a4d829343d7a90fabba29bcb13c66d5ae5522f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 13/78] fix: two digit year 79

---
 src/epoch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 7fd2af6..32ffade 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -133,7 +133,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 /* old RINEX problem: YY sometimes encoded on two digits */
                 if y > 79 && y <= 99 {
                     y += 1900;
-                } else if y < 79 {
+                } else if y <= 79 {
                     y += 2000;
                 }
             },
-- 
2.43.0


From 5d298c861526a8e49c5e3c30a35302a2f83da84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 14/78] fix: short or non ASCII header items, CRINEX header and
 DORIS epochs

---
 src/doris/parsing.rs       | 41 ++++++++++++++++++++++----------------
 src/doris/station.rs       | 22 +++++++++++---------
 src/hardware.rs            |  9 +++++----
 src/hatanaka/crinex.rs     | 28 ++++++++++++++------------
 src/leap.rs                | 15 ++++++++------
 src/lib.rs                 | 25 +++++++++++------------
 src/meteo/sensor.rs        | 13 +++++++-----
 src/observation/parsing.rs |  7 ++++---
 8 files changed, 90 insertions(+), 70 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 34b50c3..c5ac171 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -1,9 +1,11 @@
 use crate::{
+    columns,
     doris::{DorisKey, Observations, SignalKey, SignalObservation, Station},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     observation::ClockObservation,
     observation::EpochFlag,
     prelude::{Header, Observable, ParsingError, TimeScale},
+    split_columns,
 };
 
 /// Returns true if forwarded content does match new DORIS measurement.
@@ -24,29 +26,35 @@ fn parse_observations(
     let mut offset = 0;
     let line_len = line.len();
 
-    loop {
+    // abnormal content is ignored and does not overflow
+    while obs_ptr < numobs {
         let mut m1 = Option::<u8>::None;
         let mut m2 = Option::<u8>::None;
 
         if offset + OBSERVABLE_WIDTH + 1 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH..offset + OBSERVABLE_WIDTH + 1];
-            println!("flag : \"{}\"", slice);
+            let slice = columns(
+                line,
+                offset + OBSERVABLE_WIDTH,
+                offset + OBSERVABLE_WIDTH + 1,
+            );
             if let Ok(flag) = slice.trim().parse::<u8>() {
                 m1 = Some(flag);
             }
         }
 
         if offset + OBSERVABLE_WIDTH + 2 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH + 1..offset + OBSERVABLE_WIDTH + 2];
-            println!("flag : \"{}\"", slice);
+            let slice = columns(
+                line,
+                offset + OBSERVABLE_WIDTH + 1,
+                offset + OBSERVABLE_WIDTH + 2,
+            );
             if let Ok(flag) = slice.trim().parse::<u8>() {
                 m2 = Some(flag);
             }
         }
 
         if offset + OBSERVABLE_WIDTH < line_len {
-            let slice = &line[offset..offset + OBSERVABLE_WIDTH];
-            println!("slice: \"{}\"", slice);
+            let slice = columns(line, offset, offset + OBSERVABLE_WIDTH);
             if let Ok(value) = slice.trim().parse::<f64>() {
                 let key = SignalKey {
                     station: station.clone(),
@@ -61,11 +69,6 @@ fn parse_observations(
 
         offset += OBSERVABLE_WIDTH;
         obs_ptr += 1;
-
-        if obs_ptr == numobs {
-            // abnormal content: abort and avoid overflowing
-            break;
-        }
     }
 
     Ok(())
@@ -110,12 +113,12 @@ pub fn parse_epoch(
         return Err(ParsingError::EpochFormat);
     }
 
-    let epoch = parse_epoch_in_timescale(&line[2..2 + EPOCH_SIZE], TimeScale::TAI)?;
+    let epoch = parse_epoch_in_timescale(columns(line, 2, 2 + EPOCH_SIZE), TimeScale::TAI)?;
 
     let key = DorisKey { epoch, flag };
 
     // parse clock field
-    let offset_s = line[CLOCK_OFFSET..CLOCK_OFFSET + CLOCK_SIZE]
+    let offset_s = columns(line, CLOCK_OFFSET, CLOCK_OFFSET + CLOCK_SIZE)
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::DorisClockParsing)?;
@@ -126,7 +129,11 @@ pub fn parse_epoch(
     observations.clock_extrapolated = false;
 
     if line_len > CLOCK_OFFSET + CLOCK_SIZE {
-        if line[CLOCK_OFFSET + CLOCK_SIZE..].trim().eq("1") {
+        if split_columns(line, CLOCK_OFFSET + CLOCK_SIZE)
+            .1
+            .trim()
+            .eq("1")
+        {
             observations.clock_extrapolated = true;
         }
     }
@@ -137,7 +144,7 @@ pub fn parse_epoch(
             obs_ptr = 0;
 
             // station number
-            let station_num = line[1..]
+            let station_num = columns(line, 1, 3)
                 .trim()
                 .parse::<usize>()
                 .map_err(|_| ParsingError::DorisStationFormat)?;
@@ -150,7 +157,7 @@ pub fn parse_epoch(
 
         if let Some(station) = &station {
             parse_observations(
-                &line[4..],
+                split_columns(line, 4).1,
                 obs_ptr,
                 &station,
                 observables,
diff --git a/src/doris/station.rs b/src/doris/station.rs
index c176719..9d56c4b 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -1,5 +1,9 @@
 //! DORIS Station
-use crate::prelude::{ParsingError, DOMES};
+use crate::{
+    parse_domes,
+    prelude::{ParsingError, DOMES},
+    split_columns,
+};
 
 /// DORIS Ground [Station] description.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -40,18 +44,18 @@ impl std::str::FromStr for Station {
             return Err(ParsingError::DorisStationFormat);
         }
 
-        let content = content.split_at(1).1;
-        let (key, rem) = content.split_at(4);
-        let (label, rem) = rem.split_at(5);
-        let (name, rem) = rem.split_at(30);
-        let (domes, rem) = rem.split_at(10);
-        let (gen, rem) = rem.split_at(3);
-        let (k_factor, _) = rem.split_at(3);
+        let content = split_columns(content, 1).1;
+        let (key, rem) = split_columns(content, 4);
+        let (label, rem) = split_columns(rem, 5);
+        let (name, rem) = split_columns(rem, 30);
+        let (domes, rem) = split_columns(rem, 10);
+        let (gen, rem) = split_columns(rem, 3);
+        let (k_factor, _) = split_columns(rem, 3);
 
         Ok(Station {
             site: name.trim().to_string(),
             label: label.trim().to_string(),
-            domes: DOMES::from_str(domes.trim())?,
+            domes: parse_domes(domes.trim()).ok_or(ParsingError::DorisStation)?,
             gen: gen
                 .trim()
                 .parse::<u8>()
diff --git a/src/hardware.rs b/src/hardware.rs
index 4436c7c..a7247c6 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -2,6 +2,7 @@
 use crate::{
     fmt_rinex,
     prelude::{FormattingError, COSPAR, SV},
+    split_columns,
 };
 
 use std::{
@@ -63,9 +64,9 @@ impl Receiver {
 impl FromStr for Receiver {
     type Err = std::io::Error;
     fn from_str(line: &str) -> Result<Self, Self::Err> {
-        let (id, rem) = line.split_at(20);
-        let (make, rem) = rem.split_at(20);
-        let (version, _) = rem.split_at(20);
+        let (id, rem) = split_columns(line, 20);
+        let (make, rem) = split_columns(rem, 20);
+        let (version, _) = split_columns(rem, 20);
         Ok(Receiver {
             sn: id.trim().to_string(),
             model: make.trim().to_string(),
@@ -109,7 +110,7 @@ impl Antenna {
                 "{}",
                 fmt_rinex(
                     &format!("{:14.4}{:14.4}{:14.4}", coords.0, coords.1, coords.2),
-                    "APPROX POSITION XYZ"
+                    "ANTENNA: DELTA X/Y/Z"
                 )
             )?;
         }
diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 9010148..2192971 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -3,6 +3,7 @@ use crate::{
     epoch::now as epoch_now_utc,
     epoch::parse_formatted_month,
     prelude::{Epoch, FormattingError, ParsingError, Version},
+    split_columns,
 };
 
 use std::io::{BufWriter, Write};
@@ -27,8 +28,8 @@ impl CRINEX {
     pub fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         writeln!(
             w,
-            "{}                 COMPACT RINEX FORMAT                    CRINEX VERS   / TYPE",
-            self.version,
+            "{:<20}COMPACT RINEX FORMAT                    CRINEX VERS   / TYPE",
+            self.version.to_string(),
         )?;
 
         let (y, m, d, hh, mm, _, _) = self.date.to_gregorian_utc();
@@ -48,15 +49,15 @@ impl CRINEX {
             _ => "Dec",
         };
 
-        write!(w, "{}", self.prog)?;
-        write!(w, "{:<width$}", "", width = 40 - self.prog.len())?;
+        // never encroach on following field
+        write!(w, "{:<40.40}", self.prog)?;
 
         writeln!(
             w,
-            "{:02}-{}-{} {:02}:{:02}     CRINEX PROG / DATE",
+            "{:02}-{}-{:02} {:02}:{:02}     CRINEX PROG / DATE",
             d,
             formatted_month,
-            y - 2000,
+            y.rem_euclid(100),
             hh,
             mm,
         )?;
@@ -91,9 +92,9 @@ impl CRINEX {
             return Err(ParsingError::HeaderLineTooShort);
         }
 
-        let (prog, rem) = prog_date.split_at(20);
-        let (_, rem) = rem.split_at(20);
-        let datetime_str = rem.split_at(20).0.trim();
+        let (prog, rem) = split_columns(prog_date, 20);
+        let (_, rem) = split_columns(rem, 20);
+        let datetime_str = split_columns(rem, 20).0.trim();
 
         let mut i = 0;
         let mut year = 2000_i32; // CRINEX: Y2000
@@ -118,8 +119,9 @@ impl CRINEX {
                             },
                             2 => {
                                 year += parsed
-                                    .parse::<i32>()
-                                    .or(Err(ParsingError::DatetimeParsing))?;
+                                    .parse::<u8>()
+                                    .or(Err(ParsingError::DatetimeParsing))?
+                                    as i32;
                             },
                             _ => {},
                         }
@@ -153,7 +155,7 @@ impl CRINEX {
             return Err(ParsingError::DatetimeFormat);
         }
 
-        let epoch = Epoch::from_gregorian_utc(year, month, day, hour, mins, 0, 0);
+        let epoch = Epoch::maybe_from_gregorian_utc(year, month, day, hour, mins, 0, 0)?;
         let s = self.with_prog(prog.trim());
         let s = s.with_date(epoch);
         Ok(s)
@@ -182,7 +184,7 @@ impl std::str::FromStr for CRINEX {
                 if line.len() < 60 {
                     return Err(ParsingError::HeaderLineTooShort);
                 }
-                let vers = line.split_at(20).0.trim();
+                let vers = split_columns(line, 20).0.trim();
                 let version = Version::from_str(vers)?;
                 crinex = crinex.with_version(version);
             } else {
diff --git a/src/leap.rs b/src/leap.rs
index fbceb84..218dd8f 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -1,7 +1,7 @@
 //! Leap second counter
 use crate::{
     prelude::{ParsingError, TimeScale},
-    FormattingError,
+    split_columns, FormattingError,
 };
 
 use std::io::{BufWriter, Write};
@@ -89,13 +89,16 @@ impl std::str::FromStr for Leap {
 
         if count < 3 {
             // Simple / basic format
-            ls.leap = items[0].parse::<u32>().or(Err(ParsingError::LeapParsing))?;
+            ls.leap = items
+                .first()
+                .and_then(|item| item.parse::<u32>().ok())
+                .ok_or(ParsingError::LeapParsing)?;
         } else {
             // Complex / complete format
-            let (leap, rem) = s.split_at(5);
-            let (tls, rem) = rem.split_at(5);
-            let (week, rem) = rem.split_at(5);
-            let (day, rem) = rem.split_at(5);
+            let (leap, rem) = split_columns(s, 5);
+            let (tls, rem) = split_columns(rem, 5);
+            let (week, rem) = split_columns(rem, 5);
+            let (day, rem) = split_columns(rem, 5);
             let system = rem.trim();
 
             ls.leap = leap
diff --git a/src/lib.rs b/src/lib.rs
index 7a462a6..ca28604 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -317,21 +317,20 @@ pub(crate) fn parse_cospar(field: &str) -> Result<COSPAR, ParsingError> {
  * macro to format one header line or a comment
  */
 pub(crate) fn fmt_rinex(content: &str, marker: &str) -> String {
-    if content.len() < 60 {
+    // content might not be restricted to ASCII
+    let chars = content.chars().collect::<Vec<_>>();
+
+    if chars.len() < 60 {
         format!("{:<padding$}{}", content, marker, padding = 60)
     } else {
-        let mut string = String::new();
-        let nb_lines = num_integer::div_ceil(content.len(), 60);
-        for i in 0..nb_lines {
-            let start_off = i * 60;
-            let end_off = std::cmp::min(start_off + 60, content.len());
-            let chunk = &content[start_off..end_off];
-            string.push_str(&format!("{:<padding$}{}", chunk, marker, padding = 60));
-            if i < nb_lines - 1 {
-                string.push('\n');
-            }
-        }
-        string
+        chars
+            .chunks(60)
+            .map(|chunk| {
+                let chunk = chunk.iter().collect::<String>();
+                format!("{:<padding$}{}", chunk, marker, padding = 60)
+            })
+            .collect::<Vec<_>>()
+            .join("\n")
     }
 }
 
diff --git a/src/meteo/sensor.rs b/src/meteo/sensor.rs
index 71197c9..1348e65 100644
--- a/src/meteo/sensor.rs
+++ b/src/meteo/sensor.rs
@@ -1,5 +1,8 @@
 //! Meteo sensor
-use crate::prelude::{Observable, ParsingError};
+use crate::{
+    prelude::{Observable, ParsingError},
+    split_columns,
+};
 
 #[cfg(feature = "nav")]
 use anise::{
@@ -85,10 +88,10 @@ impl Render for Sensor {
 impl std::str::FromStr for Sensor {
     type Err = ParsingError;
     fn from_str(content: &str) -> Result<Self, Self::Err> {
-        let (model, rem) = content.split_at(20);
-        let (s_type, rem) = rem.split_at(20 + 6);
-        let (accuracy, rem) = rem.split_at(7 + 4);
-        let (observable, _) = rem.split_at(2);
+        let (model, rem) = split_columns(content, 20);
+        let (s_type, rem) = split_columns(rem, 20 + 6);
+        let (accuracy, rem) = split_columns(rem, 7 + 4);
+        let (observable, _) = split_columns(rem, 2);
         Ok(Self {
             model: {
                 if !model.trim().is_empty() {
diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 448a3c2..17c5380 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -27,9 +27,10 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
             false
         } else {
             // SPLICE flag handling (still an Observation::flag)
-            let significant = !line[0..26].trim().is_empty();
-            let epoch = parse_utc_epoch(&line[0..26]);
-            let flag = EpochFlag::from_str(line[26..29].trim());
+            let date = columns(line, 0, 26);
+            let significant = !date.trim().is_empty();
+            let epoch = parse_utc_epoch(date);
+            let flag = EpochFlag::from_str(columns(line, 26, 29).trim());
             if significant {
                 epoch.is_ok() && flag.is_ok()
             } else if flag.is_err() {
-- 
2.43.0


From 03cd9d03f83aee3cba7a53df58e8ba0478417e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 15/78] fix: RINEX 1 observation epochs are formatted as RINEX
 2

---
 src/record/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/formatting.rs b/src/record/formatting.rs
index cef53fe..140d5b2 100644
--- a/src/record/formatting.rs
+++ b/src/record/formatting.rs
@@ -31,7 +31,7 @@ impl Record {
                 compressor.format(w, &rec, header)?;
             } else {
                 for (k, v) in rec.iter() {
-                    v.format(version_major == 2, k, &header, w)?;
+                    v.format(version_major < 3, k, &header, w)?;
                 }
             }
 
-- 
2.43.0


From 06b5f22cb6daa514ef4a9ae4af990906d7c13795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 16/78] fix: gzip files: errors on conclusion reported, all
 members read, unreadable files are errors

---
 src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ca28604..01ddbd2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -90,7 +90,7 @@ use antex::{Antenna, FrequencyDependentData};
 use antex::{AntennaMatcher, AntennaSpecific};
 
 #[cfg(feature = "flate2")]
-use flate2::{read::GzDecoder, write::GzEncoder, Compression as GzCompression};
+use flate2::{read::MultiGzDecoder, write::GzEncoder, Compression as GzCompression};
 
 #[cfg(feature = "clock")]
 use std::collections::BTreeMap;
@@ -928,7 +928,7 @@ impl Rinex {
     }
 
     /// Parses [Rinex] from local readable file.
-    /// Will panic if provided file does not exist or is not readable.
+    /// Fails if provided file does not exist or is not readable.
     /// See [Self::from_gzip_file] for seamless Gzip support.
     ///
     /// If file name follows standard naming conventions, then internal definitions
@@ -958,7 +958,7 @@ impl Rinex {
             _ => ProductionAttributes::default(),
         };
 
-        let fd = File::open(path).expect("from_file: open error");
+        let fd = File::open(path)?;
 
         let mut reader = BufReader::new(fd);
         let mut rinex = Self::parse(&mut reader)?;
@@ -990,7 +990,7 @@ impl Rinex {
     }
 
     /// Parses [Rinex] from local gzip compressed file.
-    /// Will panic if provided file does not exist or is not readable.
+    /// Fails if provided file does not exist or is not readable.
     /// Refer to [Self::from_file] for more information.
     ///
     /// IONEX example:
@@ -1042,9 +1042,10 @@ impl Rinex {
             _ => ProductionAttributes::default(),
         };
 
-        let fd = File::open(path).expect("from_file: open error");
+        let fd = File::open(path)?;
 
-        let reader = GzDecoder::new(fd);
+        // a gzip file may be made of several members
+        let reader = MultiGzDecoder::new(fd);
         let mut reader = BufReader::new(reader);
         let mut rinex = Self::parse(&mut reader)?;
         rinex.production = file_attributes;
@@ -1074,6 +1075,10 @@ impl Rinex {
         let compression = GzCompression::new(5);
         let mut writer = BufWriter::new(GzEncoder::new(fd, compression));
         self.format(&mut writer)?;
+
+        // conclude the gzip stream explicitly: errors are not reported on drop
+        let encoder = writer.into_inner().map_err(|e| e.into_error())?;
+        encoder.finish()?.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From e21cb41907731528be80884de7572331a81cbcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 17/78] fix: Galileo RINEX 4 ephemeris: spare field follows the
 week number

---
 db/NAV/orbits.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/NAV/orbits.json b/db/NAV/orbits.json
index 64f176e..c5609ce 100755
--- a/db/NAV/orbits.json
+++ b/db/NAV/orbits.json
@@ -364,11 +364,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
@@ -398,11 +398,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
-- 
2.43.0


From 5326c942062e996295198a04c25006c25a67dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 18/78] fix: IONEX coordinates keep the decimals of the grid
 origin

---
 src/ionex/quantized.rs |  3 ++-
 src/record/parsing.rs  | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ionex/quantized.rs b/src/ionex/quantized.rs
index d29e983..041601b 100644
--- a/src/ionex/quantized.rs
+++ b/src/ionex/quantized.rs
@@ -19,7 +19,8 @@ impl Quantized {
         let mut val = value;
         let mut exponent = 0;
 
-        while val.fract() != 0.0 && exponent < Self::MAX_EXPONENT {
+        // tolerates the rounding of decimal values that have no exact representation
+        while (val - val.round()).abs() > 1.0E-6 && exponent < Self::MAX_EXPONENT {
             val *= 10.0;
             exponent += 1;
         }
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 7dbca80..9380f45 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -23,6 +23,7 @@ use crate::{
         Record as IonexRecord,
     },
     is_rinex_comment,
+    linspace::Linspace,
     meteo::{
         is_new_epoch as is_new_meteo_epoch, parse_epoch as parse_meteo_epoch, Record as MeteoRecord,
     },
@@ -181,9 +182,14 @@ impl Record {
 
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
-            ionex_lat_exponent = IonexQuantized::find_exponent(ionex.grid.latitude.spacing);
-            ionex_long_exponent = IonexQuantized::find_exponent(ionex.grid.longitude.spacing);
-            ionex_alt_exponent = IonexQuantized::find_exponent(ionex.grid.height.spacing);
+            // both the origin and the spacing of each axis must be preserved
+            let exponent = |axis: &Linspace| {
+                IonexQuantized::find_exponent(axis.spacing)
+                    .max(IonexQuantized::find_exponent(axis.start))
+            };
+            ionex_lat_exponent = exponent(&ionex.grid.latitude);
+            ionex_long_exponent = exponent(&ionex.grid.longitude);
+            ionex_alt_exponent = exponent(&ionex.grid.height);
         }
 
         // Iterate and consume, one line at a time
-- 
2.43.0


From 82451288b077c7c57c022ecd61b79f3e62bd00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 19/78] fix: IONEX grids: any range that is a multiple of the
 spacing is valid

---
 src/linspace.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index ecc4f7b..b39022d 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -1,5 +1,3 @@
-use std::ops::Rem;
-
 use crate::prelude::ParsingError;
 
 /// Linear space as used in IONEX or Antenna grid definitions.
@@ -25,20 +23,17 @@ impl Linspace {
                 spacing,
             })
         } else {
-            let r = end.rem(start);
             /*
-             * End / Start must be multiple of one another
+             * Range must be a (positive) multiple of the spacing
              */
-            if r == 0.0 {
-                if end.rem(spacing) == 0.0 {
-                    Ok(Self {
-                        start,
-                        end,
-                        spacing,
-                    })
-                } else {
-                    Err(ParsingError::BadIonexGridSpecs)
-                }
+            let steps = (end - start) / spacing;
+
+            if steps.is_finite() && steps > 0.0 && (steps - steps.round()).abs() < 1.0E-6 {
+                Ok(Self {
+                    start,
+                    end,
+                    spacing,
+                })
             } else {
                 Err(ParsingError::BadIonexGridSpecs)
             }
-- 
2.43.0


From 069692da0b3f123c9c4139c47f387b65c30a48b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 20/78] fix: IONEX maps without epoch are not attached to the
 epoch of another map

---
 src/record/parsing.rs | 96 +++++++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 45 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 9380f45..b111591 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -174,7 +174,7 @@ impl Record {
         //  in this case we use the previously identified Epoch
         //  and attach other kinds of maps
         let mut ionex_rec = IonexRecord::new();
-        let mut ionex_t = Epoch::default();
+        let mut ionex_t = Option::<Epoch>::None;
         let mut ionex_tec_exponent = Default::default();
         let mut ionex_lat_exponent = Default::default();
         let mut ionex_long_exponent = Default::default();
@@ -243,7 +243,7 @@ impl Record {
             if is_ionex && line_buf.contains("EPOCH OF CURRENT MAP") {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
-                ionex_t = parse_ionex_utc_epoch(split_columns(&line_buf, 60).0)?;
+                ionex_t = Some(parse_ionex_utc_epoch(split_columns(&line_buf, 60).0)?);
 
                 // skip parsing
                 line_buf.clear();
@@ -362,51 +362,57 @@ impl Record {
                         },
 
                         Type::IonosphereMaps => {
-                            comment_ts = ionex_t; // for comments storage
-
-                            // type of the map that was just buffered
-                            let first_line = epoch_buf.lines().next().unwrap_or_default();
-
-                            if is_new_rms_map(first_line) {
-                                match parse_ionex_rms_map(
-                                    &epoch_buf,
-                                    ionex_lat_exponent,
-                                    ionex_long_exponent,
-                                    ionex_alt_exponent,
-                                    ionex_tec_exponent,
-                                    ionex_t,
-                                    &mut ionex_rec,
-                                ) {
-                                    Ok(()) => {},
-                                    Err(_) => {},
-                                }
-                            } else if is_new_tec_map(&line_buf) {
-                                match parse_ionex_tec_map(
-                                    &epoch_buf,
-                                    ionex_lat_exponent,
-                                    ionex_long_exponent,
-                                    ionex_alt_exponent,
-                                    ionex_tec_exponent,
-                                    ionex_t,
-                                    &mut ionex_rec,
-                                ) {
-                                    Ok(()) => {},
-                                    Err(_) => {},
+                            // a map that does not specify its epoch
+                            // is never attached to the epoch of another map
+                            if let Some(ionex_t) = ionex_t {
+                                comment_ts = ionex_t; // for comments storage
+
+                                // type of the map that was just buffered
+                                let first_line = epoch_buf.lines().next().unwrap_or_default();
+
+                                if is_new_rms_map(first_line) {
+                                    match parse_ionex_rms_map(
+                                        &epoch_buf,
+                                        ionex_lat_exponent,
+                                        ionex_long_exponent,
+                                        ionex_alt_exponent,
+                                        ionex_tec_exponent,
+                                        ionex_t,
+                                        &mut ionex_rec,
+                                    ) {
+                                        Ok(()) => {},
+                                        Err(_) => {},
+                                    }
+                                } else if is_new_tec_map(&line_buf) {
+                                    match parse_ionex_tec_map(
+                                        &epoch_buf,
+                                        ionex_lat_exponent,
+                                        ionex_long_exponent,
+                                        ionex_alt_exponent,
+                                        ionex_tec_exponent,
+                                        ionex_t,
+                                        &mut ionex_rec,
+                                    ) {
+                                        Ok(()) => {},
+                                        Err(_) => {},
+                                    }
+                                } else {
+                                    // match parse_ionex_height_map(
+                                    //     &epoch_buf,
+                                    //     ionex_lat_exponent,
+                                    //     ionex_long_exponent,
+                                    //     ionex_alt_exponent,
+                                    //     ionex_tec_exponent,
+                                    //     ionex_t,
+                                    //     &mut ionex_rec,
+                                    // ) {
+                                    //     Ok(()) => {},
+                                    //     Err(_) => {},
+                                    // }
                                 }
-                            } else {
-                                // match parse_ionex_height_map(
-                                //     &epoch_buf,
-                                //     ionex_lat_exponent,
-                                //     ionex_long_exponent,
-                                //     ionex_alt_exponent,
-                                //     ionex_tec_exponent,
-                                //     ionex_t,
-                                //     &mut ionex_rec,
-                                // ) {
-                                //     Ok(()) => {},
-                                //     Err(_) => {},
-                                // }
                             }
+
+                            ionex_t = None;
                         },
                     }
                 }
-- 
2.43.0


From 439b03c0b1f3a806ab828ee56586739b441241a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 21/78] fix: interrupted flush of (gzip) files is not an error

---
 src/lib.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 01ddbd2..656ff9b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -275,6 +275,21 @@ pub(crate) fn read_line<R: BufRead>(reader: &mut R, line: &mut String) -> std::i
     Ok(size)
 }
 
+/*
+ * Repeats I/O operation for as long as it is interrupted,
+ * because an interruption is not an error.
+ */
+pub(crate) fn retry_interrupted<T>(
+    mut operation: impl FnMut() -> std::io::Result<T>,
+) -> std::io::Result<T> {
+    loop {
+        match operation() {
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result,
+        }
+    }
+}
+
 /*
  * [SV] described by this field: [SV::from_str] only supports
  * non empty ASCII descriptions.
@@ -923,7 +938,7 @@ impl Rinex {
     pub fn format<W: Write>(&self, writer: &mut BufWriter<W>) -> Result<(), FormattingError> {
         self.header.format(writer)?;
         self.record.format(writer, &self.header)?;
-        writer.flush()?;
+        retry_interrupted(|| writer.flush())?;
         Ok(())
     }
 
@@ -1077,8 +1092,8 @@ impl Rinex {
         self.format(&mut writer)?;
 
         // conclude the gzip stream explicitly: errors are not reported on drop
-        let encoder = writer.into_inner().map_err(|e| e.into_error())?;
-        encoder.finish()?.flush()?;
+        let mut encoder = writer.into_inner().map_err(|e| e.into_error())?;
+        retry_interrupted(|| encoder.try_finish())?;
         Ok(())
     }
 
-- 
2.43.0


From 9a3b9961e57fd4f1fbc1a1eaadbe0f8ae7d396d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:32 +0000
Subject: [PATCH 22/78] fix: clock data: foreign text after a complete record
 does not discard it

---
 src/clock/record.rs | 52 +++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 33 deletions(-)

diff --git a/src/clock/record.rs b/src/clock/record.rs
index 4de31c9..b18c9c6 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -199,7 +199,8 @@ pub(crate) fn parse_epoch(
     let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
     // nb of data fields
-    let (_n, rem) = split_columns(rem, 4);
+    let (n, rem) = split_columns(rem, 4);
+    let n = n.trim().parse::<usize>().unwrap_or(0);
 
     // data fields
     let mut profile = ClockProfile::default();
@@ -222,40 +223,25 @@ pub(crate) fn parse_epoch(
             _ => {},
         }
     }
-    for line in lines {
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
-            match index {
-                0 => {
-                    profile.drift = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                1 => {
-                    profile.drift_dev = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                2 => {
-                    profile.drift_change = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                3 => {
-                    profile.drift_change_dev = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                _ => {},
+
+    // fields #3 to #6 stand on one continuation line: anything else is not ours
+    if let Some(line) = lines.next() {
+        let mut fields = [Option::<f64>::None; 4];
+
+        for (field, item) in fields.iter_mut().zip(line.split_ascii_whitespace()) {
+            match item.parse::<f64>() {
+                Ok(value) => *field = Some(value),
+                Err(_) if n > 2 => return Err(ParsingError::ClockProfile),
+                Err(_) => {},
             }
         }
+
+        [
+            profile.drift,
+            profile.drift_dev,
+            profile.drift_change,
+            profile.drift_change_dev,
+        ] = fields;
     }
     Ok((
         epoch,
-- 
2.43.0


From 077c21b4f5c3296d1ceaa833495bcee6a5882a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 23/78] fix: header content lost on writing: identifiers,
 licenses, compensations, scaling, clock offset; leap second columns

---
 src/header/formatting.rs  | 50 +++++++++++++++++++++++++++++++++++++++
 src/header/parsing.rs     | 12 ++++++----
 src/leap.rs               | 12 ++++++----
 src/observation/header.rs | 30 +++++++++++++++++++++--
 4 files changed, 92 insertions(+), 12 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index 72f63ac..2791212 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -33,8 +33,39 @@ impl Header {
         }
 
         self.format_comments(w)?;
+
+        for (content, label) in [
+            (&self.doi, "DOI"),
+            (&self.license, "LICENSE OF USE"),
+            (&self.station_url, "STATION INFORMATION"),
+        ] {
+            if let Some(content) = content {
+                writeln!(w, "{}", fmt_rinex(content, label))?;
+            }
+        }
+
         self.format_rinex_dependent(w)?;
 
+        for dcb in self.dcb_compensations.iter() {
+            Self::format_compensation(
+                w,
+                dcb.constellation,
+                &dcb.program,
+                &dcb.url,
+                "SYS / DCBS APPLIED",
+            )?;
+        }
+
+        for pcv in self.pcv_compensations.iter() {
+            Self::format_compensation(
+                w,
+                pcv.constellation,
+                &pcv.program,
+                &pcv.url,
+                "SYS / PCVS APPLIED",
+            )?;
+        }
+
         if let Some(rcvr) = &self.rcvr {
             rcvr.format(w)?;
         }
@@ -267,6 +298,25 @@ impl Header {
         Ok(())
     }
 
+    /// Formats "SYS / DCBS APPLIED" or "SYS / PCVS APPLIED"
+    fn format_compensation<W: Write>(
+        w: &mut BufWriter<W>,
+        constellation: Constellation,
+        program: &str,
+        url: &str,
+        label: &str,
+    ) -> Result<(), FormattingError> {
+        writeln!(
+            w,
+            "{}",
+            fmt_rinex(
+                &format!("{:x} {:<17} {:<40}", constellation, program, url),
+                label
+            )
+        )?;
+        Ok(())
+    }
+
     /// Formats "INTERVAL"
     fn format_sampling_interval<W: Write>(
         &self,
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 82bb1a5..bb1919c 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -299,7 +299,7 @@ impl Header {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = split_columns(content, 20).0.trim();
+                let name = content.trim();
                 geodetic_marker = Some(geodetic_marker.unwrap_or_default().with_name(name));
             } else if marker.contains("MARKER NUMBER") {
                 let number = split_columns(content, 20).0.trim();
@@ -459,7 +459,7 @@ impl Header {
                 let parsed = Leap::from_str(leap_str)?;
                 leap = Some(parsed.clone());
             } else if marker.contains("DOI") {
-                let content = split_columns(content, 40).0.trim(); //  TODO: confirm please
+                let content = content.trim();
                 if content.len() > 0 {
                     doi = Some(content.to_string());
                 }
@@ -467,12 +467,12 @@ impl Header {
                 //TODO V > 3
                 // nb# of merged files
             } else if marker.contains("STATION INFORMATION") {
-                let url = split_columns(content, 40).0.trim(); //TODO confirm please
+                let url = content.trim();
                 if url.len() > 0 {
                     station_url = Some(url.to_string());
                 }
             } else if marker.contains("LICENSE OF USE") {
-                let lic = split_columns(content, 40).0.trim(); //TODO confirm please
+                let lic = content.trim();
                 if lic.len() > 0 {
                     license = Some(lic.to_string());
                 }
@@ -507,8 +507,10 @@ impl Header {
                 let (sn, rem) = split_columns(content, 20);
                 let (model, _) = split_columns(rem, 20);
 
+                // eccentricities might have been described already
                 rcvr_antenna = Some(
-                    Antenna::default()
+                    rcvr_antenna
+                        .unwrap_or_default()
                         .with_model(model.trim())
                         .with_serial_number(sn.trim()),
                 );
diff --git a/src/leap.rs b/src/leap.rs
index 218dd8f..cd59de2 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -94,11 +94,13 @@ impl std::str::FromStr for Leap {
                 .and_then(|item| item.parse::<u32>().ok())
                 .ok_or(ParsingError::LeapParsing)?;
         } else {
-            // Complex / complete format
-            let (leap, rem) = split_columns(s, 5);
-            let (tls, rem) = split_columns(rem, 5);
-            let (week, rem) = split_columns(rem, 5);
-            let (day, rem) = split_columns(rem, 5);
+            // Complex / complete format: 4I6, A3
+            // restore alignment, which is lost when the content is trimmed
+            let s = format!("{:>6}{}", items[0], &s.trim_start()[items[0].len()..]);
+            let (leap, rem) = split_columns(&s, 6);
+            let (tls, rem) = split_columns(rem, 6);
+            let (week, rem) = split_columns(rem, 6);
+            let (day, rem) = split_columns(rem, 6);
             let system = rem.trim();
 
             ls.leap = leap
diff --git a/src/observation/header.rs b/src/observation/header.rs
index 3d9acd4..e32f13c 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -2,6 +2,7 @@
 
 use crate::{
     epoch::epoch_decompose as epoch_decomposition,
+    fmt_rinex,
     hatanaka::CRINEX,
     prelude::{Constellation, Epoch, FormattingError, Observable, TimeScale},
 };
@@ -83,8 +84,33 @@ impl HeaderFields {
             _ => self.format_v3_observables(w)?,
         }
 
-        //TODO scaling
-        //TODO DCBs
+        if self.clock_offset_applied {
+            writeln!(w, "{}", fmt_rinex("     1", "RCV CLOCK OFFS APPL"))?;
+        }
+
+        self.format_scaling(w)
+    }
+
+    /// Formats "SYS / SCALE FACTOR": observables that share a common factor
+    fn format_scaling<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
+        const OBSERVABLES_PER_LINE: usize = 12;
+
+        let groups = self
+            .scaling
+            .iter()
+            .map(|((constell, observable), factor)| ((*constell, *factor), observable))
+            .into_group_map();
+
+        for ((constell, factor), mut observables) in groups.into_iter().sorted() {
+            observables.sort();
+            for observables in observables.chunks(OBSERVABLES_PER_LINE) {
+                let mut string = format!("{:x} {:4}  {:2}", constell, factor, observables.len());
+                for observable in observables {
+                    string.push_str(&format!(" {:>3}", observable.to_string()));
+                }
+                writeln!(w, "{}", fmt_rinex(&string, "SYS / SCALE FACTOR"))?;
+            }
+        }
         Ok(())
     }
 
-- 
2.43.0


From c32f996c2300f8f459461c1b856f9be9ae2d50c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:41 +0000
Subject: [PATCH 24/78] fix: file names: two digit years, day of year, batch
 numbers, yearly files, names that are not standard

---
 src/epoch.rs          | 10 ++++++
 src/lib.rs            | 25 ++++++++-------
 src/production/mod.rs | 71 +++++++++++++++++--------------------------
 src/production/ppu.rs |  2 +-
 4 files changed, 51 insertions(+), 57 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 32ffade..2f672b1 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -284,6 +284,16 @@ pub(crate) fn epoch_decompose(e: Epoch) -> (i32, u8, u8, u8, u8, u8, u32) {
     )
 }
 
+/*
+ * Day of year, expressed in this Epoch's timescale: 1 on January 1st.
+ */
+pub(crate) fn day_of_year(e: Epoch) -> u32 {
+    let (y, m, d, _, _, _, _) = epoch_decompose(e);
+    let day = Epoch::from_gregorian_utc_at_midnight(y, m, d).to_mjd_utc_days();
+    let origin = Epoch::from_gregorian_utc_at_midnight(y, 1, 1).to_mjd_utc_days();
+    (day - origin).round() as u32 + 1
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 656ff9b..14792f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -571,9 +571,7 @@ impl Rinex {
         let mut filename = match rinextype {
             RinexType::IonosphereMaps => {
                 let name = match custom {
-                    Some(ref custom) => {
-                        custom.name[..std::cmp::min(3, custom.name.len())].to_string()
-                    },
+                    Some(ref custom) => custom.name.chars().take(3).collect(),
                     None => self.production.name.clone(),
                 };
                 let region = match &custom {
@@ -584,7 +582,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch::day_of_year(epoch);
                             format!("{:03}", ddd)
                         } else {
                             format!("{:03}", self.production.doy)
@@ -592,13 +590,13 @@ impl Rinex {
                     },
                 };
                 let yy = match &custom {
-                    Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                    Some(ref custom) => format!("{:02}", custom.year % 100),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
                             let yy = epoch_decompose(epoch).0;
-                            format!("{:02}", yy - 2_000)
+                            format!("{:02}", yy.rem_euclid(100))
                         } else {
-                            format!("{:02}", self.production.year - 2_000)
+                            format!("{:02}", self.production.year % 100)
                         }
                     },
                 };
@@ -613,7 +611,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch::day_of_year(epoch);
                             format!("{:03}", ddd)
                         } else {
                             "DDD".to_string()
@@ -622,11 +620,11 @@ impl Rinex {
                 };
                 if short {
                     let yy = match &custom {
-                        Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                        Some(ref custom) => format!("{:02}", custom.year % 100),
                         None => {
                             if let Some(epoch) = self.first_epoch() {
                                 let yy = epoch_decompose(epoch).0;
-                                format!("{:02}", yy - 2_000)
+                                format!("{:02}", yy.rem_euclid(100))
                             } else {
                                 "YY".to_string()
                             }
@@ -687,7 +685,8 @@ impl Rinex {
                     let src = match &header.rcvr {
                         Some(_) => 'R', // means GNSS rcvr
                         None => {
-                            if let Some(details) = &self.production.v3_details {
+                            let attributes = custom.as_ref().unwrap_or(&self.production);
+                            if let Some(details) = &attributes.v3_details {
                                 details.data_src.to_char()
                             } else {
                                 'U' // means: unspecified
@@ -816,14 +815,14 @@ impl Rinex {
 
         let first_epoch = self.first_epoch();
         let last_epoch = self.last_epoch();
-        let first_epoch_gregorian = first_epoch.map(|t0| t0.to_gregorian_utc());
+        let first_epoch_gregorian = first_epoch.map(epoch_decompose);
 
         match first_epoch_gregorian {
             Some((y, _, _, _, _, _, _)) => attributes.year = y as u32,
             _ => {},
         }
         match first_epoch {
-            Some(t0) => attributes.doy = t0.day_of_year().round() as u32,
+            Some(t0) => attributes.doy = epoch::day_of_year(t0),
             _ => {},
         }
 
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9b6f300..0c5fb29 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -112,7 +112,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -128,7 +128,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -147,6 +147,15 @@ impl std::str::FromStr for ProductionAttributes {
     type Err = Error;
     fn from_str(fname: &str) -> Result<Self, Self::Err> {
         let fname = fname.to_uppercase();
+        if !fname.is_ascii() {
+            return Err(Error::NonStandardFileName);
+        }
+        let number = |start: usize, end: usize| -> Result<u32, Error> {
+            fname
+                .get(start..end)
+                .and_then(|digits| digits.parse::<u32>().ok())
+                .ok_or(Error::NonStandardFileName)
+        };
         if fname.len() < 13 {
             let offset = fname.find('.').unwrap_or(0);
             if offset != 8 {
@@ -155,24 +164,25 @@ impl std::str::FromStr for ProductionAttributes {
 
             // determine type of RINEX first
             // because it determines how to parse the "name" field
-            let year = fname[offset + 1..offset + 3]
-                .parse::<u32>()
-                .map_err(|_| Error::NonStandardFileName)?;
+            let year = number(offset + 1, offset + 3)?;
 
-            let rtype = &fname[offset + 3..offset + 4];
+            let rtype = fname
+                .get(offset + 3..offset + 4)
+                .ok_or(Error::NonStandardFileName)?;
             let name_offset = match rtype {
                 "I" => 3usize, // only 3 digits on IONEX
                 _ => 4usize,
             };
 
             Ok(Self {
-                year: year + 2_000, // year uses 2 digit in old format
-                name: fname[..name_offset].to_string(),
-                doy: {
-                    fname[4..7]
-                        .parse::<u32>()
-                        .map_err(|_| Error::NonStandardFileName)?
+                // year uses 2 digit in old format
+                year: if year >= 79 {
+                    year + 1_900
+                } else {
+                    year + 2_000
                 },
+                name: fname[..name_offset].to_string(),
+                doy: number(4, 7)?,
                 region: match rtype {
                     "I" => fname.chars().nth(3),
                     _ => None,
@@ -185,46 +195,21 @@ impl std::str::FromStr for ProductionAttributes {
                 return Err(Error::NonStandardFileName);
             };
 
-            let year = fname[12..16]
-                .parse::<u32>()
-                .map_err(|_| Error::NonStandardFileName)?;
-
-            let batch = fname[5..6]
-                .parse::<u8>()
-                .map_err(|_| Error::NonStandardFileName)?;
-
-            // determine type of RINEX first
-            // because it determines how to parse the "name" field
-            let rtype = &fname[offset + 3..offset + 4];
-            let name_offset = match rtype {
-                "I" => 3usize, // only 3 digits on IONEX
-                _ => 4usize,
-            };
+            let year = number(12, 16)?;
+            let batch = number(4, 6)? as u8;
 
             Ok(Self {
                 year,
-                name: fname[..name_offset].to_string(),
-                doy: {
-                    fname[16..19]
-                        .parse::<u32>()
-                        .map_err(|_| Error::NonStandardFileName)?
-                },
+                name: fname[..4].to_string(),
+                doy: number(16, 19)?,
                 region: None, // IONEX files only use a short format
                 v3_details: Some(DetailedProductionAttributes {
                     batch,
                     country: fname[6..9].to_string(),
                     ppu: PPU::from_str(&fname[24..27])?,
                     data_src: DataSource::from_str(&fname[10..11])?,
-                    hh: {
-                        fname[19..21]
-                            .parse::<u8>()
-                            .map_err(|_| Error::NonStandardFileName)?
-                    },
-                    mm: {
-                        fname[21..23]
-                            .parse::<u8>()
-                            .map_err(|_| Error::NonStandardFileName)?
-                    },
+                    hh: number(19, 21)? as u8,
+                    mm: number(21, 23)? as u8,
                     ffu: match offset {
                         34 => Some(FFU::from_str(&fname[28..32])?),
                         _ => None, // NAV FILE case
diff --git a/src/production/ppu.rs b/src/production/ppu.rs
index 2017d3a..591d2ea 100644
--- a/src/production/ppu.rs
+++ b/src/production/ppu.rs
@@ -56,7 +56,7 @@ impl std::fmt::Display for PPU {
             Self::QuarterHour => write!(f, "15M"),
             Self::Hourly => write!(f, "01H"),
             Self::Daily => write!(f, "01D"),
-            Self::Yearly => write!(f, "O1Y"),
+            Self::Yearly => write!(f, "01Y"),
             Self::Unspecified => write!(f, "00U"),
         }
     }
-- 
2.43.0


From d387088b5fc68e296cffd9591d76786c8ba781f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 25/78] fix: file names: unspecified sampling rate

---
 src/production/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 0c5fb29..7327bdc 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -211,7 +211,7 @@ impl std::str::FromStr for ProductionAttributes {
                     hh: number(19, 21)? as u8,
                     mm: number(21, 23)? as u8,
                     ffu: match offset {
-                        34 => Some(FFU::from_str(&fname[28..32])?),
+                        34 => FFU::from_str(&fname[28..32]).ok(), // may be unspecified
                         _ => None, // NAV FILE case
                     },
                 }),
-- 
2.43.0


From 1ec1199e2e5e37e664b40e67b7164e1a04308f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 26/78] fix: non finite values of header and navigation fields

---
 src/header/parsing.rs           |  6 ++++--
 src/navigation/ephemeris/mod.rs | 19 +++++++++++++++----
 src/navigation/rinex/ut1.rs     |  1 +
 src/production/mod.rs           |  2 +-
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index bb1919c..98f3d77 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -664,7 +664,7 @@ impl Header {
             } else if marker.contains("INTERVAL") {
                 let intv_str = split_columns(content, 20).0.trim();
                 if let Ok(interval) = f64::from_str(intv_str) {
-                    if interval > 0.0 {
+                    if interval > 0.0 && interval.is_finite() {
                         // INTERVAL = '0' may exist, in case
                         // of Varying TEC map intervals
                         sampling_interval = Some(Duration::from_seconds(interval));
@@ -907,7 +907,9 @@ impl Header {
 
                 let time_offset_us = content
                     .parse::<f64>()
-                    .or(Err(ParsingError::DorisL1L2DateOffset))?;
+                    .ok()
+                    .filter(|offset_us| offset_us.is_finite())
+                    .ok_or(ParsingError::DorisL1L2DateOffset)?;
 
                 doris.u2_s1_time_offset = Duration::from_microseconds(time_offset_us);
             } else if marker.contains("STATION REFERENCE") {
diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index c07d8ee..70fdbd5 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -74,7 +74,11 @@ impl Ephemeris {
     /// Returns TGD (if value exists) as [Duration]
     pub fn tgd(&self) -> Option<Duration> {
         let tgd_s = self.get_orbit_f64("tgd")?;
-        Some(Duration::from_seconds(tgd_s))
+        if tgd_s.is_finite() {
+            Some(Duration::from_seconds(tgd_s))
+        } else {
+            None
+        }
     }
 
     /// Returns glonass frequency channel, in case this is a Glonass [Ephemeris] message,
@@ -92,8 +96,10 @@ impl Ephemeris {
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self.get_orbit_f64("toe")?;
-        let week_dur = Duration::from_days((week * 7) as f64);
+        let sec = self
+            .get_orbit_f64("toe")
+            .filter(|seconds| seconds.is_finite())?;
+        let week_dur = Duration::from_days(week as f64 * 7.0);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
             TimeScale::GPST | TimeScale::QZSST | TimeScale::GST => {
@@ -151,7 +157,12 @@ impl Ephemeris {
             for _ in 0..max_iter {
                 dt -= a0 + a1 * dt + a2 * dt.powi(2);
             }
-            Some(Duration::from_seconds(a0 + a1 * dt + a2 * dt.powi(2)))
+            let correction = a0 + a1 * dt + a2 * dt.powi(2);
+            if correction.is_finite() {
+                Some(Duration::from_seconds(correction))
+            } else {
+                None
+            }
         }
     }
 
diff --git a/src/navigation/rinex/ut1.rs b/src/navigation/rinex/ut1.rs
index 5c90ef3..d8d90f8 100644
--- a/src/navigation/rinex/ut1.rs
+++ b/src/navigation/rinex/ut1.rs
@@ -6,6 +6,7 @@ impl Rinex {
     pub fn nav_delta_tai_ut1_iter(&self) -> Box<dyn Iterator<Item = DeltaTaiUt1> + '_> {
         Box::new(
             self.nav_earth_orientation_frames_iter()
+                .filter(|(_, eop)| eop.delta_ut1.0.is_finite())
                 .map(|(k, eop)| DeltaTaiUt1 {
                     epoch: k.epoch,
                     delta_tai_minus_ut1: Duration::from_seconds(eop.delta_ut1.0),
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 7327bdc..6418c41 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -212,7 +212,7 @@ impl std::str::FromStr for ProductionAttributes {
                     mm: number(21, 23)? as u8,
                     ffu: match offset {
                         34 => FFU::from_str(&fname[28..32]).ok(), // may be unspecified
-                        _ => None, // NAV FILE case
+                        _ => None,                                // NAV FILE case
                     },
                 }),
             })
-- 
2.43.0


From 9228298a9eccf4ba02222e28c9f7f22f34b2f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:31 +0000
Subject: [PATCH 27/78] fix: CRINEX kernels: history depth of the numerical
 kernel, overflows, dropped and non ASCII content of the text kernel

---
 src/hatanaka/numdiff.rs  |  70 +++++++++++--------------
 src/hatanaka/textdiff.rs | 108 ++++++++++++++-------------------------
 2 files changed, 69 insertions(+), 109 deletions(-)

diff --git a/src/hatanaka/numdiff.rs b/src/hatanaka/numdiff.rs
index eb56177..d2983bd 100644
--- a/src/hatanaka/numdiff.rs
+++ b/src/hatanaka/numdiff.rs
@@ -36,7 +36,8 @@ impl<const M: usize> NumDiff<M> {
         buf[0] = data;
         Self { buf, m: 0, level }
     }
-    /// [NumDiff] needs to be reinit   when ???
+    /// Restarts from this initial point: previous history is dropped.
+    /// Level must not exceed 6 otherwise this will panic.
     pub fn force_init(&mut self, data: i64, level: usize) {
         if level > 6 {
             panic!("M=6 is the compression limit");
@@ -48,62 +49,51 @@ impl<const M: usize> NumDiff<M> {
 
     /// Rotate internal buffer, take new sample into account.
     fn rotate_history(&mut self, data: i64) {
-        self.buf.copy_within(0..M - 2, 1);
+        self.buf.copy_within(0..M - 1, 1);
         self.buf[0] = data;
     }
 
-    /// Decompresses input data point, returns recovered data point.
-    pub fn decompress(&mut self, data: i64) -> i64 {
+    /// Moves on to the following data point: returns its prediction.
+    fn predict(&mut self) -> i64 {
         if self.m < self.level {
             self.m += 1;
         }
 
-        let new: i64 = match self.m {
-            1 => data + self.buf[0],
-            2 => data + 2 * self.buf[0] - self.buf[1],
-            3 => data + 3 * self.buf[0] - 3 * self.buf[1] + self.buf[2],
-            4 => data + 4 * self.buf[0] - 6 * self.buf[1] + 4 * self.buf[2] - self.buf[3],
-            5 => {
-                data + 5 * self.buf[0] - 10 * self.buf[1] + 10 * self.buf[2] - 5 * self.buf[3]
-                    + self.buf[4]
-            },
-            6 => {
-                data + 6 * self.buf[0] - 15 * self.buf[1] + 20 * self.buf[2] - 15 * self.buf[3]
-                    + 6 * self.buf[4]
-                    - self.buf[5]
-            },
+        let coefficients: &[i64] = match self.m {
+            0 => &[],
+            1 => &[1],
+            2 => &[2, -1],
+            3 => &[3, -3, 1],
+            4 => &[4, -6, 4, -1],
+            5 => &[5, -10, 10, -5, 1],
+            6 => &[6, -15, 20, -15, 6, -1],
             _ => panic!("numdiff is limited to M < 7"),
         };
 
+        if coefficients.len() > M {
+            panic!("compression level is limited to M={}", M);
+        }
+
+        coefficients
+            .iter()
+            .zip(self.buf.iter())
+            .fold(0_i64, |sum, (coeff, data)| {
+                sum.wrapping_add(coeff.wrapping_mul(*data))
+            })
+    }
+
+    /// Decompresses input data point, returns recovered data point.
+    pub fn decompress(&mut self, data: i64) -> i64 {
+        let new = data.wrapping_add(self.predict());
         self.rotate_history(new);
         new
     }
 
     /// Compresses input data point, returns "compressed" data point.
     pub fn compress(&mut self, data: i64) -> i64 {
-        if self.m < self.level {
-            self.m += 1;
-        }
+        let compressed = data.wrapping_sub(self.predict());
         self.rotate_history(data);
-
-        match self.m {
-            1 => self.buf[0] - self.buf[1],
-            2 => self.buf[0] - 2 * self.buf[1] + self.buf[2],
-            3 => self.buf[0] - 3 * self.buf[1] + 3 * self.buf[2] - self.buf[3],
-            4 => self.buf[0] - 4 * self.buf[1] + 6 * self.buf[2] - 4 * self.buf[3] + self.buf[4],
-            5 => {
-                self.buf[0] - 5 * self.buf[1] + 10 * self.buf[2] - 10 * self.buf[3]
-                    + 5 * self.buf[4]
-                    - self.buf[5]
-            },
-            6 => {
-                self.buf[0] - 6 * self.buf[1] + 15 * self.buf[2] - 20 * self.buf[3]
-                    + 15 * self.buf[4]
-                    - 6 * self.buf[5]
-                    + self.buf[6]
-            },
-            _ => panic!("numdiff is limited to M < 7"),
-        }
+        compressed
     }
 }
 
diff --git a/src/hatanaka/textdiff.rs b/src/hatanaka/textdiff.rs
index c691391..a1a598b 100644
--- a/src/hatanaka/textdiff.rs
+++ b/src/hatanaka/textdiff.rs
@@ -34,89 +34,59 @@ impl TextDiff {
         self.compressed = data.to_string();
     }
 
-    /// Decompresses given data. Returns recovered value.
-    pub fn decompress(&mut self, data: &str) -> &str {
-        let size = data.len();
-        let buf_len = self.buffer.len();
-
-        if size > buf_len {
-            // extend new bytes as is
-            self.buffer.push_str(&data[buf_len..]);
+    /// Recovers value from given data, without updating the internal history.
+    pub(crate) fn recover(&self, data: &str) -> String {
+        let mut history = self.buffer.chars();
+        let mut recovered = String::with_capacity(self.buffer.len().max(data.len()));
+
+        for c in data.chars() {
+            let previous = history.next().unwrap_or(' ');
+            recovered.push(match c {
+                ' ' => previous,
+                '&' => ' ',
+                c => c,
+            });
         }
 
-        // browse all bytes and save only new content
-        let bytes = data.bytes();
-        unsafe {
-            let buf = self.buffer.as_bytes_mut();
-
-            // browse all new bytes
-            for (i, byte) in bytes.enumerate() {
-                if let Some(buf) = buf.get_mut(i) {
-                    if byte != b' ' {
-                        if byte == b'&' {
-                            *buf = b' ';
-                        } else {
-                            *buf = byte;
-                        }
-                    }
-                }
-            }
-            &self.buffer
-        }
+        recovered.extend(history);
+        recovered
+    }
+
+    /// Decompresses given data. Returns recovered value.
+    pub fn decompress(&mut self, data: &str) -> &str {
+        self.buffer = self.recover(data);
+        &self.buffer
     }
 
     /// Compress given data using the Textdiff algorithm.
     /// Returns compressed text.
     pub fn compress(&mut self, data: &str) -> &str {
-        let len = data.len();
-        let mut buf_len = self.buffer.len();
-        let min_len = std::cmp::min(len, buf_len);
-
-        if buf_len > len {
-            // special case: shrink history
-            self.buffer = self.buffer[..len].to_string();
-            buf_len = len; // update size
+        let mut history = self.buffer.chars();
+
+        self.compressed.clear();
+
+        for c in data.chars() {
+            self.compressed.push(match history.next() {
+                Some(previous) if previous == c => ' ',
+                _ if c == ' ' => '&',
+                _ => c,
+            });
         }
 
-        self.compressed = self.buffer.to_string();
-
-        unsafe {
-            let mut bytes = data.as_bytes().iter();
-            let mut buffered = self.buffer.as_bytes().iter();
-            let mut compressed = self.compressed.as_bytes_mut().iter_mut();
-
-            while let Some(buffered) = buffered.next() {
-                let byte = bytes.next().unwrap();
-                let mut compressed = compressed.next().unwrap();
-                if byte == buffered {
-                    *compressed = b' ';
-                } else {
-                    if *byte == b' ' {
-                        *compressed = b'&';
-                    } else {
-                        *compressed = *byte;
-                    }
-                }
-            }
+        // content being dropped
+        for previous in history {
+            self.compressed.push(match previous {
+                ' ' => ' ',
+                _ => '&',
+            });
         }
 
+        let size = self.compressed.trim_end().len().max(data.len());
+        self.compressed.truncate(size);
+
         // update internal memory
         self.buffer = data.to_string();
 
-        // possible new string termination
-        if len > buf_len {
-            self.compressed.push_str(&data[buf_len..]);
-
-            unsafe {
-                let mut compressed = self.compressed.as_bytes_mut().iter_mut().skip(buf_len);
-                while let Some(byte) = compressed.next() {
-                    if *byte == b' ' {
-                        *byte = b'&';
-                    }
-                }
-            }
-        }
-
         &self.compressed
     }
 }
-- 
2.43.0


From 7b6d42ee0d0ccf6fa82ea977f474d3f06ba620fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:31 +0000
Subject: [PATCH 28/78] fix: CRINEX decompression: events, clock offsets, gaps,
 invalid content, buffer sizes

---
 src/hatanaka/decompressor/mod.rs | 1054 +++++++++++++-----------------
 src/record/parsing.rs            |   74 +--
 2 files changed, 486 insertions(+), 642 deletions(-)

diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 102e8c7..bf8b32e 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -1,10 +1,11 @@
 //! CRINEX decompression module
 use crate::{
     hatanaka::{Error, NumDiff, TextDiff},
+    is_rinex_comment,
     prelude::{Constellation, Observable, SV},
 };
 
-use std::{collections::HashMap, str::FromStr};
+use std::{borrow::Cow, collections::HashMap, str::FromStr};
 
 pub mod io;
 
@@ -38,6 +39,8 @@ pub enum State {
     Clock,
     /// Observations gathering and recovering.
     Observation,
+    /// Special records following an event description: not compressed.
+    Event,
 }
 
 impl State {
@@ -45,7 +48,6 @@ impl State {
     /// - Timestamp: Year uses 2 digits
     /// - Flag
     /// - Numsat
-    const MIN_COMPRESSED_EPOCH_SIZE_V1: usize = 17;
     const MIN_DECOMPRESSED_EPOCH_SIZE_V1: usize = 32;
 
     /// Minimal size of a valid [Epoch] description in V3 revision  
@@ -53,10 +55,10 @@ impl State {
     /// - Timestamp: Year uses 4 digits
     /// - Flag
     /// - Numsat
-    const MIN_COMPRESSED_EPOCH_SIZE_V3: usize = 20;
     const MIN_DECOMPRESSED_EPOCH_SIZE_V3: usize = 35;
 
-    /// Calculates number of bytes this state will forward to user
+    /// Calculates number of bytes this state will forward to user,
+    /// optional clock offset excluded.
     fn size_to_produce(&self, v3: bool, numsat: usize, numobs: usize) -> usize {
         match self {
             // Epoch is recovered once Clock is recovered.
@@ -67,7 +69,7 @@ impl State {
                     Self::MIN_DECOMPRESSED_EPOCH_SIZE_V3
                 } else {
                     let mut size = Self::MIN_DECOMPRESSED_EPOCH_SIZE_V1;
-                    let num_extra = div_ceil(numsat, 12) - 1;
+                    let num_extra = div_ceil(numsat, 12).saturating_sub(1);
                     size += num_extra * 17; // padding
                     size += numsat * 3; // formatted
                     size
@@ -78,9 +80,9 @@ impl State {
                     3 + numobs * 16
                 } else {
                     let mut size = 1;
-                    size += numobs - 1; // separator
+                    size += numobs.saturating_sub(1); // separator
                     size += 15 * numobs; // formatted
-                    let num_extra = div_ceil(numobs, 5) - 1;
+                    let num_extra = div_ceil(numobs, 5).saturating_sub(1);
                     size += num_extra * 15; // padding
                     size
                 }
@@ -92,6 +94,14 @@ impl State {
     }
 }
 
+/// Decompression kernels of one [SV]
+struct Kernels<const M: usize> {
+    /// Observation flags
+    flags: TextDiff,
+    /// Observations, [None] when the next one has to reset the kernel
+    observations: Vec<Option<NumDiff<M>>>,
+}
+
 /// [DecompressorExpert] gives you full control over the maximal compression ratio.
 /// When decoding, we adapt to the compression ratio applied when the stream was encoded.
 /// RNX2CRX is historically limited to M<=3 while 5 is said to be the optimal.
@@ -105,56 +115,32 @@ pub struct DecompressorExpert<const M: usize> {
     constellation: Constellation,
     /// Internal Finite [State] Machine.
     state: State,
-    /// For internal logic: remains true until one epoch descriptor has been recovered.
-    first_epoch: bool,
-    /// pointers
-    sv: SV,
-    numsat: usize,  // total
-    sv_ptr: usize,  // inside epoch
-    numobs: usize,  // total
-    obs_ptr: usize, // inside epoch
+    /// True as long as the epoch descriptor has to be initialized:
+    /// until the very first one, and once the stream is found to be inconsistent.
+    wait_for_init: bool,
+    /// Vehicles of current epoch
+    satellites: Vec<SV>,
+    /// Pointer inside [Self::satellites]
+    sv_ptr: usize,
+    /// Remaining special records that follow an event
+    num_records: usize,
     /// [TextDiff] that works on entire Epoch line
     epoch_diff: TextDiff,
-    /// Epoch descriptor, for single allocation
+    /// Epoch descriptor
     epoch_descriptor: String,
-    epoch_desc_len: usize, // for internal logic
-    /// Stored index of current BLANKS
-    /// for correct flags omition in this case
-    blanking_indexes: Vec<usize>,
-    /// Cleaned up flags buffer (single malloc)
-    flags_buf: String,
-    /// [TextDiff] for observation flags
-    flags_diff: HashMap<SV, TextDiff>,
-    /// Clock offset differentiator
-    clock_diff: NumDiff<M>,
-    /// Observation differentiators
-    obs_diff: HashMap<(SV, usize), NumDiff<M>>,
+    /// Clock offset differentiator, [None] when the next offset has to reset it
+    clock_diff: Option<NumDiff<M>>,
+    /// Kernels of each vehicle described by last epoch
+    kernels: HashMap<SV, Kernels<M>>,
+    /// Recovered content, prior publication
+    recovered: String,
     /// [Observable]s specs for each [Constellation]
     gnss_observables: HashMap<Constellation, Vec<Observable>>,
 }
 
 impl<const M: usize> Default for DecompressorExpert<M> {
     fn default() -> Self {
-        Self {
-            v3: true,
-            numsat: 0,
-            sv_ptr: 0,
-            numobs: 0,
-            obs_ptr: 0,
-            first_epoch: true,
-            epoch_desc_len: 0,
-            sv: Default::default(),
-            state: Default::default(),
-            constellation: Constellation::Mixed,
-            epoch_diff: TextDiff::new(""),
-            gnss_observables: HashMap::with_capacity(8), // cannot be initialized
-            obs_diff: HashMap::with_capacity(8),         // cannot initialize yet
-            flags_diff: HashMap::with_capacity(8),       // cannot initialize yet
-            epoch_descriptor: String::with_capacity(256),
-            blanking_indexes: Vec::with_capacity(32),
-            flags_buf: String::with_capacity(32),
-            clock_diff: NumDiff::<M>::new(0, M),
-        }
+        Self::new(true, Constellation::Mixed, HashMap::with_capacity(8))
     }
 }
 
@@ -164,6 +150,13 @@ impl<const M: usize> DecompressorExpert<M> {
     const V1_NUMSAT_OFFSET: usize = Self::V1_TIMESTAMP_SIZE + 4;
     const V1_SV_OFFSET: usize = Self::V1_NUMSAT_OFFSET + 3;
 
+    /// Number of vehicles described in a single line, and its size, in V1 revision
+    const V1_NUMSAT_LINE: usize = 12;
+    const V1_EPOCH_LINE_SIZE: usize = Self::V1_SV_OFFSET + 3 * Self::V1_NUMSAT_LINE;
+
+    /// Number of observations described in a single line, in V1 revision
+    const V1_NUMOBS_LINE: usize = 5;
+
     /// Minimal timestamp length in V3 revision
     const V3_TIMESTAMP_SIZE: usize = 26;
     const V3_NUMSAT_OFFSET: usize = Self::V3_TIMESTAMP_SIZE + 1 + 4;
@@ -179,51 +172,57 @@ impl<const M: usize> DecompressorExpert<M> {
         offset + sv_index * 3
     }
 
-    /// Returns next [SV]
-    fn next_sv(&self) -> Option<SV> {
-        let start = Self::sv_slice_start(self.v3, self.sv_ptr);
-        let end = (start + 3).min(self.epoch_desc_len);
+    /// Identifies nth [SV] described by this epoch descriptor
+    fn nth_sv(&self, descriptor: &str, nth: usize) -> Option<SV> {
+        let start = Self::sv_slice_start(self.v3, nth);
+        let end = (start + 3).min(descriptor.len());
+        let content = descriptor.get(start..end)?.trim();
 
-        if let Ok(sv) = SV::from_str(&self.epoch_descriptor[start..end].trim()) {
+        if content.is_empty() {
+            return None;
+        }
+
+        if let Ok(sv) = SV::from_str(content) {
             Some(sv)
         } else {
             // May fail on old revisions that have a mono GNSS system
             // that have tendency to omit the constellation description (leaving only the PRN#)
-            if !self.v3 {
-                match self.constellation {
-                    Constellation::Mixed => {
-                        None // incorrect description, will rapidly panic
-                    },
-                    constellation => {
-                        // PRN# parsing attempt
-                        if let Ok(prn) = &self.epoch_descriptor[start..end].trim().parse::<u8>() {
-                            Some(SV {
-                                prn: *prn,
-                                constellation,
-                            })
-                        } else {
-                            None // incorrect description, will rapidly panic
-                        }
-                    },
-                }
-            } else {
+            if self.v3 || self.constellation == Constellation::Mixed {
                 None
+            } else {
+                let prn = content.parse::<u8>().ok()?;
+                Some(SV {
+                    prn,
+                    constellation: self.constellation,
+                })
             }
         }
     }
 
-    /// Macro to directly parse numsat from recovered descriptor
-    fn epoch_numsat(&self) -> Option<usize> {
+    /// Parses numsat from recovered descriptor
+    fn epoch_numsat(&self, descriptor: &str) -> Option<usize> {
         let start = if self.v3 {
             Self::V3_NUMSAT_OFFSET
         } else {
             Self::V1_NUMSAT_OFFSET
         };
 
-        if let Ok(numsat) = &self.epoch_descriptor[start..start + 3].trim().parse::<u8>() {
-            Some(*numsat as usize)
+        let end = (start + 3).min(descriptor.len());
+        descriptor.get(start..end)?.trim().parse::<usize>().ok()
+    }
+
+    /// Returns true if recovered descriptor describes an event,
+    /// in this case it is followed by special records, in place of observations.
+    fn is_event(&self, descriptor: &str) -> bool {
+        let offset = if self.v3 {
+            Self::V3_NUMSAT_OFFSET - 1
         } else {
-            None
+            Self::V1_NUMSAT_OFFSET - 1
+        };
+
+        match descriptor.as_bytes().get(offset) {
+            Some(flag) => (b'2'..=b'5').contains(flag),
+            None => false,
         }
     }
 
@@ -239,23 +238,18 @@ impl<const M: usize> DecompressorExpert<M> {
     ) -> Self {
         Self {
             v3,
-            numsat: 0,
-            sv_ptr: 0,
-            numobs: 0,
-            obs_ptr: 0,
             constellation,
             gnss_observables,
-            first_epoch: true,
-            epoch_desc_len: 0,
-            sv: Default::default(),
+            sv_ptr: 0,
+            num_records: 0,
+            wait_for_init: true,
+            clock_diff: None,
             state: Default::default(),
             epoch_diff: TextDiff::new(""),
-            obs_diff: HashMap::with_capacity(8), // cannot initialize yet
-            flags_diff: HashMap::with_capacity(8), // cannot initialize yet
-            blanking_indexes: Vec::with_capacity(32),
-            flags_buf: String::with_capacity(32),
+            kernels: HashMap::with_capacity(8), // cannot initialize yet
+            satellites: Vec::with_capacity(32),
+            recovered: String::with_capacity(256),
             epoch_descriptor: String::with_capacity(256),
-            clock_diff: NumDiff::<M>::new(0, M),
         }
     }
 
@@ -270,7 +264,13 @@ impl<const M: usize> DecompressorExpert<M> {
     ///  - size: produced size (total bytes recovered).
     /// It is possible that, depending on current state, that several input lines
     /// are needed to recover a new line. Recovered content may span several lines as well,
-    /// especially when working with a V1 stream.
+    /// especially when working with a V1 stream: they are separated by \n
+    /// and the last one is not terminated.
+    ///
+    /// [Error::BufferOverflow] has no side effect: you can submit this line once again, with
+    /// a larger buffer. Any other error means this line is not consistent with the previous ones:
+    /// in this case, nothing can be recovered until the next epoch description that
+    /// initializes the stream.
     pub fn decompress(
         &mut self,
         line: &str,
@@ -278,579 +278,446 @@ impl<const M: usize> DecompressorExpert<M> {
         buf: &mut [u8],
         size: usize,
     ) -> Result<usize, Error> {
-        if size
-            < self
-                .state
-                .size_to_produce(self.v3, self.numsat, self.numobs)
-        {
+        let line = Self::content(line.get(..len).unwrap_or(line));
+
+        if size.min(buf.len()) < self.size_required(&line) {
             return Err(Error::BufferOverflow);
         }
 
-        // println!("STATE={:?}", self.state); //DEBUG
-        match self.state {
-            State::Epoch => self.run_epoch(line, len),
-            State::Clock => self.run_clock(line, len, buf),
-            State::Observation => self.run_observation(line, len, buf),
-        }
-    }
+        // V1: an empty line concludes
+        //  - satellites descriptions that fill the last line entirely
+        //  - observations that were trimmed
+        let state = self.next_state(&line);
+        let numobs = self.num_observables();
 
-    /// Process following line, in [State::Epoch]
-    fn run_epoch(&mut self, line: &str, len: usize) -> Result<usize, Error> {
-        let min_len = if self.v3 {
-            State::MIN_COMPRESSED_EPOCH_SIZE_V3
-        } else {
-            State::MIN_COMPRESSED_EPOCH_SIZE_V1
-        };
-
-        if len < min_len {
-            return Err(Error::EpochFormat);
-        }
+        self.process(&line)?;
 
-        let trimmed = &line[1..].trim_end();
-        if line.starts_with('&') {
-            if self.v3 {
-                return Err(Error::BadV3Format);
-            }
+        if !self.v3 && !self.recovered.is_empty() {
+            let numsat = self.satellites.len();
+            let is_filled = numsat > 0 && numsat % Self::V1_NUMSAT_LINE == 0;
+            let is_trimmed = line.matches(' ').count() < numobs;
 
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
-        } else if line.starts_with('>') {
-            if !self.v3 {
-                return Err(Error::BadV1Format);
+            match state {
+                State::Clock if is_filled => self.recovered.push_str("\n "),
+                State::Observation if is_trimmed => self.recovered.push_str("\n "),
+                _ => {},
             }
-
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
-        } else {
-            self.epoch_descriptor = self.epoch_diff.decompress(trimmed).to_string();
-            self.epoch_desc_len = self.epoch_descriptor.len();
         }
 
-        // println!(
-        //     "RECOVERED \"{}\" [{}]",
-        //     self.epoch_descriptor, self.epoch_desc_len
-        // ); // DEBUG
-
-        // numsat needs to be recovered right away,
-        // because it is used to determine the next production size
-        self.numsat = self.epoch_numsat().expect("bad recovered content (numsat)");
+        let produced = self.recovered.len();
+        buf[..produced].copy_from_slice(self.recovered.as_bytes());
+        Ok(produced)
+    }
 
-        self.state = State::Clock;
-        Ok(0)
+    /// Decompresses following line, appends recovered content to this buffer
+    /// and returns produced size.
+    pub(crate) fn decompress_append(
+        &mut self,
+        line: &str,
+        buf: &mut Vec<u8>,
+    ) -> Result<usize, Error> {
+        self.process(&Self::content(line))?;
+        buf.extend_from_slice(self.recovered.as_bytes());
+        Ok(self.recovered.len())
     }
 
-    /// Fills user buffer with recovered epoch, following either V1 or V3 standards
-    fn format_epoch(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
-        if self.v3 {
-            self.format_epoch_v3(clock_data, buf)
+    /// Content of this line: CRINEX is solely made of ASCII characters, comments excepted.
+    fn content(line: &str) -> Cow<'_, str> {
+        let line = line.trim_end_matches(|c| c == '\n' || c == '\r');
+
+        if line.is_ascii() || is_rinex_comment(line) {
+            Cow::Borrowed(line)
         } else {
-            self.format_epoch_v1(clock_data, buf)
+            let ascii = |c: char| if c.is_ascii() { c } else { '?' };
+            Cow::Owned(line.chars().map(ascii).collect())
         }
     }
 
-    /// Fills user buffer with recovered epoch, following V3 standards
-    fn format_epoch_v3(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
-        // V3 format is much simpler
-        // all we need to do is extract SV `XXY` to append in each following lines
-
-        let mut produced = 0;
-        buf[produced] = b'>'; // special marker
-        produced += 1;
-
-        let bytes = self.epoch_descriptor.as_bytes();
-
-        // push timestamp +flag
-        buf[produced..produced + 34].copy_from_slice(&bytes[..34]);
-        produced += 34;
-
-        // provide clock data, if any
-        if let Some(clock_data) = clock_data {
-            let value = clock_data as f64 / 1000.0;
-            let formatted = format!("       {:.12}", value);
-            let fmt_len = formatted.len(); // TODO improve: this is constant
-            let bytes = formatted.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-            produced += fmt_len; // TODO improve: this is constant
+    /// [State] in which this line is to be processed.
+    fn next_state(&self, line: &str) -> State {
+        // This marker is specific to the epoch description:
+        // expected content is missing when found in another state.
+        if line.starts_with('&') || line.starts_with('>') {
+            State::Epoch
+        } else {
+            self.state
         }
-
-        produced
     }
 
-    /// Fills user buffer with recovered epoch, following V1 standards
-    fn format_epoch_v1(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
-        let mut produced = 0;
+    /// Process following line
+    fn process(&mut self, line: &str) -> Result<(), Error> {
+        self.recovered.clear();
 
-        buf[produced] = b' '; // single whitespace
-        produced += 1;
+        // Comments are not compressed
+        if is_rinex_comment(line) {
+            self.recovered.push_str(line);
 
-        let bytes = self.epoch_descriptor.as_bytes();
+            if self.state == State::Event {
+                self.conclude_record();
+            }
 
-        // push first line (up to 68 bytes)
-        let first_len = self.epoch_desc_len.min(67);
+            return Ok(());
+        }
 
-        buf[produced..produced + first_len].copy_from_slice(&bytes[..first_len]);
-        produced += first_len;
+        self.state = self.next_state(line);
 
-        // push clock offset (if any)
-        if let Some(clock_data) = clock_data {
-            let formatted_ck = format!(" {:15.12}", clock_data);
-            let fmt_len = formatted_ck.len(); // TODO: improve (constant)
-            let formatted_ck = formatted_ck.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&formatted_ck);
-            produced += fmt_len;
+        match self.state {
+            State::Epoch => {
+                if let Err(e) = self.run_epoch(line) {
+                    self.wait_for_init = true;
+                    return Err(e);
+                }
+            },
+            State::Clock => self.run_clock(line),
+            State::Observation => self.run_observation(line),
+            State::Event => {
+                self.recovered.push_str(line);
+                self.conclude_record();
+            },
         }
 
-        buf[produced] = b'\n'; // conclude 1st line
-        produced += 1;
+        Ok(())
+    }
 
-        // construct all following lines that need to be wrapped and padded
-        let mut offset = 67;
-        let nb_extra = (self.epoch_desc_len - Self::V1_NUMSAT_OFFSET) / 36;
+    /// Size required to process this line
+    fn size_required(&self, line: &str) -> usize {
+        if is_rinex_comment(line) {
+            return line.len();
+        }
 
-        for _ in 0..nb_extra {
-            // extra padding
-            buf[produced..produced + 32].copy_from_slice(&[
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ',
-            ]);
+        let numsat = self.satellites.len();
+        let numobs = self.num_observables();
 
-            produced += 32;
+        let state = self.next_state(line);
+        let mut size = state.size_to_produce(self.v3, numsat, numobs);
 
-            // copy data slice
-            let end = (offset + 36).min(self.epoch_desc_len);
-            let size = end - offset;
+        match state {
+            State::Epoch => {
+                let descriptor = self.recover_descriptor(line);
+                if self.is_event(&descriptor) {
+                    size += descriptor.len() + 1;
+                }
+            },
+            State::Clock => {
+                if !self.v3 {
+                    // actual padding and wrapping
+                    size += div_ceil(numsat, Self::V1_NUMSAT_LINE) * 16 + 2;
+                }
 
-            buf[produced..produced + size].copy_from_slice(&bytes[offset..end]);
+                if !line.trim().is_empty() {
+                    // clock offset, past the complete first line
+                    size += if self.v3 { 21 } else { 36 + 12 };
+                }
+            },
+            State::Observation => {
+                if !self.v3 {
+                    size += 2;
+                }
+            },
+            State::Event => size += line.len(),
+        }
 
-            offset += size;
-            produced += size;
+        size
+    }
 
-            // terminate this line
-            buf[produced] = b'\n';
-            produced += 1;
+    /// Recovers epoch descriptor from this line, without updating the internal history
+    fn recover_descriptor(&self, line: &str) -> String {
+        let content = line.get(1..).unwrap_or_default().trim_end();
+        if line.starts_with('&') || line.starts_with('>') {
+            content.to_string()
+        } else {
+            self.epoch_diff.recover(content)
         }
-
-        produced
     }
 
-    /// Process following line, in [State::Clock]
-    fn run_clock(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut clock_data = Option::<i64>::None;
+    /// Process following line, in [State::Epoch]
+    fn run_epoch(&mut self, line: &str) -> Result<(), Error> {
+        if line.trim().is_empty() {
+            return Err(Error::EpochFormat);
+        }
 
-        // attempts to recover clock data (if it exists)
-        if len > 2 {
-            if line[1..].starts_with('&') {
-                if let Ok(order) = line[..1].parse::<usize>() {
-                    if let Ok(val) = line[2..].parse::<i64>() {
-                        // valid kernel reset
-                        self.clock_diff.force_init(val, order);
-                        clock_data = Some(val);
-                    }
-                }
+        let descriptor = self.recover_descriptor(line);
+
+        if line.starts_with('&') || line.starts_with('>') {
+            if line.starts_with('&') && self.v3 {
+                return Err(Error::BadV3Format);
             }
-        }
-        if len == 1 {
-            // highly compressed clock data
-            match line.trim().parse::<i64>() {
-                Ok(val) => {
-                    let val = self.clock_diff.decompress(val);
-                    clock_data = Some(val);
-                },
-                Err(_) => {},
+            if line.starts_with('>') && !self.v3 {
+                return Err(Error::BadV1Format);
             }
+
+            // all kernels are reset at the same time
+            self.reset_kernels();
+        } else if self.wait_for_init || !line.starts_with(' ') {
+            return Err(Error::EpochFormat);
         }
 
-        // now that we have potentially recovered clock data
-        // we can format the complete epoch description
-        let produced = self.format_epoch(clock_data, buf);
+        let num = self.epoch_numsat(&descriptor).ok_or(Error::EpochFormat)?;
+
+        let is_event = self.is_event(&descriptor);
 
-        // prepare for observation state
-        self.obs_ptr = 0;
+        self.satellites.clear();
         self.sv_ptr = 0;
-        self.first_epoch = false;
 
-        // grab first sv
-        self.sv = self.next_sv().expect("bad recovered content (sv)");
+        if is_event {
+            // description is not compressed any further
+            self.recovered.push(if self.v3 { '>' } else { ' ' });
+            self.recovered.push_str(&descriptor);
 
-        // cross check recovered content
-        // &, at the same time, make sure we are ready to process any new SV
-        for i in 0..self.numsat {
-            let start = Self::sv_slice_start(self.v3, i);
+            self.num_records = num;
+            self.reset_kernels();
 
+            if num > 0 {
+                self.state = State::Event;
+            }
+        } else {
             // any invalid SV description, will cause us to wait for a new epoch.
             // In other terms, epoch is fully disregarded.
-            let sv = match SV::from_str(&self.epoch_descriptor[start..start + 3]) {
-                Ok(sv) => sv,
-                Err(_) => {
-                    // SV parsing may be in failure in case of very old V1 CRINEX mono GNSS
-                    // that omit the constellation
-                    if !self.v3 {
-                        if let Ok(prn) = &self.epoch_descriptor[start + 1..start + 3]
-                            .trim()
-                            .parse::<u8>()
-                        {
-                            SV {
-                                prn: *prn,
-                                constellation: self.constellation,
-                            }
-                        } else {
-                            return Err(Error::SVParsing);
-                        }
-                    } else {
-                        return Err(Error::SVParsing);
-                    }
-                },
-            };
-
-            // initialize on first encounter
-            if self.flags_diff.get(&sv).is_none() {
-                // initializes the internal buffer with some capacity..
-                let textdiff = TextDiff::new("               ");
-                self.flags_diff.insert(sv, textdiff);
+            for nth in 0..num {
+                let sv = self.nth_sv(&descriptor, nth).ok_or(Error::SVParsing)?;
+                self.satellites.push(sv);
             }
-        }
 
-        let obs = self
-            .get_observables(&self.sv.constellation)
-            .expect("failed to determine sv definition");
+            // kernels do not survive a gap
+            let satellites = &self.satellites;
+            self.kernels.retain(|sv, _| satellites.contains(sv));
 
-        self.numobs = obs.len();
-        self.state = State::Observation;
-        Ok(produced)
-    }
+            self.state = State::Clock;
+        }
 
-    /// Process following line, in [State::Observation]
-    fn run_observation(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut consumed = 0;
-        let mut produced = 0;
-        let mut new_state = self.state;
+        self.wait_for_init = false;
+        self.epoch_diff.force_init(&descriptor);
 
-        self.blanking_indexes.clear(); // new run
+        // only keep what relates to this epoch
+        self.epoch_descriptor = descriptor;
+        self.epoch_descriptor
+            .truncate(Self::sv_slice_start(self.v3, self.satellites.len()));
 
-        // println!("[{}] LINE \"{}\"", self.sv, line); // DEBUG
+        Ok(())
+    }
 
-        if self.v3 {
-            // prepend SVNN identity
-            let start = Self::sv_slice_start(true, self.sv_ptr);
-            let end = (start + 3).min(self.epoch_desc_len);
-            let bytes = self.epoch_descriptor.as_bytes();
-            buf[..3].copy_from_slice(&bytes[start..end]);
-            produced += 3;
+    /// One special record has been forwarded
+    fn conclude_record(&mut self) {
+        self.num_records = self.num_records.saturating_sub(1);
+        if self.num_records == 0 {
+            self.state = State::Epoch;
         }
+    }
 
-        // Retrieving observations is complex.
-        // When signal sampling was not feasible: data is omitted (blanked) by a single '_'
-        // Which is not particularly clever and means the data flags can only provided at the end of the line.
-        // Since data flags are text compressed, it can create some weird situations.
-        for ptr in 0..self.numobs {
-            // We must output something for each expected data points (whatever happens).
-            // So we default to a BLANK, which simplifies the following code:
-            // we only implement successful cases.
-            let mut formatted = "                ".to_string();
-
-            // Try to locate next '_', which is either
-            //  . normal/expected line progression
-            //  . or a blanking
-            let offset = line[consumed..].find(' ');
-
-            if let Some(offset) = offset {
-                if offset > 1 {
-                    // observation (made of at least two digits)
-                    // Determine whether this is a kernel reset or compression continuation
-
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    consumed += offset + 1; // consume until this point
-                } else {
-                    // this is either BLANK or highly compressed (=single digit value)
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    if slice.len() > 0 {
-                        // this is a digit (highly compressed value)
-
-                        //#[cfg(feature = "log")]
-                        //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                        consumed += 2; // consume this byte
-                    } else {
-                        consumed += 1;
-                        self.blanking_indexes.push(ptr);
-                    }
-                }
-
-                let fmt_len = formatted.len(); // TODO: improve, this is constant
-                let bytes = formatted.as_bytes();
+    fn reset_kernels(&mut self) {
+        self.kernels.clear();
+        self.clock_diff = None;
+    }
 
-                // push into user
-                buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                produced += fmt_len;
+    /// Parses kernel reset pattern: "order&value"
+    fn parse_kernel(content: &str) -> Option<(NumDiff<M>, i64)> {
+        let (order, value) = content.split_once('&')?;
+        let order = order.parse::<usize>().ok()?;
+        let value = value.parse::<i64>().ok()?;
 
-                // handle V1 padding and wrapping
-                if !self.v3 {
-                    if (ptr % 5) == 4 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n".to_string();
-                        let bytes = formatted.as_bytes();
-                        let fmt_len = formatted.len();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
+        if order > M.min(6) {
+            None // not supported
+        } else {
+            Some((NumDiff::<M>::new(value, order), value))
+        }
+    }
 
-                // this may cause trimed lines to panic on next '_' search
-                // so we exist the loop so we do not overflow
-                if consumed >= len {
-                    break;
-                }
-            } else {
-                // early line termination.
-                // This happens when last observations are all missing (possibly more than one)
-                // and observation "flags" are all fully compressed (100% compression factor)
-
-                // if we have leftovers, that means we have one last observation
-                if len > consumed {
-                    let mut formatted = "                ".to_string();
-
-                    // grab slice
-                    let slice = line[consumed..].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    let fmt_len = formatted.len(); // TODO: improve, this is constant
-                    let bytes = formatted.as_bytes();
-
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n                 ".to_string();
-                        let fmt_len = formatted.len();
-                        let bytes = formatted.as_bytes();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
+    /// Recovers numerical value, which may reset the kernel.
+    /// The kernel has to be reset once a value is omitted (or invalid).
+    fn recover_value(kernel: &mut Option<NumDiff<M>>, content: &str) -> Option<i64> {
+        if content.contains('&') {
+            let (new_kernel, value) = match Self::parse_kernel(content) {
+                Some(ret) => ret,
+                None => {
+                    *kernel = None;
+                    return None;
+                },
+            };
+            *kernel = Some(new_kernel);
+            Some(value)
+        } else {
+            match content.parse::<i64>() {
+                Ok(value) => Some(kernel.as_mut()?.decompress(value)),
+                Err(_) => {
+                    *kernel = None;
+                    None
+                },
+            }
+        }
+    }
 
-                // 1. we need to push all required BLANKING
-                // 2. we need to preserve data flags
-                // 3. and finally conclude this SV
-                let nb_missing = self.numobs - ptr - 1;
-
-                let formatted = "                ".to_string();
-                let fmt_len = formatted.len(); // IMPROVE: this is constant
-                let bytes = formatted.as_bytes();
-
-                // fill required nb of blanks
-                for j in 0..nb_missing {
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        if (ptr + j) % 5 == 4 {
-                            // TODO: improve, this is constant
-                            let formatted = "\n            ".to_string();
-                            let fmt_len = formatted.len();
-                            let bytes = formatted.as_bytes();
-
-                            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                            produced += fmt_len;
-                        }
-                    }
-                }
+    /// Formats this scaled value, with this number of fractional digits.
+    fn format_value(value: i64, digits: u32) -> String {
+        let scaling = 10_u64.pow(digits);
+        let digits = digits as usize;
+        format!(
+            "{}{}.{:0digits$}",
+            if value < 0 { "-" } else { "" },
+            value.unsigned_abs() / scaling,
+            value.unsigned_abs() % scaling,
+        )
+    }
 
-                // trick to preserve data flags
-                let textdiff = self
-                    .flags_diff
-                    .get_mut(&self.sv)
-                    .expect("internal error: bad crinex content?");
+    /// Recovers epoch description, following V3 standards
+    fn format_epoch_v3(&mut self, clock_data: Option<i64>) {
+        // V3 format is much simpler
+        // all we need to do is extract SV `XXY` to append in each following lines
+        let end = self.epoch_descriptor.len().min(34);
 
-                let flags = textdiff.decompress("").trim_end();
-                let flags_len = flags.len();
+        self.recovered.push('>'); // special marker
+        self.recovered.push_str(&self.epoch_descriptor[..end]);
 
-                //println!("PRESERVED \"{}\"", flags); // DEBUG
-                Self::write_flags(flags, flags_len, self.numobs, self.v3, buf);
+        // provide clock data, if any
+        if let Some(clock_data) = clock_data {
+            let formatted = Self::format_value(clock_data, 12);
+            if formatted.len() < 16 {
+                self.recovered.push_str(&format!("{:>21}", formatted));
+            }
+        }
+    }
 
-                // conclude this SV
-                self.sv_ptr += 1;
+    /// Recovers epoch description, following V1 standards
+    fn format_epoch_v1(&mut self, clock_data: Option<i64>) {
+        const PADDING: usize = 32;
 
-                //#[cfg(feature = "log")]
-                //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
+        let size = self.epoch_descriptor.len();
+        let mut offset = size.min(Self::V1_EPOCH_LINE_SIZE);
 
-                if self.sv_ptr == self.numsat {
-                    //#[cfg(feature = "log")]
-                    //debug!("[END OF EPOCH]");
+        self.recovered.push(' '); // single whitespace
+        self.recovered.push_str(&self.epoch_descriptor[..offset]);
 
-                    self.state = State::Epoch;
-                } else {
-                    self.sv = self.next_sv().expect("failed to determine next sv");
+        // push clock offset (if any)
+        if let Some(clock_data) = clock_data {
+            let formatted = Self::format_value(clock_data, 9);
+            if formatted.len() < 13 {
+                let padding = Self::V1_EPOCH_LINE_SIZE - offset;
+                self.recovered
+                    .push_str(&format!("{:padding$}{:>12}", "", formatted));
+            }
+        }
 
-                    let constellation = if self.sv.constellation.is_sbas() {
-                        Constellation::SBAS
-                    } else {
-                        self.sv.constellation
-                    };
+        // construct all following lines that need to be wrapped and padded
+        while offset < size {
+            let end = size.min(offset + 3 * Self::V1_NUMSAT_LINE);
+            self.recovered.push_str(&format!(
+                "\n{:PADDING$}{}",
+                "",
+                &self.epoch_descriptor[offset..end]
+            ));
+            offset = end;
+        }
+    }
 
-                    self.numobs = self
-                        .get_observables(&constellation)
-                        .expect("internal error")
-                        .len();
+    /// Process following line, in [State::Clock]
+    fn run_clock(&mut self, line: &str) {
+        // attempts to recover clock data (if it exists)
+        let clock_data = Self::recover_value(&mut self.clock_diff, line.trim());
 
-                    self.state = State::Observation;
-                }
+        // now that we have potentially recovered clock data
+        // we can format the complete epoch description
+        if self.v3 {
+            self.format_epoch_v3(clock_data);
+        } else {
+            self.format_epoch_v1(clock_data);
+        }
 
-                return Ok(produced);
-            }
-        } // for
+        self.state = if self.satellites.is_empty() {
+            State::Epoch
+        } else {
+            State::Observation
+        };
+    }
 
-        // at this point, we should be left with "data flags" in the buffer.
-        // That may not be the case. We may have consumed everything when
-        // the line was trimmed at production time, meaning flags should be preserved
+    /// Number of [Observable]s expected for current [SV]
+    fn num_observables(&self) -> usize {
+        match self.satellites.get(self.sv_ptr) {
+            Some(sv) => match self.get_observables(&sv.constellation) {
+                Some(observables) => observables.len(),
+                None => 0,
+            },
+            None => 0,
+        }
+    }
 
-        if consumed < len {
-            // proceed to flags recovering
-            let flags = &line[consumed..].trim_end();
+    /// Process following line, in [State::Observation]
+    fn run_observation(&mut self, line: &str) {
+        const BLANKING: &str = "                ";
 
-            // println!("FLAGS \"{}\"", flags); // DEBUG
+        let numobs = self.num_observables();
+        let sv = self.satellites[self.sv_ptr];
 
-            let kernel = self.flags_diff.get_mut(&self.sv).expect("internal error");
+        let kernels = self.kernels.entry(sv).or_insert_with(|| Kernels {
+            flags: TextDiff::new(""),
+            observations: vec![None; numobs],
+        });
 
-            let flags = kernel.decompress(flags);
-            let flags_len = flags.len();
+        if self.v3 {
+            // prepend SVNN identity
+            let start = Self::sv_slice_start(true, self.sv_ptr);
+            let end = (start + 3).min(self.epoch_descriptor.len());
+            self.recovered
+                .push_str(&format!("{:3}", &self.epoch_descriptor[start..end]));
+        }
 
-            self.flags_buf = flags.to_string();
+        // Each observation is terminated by a single '_'.
+        // When signal sampling was not feasible: data is omitted (blanked), only '_' remains.
+        // Trailing '_' may be trimmed, when all flags are fully compressed.
+        let mut remainder = line;
+        let mut blanking = Vec::<usize>::with_capacity(numobs);
 
-            // blank flags for which observation is blanked
-            // otherwise, .decompress("") will return past value
-            for index in &self.blanking_indexes {
-                if flags_len > (index * 2) {
-                    self.flags_buf
-                        .replace_range(2 * index..(2 * index + 1), " ");
-                }
-                if flags_len > index * 2 + 1 {
-                    self.flags_buf
-                        .replace_range(2 * index + 1..(2 * index + 2), " ");
-                }
-            }
+        for (nth, kernel) in kernels.observations.iter_mut().enumerate() {
+            let (content, rem) = remainder.split_once(' ').unwrap_or((remainder, ""));
+            remainder = rem;
 
-            // update len
-            let flags_len = self.flags_buf.len();
+            let formatted = match Self::recover_value(kernel, content) {
+                Some(value) => Self::format_value(value, 3),
+                None => Default::default(),
+            };
 
-            // copy all flags to user
-            // println!(
-            //     "RECOVERED \"{}\" (len={},numobs={})",
-            //     &self.flags_buf, flags_len, self.numobs
-            // ); // DEBUG
+            // handle V1 wrapping
+            if !self.v3 && nth > 0 && nth % Self::V1_NUMOBS_LINE == 0 {
+                self.recovered.push('\n');
+            }
 
-            Self::write_flags(&self.flags_buf, flags_len, self.numobs, self.v3, buf);
+            // We must output something for each expected data points (whatever happens).
+            if formatted.is_empty() || formatted.len() > 14 {
+                blanking.push(nth);
+                self.recovered.push_str(BLANKING);
+            } else {
+                self.recovered.push_str(&format!("{:>14}  ", formatted));
+            }
         }
 
-        self.obs_ptr = 0;
-
-        // move on to next state
-        self.sv_ptr += 1;
+        // at this point, we should be left with "data flags" in the buffer.
+        // That may not be the case: missing characters have not changed.
+        let mut flags = kernels
+            .flags
+            .decompress(remainder.trim_end())
+            .as_bytes()
+            .to_vec();
+
+        flags.truncate(2 * numobs);
+
+        // omit flags for which observation is omitted
+        for nth in blanking {
+            for flag in flags.iter_mut().skip(2 * nth).take(2) {
+                *flag = b' ';
+            }
+        }
 
-        //#[cfg(feature = "log")]
-        //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
+        let flags = String::from_utf8_lossy(&flags);
+        let mut recovered = std::mem::take(&mut self.recovered).into_bytes();
 
-        if self.sv_ptr == self.numsat {
-            //#[cfg(feature = "log")]
-            //debug!("[END OF EPOCH]");
+        Self::write_flags(&flags, flags.len(), numobs, self.v3, &mut recovered);
 
-            new_state = State::Epoch;
-        } else {
-            self.sv = self.next_sv().expect("failed to determine next sv");
+        self.recovered = String::from_utf8_lossy(&recovered).into_owned();
 
-            let constellation = if self.sv.constellation.is_sbas() {
-                Constellation::SBAS
-            } else {
-                self.sv.constellation
-            };
+        // move on to next vehicle, or next epoch
+        self.sv_ptr += 1;
 
-            self.numobs = self
-                .get_observables(&constellation)
-                .expect("internal error")
-                .len();
+        if self.sv_ptr == self.satellites.len() {
+            self.state = State::Epoch;
         }
-
-        self.state = new_state;
-        Ok(produced)
     }
 
     /// Helper to retrieve observable for given system
@@ -858,6 +725,8 @@ impl<const M: usize> DecompressorExpert<M> {
         // We use mixed to store a single value for single definitions
         if let Some(mixed) = self.gnss_observables.get(&Constellation::Mixed) {
             Some(mixed)
+        } else if constell.is_sbas() {
+            self.gnss_observables.get(&Constellation::SBAS)
         } else {
             self.gnss_observables.get(constell)
         }
@@ -876,22 +745,12 @@ impl<const M: usize> DecompressorExpert<M> {
     /// Formats Data "flags" into mutable buffer, following standardized format.
     fn write_v1_flags(flags: &str, flags_len: usize, buf: &mut [u8]) {
         let mut offset = 14;
-        let bytes = flags.as_bytes();
-
-        for i in 0..flags_len {
-            let lli_idx = i * 2;
-            if flags_len > lli_idx {
-                if !flags[lli_idx..lli_idx + 1].eq(" ") {
-                    // buf[offset] = b'x';
-                    buf[offset] = bytes[i * 2];
-                }
-            }
+        let bytes = &flags.as_bytes()[..flags_len];
 
-            let snr_idx = lli_idx + 1;
-            if flags_len > snr_idx {
-                if !flags[snr_idx..snr_idx + 1].eq(" ") {
-                    // buf[offset + 1] = b'y';
-                    buf[offset + 1] = bytes[(i * 2) + 1];
+        for (i, flags) in bytes.chunks(2).enumerate() {
+            for (j, flag) in flags.iter().enumerate() {
+                if *flag != b' ' {
+                    buf[offset + j] = *flag;
                 }
             }
 
@@ -906,22 +765,15 @@ impl<const M: usize> DecompressorExpert<M> {
     /// Formats Data "flags" into mutable buffer, following standardized format.
     fn write_v3_flags(flags: &str, flags_len: usize, numobs: usize, buf: &mut [u8]) {
         let mut offset = 17;
-        let bytes = flags.as_bytes();
-        for i in 0..numobs {
-            let lli_idx = i * 2;
-            if flags_len > lli_idx {
-                if !flags[lli_idx..lli_idx + 1].eq(" ") {
-                    //buf[offset] = b'x';
-                    buf[offset] = bytes[i * 2];
-                }
-            }
-            let snr_idx = lli_idx + 1;
-            if flags_len > snr_idx {
-                if !flags[snr_idx..snr_idx + 1].eq(" ") {
-                    //buf[offset + 1] = b'y';
-                    buf[offset + 1] = bytes[(i * 2) + 1];
+        let bytes = &flags.as_bytes()[..flags_len];
+
+        for flags in bytes.chunks(2).take(numobs) {
+            for (j, flag) in flags.iter().enumerate() {
+                if *flag != b' ' {
+                    buf[offset + j] = *flag;
                 }
             }
+
             offset += 16;
         }
     }
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index b111591..509b7e3 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -61,9 +61,6 @@ impl Record {
         // eos reached: process pending buffer & exit
         let mut eos = false;
 
-        // crinex decompression in failure: process pending buffer & exit
-        let mut crinex_error = false;
-
         // current line storage
         let mut line_buf = String::with_capacity(128);
 
@@ -86,8 +83,7 @@ impl Record {
         let mut observations = Observations::default();
 
         // CRINEX case
-        const CRINEX_BUF_SIZE: usize = 1024;
-        let mut buf = [0; CRINEX_BUF_SIZE];
+        let mut crinex_buf = Vec::<u8>::with_capacity(1024);
 
         let mut is_crinex = false;
         let mut crinex_v3 = false;
@@ -203,6 +199,37 @@ impl Record {
                 eos |= true;
             }
 
+            // data is solely made of ASCII characters
+            if !is_rinex_comment(&line_buf) && !line_buf.is_ascii() {
+                line_buf = line_buf
+                    .chars()
+                    .map(|c| if c.is_ascii() { c } else { '?' })
+                    .collect();
+            }
+
+            // CRINEX special case:
+            // - apply decompression algorithm prior moving forward
+            // - decompress new pending line, which may recover several lines (in old V1 format)
+            if is_crinex && !eos {
+                crinex_buf.clear();
+
+                // in case of error, nothing is recovered until
+                // the next epoch that allows resuming
+                let size = decompressor
+                    .decompress_append(&line_buf, &mut crinex_buf)
+                    .unwrap_or(0);
+
+                line_buf.clear();
+
+                if size == 0 {
+                    continue;
+                }
+
+                // we should have valid ASCII UTF-8 at all times, at this point
+                line_buf.push_str(from_utf8(&crinex_buf).map_err(|_| ParsingError::BadUtf8Crinex)?);
+                line_buf.push('\n');
+            }
+
             // (special case) COMMENTS: store as is
             if is_rinex_comment(&line_buf) {
                 let comment = split_columns(&line_buf, 60).0.trim_end();
@@ -213,14 +240,6 @@ impl Record {
                 continue;
             }
 
-            // data is solely made of ASCII characters
-            if !line_buf.is_ascii() {
-                line_buf = line_buf
-                    .chars()
-                    .map(|c| if c.is_ascii() { c } else { '?' })
-                    .collect();
-            }
-
             let is_ionex = header.rinex_type == Type::IonosphereMaps;
 
             // (special case) IONEX exponent scaling:
@@ -250,33 +269,6 @@ impl Record {
                 continue;
             }
 
-            // CRINEX special case:
-            // - apply decompression algorithm prior moving forward
-            // - decompress new pending line, which may recover several lines (in old V1 format)
-            if is_crinex {
-                let line_len = line_buf.len();
-
-                // catch errors nicely, simply log them
-                // it is normal to abort on final line for example
-                match decompressor.decompress(&line_buf, line_len, &mut buf, CRINEX_BUF_SIZE) {
-                    Ok(size) => {
-                        if size > 0 {
-                            // clear and overwrite pending content with recovered content
-                            // we should have valid ASCII UTF-8 at all times, at this point
-                            let recovered =
-                                from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
-
-                            line_buf.clear();
-                            line_buf = recovered.to_string();
-                            line_buf.push('\n');
-                        }
-                    },
-                    Err(_) => {
-                        crinex_error = true;
-                    },
-                }
-            }
-
             let mut new_epoch = false;
 
             // we're trying to stack a complete epoch
@@ -434,7 +426,7 @@ impl Record {
             // always stack new content
             epoch_buf.push_str(&line_buf);
 
-            if eos || crinex_error {
+            if eos {
                 break;
             }
 
-- 
2.43.0


From 3b74288dbd4470ab2d2904f1871d7d79af574e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:31 +0000
Subject: [PATCH 29/78] fix: DecompressorIO follows the Read contract and
 processes the header section

---
 src/hatanaka/decompressor/io.rs | 166 ++++++++++++++++++++++++++++----
 1 file changed, 145 insertions(+), 21 deletions(-)

diff --git a/src/hatanaka/decompressor/io.rs b/src/hatanaka/decompressor/io.rs
index 729ad13..bd86bb7 100644
--- a/src/hatanaka/decompressor/io.rs
+++ b/src/hatanaka/decompressor/io.rs
@@ -2,10 +2,12 @@
 
 use crate::{
     hatanaka::decompressor::DecompressorExpert,
+    header::Header,
     prelude::{Constellation, Observable},
+    read_line,
 };
 
-use std::io::{BufRead, BufReader, Lines, Read};
+use std::io::{BufRead, BufReader, Error, ErrorKind, Read, Result};
 
 /// [DecompressorIO] is a [Decompressor] implementation that works directly
 /// on any [Read]ble I/O interface. Use it if your application to decompress
@@ -17,28 +19,58 @@ pub type DecompressorIO<R> = DecompressorExpertIO<5, R>;
 /// Unlike [DecompressorIO], [DecompressorExpertIO] is not limited in the decompression
 /// algorithm and gives you all flexibility. This is needed if your data compressor
 /// used a compression level above 3.
+///
+/// Recovered lines are all terminated by \n. When a header section is streamed,
+/// it is recovered prior any data and the CRINEX specific fields are omitted.
 pub struct DecompressorExpertIO<const M: usize, R: Read> {
-    /// Internal LinesIter. The decompressor works on a line basis.
-    lines: Lines<BufReader<R>>,
+    /// Internal reader. The decompressor works on a line basis.
+    reader: BufReader<R>,
+    /// Line being gathered
+    line: Vec<u8>,
+    /// Header section being gathered
+    header: String,
+    /// Current section
+    section: Section,
+    /// Recovered content, being forwarded to user
+    recovered: Vec<u8>,
+    /// Number of bytes already forwarded
+    forwarded: usize,
     /// Internal Decompressor.
     decomp: DecompressorExpert<M>,
 }
 
+/// Stream sections
+#[derive(Debug, Copy, Clone, PartialEq)]
+enum Section {
+    /// Nothing identified yet
+    Unknown,
+    Header,
+    Record,
+}
+
 impl<const M: usize, R: Read> Read for DecompressorExpertIO<M, R> {
-    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        // try to pull a new complete line from internal reader
-        if let Some(line) = self.lines.next() {
-            let line = line?;
-            let len = line.len();
-            let buf_size = buf.len();
-            let size = self
-                .decomp
-                .decompress(&line, len, buf, buf_size)
-                .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "hatanaka error"))?;
-            Ok(size)
-        } else {
-            Ok(0)
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
+        // several lines may be required to recover something
+        while self.forwarded == self.recovered.len() {
+            self.recovered.clear();
+            self.forwarded = 0;
+
+            if !self.next_line()? {
+                return Ok(0);
+            }
         }
+
+        let pending = &self.recovered[self.forwarded..];
+        let size = pending.len().min(buf.len());
+
+        buf[..size].copy_from_slice(&pending[..size]);
+        self.forwarded += size;
+
+        Ok(size)
     }
 }
 
@@ -54,22 +86,114 @@ impl<const M: usize, R: Read> DecompressorExpertIO<M, R> {
     /// you should provide the specifications that were given by the
     /// missing Header.
     pub fn from_read(reader: R) -> Self {
-        Self {
-            lines: BufReader::new(reader).lines(),
-            decomp: DecompressorExpert::<M>::default(),
-        }
+        Self::from_bufread(BufReader::new(reader))
     }
     /// Builds a new [DecompressorExpertIO] from your own Buffered Reader implementation.
     /// Refer to [Self::from_read] for more information.
     pub fn from_bufread(reader: BufReader<R>) -> Self {
         Self {
-            lines: reader.lines(),
+            reader,
+            line: Vec::with_capacity(128),
+            header: String::new(),
+            section: Section::Unknown,
+            recovered: Vec::with_capacity(256),
+            forwarded: 0,
             decomp: DecompressorExpert::<M>::default(),
         }
     }
     /// Provide [Observable] definitions if you intend to stream CRINEX directly
     /// and skipped the header section.
     pub fn with_observables(&mut self, constell: Constellation, observables: Vec<Observable>) {
+        // vehicles description may omit the constellation in mono GNSS context
+        self.decomp.constellation = match self.decomp.gnss_observables.is_empty() {
+            true => constell,
+            false => Constellation::Mixed,
+        };
         self.decomp.gnss_observables.insert(constell, observables);
     }
+
+    /// Processes next line, returns False once EOS has been reached.
+    fn next_line(&mut self) -> Result<bool> {
+        // nothing is lost if this is to be attempted again
+        self.reader.read_until(b'\n', &mut self.line)?;
+
+        let bytes = std::mem::take(&mut self.line);
+
+        if bytes.is_empty() {
+            return match self.section {
+                Section::Header => Err(ErrorKind::UnexpectedEof.into()),
+                _ => Ok(false),
+            };
+        }
+
+        let mut line = String::with_capacity(bytes.len());
+        read_line(&mut bytes.as_slice(), &mut line)?;
+
+        if self.section == Section::Unknown {
+            if line.trim().is_empty() {
+                return Ok(true);
+            }
+            // adapt to revision, when header is not provided
+            self.section = match line.chars().next() {
+                Some('&') | Some('>') => {
+                    self.decomp.v3 = line.starts_with('>');
+                    Section::Record
+                },
+                _ => Section::Header,
+            };
+        }
+
+        match self.section {
+            Section::Record => self.next_record_line(&line)?,
+            _ => self.next_header_line(&line)?,
+        }
+
+        Ok(true)
+    }
+
+    fn next_header_line(&mut self, line: &str) -> Result<()> {
+        let content = line.trim_end();
+        self.header.push_str(content);
+        self.header.push('\n');
+
+        if !content.ends_with("CRINEX VERS   / TYPE") && !content.ends_with("CRINEX PROG / DATE") {
+            self.recovered.extend_from_slice(content.as_bytes());
+            self.recovered.push(b'\n');
+        }
+
+        if !content.ends_with("END OF HEADER") {
+            return Ok(());
+        }
+
+        let header = Header::parse(&mut BufReader::new(self.header.as_bytes()))
+            .map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string()))?;
+
+        let not_crinex = || Error::new(ErrorKind::InvalidData, "not a crinex");
+
+        let obs = header.obs.ok_or_else(not_crinex)?;
+        let crinex = obs.crinex.ok_or_else(not_crinex)?;
+
+        self.decomp.v3 = crinex.version.major > 2;
+        self.decomp.constellation = header.constellation.unwrap_or_default();
+        self.decomp.gnss_observables = obs.codes;
+        self.section = Section::Record;
+        self.header.clear();
+
+        Ok(())
+    }
+
+    fn next_record_line(&mut self, line: &str) -> Result<()> {
+        let size = self.decomp.decompress_append(line, &mut self.recovered);
+
+        match size {
+            Ok(0) => Ok(()),
+            Ok(_) => {
+                self.recovered.push(b'\n');
+                Ok(())
+            },
+            // trailing empty lines
+            Err(_) if line.trim().is_empty() => Ok(()),
+            Err(e) => Err(Error::new(ErrorKind::InvalidData, e.to_string())),
+        }
+    }
 }
-- 
2.43.0


From 6e0f293cf1080ced96b10b445b6c55b311adb7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:31 +0000
Subject: [PATCH 30/78] fix: CRINEX compression: clock offsets, gaps, SBAS, V1
 epochs

---
 src/hatanaka/compressor.rs | 219 +++++++++++++++++++------------------
 1 file changed, 114 insertions(+), 105 deletions(-)

diff --git a/src/hatanaka/compressor.rs b/src/hatanaka/compressor.rs
index c8d32b4..581c7be 100644
--- a/src/hatanaka/compressor.rs
+++ b/src/hatanaka/compressor.rs
@@ -1,11 +1,11 @@
 //! RINEX compression module
 
 use crate::{
-    epoch::epoch_decompose as epoch_decomposition,
+    epoch::format as epoch_format,
     error::FormattingError,
     hatanaka::{NumDiff, TextDiff},
-    observation::{HeaderFields, LliFlags, Record},
-    prelude::{Observable, SV},
+    observation::{HeaderFields, Record},
+    prelude::{Constellation, RinexType, SV},
     BufWriter,
 };
 
@@ -15,12 +15,20 @@ use itertools::Itertools;
 
 pub type Compressor = CompressorExpert<5>;
 
+/// Compression kernels of one [SV]
+struct Kernels<const M: usize> {
+    /// Observation flags
+    flags: TextDiff,
+    /// Observations, [None] when the next one resets the kernel
+    observations: Vec<Option<NumDiff<M>>>,
+}
+
 pub struct CompressorExpert<const M: usize> {
     /// True (by default) if this a CRINEX3 compressor.
     /// Modify this before getting started!
     pub v3: bool,
     /// True when epoch descriptor should be compressed.
-    /// True on first epoch.
+    /// False on first epoch.
     epoch_compression: bool,
     /// Readable Epoch being compressed
     epoch_buf: String,
@@ -28,13 +36,10 @@ pub struct CompressorExpert<const M: usize> {
     flags_buf: String,
     /// Epoch [TextDiff]
     epoch_diff: TextDiff,
-    /// Flags kernel, per SV
-    flags_diff: HashMap<SV, TextDiff>,
-    /// Flag textdiff
-    /// Compression kernels (per SV and signal)
-    sv_kernels: HashMap<(SV, Observable), NumDiff<M>>,
-    // /// Clock [NumDiff]
-    // clock_diff: NumDiff<M>,
+    /// Clock [NumDiff]
+    clock_diff: Option<NumDiff<M>>,
+    /// Kernels of each vehicle described by last epoch
+    kernels: HashMap<SV, Kernels<M>>,
 }
 
 impl<const M: usize> Default for CompressorExpert<M> {
@@ -42,16 +47,19 @@ impl<const M: usize> Default for CompressorExpert<M> {
         Self {
             v3: true,
             epoch_compression: false,
+            clock_diff: None,
             epoch_diff: TextDiff::new(""),
             epoch_buf: String::with_capacity(128),
             flags_buf: String::with_capacity(128),
-            sv_kernels: HashMap::with_capacity(8),
-            flags_diff: HashMap::with_capacity(8),
+            kernels: HashMap::with_capacity(8),
         }
     }
 }
 
 impl<const M: usize> CompressorExpert<M> {
+    /// Compression order, limited to what historical tools support.
+    const ORDER: usize = if M < 3 { M } else { 3 };
+
     /// Format [Record] using mutable [CompressorExpert].
     /// Compressed bytes are dumped in mutable [BufWriter].
     /// This permits the RNX2CRX compression ops.
@@ -67,8 +75,6 @@ impl<const M: usize> CompressorExpert<M> {
                 self.epoch_compression = false;
             }
 
-            let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(k.epoch);
-
             // form unique SV list
             let svnn = v
                 .signals
@@ -78,43 +84,28 @@ impl<const M: usize> CompressorExpert<M> {
                 .sorted()
                 .collect::<Vec<_>>();
 
-            if !self.epoch_compression {
-                if self.v3 {
-                    write!(w, "> ")?;
-                } else {
-                    write!(w, "&")?;
-                }
+            // kernels do not survive a gap,
+            // and are all reset along the epoch description
+            if self.epoch_compression {
+                self.kernels.retain(|sv, _| svnn.contains(sv));
             } else {
-                if self.v3 {
-                    write!(w, "  ")?;
-                } else {
-                    write!(w, " ")?;
-                }
+                self.kernels.clear();
+                self.clock_diff = None;
             }
 
+            self.epoch_buf.clear();
+
             if self.v3 {
                 self.epoch_buf.push_str(&format!(
-                    "{:04} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}      ",
-                    y,
-                    m,
-                    d,
-                    hh,
-                    mm,
-                    ss,
-                    ns / 100,
+                    " {}  {}{:3}      ",
+                    epoch_format(k.epoch, RinexType::ObservationData, 3),
                     k.flag,
                     svnn.len(),
                 ));
             } else {
                 self.epoch_buf.push_str(&format!(
-                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}      ",
-                    y,
-                    m,
-                    d,
-                    hh,
-                    mm,
-                    ss,
-                    ns / 100,
+                    "{}  {}{:3}",
+                    epoch_format(k.epoch, RinexType::ObservationData, 2),
                     k.flag,
                     svnn.len(),
                 ));
@@ -127,93 +118,111 @@ impl<const M: usize> CompressorExpert<M> {
 
             // Epoch compression
             if !self.epoch_compression {
+                let marker = if self.v3 { '>' } else { '&' };
                 self.epoch_diff.force_init(&self.epoch_buf);
-                writeln!(w, "{}", self.epoch_buf.trim_end())?;
+                writeln!(w, "{}{}", marker, self.epoch_buf.trim_end())?;
             } else {
                 let compressed = self.epoch_diff.compress(&self.epoch_buf);
-                writeln!(w, "{}", compressed.trim_end())?;
+                writeln!(w, " {}", compressed.trim_end())?;
             }
 
-            if let Some(clk) = v.clock {
-                // TODO: clock is not correctly supported yet
-                if !self.epoch_compression {
-                    writeln!(w, "{}", clk.offset_s)?;
-                }
-            } else {
-                // No clock: BLANKed line
-                write!(w, "\n")?;
-            }
+            // Clock offset compression: BLANKed line when not provided.
+            let scaling = if self.v3 { 1.0E12 } else { 1.0E9 };
+
+            let quantized = match v.clock {
+                Some(clock) => Self::quantize(clock.offset_s, scaling),
+                None => None,
+            };
+
+            writeln!(w, "{}", Self::compress(&mut self.clock_diff, quantized))?;
 
             // For each SV
             for sv in svnn.iter() {
                 // Following header specs
+                let constellation = if sv.constellation.is_sbas() {
+                    Constellation::SBAS
+                } else {
+                    sv.constellation
+                };
+
                 let observables = header
                     .codes
-                    .get(&sv.constellation)
+                    .get(&constellation)
                     .ok_or(FormattingError::MissingObservableDefinition)?;
 
-                for observable in observables.iter() {
-                    if let Some(signal) = v
+                let kernels = self.kernels.entry(*sv).or_insert_with(|| Kernels {
+                    flags: TextDiff::new(""),
+                    observations: vec![None; observables.len()],
+                });
+
+                self.flags_buf.clear();
+
+                for (observable, kernel) in observables.iter().zip(kernels.observations.iter_mut())
+                {
+                    let signal = v
                         .signals
                         .iter()
-                        .filter(|sig| sig.sv == *sv && &sig.observable == observable)
-                        .reduce(|k, _| k)
-                    {
-                        let quantized = (signal.value * 1000.0).round() as i64;
-
-                        // retrieve or build compression kernel
-                        if let Some((_, sv_kernel)) = self
-                            .sv_kernels
-                            .iter_mut()
-                            .filter(|((sv, obs), _)| *sv == signal.sv && obs == &signal.observable)
-                            .reduce(|k, _| k)
-                        {
-                            let compressed = sv_kernel.compress(quantized);
-                            write!(w, "{} ", compressed)?;
-                        } else {
-                            // first encounter: build kernel
-                            let kernel = NumDiff::<M>::new(quantized, 3);
-                            self.sv_kernels
-                                .insert((signal.sv, signal.observable.clone()), kernel);
-
-                            write!(w, "{}&{} ", 3, quantized)?;
-                        }
-
-                        if let Some(lli) = signal.lli {
-                            self.flags_buf.push_str(&format!("{}", lli.bits() as u8));
-                        } else {
-                            self.flags_buf.push_str(" ");
-                        }
-
-                        if let Some(snr) = signal.snr {
-                            self.flags_buf.push_str(&format!("{}", snr as u8));
-                        } else {
-                            self.flags_buf.push_str(" ");
-                        }
-                    } else {
-                        // BLANK is a single ' '
-                        write!(w, "{}", ' ')?;
-                        self.flags_buf.push_str("  ");
+                        .find(|sig| sig.sv == *sv && &sig.observable == observable);
+
+                    let quantized = signal.and_then(|signal| Self::quantize(signal.value, 1.0E3));
+
+                    // BLANK is a single ' '
+                    write!(w, "{} ", Self::compress(kernel, quantized))?;
+
+                    match signal {
+                        Some(signal) if quantized.is_some() => {
+                            if let Some(lli) = signal.lli {
+                                self.flags_buf.push_str(&format!("{}", lli.bits()));
+                            } else {
+                                self.flags_buf.push(' ');
+                            }
+
+                            if let Some(snr) = signal.snr {
+                                self.flags_buf.push_str(&format!("{}", snr as u8));
+                            } else {
+                                self.flags_buf.push(' ');
+                            }
+                        },
+                        _ => self.flags_buf.push_str("  "),
                     }
                 }
 
                 // Flags compression
-                if let Some(flags_kernel) = self.flags_diff.get_mut(&sv) {
-                    let compressed = flags_kernel.compress(&self.flags_buf);
-                    writeln!(w, "{}", compressed)?;
-                } else {
-                    let mut kernel = TextDiff::new("");
-                    let compressed = kernel.compress(&self.flags_buf);
-                    writeln!(w, "{}", compressed)?;
-                    self.flags_diff.insert(*sv, kernel);
-                }
-                self.flags_buf.clear();
+                let compressed = kernels.flags.compress(&self.flags_buf);
+                writeln!(w, "{}", compressed.trim_end())?;
             }
 
             // prepare for next epoch
             self.epoch_compression = true;
-            self.epoch_buf.clear();
         }
         Ok(())
     }
+
+    /// Scales this value, [None] if this value cannot be described.
+    fn quantize(value: f64, scaling: f64) -> Option<i64> {
+        const LIMIT: f64 = 9.0E18; // never exceeds i64
+
+        let scaled = (value * scaling).round();
+        if scaled.abs() < LIMIT {
+            Some(scaled as i64)
+        } else {
+            None
+        }
+    }
+
+    /// Compresses this value. The kernel is reset when needed:
+    /// on first value and past each omitted value.
+    fn compress(kernel: &mut Option<NumDiff<M>>, value: Option<i64>) -> String {
+        match (value, kernel.as_mut()) {
+            (Some(value), Some(kernel)) => kernel.compress(value).to_string(),
+            (Some(value), None) => {
+                *kernel = Some(NumDiff::<M>::new(value, Self::ORDER));
+                format!("{}&{}", Self::ORDER, value)
+            },
+            (None, _) => {
+                *kernel = None;
+                String::new()
+            },
+        }
+    }
 }
-- 
2.43.0


From 66d215e21933dabbff696fa17556b2edfefd5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:59 +0000
Subject: [PATCH 31/78] fix: CRINEX header without compression date: do not
 depend on current time

---
 src/header/parsing.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 98f3d77..f36d03f 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -114,7 +114,11 @@ impl Header {
             ///////////////////////////////////////////////////////
             } else if marker.contains("CRINEX VERS") {
                 let version = Version::from_str(split_columns(content, 10).0.trim())?;
-                let crinex = CRINEX::default().with_version(version);
+                // compression date is not known until specified,
+                // and what we parse never depends on current time
+                let crinex = CRINEX::default()
+                    .with_version(version)
+                    .with_date(Epoch::from_gregorian_utc_at_midnight(2000, 1, 1));
 
                 observation.crinex = Some(crinex);
             } else if marker.contains("CRINEX PROG / DATE") {
-- 
2.43.0


From 12c3dea130926d03d5a3e2f2ea6b104abba0f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 32/78] fix: ANTEX: validity period is inclusive, antennas
 matched by serial number

---
 src/antex/antenna/mod.rs | 2 +-
 src/lib.rs               | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/antex/antenna/mod.rs b/src/antex/antenna/mod.rs
index 97ab315..2b3f991 100644
--- a/src/antex/antenna/mod.rs
+++ b/src/antex/antenna/mod.rs
@@ -82,7 +82,7 @@ impl Antenna {
     /// and should only consider recently calibrated data.
     pub fn is_valid(&self, now: Epoch) -> bool {
         if let Some((from, until)) = self.calibration.validity_period {
-            now > from && now < until
+            now >= from && now <= until
         } else {
             true
         }
diff --git a/src/lib.rs b/src/lib.rs
index 14792f8..53a0da6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1559,7 +1559,8 @@ impl Rinex {
                         }
                     },
                     AntennaMatcher::SerialNumber(sn) => {
-                        if rx_ant.igs_type.to_lowercase().eq(sn) {
+                        let serial = rx_ant.serial_number.as_ref()?;
+                        if serial.to_lowercase().eq(sn) {
                             freqdata
                                 .get(&freq)
                                 .map(|freqdata| freqdata.apc_eccentricity)
-- 
2.43.0


From ad52428e7515745f440b638ed6aa625f29a3657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 33/78] fix: ephemeris selection: ToE at the first second of
 the week, GEO messages ahead of time

---
 src/navigation/ephemeris/kepler/mod.rs |  2 +-
 src/navigation/ephemeris/mod.rs        | 13 ++++++++++---
 src/navigation/ephemeris/parsing.rs    | 10 ++++++----
 src/navigation/rinex/feature.rs        |  3 ++-
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/mod.rs b/src/navigation/ephemeris/kepler/mod.rs
index 4b73d41..ac628bc 100644
--- a/src/navigation/ephemeris/kepler/mod.rs
+++ b/src/navigation/ephemeris/kepler/mod.rs
@@ -68,7 +68,7 @@ impl Ephemeris {
             omega: self.get_orbit_f64("omega")?,
             omega_0: self.get_orbit_f64("omega0")?,
             m_0: self.get_orbit_f64("m0")?,
-            toe: self.get_orbit_f64("toe")?,
+            toe: self.toe_seconds()?,
         })
     }
 
diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 70fdbd5..9e442ec 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -92,13 +92,20 @@ impl Ephemeris {
         }
     }
 
+    /// Seconds of week of the ToE. Null is meaningful here:
+    /// it is the first second of the week.
+    pub(crate) fn toe_seconds(&self) -> Option<f64> {
+        self.orbits
+            .get("toe")
+            .and_then(|value| value.as_f64())
+            .filter(|seconds| seconds.is_finite())
+    }
+
     /// Return ToE expressed as [Epoch]
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self
-            .get_orbit_f64("toe")
-            .filter(|seconds| seconds.is_finite())?;
+        let sec = self.toe_seconds()?;
         let week_dur = Duration::from_days(week as f64 * 7.0);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 5b4429f..55d6f1b 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -62,13 +62,15 @@ fn parse_orbits(
                 continue;
             }
 
-            // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000E+00") {
+            // zeros mean unresolved/unknown fields,
+            // except for the ToE: first second of the week
+            let is_toe = matches!(fields.get(index), Some((key, _)) if *key == "toe");
+
+            if content.starts_with("0.000000000000E+00") && !is_toe {
                 continue;
             }
 
-            // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000D+00") {
+            if content.starts_with("0.000000000000D+00") && !is_toe {
                 continue;
             }
 
diff --git a/src/navigation/rinex/feature.rs b/src/navigation/rinex/feature.rs
index adc51a1..9b799a1 100644
--- a/src/navigation/rinex/feature.rs
+++ b/src/navigation/rinex/feature.rs
@@ -63,7 +63,8 @@ impl Rinex {
                         None
                     }
                 })
-                .min_by_key(|(toc, _, _)| t - *toc)
+                // latest publication, unless they are all ahead of us
+                .min_by_key(|(toc, _, _)| (*toc > t, (t - *toc).abs()))
         } else {
             self.nav_ephemeris_frames_iter()
                 .filter_map(|(k, eph)| {
-- 
2.43.0


From 695e6028394f9fa3480350a97638cfcc8b91d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 34/78] fix: ionosphere TEC: same epoch, last epoch included,
 two frequencies required

---
 src/observation/rinex/tec.rs | 42 +++++++++++-------------------------
 src/observation/signal.rs    |  3 ++-
 2 files changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/observation/rinex/tec.rs b/src/observation/rinex/tec.rs
index 00a504b..53134c3 100644
--- a/src/observation/rinex/tec.rs
+++ b/src/observation/rinex/tec.rs
@@ -1,6 +1,5 @@
 use crate::{
     ionex::TEC,
-    observation::SignalObservation,
     prelude::{Epoch, Observable, Rinex, SV},
 };
 
@@ -26,39 +25,24 @@ impl Rinex {
     /// this limits the method to dual frequency Observation RINEX.
     /// Returns [TEC] sorted per [TECKey]
     pub fn observation_dual_phase_ionosphere_tec(&self) -> HashMap<TECKey, TEC> {
-        let mut t = Epoch::default();
         let mut ret = HashMap::new();
-        let mut phases = Vec::<SignalObservation>::new();
 
-        let dt = self.dominant_sampling_interval();
-        if dt.is_none() {
-            return ret;
-        }
-
-        let dt = dt.unwrap();
-
-        for (k, ph) in self.phase_range_sampling_ok_iter() {
-            if k >= t + dt {
-                for ph_i in phases.iter() {
-                    for ph_j in phases.iter() {
-                        if let Some(tec) = ph_i.tec_estimate(&ph_j) {
-                            ret.insert(
-                                TECKey {
-                                    epoch: t,
-                                    sv: ph_i.sv,
-                                    rhs: ph_j.observable.clone(),
-                                    reference: ph_i.observable.clone(),
-                                },
-                                tec,
-                            );
-                        }
+        for (k, observations) in self.observations_iter().filter(|(k, _)| k.flag.is_ok()) {
+            for ph_i in observations.signals.iter() {
+                for ph_j in observations.signals.iter() {
+                    if let Some(tec) = ph_i.tec_estimate(ph_j) {
+                        ret.insert(
+                            TECKey {
+                                epoch: k.epoch,
+                                sv: ph_i.sv,
+                                rhs: ph_j.observable.clone(),
+                                reference: ph_i.observable.clone(),
+                            },
+                            tec,
+                        );
                     }
                 }
-                phases.clear();
             }
-
-            t = k;
-            phases.push(ph.clone());
         }
 
         ret
diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 39d1b41..08eb397 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -98,7 +98,8 @@ impl SignalObservation {
             let carrier_2 = carrier_2.unwrap();
             let f_2 = carrier_2.frequency().powi(2);
 
-            if carrier_1.is_l1_pivot() {
+            // two frequencies are required
+            if carrier_1.is_l1_pivot() && f_1 != f_2 {
                 let tec = GAMMA * f_1 * f_2 / (f_1 - f_2) * (self.value - rhs.value);
                 Some(TEC::from_tec_m2(tec.abs()))
             } else {
-- 
2.43.0


From f5aeb74a9d09c0b27bd6bae70ee21ac257242a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 35/78] fix: epoch anomalies and phase tracking filters were
 inverted or empty

---
 src/observation/rinex/feature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 0e659ba..80ba2f8 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -169,7 +169,7 @@ impl Rinex {
     ) -> Box<dyn Iterator<Item = (Epoch, &SignalObservation)> + '_> {
         Box::new(self.phase_range_sampling_ok_iter().filter_map(|(k, sig)| {
             if let Some(lli) = sig.lli {
-                if lli.intersects(LliFlags::OK_OR_UNKNOWN) {
+                if !lli.intersects(LliFlags::LOCK_LOSS | LliFlags::HALF_CYCLE_SLIP) {
                     Some((k, sig))
                 } else {
                     None
@@ -248,7 +248,7 @@ impl Rinex {
     /// Returns an Iterator over [Epoch]s where abnormal sampling conditions were detected.
     /// Anomalies are described by the attached [EpochFlag] in each [ObsKey].
     pub fn epoch_anomalies(&self) -> Box<dyn Iterator<Item = &ObsKey> + '_> {
-        Box::new(self.observation_keys().filter(|k| k.flag.is_ok()))
+        Box::new(self.observation_keys().filter(|k| !k.flag.is_ok()))
     }
 
     /// Form designed signal [Combination] from all observed signals.
-- 
2.43.0


From de34a0995bae42f55423db4b8f06ab7b1aa00e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 36/78] fix: signal combinations and multipath: signals of one
 epoch and one vehicle only

---
 src/observation/rinex/feature.rs | 207 +++++++++++++------------------
 1 file changed, 86 insertions(+), 121 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 80ba2f8..43a3dc0 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -259,50 +259,44 @@ impl Rinex {
         let mut ret = BTreeMap::new();
 
         if combination == Combination::MelbourneWubbena {
-            for ((k_1, v_1), (_, v_2)) in self
-                .signals_combination(Combination::WideLane)
-                .iter()
-                .filter(|(k, _)| k.reference.is_phase_range_observable())
-                .zip(
-                    self.signals_combination(Combination::NarrowLane)
-                        .iter()
-                        .filter(|(k, _)| k.reference.is_pseudo_range_observable()),
-                )
-                .filter_map(|((k_1, v_1), (k_2, v_2))| {
-                    let lhs_1_code = k_1.lhs.code()?;
-                    let lhs_2_code = k_2.lhs.code()?;
-                    if lhs_1_code == lhs_2_code {
-                        Some(((k_1, v_1), (k_2, v_2)))
-                    } else {
-                        None
+            let mut narrow_lanes = HashMap::new();
+
+            for (k, v) in self.signals_combination(Combination::NarrowLane) {
+                if k.reference.is_pseudo_range_observable() {
+                    if let Some(code) = k.lhs.code() {
+                        narrow_lanes
+                            .entry((k.epoch, k.flag, k.sv, code))
+                            .or_insert(v);
                     }
-                })
-            {
-                let key = CombinationKey {
-                    epoch: k_1.epoch,
-                    flag: k_1.flag,
-                    sv: k_1.sv,
-                    lhs: k_1.lhs.clone(),
-                    reference: k_1.reference.clone(),
-                };
-                ret.insert(key, v_1 - v_2);
-            }
-        } else {
-            let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-                dt
-            } else {
-                if let Some(dt) = self.dominant_sampling_interval() {
-                    dt
-                } else {
-                    // can't proceed without sampling interval guess.
-                    return ret;
                 }
-            };
-
-            let mut pr_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
-            let mut phase_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
+            }
 
-            for (k, v) in self.signal_observations_iter() {
+            for (k, v) in self.signals_combination(Combination::WideLane) {
+                if k.reference.is_phase_range_observable() {
+                    if let Some(code) = k.lhs.code() {
+                        // same sampling, same vehicle and same signal
+                        if let Some(narrow_lane) = narrow_lanes.get(&(k.epoch, k.flag, k.sv, code))
+                        {
+                            let value = v - *narrow_lane;
+                            ret.insert(k, value);
+                        }
+                    }
+                }
+            }
+        } else {
+            // reference signals first: signals are not always sorted
+            let signals = self.observations_iter().flat_map(|(k, obs)| {
+                let (pivots, others): (Vec<_>, Vec<_>) = obs
+                    .signals
+                    .iter()
+                    .partition(|v| v.observable.is_l1_pivot(v.sv.constellation));
+                pivots.into_iter().chain(others).map(move |v| (*k, v))
+            });
+
+            let mut pr_ref_value = HashMap::<SV, (ObsKey, Observable, f64, f64, f64)>::new();
+            let mut phase_ref_value = HashMap::<SV, (ObsKey, Observable, f64, f64, f64)>::new();
+
+            for (k, v) in signals {
                 let is_phase_range = v.observable.is_phase_range_observable();
                 let is_pseudo_range = v.observable.is_pseudo_range_observable();
 
@@ -324,10 +318,9 @@ impl Rinex {
                 if is_l1_pivot {
                     if is_phase_range {
                         phase_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
+                            .insert(v.sv, (k, v.observable.clone(), freq, lambda, v.value));
                     } else {
-                        pr_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
+                        pr_ref_value.insert(v.sv, (k, v.observable.clone(), freq, lambda, v.value));
                     };
                 } else {
                     let reference = if is_phase_range {
@@ -338,7 +331,7 @@ impl Rinex {
 
                     if let Some((last_seen, reference, f_1, w_1, ref_value)) = reference.get(&v.sv)
                     {
-                        if k.epoch - *last_seen > dominant_sampling {
+                        if k != *last_seen {
                             // avoid moving forward on data gaps
                             // guards against substraction (a - b) from two different epochs
                             continue;
@@ -416,99 +409,71 @@ impl Rinex {
     pub fn signals_multipath(&self) -> HashMap<MultipathKey, f64> {
         let mut ret = HashMap::new();
 
-        let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-            dt
-        } else {
-            if let Some(dt) = self.dominant_sampling_interval() {
-                dt
-            } else {
-                // can't proceed without sampling interval guess.
-                return ret;
-            }
-        };
+        for (k, observations) in self.observations_iter() {
+            // stores all pseudo ranges of this epoch
+            let mut rho = HashMap::<(SV, Observable), f64>::new();
+            // stores all phase ranges of this epoch
+            let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
 
-        let mut t = Epoch::default();
+            for v in observations.signals.iter() {
+                let is_ph = v.observable.is_phase_range_observable();
+                let is_pr = v.observable.is_pseudo_range_observable();
+                let carrier = v.observable.carrier(v.sv.constellation);
 
-        // stores all encountered pseudo range
-        let mut rho = HashMap::<(SV, Observable), f64>::new();
-        // stores all encountered phase range
-        let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
+                if !is_ph && !is_pr || carrier.is_err() {
+                    continue;
+                }
 
-        for (k, v) in self.signal_observations_iter() {
-            let is_ph = v.observable.is_phase_range_observable();
-            let is_pr = v.observable.is_pseudo_range_observable();
-            let carrier = v.observable.carrier(v.sv.constellation);
+                let carrier = carrier.unwrap();
+                let freq = carrier.frequency().powi(2);
+                let lambda = carrier.wavelength();
 
-            if !is_ph && !is_pr || carrier.is_err() {
-                continue;
+                if is_pr {
+                    rho.insert((v.sv, v.observable.clone()), v.value);
+                } else {
+                    phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
+                }
             }
 
-            let carrier = carrier.unwrap();
-            let freq = carrier.frequency().powi(2);
-            let lambda = carrier.wavelength();
+            for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
+                let phi_code = phi_obs.code();
+                if phi_code.is_none() {
+                    continue;
+                }
 
-            if k.epoch - t > dominant_sampling {
-                // data gap
-                rho.clear();
-                phi.clear();
-            }
+                let phi_code = phi_code.unwrap();
 
-            if k.epoch - t == dominant_sampling {
-                // new epoch
-                // try to compute from previously stored data, then reset
-                for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
-                    let phi_code = phi_obs.code();
-                    if phi_code.is_none() {
+                // locate associated pr
+                for ((rho_sv, rho_obs), rho) in rho.iter() {
+                    let rho_code = rho_obs.code();
+                    if rho_code.is_none() {
                         continue;
                     }
 
-                    let phi_code = phi_code.unwrap();
-
-                    // locate associated pr
-                    for ((rho_sv, rho_obs), rho) in rho.iter() {
-                        let rho_code = rho_obs.code();
-                        if rho_code.is_none() {
-                            continue;
-                        }
-
-                        let rho_code = rho_code.unwrap();
-
-                        // same modulation / signal as reference phase
-                        if rho_code == phi_code && rho_sv == phi_sv {
-                            // now compute for any different l_j phase
-                            for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
-                                if phi_sv_j == phi_sv {
-                                    if phi_obs_j != phi_obs {
-                                        let key = MultipathKey {
-                                            epoch: t,
-                                            sv: *phi_sv,
-                                            signal: phi_obs.clone(),
-                                            rhs: phi_obs_j.clone(),
-                                        };
-                                        let value = rho
-                                            - phi_value
-                                            - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
-                                        ret.insert(key, value);
-                                    }
-                                }
+                    let rho_code = rho_code.unwrap();
+
+                    // same modulation / signal as reference phase
+                    if rho_code == phi_code && rho_sv == phi_sv {
+                        // now compute for any phase of different frequency
+                        for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
+                            if phi_sv_j == phi_sv && freq_j != freq {
+                                let key = MultipathKey {
+                                    epoch: k.epoch,
+                                    sv: *phi_sv,
+                                    signal: phi_obs.clone(),
+                                    rhs: phi_obs_j.clone(),
+                                };
+                                let value = rho
+                                    - phi_value
+                                    - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
+                                ret.insert(key, value);
                             }
                         }
                     }
                 }
-                //reset
-                rho.clear();
-                phi.clear();
             }
-
-            // store value
-            if is_pr {
-                rho.insert((v.sv, v.observable.clone()), v.value);
-            } else {
-                phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
-            }
-
-            t = k.epoch;
         }
+
         ret
     }
 }
-- 
2.43.0


From 792d1a978b164f7bf501a3292c67c158613227a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 37/78] fix: sv orbit: Kepler iterations are bounded

---
 src/navigation/ephemeris/kepler/helper.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index b081122..e0c5598 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -266,11 +266,14 @@ impl Ephemeris {
             }
             i += 1;
             e_k_lst = e_k;
-        }
 
-        if i >= Constants::MAX_KEPLER_ITER {
-            #[cfg(feature = "log")]
-            error!("{} kepler iteration overflow", sv);
+            // does not converge: not an elliptical orbit
+            if i >= Constants::MAX_KEPLER_ITER {
+                #[cfg(feature = "log")]
+                error!("{} kepler iteration overflow", sv);
+
+                return None;
+            }
         }
 
         // true anomaly
-- 
2.43.0


From 270e7ef673c334a90201713157f4eae896088d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 38/78] fix: carrier frequency of Glonass G2 (1246 MHz)

---
 src/carrier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index dab6242..43b1621 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -188,8 +188,8 @@ impl Carrier {
             Self::G1(None) => 1602.0_f64,
             Self::G1(Some(c)) => 1602.0_f64 + (*c as f64 * 9.0 / 16.0),
             Self::G2a => 1248.06_f64,
-            Self::G2(None) => 1246.06_f64,
-            Self::G2(Some(c)) => 1246.06_f64 + (*c as f64 * 7.0 / 16.0),
+            Self::G2(None) => 1246.0_f64,
+            Self::G2(Some(c)) => 1246.0_f64 + (*c as f64 * 7.0 / 16.0),
             Self::G3 => 1202.025_f64,
             /*
              * BeiDou
-- 
2.43.0


From f6d9753e00b89fb8d6f7ab6b5b7b997ae9056224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 39/78] fix: sv orbit: sign of the inclination rate term of the
 velocity

---
 src/navigation/ephemeris/kepler/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index e0c5598..254a791 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -101,7 +101,7 @@ impl Helper {
             fd_r[(1, 0)] = sin_omega_k;
             fd_r[(1, 1)] = cos_omega_k * cos_i_k;
             fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
-            fd_r[(1, 3)] = y * cos_omega_k * sin_i_k;
+            fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
             fd_r[(2, 1)] = sin_i_k;
             fd_r[(2, 3)] = y * cos_i_k;
 
-- 
2.43.0


From bf68b86f6900b9b2ce4a459b6b47fefc4b769037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 40/78] fix: sv orbit: velocity of BeiDou geostationary
 vehicles

---
 src/navigation/ephemeris/kepler/helper.rs | 113 ++++++++--------------
 1 file changed, 38 insertions(+), 75 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index 254a791..339594c 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -70,6 +70,31 @@ impl Helper {
         (fd_x, fd_y)
     }
 
+    /// Returns velocity [Vector3] in m/s, in the frame where right ascension
+    /// of the ascending node progresses at given rate [rad/s].
+    fn orbital_frame_velocity(&self, fd_omega_k: f64) -> Vector3 {
+        let (x, y, _) = self.r_sv;
+        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
+        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
+        // First Derivative of orbit position
+        let (fd_x, fd_y) = self.orbit_velocity();
+        // First Derivative of rotation Matrix
+        let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
+        fd_r[(0, 0)] = cos_omega_k;
+        fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
+        fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
+        fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
+        fd_r[(1, 0)] = sin_omega_k;
+        fd_r[(1, 1)] = cos_omega_k * cos_i_k;
+        fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
+        fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
+        fd_r[(2, 1)] = sin_i_k;
+        fd_r[(2, 3)] = y * cos_i_k;
+
+        let rhs = Vector4::new(fd_x, fd_y, fd_omega_k, self.fd_i_k);
+        fd_r * rhs
+    }
+
     /// Calculate ecef position [km].
     pub fn ecef_position(&self) -> Vector3 {
         if self.sv.is_beidou_geo() {
@@ -87,27 +112,7 @@ impl Helper {
         if self.sv.is_beidou_geo() {
             self.beidou_geo_ecef_velocity()
         } else {
-            let (x, y, _) = self.r_sv;
-            let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-            let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-            // First Derivative of orbit position
-            let (fd_x, fd_y) = self.orbit_velocity();
-            // First Derivative of rotation Matrix
-            let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
-            fd_r[(0, 0)] = cos_omega_k;
-            fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
-            fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
-            fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
-            fd_r[(1, 0)] = sin_omega_k;
-            fd_r[(1, 1)] = cos_omega_k * cos_i_k;
-            fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
-            fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
-            fd_r[(2, 1)] = sin_i_k;
-            fd_r[(2, 3)] = y * cos_i_k;
-
-            let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
-            let vel = fd_r * rhs;
-            vel / 1000.0
+            self.orbital_frame_velocity(self.fd_omega_k) / 1000.0
         }
     }
 
@@ -127,64 +132,22 @@ impl Helper {
 
     /// Returns ECEF velocity [Vector3] in km/s, for BeiDou GEO specifically
     pub fn beidou_geo_ecef_velocity(&self) -> Vector3 {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
-        let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
-            * Matrix3::new(
-                -sin_omega_tk,
-                cos_omega_tk,
-                0.0,
-                -cos_omega_tk,
-                -sin_omega_tk,
-                0.0,
-                0.0,
-                0.0,
-                0.0,
-            );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        vel
+        // the intermediate frame does not rotate with the Earth
+        let fd_gk = self.orbital_frame_velocity(self.fd_omega_k + Omega::BDS);
+        let rotation2 = self.geo_orbit_to_ecef_rotation_matrix();
+
+        // Earth rotation
+        let earth_rot = Vector3::new(0.0, 0.0, -Omega::BDS);
+
+        rotation2 * fd_gk / 1000.0 + earth_rot.cross(&self.beidou_geo_ecef_position())
     }
 
     /// Returns ECEF (position, velocity) [Vector3]s in (km, km/s), for BeiDou GEO specifically.
     pub fn beidou_geo_ecef_pv(&self) -> (Vector3, Vector3) {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
-        let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
-            * Matrix3::new(
-                -sin_omega_tk,
-                cos_omega_tk,
-                0.0,
-                -cos_omega_tk,
-                -sin_omega_tk,
-                0.0,
-                0.0,
-                0.0,
-                0.0,
-            );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        (pos, vel)
+        (
+            self.beidou_geo_ecef_position(),
+            self.beidou_geo_ecef_velocity(),
+        )
     }
 
     /// Returns ECEF position [Vector3] in km.
-- 
2.43.0


From fced47dc6c6fadfa931fd91b076a7adfef2e4ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 41/78] fix: IONEX header: map dimension was not read

---
 src/header/parsing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index f36d03f..a5dffd1 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -870,6 +870,10 @@ impl Header {
                 if let Ok(f) = f32::from_str(content.trim()) {
                     ionex = ionex.with_base_radius(f);
                 }
+            } else if marker.contains("MAP DIMENSION") {
+                if let Ok(d) = content.trim().parse::<u8>() {
+                    ionex = ionex.with_map_dimension(d);
+                }
             } else if marker.contains("MAPPING FUNCTION") {
                 // "NONE" is to be expected
                 if let Ok(mapf) = IonexMappingFunction::from_str(content.trim()) {
-- 
2.43.0


From d973bfedd339f5fc943558c8c3ecab3237149b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 42/78] fix: clock header: date and clock constraint truncated
 in 3.04 files

---
 src/clock/mod.rs      |  2 +-
 src/header/parsing.rs | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index f0fcf2f..2ed3bea 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -65,7 +65,7 @@ impl WorkClock {
         } else {
             let (name, rem) = split_columns(content, 10);
             let (domes, rem) = split_columns(rem, 10);
-            let constraint = split_columns(rem, 40).0;
+            let constraint = split_columns(rem, 45).0;
             Self {
                 name: name.trim().to_string(),
                 domes: parse_domes(domes),
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index a5dffd1..de63f96 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -285,20 +285,27 @@ impl Header {
                     return Err(ParsingError::NonSupportedVersion);
                 }
             } else if marker.contains("PGM / RUN BY / DATE") {
-                let (pgm, rem) = split_columns(line, 20);
+                // fields are spaced by one column in modern Clock RINEX,
+                // which come with larger header lines
+                let width = match split_columns(line, 65).1.starts_with("PGM / RUN BY / DATE") {
+                    true => 21,
+                    false => 20,
+                };
+
+                let (pgm, rem) = split_columns(line, width);
                 let pgm = pgm.trim();
                 if pgm.len() > 0 {
                     program = Some(pgm.to_string());
                 }
 
-                let (runby, rem) = split_columns(rem, 20);
+                let (runby, rem) = split_columns(rem, width);
 
                 let runby = runby.trim();
                 if runby.len() > 0 {
                     run_by = Some(runby.to_string());
                 }
 
-                let date_str = split_columns(rem, 20).0.trim();
+                let date_str = split_columns(rem, width).0.trim();
                 if date_str.len() > 0 {
                     date = Some(date_str.to_string());
                 }
@@ -637,6 +644,11 @@ impl Header {
                 clock = clock.igs(code.trim());
                 clock = clock.full_name(agency.trim());
             } else if marker.contains("ANALYSIS CLK REF") {
+                // content is larger than usual in modern Clock RINEX
+                let content = match line.find("ANALYSIS CLK REF") {
+                    Some(offset) => &line[..offset],
+                    None => content,
+                };
                 let ck = WorkClock::parse(version, content);
                 clock = clock.work_clock(ck);
             } else if marker.contains("# / TYPES OF DATA") {
-- 
2.43.0


From ea823b2e9743e0dec474c29144ff64f87284059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 43/78] fix: IONEX header: maps based on observables were
 reported as theoretical

---
 src/ionex/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ionex/header.rs b/src/ionex/header.rs
index db73160..1ab7069 100644
--- a/src/ionex/header.rs
+++ b/src/ionex/header.rs
@@ -245,7 +245,7 @@ impl HeaderFields {
     /// Returns true if this Ionosphere Maps describes
     /// a theoretical model, not measured data
     pub fn is_theoretical_model(&self) -> bool {
-        self.observables.is_some()
+        self.observables.is_none()
     }
 
     /// Copies self and set number of stations
-- 
2.43.0


From b23e894bc407fb6cc8ce2190cc785e35331b532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 44/78] fix: IONEX header: number of satellites was not read

---
 src/header/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index de63f96..b9f294d 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -573,7 +573,7 @@ impl Header {
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
                 observation.clock_offset_applied = n > 0;
-            } else if marker.contains("# OF SATELLITES") {
+            } else if marker.contains("# OF SATELLITES") && rinex_type != Type::IonosphereMaps {
                 // ---> we don't need this info,
                 //     user can determine it by analyzing the record
             } else if marker.contains("PRN / # OF OBS") {
-- 
2.43.0


From 5792760c90cdf788a405cc8e2b9090fafcb6c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 45/78] fix: NAV V3 header: ionospheric ALPHA terms were lost
 when following BETA terms

---
 src/header/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index b9f294d..2a6ee9d 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -813,7 +813,7 @@ impl Header {
                         // KB requires two lines
                         if let Some(ionod_model) = ionod_corrections.get_mut(&constell) {
                             if let Some(kb_model) = ionod_model.as_klobuchar_mut() {
-                                if model_id.ends_with('A') {
+                                if model_id.trim_end().ends_with('A') {
                                     kb_model.alpha = alpha;
                                     kb_model.region = region;
                                 } else {
-- 
2.43.0


From 54395134993c73a8525338fda5e5d47d4dd66afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 46/78] fix: NAV V3 header: ionospheric terms with D exponents
 were ignored

---
 src/navigation/ionosphere/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/navigation/ionosphere/mod.rs b/src/navigation/ionosphere/mod.rs
index 95baa72..1297f20 100644
--- a/src/navigation/ionosphere/mod.rs
+++ b/src/navigation/ionosphere/mod.rs
@@ -34,6 +34,8 @@ impl IonosphereModel {
     /// Two models may exist: Klobuchar and NequickG.
     pub(crate) fn from_rinex3_header(header: &str) -> Result<Self, ParsingError> {
         let (system, rem) = split_columns(header, 5);
+        let rem = rem.replace(['d', 'D'], "E");
+        let rem = rem.as_str();
         match system.trim() {
             /*
              * Models that only needs 3 fields
-- 
2.43.0


From f6b1b28261a048c9f14cac9aa881eeb596ee10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 47/78] fix: NAV: exponents written with D or d were rejected,
 or read as zero

---
 src/navigation/earth_orientation.rs    | 5 +++++
 src/navigation/ephemeris/parsing.rs    | 7 +++++++
 src/navigation/ionosphere/bdgim.rs     | 6 ++++++
 src/navigation/ionosphere/klobuchar.rs | 6 ++++++
 src/navigation/ionosphere/nequick_g.rs | 4 ++++
 src/navigation/system_time.rs          | 3 +++
 6 files changed, 31 insertions(+)

diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index d540814..3413914 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -29,6 +29,11 @@ impl EarthOrientation {
         line_3: &str,
         ts: TimeScale,
     ) -> Result<(Epoch, Self), ParsingError> {
+        // E, e, D and d are all valid exponents
+        let line_1 = &line_1.replace(['D', 'd'], "E");
+        let line_2 = &line_2.replace(['D', 'd'], "E");
+        let line_3 = &line_3.replace(['D', 'd'], "E");
+
         let (epoch, rem) = split_columns(line_1, 23);
         let (xp, rem) = split_columns(rem, 19);
         let (dxp, ddxp) = split_columns(rem, 19);
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 55d6f1b..b317624 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -62,6 +62,9 @@ fn parse_orbits(
                 continue;
             }
 
+            // E, e, D and d are all valid exponents
+            let content = &content.replace('d', "D");
+
             // zeros mean unresolved/unknown fields,
             // except for the ToE: first second of the week
             let is_toe = matches!(fields.get(index), Some((key, _)) if *key == "toe");
@@ -113,6 +116,8 @@ impl Ephemeris {
 
         let (svnn, rem) = split_columns(line, svnn_offset);
         let (date, rem) = split_columns(rem, 19);
+        // E, e, D and d are all valid exponents
+        let rem = &rem.replace('d', "D");
         let (clk_bias, rem) = split_columns(rem, 19);
         let (clk_dr, clk_drr) = split_columns(rem, 19);
 
@@ -197,6 +202,8 @@ impl Ephemeris {
         let (epoch, rem) = split_columns(rem, 19);
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
+        // E, e, D and d are all valid exponents
+        let rem = &rem.replace('d', "D");
         let (clk_bias, rem) = split_columns(rem, 19);
         let (clk_dr, clk_drr) = split_columns(rem, 19);
 
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index f32391f..1d3420a 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -24,6 +24,8 @@ impl BdModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        // E, e, D and d are all valid exponents
+        let line = &line.replace(['D', 'd'], "E");
 
         let (epoch, rem) = split_columns(line, 23);
         let (a0, rem) = split_columns(rem, 19);
@@ -33,6 +35,8 @@ impl BdModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        // E, e, D and d are all valid exponents
+        let line = &line.replace(['D', 'd'], "E");
         let (a3, rem) = split_columns(line, 23);
         let (a4, rem) = split_columns(rem, 19);
         let (a5, a6) = split_columns(rem, 19);
@@ -41,6 +45,8 @@ impl BdModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        // E, e, D and d are all valid exponents
+        let line = &line.replace(['D', 'd'], "E");
         let (a7, a8) = split_columns(line, 23);
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index f01b1b8..d441ada 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -47,6 +47,8 @@ impl KbModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        // E, e, D and d are all valid exponents
+        let line = &line.replace(['D', 'd'], "E");
 
         let (epoch, rem) = split_columns(line, 23);
         let (a0, rem) = split_columns(rem, 19);
@@ -56,6 +58,8 @@ impl KbModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        // E, e, D and d are all valid exponents
+        let line = &line.replace(['D', 'd'], "E");
         let (a3, rem) = split_columns(line, 23);
         let (b0, rem) = split_columns(rem, 19);
         let (b1, b2) = split_columns(rem, 19);
@@ -64,6 +68,8 @@ impl KbModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        // E, e, D and d are all valid exponents
+        let line = &line.replace(['D', 'd'], "E");
         let (b3, region) = split_columns(line, 23);
 
         let region: KbRegionCode = match region.trim().len() {
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 46ecabf..fb47297 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -42,6 +42,8 @@ impl NgModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        // E, e, D and d are all valid exponents
+        let line = &line.replace(['D', 'd'], "E");
         let (epoch, rem) = split_columns(line, 23);
         let (a0, rem) = split_columns(rem, 19);
         let (a1, rem) = split_columns(rem, 19);
@@ -50,6 +52,8 @@ impl NgModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        // E, e, D and d are all valid exponents
+        let line = &line.replace(['D', 'd'], "E");
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let a = (
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index f07ac42..df32301 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -31,6 +31,9 @@ impl SystemTime {
         let utc = rem.trim().to_string();
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
+        // E, e, D and d are all valid exponents
+        let line_2 = &line_2.replace(['D', 'd'], "E");
+
         let (a0, rem) = split_columns(line_2, 23);
         let (a1, rem) = split_columns(rem, 19);
         let (a2, time) = split_columns(rem, 19);
-- 
2.43.0


From ed37ed804ef4d21ac7a7ce92fa954db5deda5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 48/78] fix: NAV: message validity was one second too long
 across a leap second, in UTC

---
 src/navigation/ephemeris/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 9e442ec..b6abd84 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -199,7 +199,8 @@ impl Ephemeris {
     /// which should always be considered "valid".
     pub fn is_valid(&self, sv: SV, t: Epoch, toe: Epoch) -> bool {
         if let Some(max_dtoe) = Self::validity_duration(sv.constellation) {
-            t > toe && (t - toe) < max_dtoe
+            // UTC differences do not account for leap seconds
+            t > toe && (t.to_time_scale(TimeScale::TAI) - toe) < max_dtoe
         } else {
             #[cfg(feature = "log")]
             error!("{} not fully supported", sv.constellation);
-- 
2.43.0


From 7da66e0b1e5479268ca9fcf1176562082a4c7dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 49/78] fix: DORIS: measurements were never decoded, and two
 iterators always empty

The clock offset was read from the wrong columns, which rejected every
record, measurements were read with 14 columns per value instead of 16
(F14.3 and two flags) starting one column too far, stations were looked
up one entry past their id, continuation lines repeated the first
observables and the epoch flag was not read.
---
 src/doris/parsing.rs   | 165 +++++++++++++++++------------------------
 src/doris/rinex/mod.rs |  19 ++++-
 2 files changed, 85 insertions(+), 99 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index c5ac171..508f7cb 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -8,70 +8,53 @@ use crate::{
     split_columns,
 };
 
+/// Number of measurements per line
+const NUM_OBS_PER_LINE: usize = 5;
+
 /// Returns true if forwarded content does match new DORIS measurement.
 pub fn is_new_epoch(line: &str) -> bool {
     line.starts_with('>')
 }
 
+/// Parses one line of measurements, starting with observable #`first`:
+/// 5 measurements per line, made of a value (F14.3) and two flags.
 fn parse_observations(
     line: &str,
-    mut obs_ptr: usize,
+    first: usize,
     station: &Station,
     observables: &[Observable],
-    numobs: usize,
     observations: &mut Observations,
-) -> Result<(), ParsingError> {
-    const OBSERVABLE_WIDTH: usize = 14;
-
-    let mut offset = 0;
-    let line_len = line.len();
+) {
+    const VALUE_WIDTH: usize = 14;
+    const OBSERVABLE_WIDTH: usize = 16;
 
     // abnormal content is ignored and does not overflow
-    while obs_ptr < numobs {
-        let mut m1 = Option::<u8>::None;
-        let mut m2 = Option::<u8>::None;
-
-        if offset + OBSERVABLE_WIDTH + 1 < line_len {
-            let slice = columns(
-                line,
-                offset + OBSERVABLE_WIDTH,
-                offset + OBSERVABLE_WIDTH + 1,
-            );
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m1 = Some(flag);
-            }
-        }
-
-        if offset + OBSERVABLE_WIDTH + 2 < line_len {
-            let slice = columns(
-                line,
-                offset + OBSERVABLE_WIDTH + 1,
-                offset + OBSERVABLE_WIDTH + 2,
-            );
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m2 = Some(flag);
-            }
+    for (nth, observable) in observables
+        .iter()
+        .skip(first)
+        .take(NUM_OBS_PER_LINE)
+        .enumerate()
+    {
+        let offset = nth * OBSERVABLE_WIDTH;
+        let value = columns(line, offset, offset + VALUE_WIDTH);
+        let m1 = columns(line, offset + VALUE_WIDTH, offset + VALUE_WIDTH + 1);
+        let m2 = columns(line, offset + VALUE_WIDTH + 1, offset + OBSERVABLE_WIDTH);
+
+        if let Ok(value) = value.trim().parse::<f64>() {
+            let key = SignalKey {
+                station: station.clone(),
+                observable: observable.clone(),
+            };
+
+            let signal = SignalObservation {
+                m1: m1.trim().parse::<u8>().ok(),
+                m2: m2.trim().parse::<u8>().ok(),
+                value,
+            };
+
+            observations.signals.insert(key, signal);
         }
-
-        if offset + OBSERVABLE_WIDTH < line_len {
-            let slice = columns(line, offset, offset + OBSERVABLE_WIDTH);
-            if let Ok(value) = slice.trim().parse::<f64>() {
-                let key = SignalKey {
-                    station: station.clone(),
-                    observable: observables[obs_ptr].clone(),
-                };
-
-                observations
-                    .signals
-                    .insert(key, SignalObservation { m1, m2, value });
-            }
-        }
-
-        offset += OBSERVABLE_WIDTH;
-        obs_ptr += 1;
     }
-
-    Ok(())
 }
 
 /// Parse all DORIS measurements from forwarded content.
@@ -80,17 +63,18 @@ pub fn parse_epoch(
     header: &Header,
     content: &str,
 ) -> Result<(DorisKey, Observations), ParsingError> {
-    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN  0".len();
-    const CLOCK_OFFSET: usize = 26;
-    const CLOCK_SIZE: usize = 14;
-    const MIN_EPOCH_SIZE: usize = EPOCH_SIZE + CLOCK_SIZE + 2;
-
-    let mut obs_ptr = 0;
-    let flag = EpochFlag::default();
+    // > YYYY MM DD HH MM SS.NNNNNNNNN  F NNN      CCC.CCCCCCCCC E
+    const EPOCH_OFFSET: usize = 2;
+    const FLAG_OFFSET: usize = 31;
+    const NUM_STATIONS_OFFSET: usize = 34;
+    const CLOCK_OFFSET: usize = 37;
+    const CLOCK_END: usize = 56;
+    const MEASUREMENTS_OFFSET: usize = 3;
 
     let null_clock = ClockObservation::default();
 
-    let mut station = Option::<Station>::None;
+    let mut obs_ptr = 0;
+    let mut station = Option::<&Station>::None;
     let mut observations = Observations::default();
 
     let mut lines = content.lines();
@@ -100,71 +84,58 @@ pub fn parse_epoch(
         .as_ref()
         .ok_or(ParsingError::MissingObservableDefinition)?;
 
-    let observables = &doris.observables;
-    let numobs = observables.len();
-
-    let stations = &doris.stations;
-
     // parse TAI timestamp
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
-    let line_len = line.len();
 
-    if line_len < MIN_EPOCH_SIZE {
-        return Err(ParsingError::EpochFormat);
-    }
+    let epoch =
+        parse_epoch_in_timescale(columns(line, EPOCH_OFFSET, FLAG_OFFSET), TimeScale::TAI)?;
 
-    let epoch = parse_epoch_in_timescale(columns(line, 2, 2 + EPOCH_SIZE), TimeScale::TAI)?;
+    let flag = columns(line, FLAG_OFFSET, NUM_STATIONS_OFFSET)
+        .trim()
+        .parse::<EpochFlag>()?;
 
     let key = DorisKey { epoch, flag };
 
-    // parse clock field
-    let offset_s = columns(line, CLOCK_OFFSET, CLOCK_OFFSET + CLOCK_SIZE)
-        .trim()
-        .parse::<f64>()
-        .map_err(|_| ParsingError::DorisClockParsing)?;
+    // parse clock field (optional)
+    let offset_s = columns(line, CLOCK_OFFSET, CLOCK_END).trim();
 
-    observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
+    if !offset_s.is_empty() {
+        let offset_s = offset_s
+            .parse::<f64>()
+            .map_err(|_| ParsingError::DorisClockParsing)?;
 
-    // clock extrapolated ?
-    observations.clock_extrapolated = false;
-
-    if line_len > CLOCK_OFFSET + CLOCK_SIZE {
-        if split_columns(line, CLOCK_OFFSET + CLOCK_SIZE)
-            .1
-            .trim()
-            .eq("1")
-        {
-            observations.clock_extrapolated = true;
-        }
+        observations.clock = null_clock.with_offset_s(epoch, offset_s);
     }
 
+    // clock extrapolated ?
+    observations.clock_extrapolated = split_columns(line, CLOCK_END).1.trim().eq("1");
+
     // parse following stations
     for line in lines {
         if line.starts_with('D') {
             obs_ptr = 0;
 
             // station number
-            let station_num = columns(line, 1, 3)
+            let station_num = columns(line, 1, MEASUREMENTS_OFFSET)
                 .trim()
-                .parse::<usize>()
+                .parse::<u16>()
                 .map_err(|_| ParsingError::DorisStationFormat)?;
 
-            // identify station
-            if let Some(s) = stations.get(station_num) {
-                station = Some(s.clone());
-            }
+            // identify station: unknown stations are not tolerated
+            station = doris.stations.iter().find(|s| s.key == station_num);
         }
 
-        if let Some(station) = &station {
+        if let Some(station) = station {
             parse_observations(
-                split_columns(line, 4).1,
+                split_columns(line, MEASUREMENTS_OFFSET).1,
                 obs_ptr,
-                &station,
-                observables,
-                numobs,
+                station,
+                &doris.observables,
                 &mut observations,
-            )?;
+            );
         }
+
+        obs_ptr += NUM_OBS_PER_LINE;
     }
 
     Ok((key, observations))
diff --git a/src/doris/rinex/mod.rs b/src/doris/rinex/mod.rs
index c617a5c..264ad88 100644
--- a/src/doris/rinex/mod.rs
+++ b/src/doris/rinex/mod.rs
@@ -4,6 +4,8 @@ mod feature;
 
 use std::collections::btree_map::{Iter, IterMut, Keys};
 
+use itertools::Itertools;
+
 use crate::{
     doris::{DorisKey, Observations, SignalKey, SignalObservation},
     observation::ClockObservation,
@@ -48,7 +50,11 @@ impl Rinex {
     pub fn doris_satellite_clock_offset_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, ClockObservation)> + '_> {
-        Box::new([].into_iter())
+        if let Some(rec) = self.record.as_doris() {
+            Box::new(rec.iter().map(|(k, v)| (k.clone(), v.clock)))
+        } else {
+            Box::new([].into_iter())
+        }
     }
 
     /// Returns Iterator over all Ground [Station] observations, made by
@@ -57,6 +63,15 @@ impl Rinex {
     pub fn doris_ground_station_signals_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, SignalKey, SignalObservation)> + '_> {
-        Box::new([].into_iter())
+        if let Some(rec) = self.record.as_doris() {
+            Box::new(rec.iter().flat_map(|(k, v)| {
+                v.signals
+                    .iter()
+                    .sorted_by_key(|(signal, _)| *signal)
+                    .map(|(signal, observation)| (k.clone(), signal.clone(), observation.clone()))
+            }))
+        } else {
+            Box::new([].into_iter())
+        }
     }
 }
-- 
2.43.0


From c4ac44df610510f56351beca3b26966cb7131a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 50/78] fix: DORIS header: the satellite name was never read

---
 src/header/parsing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 2a6ee9d..f9447d4 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -932,6 +932,9 @@ impl Header {
                     .ok_or(ParsingError::DorisL1L2DateOffset)?;
 
                 doris.u2_s1_time_offset = Duration::from_microseconds(time_offset_us);
+            } else if marker.contains("SATELLITE NAME") {
+                // DORIS special case
+                doris.satellite = content.trim().to_string();
             } else if marker.contains("STATION REFERENCE") {
                 // DORIS special case
                 let station = DorisStation::from_str(content.trim())?;
-- 
2.43.0


From 569dfb591975d6c8fa3b220e413bd5bb203400b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 51/78] fix: DORIS: station frequencies were multiplied by 2^26
 instead of divided

---
 src/doris/station.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/doris/station.rs b/src/doris/station.rs
index 9d56c4b..37e496b 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -28,12 +28,12 @@ impl Station {
 
     /// Station S1 Frequency shift factor
     pub fn s1_frequency_shift(&self) -> f64 {
-        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 
     /// Station U2 Frequency shift factor
     pub fn u2_frequency_shift(&self) -> f64 {
-        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 }
 
-- 
2.43.0


From 33d71323b2d21c24db505bab7c5c80991a720070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 52/78] fix: header: parsing took quadratic time and memory
 traffic in the number of header lines

Each TIME OF FIRST/LAST OBS, clock or IONEX header line copied everything
read so far; a 400 kB header made the parser move more than 1 GB.
---
 src/clock/mod.rs          | 49 +++++++++++++++++----------------------
 src/header/parsing.rs     | 40 +++++++++++++++++++-------------
 src/observation/header.rs | 14 +++++------
 3 files changed, 51 insertions(+), 52 deletions(-)

diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 2ed3bea..e427dad 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -105,51 +105,44 @@ impl HeaderFields {
     }
 
     /// Defines a new [WorkClock]
-    pub(crate) fn work_clock(&self, clk: WorkClock) -> Self {
-        let mut s = self.clone();
-        s.work_clock.push(clk);
-        s
+    pub(crate) fn work_clock(mut self, clk: WorkClock) -> Self {
+        self.work_clock.push(clk);
+        self
     }
 
     /// Defines [TimeScale]
-    pub(crate) fn timescale(&self, ts: TimeScale) -> Self {
-        let mut s = self.clone();
-        s.timescale = Some(ts);
-        s
+    pub(crate) fn timescale(mut self, ts: TimeScale) -> Self {
+        self.timescale = Some(ts);
+        self
     }
 
     /// Defines clock site
-    pub(crate) fn site(&self, site: &str) -> Self {
-        let mut s = self.clone();
-        s.site = Some(site.to_string());
-        s
+    pub(crate) fn site(mut self, site: &str) -> Self {
+        self.site = Some(site.to_string());
+        self
     }
 
     /// Defines [DOMES] site number
-    pub(crate) fn domes(&self, domes: DOMES) -> Self {
-        let mut s = self.clone();
-        s.domes = Some(domes);
-        s
+    pub(crate) fn domes(mut self, domes: DOMES) -> Self {
+        self.domes = Some(domes);
+        self
     }
 
     /// Defines IGS special code
-    pub(crate) fn igs(&self, igs: &str) -> Self {
-        let mut s = self.clone();
-        s.igs = Some(igs.to_string());
-        s
+    pub(crate) fn igs(mut self, igs: &str) -> Self {
+        self.igs = Some(igs.to_string());
+        self
     }
 
     /// Defines clock site full name
-    pub(crate) fn full_name(&self, name: &str) -> Self {
-        let mut s = self.clone();
-        s.full_name = Some(name.to_string());
-        s
+    pub(crate) fn full_name(mut self, name: &str) -> Self {
+        self.full_name = Some(name.to_string());
+        self
     }
 
     /// Defines site reference clock
-    pub(crate) fn refclock(&self, clk: &str) -> Self {
-        let mut s = self.clone();
-        s.ref_clock = Some(clk.to_string());
-        s
+    pub(crate) fn refclock(mut self, clk: &str) -> Self {
+        self.ref_clock = Some(clk.to_string());
+        self
     }
 }
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index f9447d4..4bac06c 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -217,7 +217,7 @@ impl Header {
 
                 rinex_type = Type::from_str(type_str.trim())?;
                 let ref_system = IonexRefSystem::from_str(system_str.trim())?;
-                ionex = ionex.with_reference_system(ref_system);
+                ionex.reference = ref_system;
 
             ///////////////////////////////////////
             // ==> from now on
@@ -858,55 +858,63 @@ impl Header {
                 // <o
                 //   if "DESCRIPTION" is to be encountered in other RINEX
                 //   we can safely test RinexType here because its already been determined
-                ionex = ionex.with_description(content.trim());
+                match ionex.description.as_mut() {
+                    Some(description) => {
+                        description.push(' ');
+                        description.push_str(content.trim());
+                    },
+                    None => ionex.description = Some(content.trim().to_string()),
+                }
             } else if marker.contains("# OF MAPS IN FILE") {
                 if let Ok(num) = content.trim().parse::<usize>() {
-                    ionex = ionex.with_number_of_maps(num);
+                    ionex.number_of_maps = num;
                 }
             } else if marker.contains("EPOCH OF FIRST MAP") {
                 if let Ok(epoch) = parse_ionex_utc_epoch(content.trim()) {
-                    ionex = ionex.with_epoch_of_first_map(epoch);
+                    ionex.epoch_of_first_map = epoch;
                 }
             } else if marker.contains("EPOCH OF LAST MAP") {
                 if let Ok(epoch) = parse_ionex_utc_epoch(content.trim()) {
-                    ionex = ionex.with_epoch_of_last_map(epoch);
+                    ionex.epoch_of_last_map = epoch;
                 }
             } else if marker.contains("OBSERVABLES USED") {
                 // IONEX observables
-                ionex = ionex.with_observables(content.trim());
+                if !content.trim().is_empty() {
+                    ionex.observables = Some(content.trim().to_string());
+                }
             } else if marker.contains("ELEVATION CUTOFF") {
                 if let Ok(f) = f32::from_str(content.trim()) {
-                    ionex = ionex.with_elevation_cutoff(f);
+                    ionex.elevation_cutoff = f;
                 }
             } else if marker.contains("BASE RADIUS") {
                 if let Ok(f) = f32::from_str(content.trim()) {
-                    ionex = ionex.with_base_radius(f);
+                    ionex.base_radius = f;
                 }
             } else if marker.contains("MAP DIMENSION") {
                 if let Ok(d) = content.trim().parse::<u8>() {
-                    ionex = ionex.with_map_dimension(d);
+                    ionex.map_dimension = d;
                 }
             } else if marker.contains("MAPPING FUNCTION") {
                 // "NONE" is to be expected
                 if let Ok(mapf) = IonexMappingFunction::from_str(content.trim()) {
-                    ionex = ionex.with_mapping_function(mapf);
+                    ionex.mapping = Some(mapf);
                 }
             } else if marker.contains("# OF STATIONS") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
-                    ionex = ionex.with_nb_stations(u)
+                    ionex.nb_stations = u;
                 }
             } else if marker.contains("# OF SATELLITES") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
-                    ionex = ionex.with_nb_satellites(u)
+                    ionex.nb_satellites = u;
                 }
             /*
              * Initial TEC map scaling
              */
             } else if marker.contains("EXPONENT") {
                 if let Ok(e) = content.trim().parse::<i8>() {
-                    ionex = ionex.with_exponent(e);
+                    ionex.exponent = e;
                 }
 
             /*
@@ -914,13 +922,13 @@ impl Header {
              */
             } else if marker.contains("HGT1 / HGT2 / DHGT") {
                 let grid = Self::parse_grid(content)?;
-                ionex = ionex.with_altitude_grid(grid);
+                ionex.grid.height = grid;
             } else if marker.contains("LAT1 / LAT2 / DLAT") {
                 let grid = Self::parse_grid(content)?;
-                ionex = ionex.with_latitude_grid(grid);
+                ionex.grid.latitude = grid;
             } else if marker.contains("LON1 / LON2 / DLON") {
                 let grid = Self::parse_grid(content)?;
-                ionex = ionex.with_longitude_grid(grid);
+                ionex.grid.longitude = grid;
             } else if marker.contains("L2 / L1 DATE OFFSET") {
                 // DORIS special case
                 let content = split_columns(content, 1).1.trim();
diff --git a/src/observation/header.rs b/src/observation/header.rs
index e32f13c..54dc88b 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -186,17 +186,15 @@ impl HeaderFields {
     }
 
     /// Add "TIME OF FIRST OBS" field
-    pub(crate) fn with_timeof_first_obs(&self, epoch: Epoch) -> Self {
-        let mut s = self.clone();
-        s.timeof_first_obs = Some(epoch);
-        s
+    pub(crate) fn with_timeof_first_obs(mut self, epoch: Epoch) -> Self {
+        self.timeof_first_obs = Some(epoch);
+        self
     }
 
     /// Add "TIME OF LAST OBS" field
-    pub(crate) fn with_timeof_last_obs(&self, epoch: Epoch) -> Self {
-        let mut s = self.clone();
-        s.timeof_last_obs = Some(epoch);
-        s
+    pub(crate) fn with_timeof_last_obs(mut self, epoch: Epoch) -> Self {
+        self.timeof_last_obs = Some(epoch);
+        self
     }
 
     /// Insert a data scaling
-- 
2.43.0


From ea2ae7f94c6c9699bc37af74d5fd307180c21f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 53/78] fix: ANTEX: antennas whose calibration date has a year
 of 00 or above 31 were lost

---
 src/antex/record.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index a3fecf3..059f914 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -128,7 +128,18 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
         return Err(ParsingError::DatetimeParsing);
     }
 
-    let epoch = Epoch::maybe_from_gregorian_utc(2000 + year, month, day, 0, 0, 0, 0)?;
+    if let Ok(epoch) = Epoch::maybe_from_gregorian_utc(2000 + year, month, day, 0, 0, 0, 0) {
+        return Ok(epoch);
+    }
+
+    // not a YY-MMM-DD date: standard DD-MMM-YY date
+    let century = if day < 80 { 2000 } else { 1900 };
+    let (day, year) = (
+        year.try_into().or(Err(ParsingError::DatetimeParsing))?,
+        century + day as i32,
+    );
+
+    let epoch = Epoch::maybe_from_gregorian_utc(year, month, day, 0, 0, 0, 0)?;
     Ok(epoch)
 }
 
-- 
2.43.0


From 020b9c6a07646f87451b73af574ce6358caf2ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 54/78] fix: DORIS: files could not be written

Header lines had no line terminator, and the observables, time of first and
last observation and scale factors were not described at all; the record was
not in the format that the parser (and the standard) expects: number of
stations, clock columns and continuation lines were missing or shifted.
---
 src/doris/formatting.rs  | 74 ++++++++++++++++++-------------------
 src/doris/header.rs      | 80 ++++++++++++++++++++++++++++++++++++----
 src/doris/station.rs     |  2 +-
 src/header/formatting.rs | 11 +++++-
 4 files changed, 119 insertions(+), 48 deletions(-)

diff --git a/src/doris/formatting.rs b/src/doris/formatting.rs
index 2eba16d..c78f576 100644
--- a/src/doris/formatting.rs
+++ b/src/doris/formatting.rs
@@ -1,5 +1,5 @@
 use crate::{
-    doris::{ClockObservation, DorisKey, Record},
+    doris::{ClockObservation, DorisKey, Record, SignalKey},
     epoch::epoch_decompose as epoch_decomposition,
     prelude::{FormattingError, Header},
 };
@@ -9,24 +9,26 @@ use std::io::{BufWriter, Write};
 fn format_epoch<W: Write>(
     w: &mut BufWriter<W>,
     k: &DorisKey,
+    num_stations: usize,
     clock_extrapolated: bool,
     clock: &ClockObservation,
 ) -> Result<(), FormattingError> {
     let (y, m, d, hh, mm, ss, nanos) = epoch_decomposition(k.epoch);
 
-    write!(
+    writeln!(
         w,
-        "> {:04} {:02} {:02} {:02} {:02} {:02}.{:07} {:3} {:3} {:14.3}",
+        "> {:04} {:02} {:02} {:02} {:02} {:02}.{:09}  {}{:3}{:19.9} {} ",
         y,
         m,
         d,
         hh,
         mm,
         ss,
-        nanos / 100,
-        clock_extrapolated,
+        nanos,
         k.flag,
+        num_stations,
         clock.offset_s,
+        clock_extrapolated as u8,
     )?;
 
     Ok(())
@@ -38,58 +40,54 @@ pub fn format<W: Write>(
     header: &Header,
 ) -> Result<(), FormattingError> {
     const NUM_OBS_PER_LINE: usize = 5;
-    const OBSERVATIONS_BLANK: &str = "              ";
+    const OBSERVATIONS_BLANK: &str = "                ";
 
     let header = header
         .doris
         .as_ref()
         .ok_or(FormattingError::UndefinedObservables)?;
 
-    let _stations = &header.stations;
-
     for (k, v) in record.iter() {
-        format_epoch(w, &k, v.clock_extrapolated, &v.clock)?;
+        // stations that were observed, following header specs
+        let stations = header
+            .stations
+            .iter()
+            .filter(|station| v.signals.keys().any(|k| k.station == **station))
+            .collect::<Vec<_>>();
+
+        format_epoch(w, k, stations.len(), v.clock_extrapolated, &v.clock)?;
 
-        for station in header.stations.iter() {
-            let mut modulo = 0;
+        for station in stations {
+            write!(w, "D{:02}", station.key)?;
 
             // following header specs
-            for (nth, obs) in header.observables.iter().enumerate() {
-                if nth == 0 {
-                    write!(w, "D{:02}", station.key)?;
+            for (nth, observable) in header.observables.iter().enumerate() {
+                if nth > 0 && nth % NUM_OBS_PER_LINE == 0 {
+                    // continuation line
+                    write!(w, "\n   ")?;
                 }
 
-                if let Some((_, signal)) = v
-                    .signals
-                    .iter()
-                    .filter(|(k, _)| &k.station == station && &k.observable == obs)
-                    .reduce(|k, _| k)
-                {
+                let key = SignalKey {
+                    station: station.clone(),
+                    observable: observable.clone(),
+                };
+
+                if let Some(signal) = v.signals.get(&key) {
                     write!(w, "{:14.3}", signal.value)?;
-                    if let Some(flag) = signal.m1 {
-                        write!(w, "{}", flag)?;
-                    } else {
-                        write!(w, "{}", ' ')?;
-                    }
-                    if let Some(flag) = signal.m2 {
-                        write!(w, "{}", flag)?;
-                    } else {
-                        write!(w, "{}", ' ')?;
+
+                    for flag in [signal.m1, signal.m2] {
+                        if let Some(flag) = flag {
+                            write!(w, "{}", flag)?;
+                        } else {
+                            write!(w, " ")?;
+                        }
                     }
                 } else {
                     write!(w, "{}", OBSERVATIONS_BLANK)?;
                 }
-
-                if (nth % NUM_OBS_PER_LINE) == NUM_OBS_PER_LINE - 1 {
-                    write!(w, "{}   \n", ' ')?;
-                }
-
-                modulo = nth % NUM_OBS_PER_LINE;
             }
 
-            if modulo != NUM_OBS_PER_LINE - 1 {
-                write!(w, "{}", '\n')?;
-            }
+            writeln!(w)?;
         }
     }
 
diff --git a/src/doris/header.rs b/src/doris/header.rs
index c051e98..e9315a6 100644
--- a/src/doris/header.rs
+++ b/src/doris/header.rs
@@ -5,8 +5,11 @@ use std::{
     io::{BufWriter, Write},
 };
 
+use itertools::Itertools;
+
 use crate::{
     doris::Station,
+    epoch::epoch_decompose as epoch_decomposition,
     fmt_rinex,
     prelude::{Duration, Epoch, FormattingError, Observable},
 };
@@ -42,21 +45,82 @@ pub struct HeaderFields {
 impl HeaderFields {
     /// Formats [HeaderFields] into [BufWriter].
     pub(crate) fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        write!(w, "{}", fmt_rinex(&self.satellite, "SATELLITE NAME"))?;
-        write!(w, "{}", fmt_rinex(&self.satellite, "SATELLITE NAME"))?;
+        const OBSERVABLES_PER_LINE: usize = 13;
+        const SCALED_PER_LINE: usize = 12;
+
+        writeln!(w, "{}", fmt_rinex(&self.satellite, "SATELLITE NAME"))?;
+
+        for (nth, observables) in self.observables.chunks(OBSERVABLES_PER_LINE).enumerate() {
+            let mut content = if nth == 0 {
+                format!("D  {:3}", self.observables.len())
+            } else {
+                "      ".to_string()
+            };
+
+            for observable in observables.iter() {
+                content.push_str(&format!(" {:<3}", observable.to_string()));
+            }
+
+            writeln!(w, "{}", fmt_rinex(&content, "SYS / # / OBS TYPES"))?;
+        }
+
+        for (t, label) in [
+            (self.timeof_first_obs, "TIME OF FIRST OBS"),
+            (self.timeof_last_obs, "TIME OF LAST OBS"),
+        ] {
+            if let Some(t) = t {
+                let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
+
+                let content = format!(
+                    "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     DOR",
+                    y,
+                    m,
+                    d,
+                    hh,
+                    mm,
+                    ss,
+                    ns / 100
+                );
+
+                writeln!(w, "{}", fmt_rinex(&content, label))?;
+            }
+        }
 
-        let l2_l1_date_offset = format!("D     {:10.3}", self.u2_s1_time_offset.to_seconds());
-        write!(
+        for scaling in self.scaling.values().unique().sorted() {
+            // follows the definition order
+            let observables = self
+                .observables
+                .iter()
+                .filter(|observable| self.scaling.get(observable) == Some(scaling))
+                .collect::<Vec<_>>();
+
+            for observables in observables.chunks(SCALED_PER_LINE) {
+                let mut content = format!("D {:4}  {:2}", scaling, observables.len());
+
+                for observable in observables.iter() {
+                    content.push_str(&format!(" {:<3}", observable.to_string()));
+                }
+
+                writeln!(w, "{}", fmt_rinex(&content, "SYS / SCALE FACTOR"))?;
+            }
+        }
+
+        let offset_us = self.u2_s1_time_offset.total_nanoseconds() as f64 / 1.0E3;
+
+        writeln!(
             w,
             "{}",
-            fmt_rinex(&l2_l1_date_offset, "L2 / L1 DATE OFFSET")
+            fmt_rinex(&format!("D  {:14.3}", offset_us), "L2 / L1 DATE OFFSET")
         )?;
 
-        let num_stations = format!("{:<10}", self.stations.len());
-        write!(w, "{}", fmt_rinex(&num_stations, "# OF STATIONS"))?;
+        writeln!(
+            w,
+            "{}",
+            fmt_rinex(&format!("{:6}", self.stations.len()), "# OF STATIONS")
+        )?;
 
         for station in self.stations.iter() {
-            write!(
+            writeln!(
                 w,
                 "{}",
                 fmt_rinex(&station.to_string(), "STATION REFERENCE")
diff --git a/src/doris/station.rs b/src/doris/station.rs
index 37e496b..d3b9f0c 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -76,7 +76,7 @@ impl std::fmt::Display for Station {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         write!(
             f,
-            "D{:02}  {} {:<29} {}  {}   {}",
+            "D{:02}  {:<4} {:<29} {}  {} {:>3}",
             self.key, self.label, self.site, self.domes, self.gen, self.k_factor
         )
     }
diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index 2791212..55beb64 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -219,7 +219,16 @@ impl Header {
                     )
                 )?;
             },
-            Type::DORIS => {},
+            Type::DORIS => {
+                writeln!(
+                    w,
+                    "{}",
+                    fmt_rinex(
+                        &format!("{:6}.{:02}           O                   D", major, minor),
+                        "RINEX VERSION / TYPE"
+                    )
+                )?;
+            },
             Type::AntennaData => {},
             Type::IonosphereMaps => {},
         }
-- 
2.43.0


From 47f0e835965bc93820206119f6b2876ca33f9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 55/78] fix: header: a scale factor shared by more than 12
 observables was a reason to reject the file

---
 src/header/parsing.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 4bac06c..16112d9 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -72,6 +72,7 @@ impl Header {
         let mut antex = AntexHeader::default();
         let mut ionex = IonexHeaderFields::default();
         let mut doris = DorisHeader::default();
+        let mut scaling_definition: Option<(Constellation, u16)> = None;
 
         let mut end_of_header = false;
 
@@ -397,27 +398,35 @@ impl Header {
 
                 dcb_compensations.push(dcb);
             } else if marker.contains("SYS / SCALE FACTOR") {
-                // TODO:
-                //   This will not work in case several observables
-                //   are declaredn which will required to analyze more than 1 line
                 let (gnss, rem) = split_columns(content, 2);
                 let gnss = gnss.trim();
 
-                /*
-                 * DORIS measurement special case, otherwise, standard OBS_RINEX
-                 */
-                let constell = if gnss.eq("D") {
-                    Constellation::Mixed // scaling applies to all measurements
-                } else {
-                    Constellation::from_str(gnss)?
-                };
-
-                // Parse scaling factor
                 let (factor, rem) = split_columns(rem, 6);
                 let factor = factor.trim();
-                let scaling = factor
-                    .parse::<u16>()
-                    .or(Err(ParsingError::SystemScalingFactor))?;
+
+                // more than 12 observables are described on several lines:
+                // system and factor are only stated on the first one
+                let (constell, scaling) = match scaling_definition {
+                    Some(definition) if gnss.is_empty() && factor.is_empty() => definition,
+                    _ => {
+                        /*
+                         * DORIS measurement special case, otherwise, standard OBS_RINEX
+                         */
+                        let constell = if gnss.eq("D") {
+                            Constellation::Mixed // scaling applies to all measurements
+                        } else {
+                            Constellation::from_str(gnss)?
+                        };
+
+                        let scaling = factor
+                            .parse::<u16>()
+                            .or(Err(ParsingError::SystemScalingFactor))?;
+
+                        (constell, scaling)
+                    },
+                };
+
+                scaling_definition = Some((constell, scaling));
 
                 // parse end of line
                 let (_num, rem) = split_columns(rem, 3);
-- 
2.43.0


From 2806e917563bbed1bb45b6f5bccb72864f5dcf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 56/78] fix: observables_iter listed nothing for DORIS files,
 which it documents

---
 src/lib.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 53a0da6..c538b45 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1327,16 +1327,14 @@ impl Rinex {
                     .unique()
                     .sorted(),
             )
-        // } else if self.record.as_doris().is_some() {
-        //     Box::new(
-        //         self.doris()
-        //             .flat_map(|(_, stations)| {
-        //                 stations
-        //                     .iter()
-        //                     .flat_map(|(_, observables)| observables.iter().map(|(k, _)| k))
-        //             })
-        //             .unique(),
-        //     )
+        } else if let Some(record) = self.record.as_doris() {
+            Box::new(
+                record
+                    .iter()
+                    .flat_map(|(_, v)| v.signals.keys().map(|k| &k.observable))
+                    .unique()
+                    .sorted(),
+            )
         } else {
             Box::new([].into_iter())
         }
-- 
2.43.0


From 6c934e084edfd3ea0bc90d41b19eed5cf14f87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 57/78] fix: carrier: QZSS L6Z signals were unknown

---
 src/carrier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 43b1621..5520759 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -505,7 +505,7 @@ impl Carrier {
     pub(crate) fn qzl6_codes() -> [&'static str; 24] {
         [
             "C6", "L6", "D6", "S6", "C6S", "L6S", "D6S", "S6S", "C6L", "L6L", "D6L", "S6L", "C6X",
-            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6S", "L6S", "D6S", "S6Z",
+            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6Z", "L6Z", "D6Z", "S6Z",
         ]
     }
     fn from_qzss_observable(obs: &Observable) -> Result<Self, Error> {
-- 
2.43.0


From 7bafe0e1923c860b0e024aff56e3b6dfcf1d12ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 58/78] fix: signals_combination referenced BeiDou signals to
 B2I instead of the first frequency

---
 src/observable.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index f17bf8b..5799b14 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -316,7 +316,13 @@ impl Observable {
             if let Ok(carrier) = self.carrier(constellation) {
                 matches!(
                     carrier,
-                    Carrier::L1 | Carrier::E1 | Carrier::G1(_) | Carrier::S1 | Carrier::B2I
+                    Carrier::L1
+                        | Carrier::E1
+                        | Carrier::G1(_)
+                        | Carrier::S1
+                        | Carrier::B1I
+                        | Carrier::B1A
+                        | Carrier::B1C
                 )
             } else {
                 false
-- 
2.43.0


From 53007e739a688e97901845a5f3eeda82ac6be2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 59/78] fix: IONEX: grids with touching columns (180.0-180.0)
 were rejected

---
 src/header/parsing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 16112d9..8b549b7 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -1120,6 +1120,8 @@ impl Header {
         let mut start = 0.0_f64;
         let mut end = 0.0_f64;
         let mut spacing = 0.0_f64;
+        // fields are 6 digits wide: negative values may follow directly
+        let line = line.replace('-', " -");
         for (index, item) in line.split_ascii_whitespace().enumerate() {
             let item = item.trim();
             match index {
-- 
2.43.0


From 493acfb50f1f1bc41e50d29322da5ab3ab6003d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 60/78] fix: IONEX: map values of five digits, which touch,
 were read as one

---
 src/ionex/parsing.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index cf90ea8..6b92332 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -59,6 +59,23 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
     return Ok((fixed_lat, long1, long_spacing, fixed_alt));
 }
 
+/// Map values are 5 digits wide (16 per line): wide values may touch each other.
+fn map_values(line: &str) -> impl Iterator<Item = &str> {
+    line.split_ascii_whitespace().flat_map(|item| {
+        // right aligned: only the first value may be shorter
+        let first = match item.len() % 5 {
+            0 => 5.min(item.len()),
+            n => n,
+        };
+        let (first, rem) = split_columns(item, first);
+        std::iter::once(first).chain(
+            (0..rem.len())
+                .step_by(5)
+                .filter_map(|i| rem.get(i..(i + 5).min(rem.len()))),
+        )
+    })
+}
+
 /// Parses all maps contained in following TEC description.
 /// This describes a serie of TEC point on an isosurface.
 /// ## Inputs
@@ -117,9 +134,8 @@ pub fn parse_tec_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
+        for item in map_values(line) {
             // data interpretation
-            let item = item.trim();
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(tecu) = item.parse::<i64>() {
                     let tec = TEC::from_quantized(tecu, tec_exponent);
@@ -196,9 +212,7 @@ pub fn parse_rms_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
-            let item = item.trim();
-
+        for item in map_values(line) {
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(rms_tecu) = item.parse::<i64>() {
                     let quantized_lat = Quantized::new(fixed_lat, lat_exponent);
-- 
2.43.0


From 73ff80deb8dcfc0cf43e47f23eedeae285d5f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 61/78] fix: elevation_azimuth_range returned RX seen from SV
 instead of SV seen from RX

---
 src/navigation/ephemeris/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index b6abd84..c741c4c 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -191,7 +191,8 @@ impl Ephemeris {
         let rx_orbit = Orbit::from_position(rx_x_km, rx_y_km, rx_z_km, t, fixed_body_frame);
         let tx_orbit = Orbit::from_position(tx_x_km, tx_y_km, tx_z_km, t, fixed_body_frame);
 
-        almanac.azimuth_elevation_range_sez(rx_orbit, tx_orbit, None, None)
+        // SV, as seen from RX
+        almanac.azimuth_elevation_range_sez(tx_orbit, rx_orbit, None, None)
     }
 
     /// Returns True if Self is Valid at specified `t`.
-- 
2.43.0


From 2da3aa3a2d98e7d22af76241581e633f3fdf5e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 62/78] fix: header: fields of the format in use are written,
 not those of observations

A header that describes a format other than observations, while it carries
observation fields (as Header::default does), was written with the list of
observables of the latter: the file did not hold what it declares.
---
 src/header/formatting.rs | 47 ++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index 55beb64..f1d0c7d 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -241,21 +241,40 @@ impl Header {
         &self,
         w: &mut BufWriter<W>,
     ) -> Result<(), FormattingError> {
-        if let Some(obs) = &self.obs {
-            obs.format(w, self.version.major)
-        } else if let Some(meteo) = &self.meteo {
-            meteo.format(w)
-        } else if let Some(clock) = &self.clock {
-            clock.format(w)
-        } else if let Some(ionex) = &self.ionex {
-            ionex.format(w)
-        } else if let Some(antex) = &self.antex {
-            antex.format(w)
-        } else if let Some(doris) = &self.doris {
-            doris.format(w)
-        } else {
-            Ok(()) // should not happen
+        match self.rinex_type {
+            Type::ObservationData => {
+                if let Some(obs) = &self.obs {
+                    obs.format(w, self.version.major)?;
+                }
+            },
+            Type::MeteoData => {
+                if let Some(meteo) = &self.meteo {
+                    meteo.format(w)?;
+                }
+            },
+            Type::ClockData => {
+                if let Some(clock) = &self.clock {
+                    clock.format(w)?;
+                }
+            },
+            Type::IonosphereMaps => {
+                if let Some(ionex) = &self.ionex {
+                    ionex.format(w)?;
+                }
+            },
+            Type::AntennaData => {
+                if let Some(antex) = &self.antex {
+                    antex.format(w)?;
+                }
+            },
+            Type::DORIS => {
+                if let Some(doris) = &self.doris {
+                    doris.format(w)?;
+                }
+            },
+            Type::NavigationData => {},
         }
+        Ok(())
     }
 
     /// Formats "PGM / RUN BY / DATE"
-- 
2.43.0


From 2f0d57340503925f3174230dc800df61f4eb8364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 63/78] fix: SignalObservation::is_ok and is_ok_snr: as
 documented

is_ok rejected every signal without SNR, although a missing SNR is stated
to be accepted, and is_ok_snr rejected every signal: no indicator intersects
the empty set of flags that means OK.
---
 src/observation/signal.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 08eb397..ae862c6 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -50,27 +50,18 @@ impl SignalObservation {
     /// This allows method that Iterate over OK Epoch Data to consider
     /// data when SNR or LLI are missing.
     pub fn is_ok(self) -> bool {
-        let lli_ok = self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN;
-        let snr_ok = self.snr.unwrap_or_default().strong();
-        lli_ok && snr_ok
+        self.is_ok_lli() && self.snr.map_or(true, |snr| snr.strong())
     }
 
     /// [Observation::is_ok] with additional SNR criteria to match (>=).
     /// SNR must then be present otherwise this is not OK.
     pub fn is_ok_snr(&self, min_snr: SNR) -> bool {
-        if self
-            .lli
-            .unwrap_or(LliFlags::OK_OR_UNKNOWN)
-            .intersects(LliFlags::OK_OR_UNKNOWN)
-        {
-            if let Some(snr) = self.snr {
-                snr >= min_snr
-            } else {
-                false
-            }
-        } else {
-            false
-        }
+        self.is_ok_lli() && self.snr.map_or(false, |snr| snr >= min_snr)
+    }
+
+    /// LLI, when present, is [LliFlags::OK_OR_UNKNOWN]: no bit is set
+    fn is_ok_lli(&self) -> bool {
+        self.lli.map_or(true, |lli| lli == LliFlags::OK_OR_UNKNOWN)
     }
 
     #[cfg(feature = "ionex")]
-- 
2.43.0


From 2a0d94b3e5aaac28df790940ee5d62e43a5b950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 64/78] fix: carrier of an observable of an unknown
 constellation: error instead of a panic

A file may name a vehicle of the MIXED constellation (M01): carrier_iter,
signal combinations and everything that needs a carrier panicked on it.
---
 src/carrier.rs | 2 +-
 src/error.rs   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 5520759..6c26c2e 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -656,7 +656,7 @@ impl Carrier {
                 if c.is_sbas() {
                     Self::from_geo_observable(observable)
                 } else {
-                    panic!("no known observable for constellation={}", constellation);
+                    Err(Error::UnknownConstellationObservable)
                 }
             },
         }
diff --git a/src/error.rs b/src/error.rs
index 90966fe..2dfec99 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -190,6 +190,8 @@ pub enum FormattingError {
 /// General error (processing, analysis..)
 #[derive(Debug)]
 pub enum Error {
+    /// No [Observable] is known for this constellation
+    UnknownConstellationObservable,
     /// Non supported GPS [Observable]
     UnknownGPSObservable,
     /// Non supported Galileo [Observable]
-- 
2.43.0


From 70663abc95418e6047d33e70cfadd0ac7f0955ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 65/78] fix: standard_filename: navigation files of one
 constellation are XN, not MX

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c538b45..ef3c2cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -773,7 +773,7 @@ impl Rinex {
                         RinexType::MeteoData => "MM".to_string(),
                         RinexType::NavigationData => match constellation {
                             Some(Constellation::Mixed) | None => "MN".to_string(),
-                            Some(constell) => format!("M{:x}", constell),
+                            Some(constell) => format!("{:x}N", constell),
                         },
                         _ => unreachable!("unreachable fmt"),
                     };
-- 
2.43.0


From 5e813b1cb60f908acc54348f96986d6f530f98aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 66/78] fix: IONEX: map borders and altitude range, lowest
 first whichever way the grid runs

---
 src/ionex/rinex/feature.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ionex/rinex/feature.rs b/src/ionex/rinex/feature.rs
index cf86641..c352057 100644
--- a/src/ionex/rinex/feature.rs
+++ b/src/ionex/rinex/feature.rs
@@ -29,9 +29,11 @@ impl Rinex {
     /// - (long_min, long_max): easternmost and westernmost longitude, in decimal degrees
     pub fn tec_map_borders(&self) -> Option<((f64, f64), (f64, f64))> {
         let ionex = self.header.ionex.as_ref()?;
+        // grids may run either way, maps usually start at the northernmost latitude
+        let (lat, long) = (&ionex.grid.latitude, &ionex.grid.longitude);
         Some((
-            (ionex.grid.latitude.start, ionex.grid.latitude.end),
-            (ionex.grid.longitude.start, ionex.grid.longitude.end),
+            (lat.start.min(lat.end), lat.start.max(lat.end)),
+            (long.start.min(long.end), long.start.max(long.end)),
         ))
     }
 
@@ -68,7 +70,11 @@ impl Rinex {
     /// reflect actual content.
     pub fn ionex_altitude_range_km(&self) -> Option<(f64, f64)> {
         let header = self.header.ionex.as_ref()?;
-        Some((header.grid.height.start, header.grid.height.end))
+        let height = &header.grid.height;
+        Some((
+            height.start.min(height.end),
+            height.start.max(height.end),
+        ))
     }
 
     /// Designs an TEC isosurface iterator starting at lowest altitude,
-- 
2.43.0


From aaf8820a6d78f846b0ecb1d9a5d8f5641f7d47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 67/78] fix: body comments that precede the first epoch and
 follow an event were attached to 1900

---
 src/record/parsing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 509b7e3..8d154ff 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -414,8 +414,9 @@ impl Record {
             if new_epoch {
                 epoch_buf.clear();
 
-                // comments encountered while buffering this epoch
-                if !comment_content.is_empty() {
+                // comments encountered while buffering this epoch:
+                // the first epoch inherits those that precede it
+                if !comment_content.is_empty() && (eos || comment_ts != Epoch::default()) {
                     comments
                         .entry(comment_ts)
                         .or_default()
-- 
2.43.0


From 573c628b4df3b254000cf8a937a46b49ebbfa46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 68/78] fix: header: scale factors that name no observable
 apply to all of them

---
 src/header/parsing.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 8b549b7..551ecdf 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -73,6 +73,7 @@ impl Header {
         let mut ionex = IonexHeaderFields::default();
         let mut doris = DorisHeader::default();
         let mut scaling_definition: Option<(Constellation, u16)> = None;
+        let mut scaling_all = Vec::<(Constellation, u16)>::new();
 
         let mut end_of_header = false;
 
@@ -430,6 +431,12 @@ impl Header {
 
                 // parse end of line
                 let (_num, rem) = split_columns(rem, 3);
+
+                // applies to all observables, when none is named
+                if !gnss.is_empty() && rem.trim().is_empty() {
+                    scaling_all.push((constell, scaling));
+                }
+
                 for observable_str in rem.split_ascii_whitespace() {
                     let observable = Observable::from_str(observable_str)?;
 
@@ -964,6 +971,22 @@ impl Header {
             return Err(ParsingError::IncompleteHeader);
         }
 
+        // scale factors of all observables: the ones that are named prevail
+        for (constell, scaling) in scaling_all {
+            if rinex_type == Type::DORIS {
+                for observable in doris.observables.clone() {
+                    doris.scaling.entry(observable).or_insert(scaling);
+                }
+            } else if let Some(observables) = observation.codes.get(&constell) {
+                for observable in observables.iter() {
+                    observation
+                        .scaling
+                        .entry((constell, observable.clone()))
+                        .or_insert(scaling);
+                }
+            }
+        }
+
         Ok(Header {
             version,
             rinex_type,
-- 
2.43.0


From d8c2d3ffda6e0cf53770b7fd0f08f6d9e5f44e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 69/78] fix: meteo: blank line in the header after each sensor

---
 src/meteo/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 409eae3..5bcacb8 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -56,7 +56,7 @@ impl HeaderFields {
         }
 
         for sensor in self.sensors.iter() {
-            writeln!(w, "{}", sensor)?;
+            write!(w, "{}", sensor)?;
         }
 
         Ok(())
-- 
2.43.0


From 59ce8894a6d0d3e34c9d0f1c036c18d8773bb32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 70/78] fix: doris: surface measurements were written under
 meteo names

---
 src/doris/header.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/doris/header.rs b/src/doris/header.rs
index e9315a6..e11be07 100644
--- a/src/doris/header.rs
+++ b/src/doris/header.rs
@@ -43,6 +43,17 @@ pub struct HeaderFields {
 }
 
 impl HeaderFields {
+    /// DORIS names of the [Observable]s: surface measurements
+    /// do not follow the Meteo RINEX naming
+    fn format_observable(observable: &Observable) -> String {
+        match observable {
+            Observable::Pressure => "P".to_string(),
+            Observable::Temperature => "T".to_string(),
+            Observable::HumidityRate => "H".to_string(),
+            observable => observable.to_string(),
+        }
+    }
+
     /// Formats [HeaderFields] into [BufWriter].
     pub(crate) fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         const OBSERVABLES_PER_LINE: usize = 13;
@@ -58,7 +69,7 @@ impl HeaderFields {
             };
 
             for observable in observables.iter() {
-                content.push_str(&format!(" {:<3}", observable.to_string()));
+                content.push_str(&format!(" {:<3}", Self::format_observable(observable)));
             }
 
             writeln!(w, "{}", fmt_rinex(&content, "SYS / # / OBS TYPES"))?;
@@ -98,7 +109,7 @@ impl HeaderFields {
                 let mut content = format!("D {:4}  {:2}", scaling, observables.len());
 
                 for observable in observables.iter() {
-                    content.push_str(&format!(" {:<3}", observable.to_string()));
+                    content.push_str(&format!(" {:<3}", Self::format_observable(observable)));
                 }
 
                 writeln!(w, "{}", fmt_rinex(&content, "SYS / SCALE FACTOR"))?;
-- 
2.43.0


From 44aad76577d382b50c2480818f02f380199eb274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 71/78] fix: leap seconds: time system was written one column
 off

---
 src/leap.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/leap.rs b/src/leap.rs
index cd59de2..e755078 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -32,14 +32,14 @@ impl Leap {
         if let Some(delta) = &self.delta_tls {
             write!(
                 w,
-                "{:6}{:6}{:6}{:6} ",
+                "{:6}{:6}{:6}{:6}",
                 self.leap,
                 delta,
                 self.week.unwrap_or(0),
                 self.day.unwrap_or(0),
             )?;
         } else {
-            write!(w, "{:6}                   ", self.leap,)?;
+            write!(w, "{:6}                  ", self.leap,)?;
         }
 
         if let Some(ts) = self.timescale {
@@ -48,7 +48,7 @@ impl Leap {
             write!(w, "   ")?;
         }
 
-        writeln!(w, "                                LEAP SECONDS")?;
+        writeln!(w, "                                 LEAP SECONDS")?;
 
         Ok(())
     }
-- 
2.43.0


From 321ec7266b67c5e13058f28396b149ea11c3170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 72/78] fix: observation header: time system of first and last
 observation in 3 letter RINEX name

---
 src/observation/header.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index 54dc88b..a97c506 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -51,7 +51,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF FIRST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:<3}         TIME OF FIRST OBS",
                 y,
                 m,
                 d,
@@ -59,7 +59,7 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                Self::format_timescale(t.time_scale),
             )?;
         }
 
@@ -67,7 +67,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF LAST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:<3}         TIME OF LAST OBS",
                 y,
                 m,
                 d,
@@ -75,7 +75,7 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                Self::format_timescale(t.time_scale),
             )?;
         }
 
@@ -91,6 +91,17 @@ impl HeaderFields {
         self.format_scaling(w)
     }
 
+    /// RINEX name of this [TimeScale] (3 letters)
+    fn format_timescale(timescale: TimeScale) -> String {
+        match timescale {
+            TimeScale::BDT => "BDT".to_string(),
+            TimeScale::QZSST => "QZS".to_string(),
+            // Glonass system time is aligned to UTC
+            TimeScale::UTC => "GLO".to_string(),
+            timescale => format!("{:x}", timescale),
+        }
+    }
+
     /// Formats "SYS / SCALE FACTOR": observables that share a common factor
     fn format_scaling<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         const OBSERVABLES_PER_LINE: usize = 12;
-- 
2.43.0


From 76499e668e9a89d0d96b531ecfa5fa1e23bf41ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 73/78] fix: observation header: satellite system starts with
 its letter, Glonass was read as GPS

---
 src/header/formatting.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index f1d0c7d..4f38a54 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -185,13 +185,19 @@ impl Header {
                     )?;
                 },
                 Some(c) => {
+                    // this field starts with the constellation letter
+                    let constellation = match c {
+                        Constellation::GPS => "GPS".to_string(),
+                        c => format!("{:x}", c),
+                    };
+
                     writeln!(
                         w,
                         "{}",
                         fmt_rinex(
                             &format!(
-                                "{:6}.{:02}           OBSERVATION DATA    {:x<20}",
-                                major, minor, c
+                                "{:6}.{:02}           OBSERVATION DATA    {:<20}",
+                                major, minor, constellation
                             ),
                             "RINEX VERSION / TYPE"
                         )
-- 
2.43.0


From 765cbc905d53fc26ef8c91fabf5155f7bbf9835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 74/78] fix: header: INTERVAL was written without decimals

---
 src/header/formatting.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index 4f38a54..bddcdba 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -357,11 +357,16 @@ impl Header {
         w: &mut BufWriter<W>,
     ) -> Result<(), FormattingError> {
         if let Some(interval) = &self.sampling_interval {
-            writeln!(
-                w,
-                "{}",
-                fmt_rinex(&format!("{:6}", interval.to_seconds()), "INTERVAL")
-            )?;
+            let interval_s = interval.to_seconds();
+
+            // F10.3 unless that would truncate the actual interval
+            let mut formatted = format!("{:10.3}", interval_s);
+
+            if formatted.trim().parse::<f64>() != Ok(interval_s) {
+                formatted = format!("{:>10}", interval_s);
+            }
+
+            writeln!(w, "{}", fmt_rinex(&formatted, "INTERVAL"))?;
         }
         Ok(())
     }
-- 
2.43.0


From ef96ba56e4741d2bbf386b386041a31173a8f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 75/78] fix: header: satellite system followed by words, or
 left blank (GPS), was not understood

---
 src/header/parsing.rs | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 551ecdf..5896a87 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -240,6 +240,16 @@ impl Header {
                     rinex_type = Type::from_str(type_str)?;
                 }
 
+                /*
+                 * Parse version descriptor
+                 */
+                let vers = vers.trim();
+                version = Version::from_str(vers).or(Err(ParsingError::VersionParsing))?;
+
+                if !version.is_supported() {
+                    return Err(ParsingError::NonSupportedVersion);
+                }
+
                 // Determine (file) Constellation
                 //  1. NAV SPECIAL CASE
                 //  2. OTHER
@@ -260,7 +270,7 @@ impl Header {
                                 constellation = Some(Constellation::GPS);
                             } else {
                                 // Modern NAVIGATION DATA
-                                if let Ok(c) = Constellation::from_str(constell_str) {
+                                if let Some(c) = Self::parse_constellation(constell_str) {
                                     constellation = Some(c);
                                 }
                             }
@@ -269,23 +279,18 @@ impl Header {
                     Type::MeteoData | Type::DORIS => {
                         // no constellation associated to them
                     },
+                    Type::ObservationData if constell_str.is_empty() && version.major < 3 => {
+                        // old GPS OBSERVATION DATA
+                        constellation = Some(Constellation::GPS);
+                    },
                     _ => {
                         // any other
                         // regular files
-                        if let Ok(c) = Constellation::from_str(constell_str) {
+                        if let Some(c) = Self::parse_constellation(constell_str) {
                             constellation = Some(c);
                         }
                     },
                 }
-                /*
-                 * Parse version descriptor
-                 */
-                let vers = vers.trim();
-                version = Version::from_str(vers).or(Err(ParsingError::VersionParsing))?;
-
-                if !version.is_supported() {
-                    return Err(ParsingError::NonSupportedVersion);
-                }
             } else if marker.contains("PGM / RUN BY / DATE") {
                 // fields are spaced by one column in modern Clock RINEX,
                 // which come with larger header lines
@@ -1060,6 +1065,21 @@ impl Header {
         })
     }
 
+    /*
+     * Parse satellite system: a single letter, that some words
+     * may follow ("J: QZSS", "S: SBAS Payload"), or its name
+     */
+    fn parse_constellation(content: &str) -> Option<Constellation> {
+        let mut chars = content.chars();
+
+        match (chars.next(), chars.next()) {
+            (Some(letter), Some(next)) if !next.is_alphanumeric() => {
+                Constellation::from_str(&letter.to_string()).ok()
+            },
+            _ => Constellation::from_str(content).ok(),
+        }
+    }
+
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
         let (_, rem) = split_columns(content, 2);
         let (y, rem) = split_columns(rem, 4);
-- 
2.43.0


From b1bf8a424d3eae5eaf42c83c73af9025d34ce7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 76/78] fix: header: type named by its letter, and system of
 'N: GNSS NAV DATA' files, were not understood

---
 src/header/parsing.rs | 18 +++++++++---------
 src/types.rs          |  6 +++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 5896a87..399321a 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -262,17 +262,17 @@ impl Header {
                             constellation = Some(Constellation::GPS);
                         } else if type_str.contains("IRNSS NAV DATA") {
                             constellation = Some(Constellation::IRNSS);
-                        } else if type_str.contains("GNSS NAV DATA") {
-                            constellation = Some(Constellation::Mixed);
-                        } else if type_str.eq("NAVIGATION DATA") {
-                            if constell_str.is_empty() {
+                        } else if constell_str.is_empty() {
+                            if type_str.contains("GNSS NAV DATA") {
+                                constellation = Some(Constellation::Mixed);
+                            } else {
                                 // old GPS NAVIGATION DATA
                                 constellation = Some(Constellation::GPS);
-                            } else {
-                                // Modern NAVIGATION DATA
-                                if let Some(c) = Self::parse_constellation(constell_str) {
-                                    constellation = Some(c);
-                                }
+                            }
+                        } else {
+                            // Modern NAVIGATION DATA
+                            if let Some(c) = Self::parse_constellation(constell_str) {
+                                constellation = Some(c);
                             }
                         }
                     },
diff --git a/src/types.rs b/src/types.rs
index 3022f9c..51e48a1 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -75,11 +75,11 @@ impl std::str::FromStr for Type {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let s = s.to_lowercase();
-        if s.eq("navigation data") || s.contains("nav data") {
+        if s.eq("navigation data") || s.contains("nav data") || s.eq("n") {
             Ok(Self::NavigationData)
-        } else if s.eq("observation data") {
+        } else if s.eq("observation data") || s.eq("o") {
             Ok(Self::ObservationData)
-        } else if s.eq("meteorological data") {
+        } else if s.eq("meteorological data") || s.eq("m") {
             Ok(Self::MeteoData)
         } else if s.eq("clock data") || s.eq("c") {
             Ok(Self::ClockData)
-- 
2.43.0


From 4304f63d597781267c7d336ed8da3b46b4b61e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 77/78] fix: DORIS header: the COSPAR number is written

---
 src/header/formatting.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index bddcdba..f835cf0 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -274,6 +274,9 @@ impl Header {
                 }
             },
             Type::DORIS => {
+                if let Some(cospar) = &self.cospar {
+                    writeln!(w, "{}", fmt_rinex(&cospar.to_string(), "COSPAR NUMBER"))?;
+                }
                 if let Some(doris) = &self.doris {
                     doris.format(w)?;
                 }
-- 
2.43.0


From 68ba88bfa5e1c16767f49f2e468bab4ae3696cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:34 +0000
Subject: [PATCH 78/78] fix: OBS V2 header: observables of one system follow
 the hash keys when systems disagree

---
 src/observation/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index a97c506..2211c29 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -126,7 +126,7 @@ impl HeaderFields {
     }
 
     fn format_v1_observables<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        if let Some((_, observables)) = self.codes.iter().next() {
+        if let Some((_, observables)) = self.codes.iter().min_by_key(|(constell, _)| **constell) {
             write!(w, "{:6}", observables.len())?;
             let mut modulo = 0;
 
-- 
2.43.0

