"""Texts of the properties; tools/manifest.py writes properties.jsonl and MANIFEST.json from them."""
P = []
NA = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, tech, note, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed="none"), _tech=tech, _note=note))

SIM = "deterministic simulation: "
RECORD = ("epoch delimiting and stacking", "Record::parse in src/record/parsing.rs")
HEADER = ("header parsing", "Header::parse in src/header/parsing.rs")
PENDING = ("pending epoch", "lines of the record being gathered until the next record starts", "epoch_buf, comments in src/record/parsing.rs")

prop("C01", "Result of parsing does not depend on how the bytes are delivered",
     "Parsing the same bytes gives the same result (same header, record and comments, or the same error) whatever the chunking: reads of any size down to one byte, interrupted reads, any buffer capacity. A file read from disk, or a gzip file of one or several members read with from_gzip_file, gives what parsing its (decompressed) bytes in one piece gives. This holds for every format and for damaged files too.",
     ["schedules", "inputs", "fault_sequences"],
     "every file of every format, intact or damaged, under every sequence of short and interrupted reads",
     "tests read files from an undisturbed local disk: one delivery schedule out of all possible ones",
     ["src/lib.rs", "src/record/parsing.rs", "src/header/parsing.rs", "src/hatanaka/decompressor/io.rs"],
     [RECORD, HEADER, ("file entry points", "Rinex::from_file, Rinex::from_gzip_file in src/lib.rs")],
     ["Rinex::parse", "Rinex::from_file", "Rinex::from_gzip_file"],
     SIM + "scripted byte sources and a simulated disk decide every read; the outcome is compared with that of the same bytes in one piece",
     "seeded search over files and delivery schedules; damaged files included", [PENDING])

prop("C02", "A failing input is always reported, never passed off as a short file",
     "When reading the source fails (read error in the header or the body, once or for good, failing open, gzip stream truncated or corrupted), parsing returns an error and never a partial success. When no failure occurs a well formed file is never rejected.",
     ["fault_sequences", "crash_points", "inputs"],
     "every byte position and operation at which the source can fail, every error kind, every format",
     "no test injects an input failure",
     ["src/lib.rs", "src/record/parsing.rs", "src/header/parsing.rs"],
     [("error propagation from the line reader", "Record::parse in src/record/parsing.rs, Header::parse in src/header/parsing.rs"), ("file entry points", "Rinex::from_file, Rinex::from_gzip_file in src/lib.rs")],
     ["Rinex::parse", "Rinex::from_file", "Rinex::from_gzip_file"],
     SIM + "a failure is injected at a drawn offset or operation of a simulated source or disk; success afterwards is a violation",
     "seeded search over failure positions, kinds and deliveries; interrupted reads (EINTR) are not failures", [PENDING])

prop("C03", "A file cut short keeps every complete record and invents nothing",
     "When a producer dies while writing, the file ends at an arbitrary byte. If the header is incomplete, parsing returns an error. Otherwise every record that was completely written is recovered exactly (even if its last line end is missing), and nothing appears at any other epoch than that of the record that was cut.",
     ["crash_points", "histories", "inputs"],
     "every byte at which a well formed file of any format may end",
     "tests only hold complete files",
     ["src/record/parsing.rs", "src/header/parsing.rs", "src/observation/parsing.rs", "src/navigation/parsing/mod.rs", "src/meteo/parsing.rs", "src/clock/record.rs", "src/ionex/mod.rs", "src/antex/record.rs"],
     [RECORD, HEADER],
     ["Rinex::parse"],
     SIM + "the producer is stopped at a drawn byte; what is read back is compared with what had been completely logged",
     "seeded search over cut positions; IONEX: the last TEC map before the end is excluded (known finding of C17)", [PENDING])

prop("C04", "Damaged body lines only cost the records they belong to",
     "When lines of a few body records are overwritten with text that is not a number, shortened, lost, repeated, or foreign lines are inserted, the file is still accepted and every intact record that is not next to the damage is recovered exactly. No content appears at other epochs than those of the damaged records. (An IONEX file whose epoch lines are damaged may be rejected.)",
     ["fault_sequences", "inputs", "histories"],
     "every kind of line damage at every position of the body, in every format",
     "the sample files of the test suite are valid",
     ["src/record/parsing.rs", "src/observation/parsing.rs", "src/navigation/parsing/mod.rs", "src/meteo/parsing.rs", "src/clock/record.rs", "src/ionex/mod.rs", "src/antex/record.rs"],
     [("epoch delimiting", "is_new_epoch in src/record/parsing.rs and the record modules"), ("records that cannot be parsed are skipped", "Record::parse in src/record/parsing.rs")],
     ["Rinex::parse"],
     SIM + "line faults are injected in drawn records of a modelled log; all other records must come back",
     "seeded search over damage; damage never spells the start of another valid record, and the record preceding a damaged start is left open", [PENDING])

prop("C05", "Hostile bytes never panic, hang or exhaust memory",
     "For any sequence of bytes, in any format and under any delivery, parsing terminates with a result or an error, in time and memory traffic at most proportional to the length of the input: no panic (arithmetic overflow checks enabled included), no endless loop, no unbounded allocation. Whatever was accepted can be inspected (iterators, first and last epoch, sampling statistics) and formatted without panicking.",
     ["inputs", "fault_sequences"],
     "every byte sequence, header included, with non ASCII text, huge and negative numbers, missing and repeated lines",
     "no test feeds invalid files to the parsers",
     ["src/record/parsing.rs", "src/header/parsing.rs", "src/observation", "src/navigation", "src/meteo", "src/clock", "src/ionex", "src/antex", "src/doris", "src/hatanaka"],
     [("parsing without indexing assumptions", "all parse functions"), ("formatting", "Rinex::format")],
     ["Rinex::parse", "Rinex::format", "Rinex iterators"],
     SIM + "up to forty byte and line faults per file; panics, a step budget and an allocation budget are monitored while the run proceeds",
     "seeded search; all formats, DORIS included; accessors documented to panic on other record types are not called")

prop("C06", "Write failures are reported, and success means a complete file",
     "When the device fails while an observation (CRINEX included), meteo or DORIS file is written (write error, device that accepts nothing, failing flush, refused open, full disk), format, to_file and to_gzip_file return an error; they never report success for an incomplete product. When they report success the output is complete and identical to the output of an undisturbed write (a gzip file decompresses to it), whatever short or interrupted writes happened and whatever older file was there. No file handle is left open.",
     ["fault_sequences", "crash_points", "inputs"],
     "every byte position and operation at which a writer or disk can fail",
     "tests write to a healthy local disk and never look at failures",
     ["src/lib.rs", "src/header/formatting.rs", "src/observation/formatting.rs", "src/meteo/formatting.rs"],
     [("writer entry points", "Rinex::format, to_file, to_gzip_file in src/lib.rs"), ("flush and conclusion of gzip streams", "Rinex::to_gzip_file in src/lib.rs")],
     ["Rinex::format", "Rinex::to_file", "Rinex::to_gzip_file"],
     SIM + "scripted sinks and a simulated disk fail at a drawn offset or operation; the return value is judged against what reached the device",
     "seeded search over fault positions and kinds, observation, CRINEX, meteo and DORIS products")

prop("C07", "Observations written by a receiver are recovered exactly",
     "Parsing an observation file (RINEX 2, 3 or 4) yields, for every epoch, exactly the epoch, flag, receiver clock offset and, for every satellite and observable the header declares, exactly the value, loss of lock and signal strength the file holds, and nothing else. A blank field yields no observation. It holds for any mix of constellations, any number of satellites and observables (continuation lines included), epochs with sub second digits, and for satellites rising, setting and losing signals.",
     ["histories", "inputs", "configurations"],
     "every receiver history, constellation mix, observable list and RINEX revision, under any delivery of the bytes",
     "the tests decode a handful of sample files and epochs; column layout, wrapping and per epoch state depend on the whole history and configuration of the receiver",
     ["src/observation/parsing.rs", "src/record/parsing.rs", "src/header/parsing.rs", "src/epoch.rs", "src/observation/flag.rs", "src/observation/snr.rs", "src/observation/lli.rs", "src/observable.rs"],
     [("epoch delimiting and stacking", "Record::parse in src/record/parsing.rs"), ("column decoding", "parse_epoch, parse_signals_v2, parse_signals_v3 in src/observation/parsing.rs"), ("observables per constellation", "parse_v2_observables, parse_v3_observables in src/header/parsing.rs")],
     ["Rinex::parse", "Rinex::record"],
     SIM + "seeded receiver histories written by a reference writer, delivered by a simulated byte source, compared with the model",
     "seeded search over receiver histories and deliveries against a reference writer that shares no code with the library; RINEX 2 lines with trimmed trailing blanks are a known finding", [PENDING])

prop("C08", "Observation files survive being written and read again",
     "An observation file that was parsed can be written with format, and parsing that output yields the same epochs, flags, clock offsets, satellites, observables, values, loss of lock and signal strengths, in RINEX 2, 3 and 4. Writing the result again gives the same bytes, generation after generation.",
     ["histories", "inputs", "configurations"],
     "every receiver history in every revision, over several generations, under any soft delivery",
     "the tests rewrite a few files and compare loosely",
     ["src/observation/formatting.rs", "src/header/formatting.rs", "src/observation/parsing.rs", "src/header/parsing.rs", "src/epoch.rs"],
     [("record formatting", "src/observation/formatting.rs"), ("observables and satellites per epoch", "format_v2, format_v3 in src/observation/formatting.rs"), ("header formatting", "src/header/formatting.rs")],
     ["Rinex::parse", "Rinex::format"],
     SIM + "a modelled receiver history passes through up to three generations of write and read over simulated sinks and sources",
     "seeded search; content is compared with the model, generations are compared with each other")

prop("C09", "Compressing observations to CRINEX loses nothing",
     "An observation file that was parsed can be compressed with rnx2crnx and written with format: CRINEX 1 for RINEX 2, CRINEX 3 for later revisions. Any decoder of the Hatanaka format, and this library, recovers from the output exactly the epochs, flags, receiver clock offsets, satellites, observables, values, loss of lock and signal strengths of the original, and the program and date (to the minute) of the compression. crnx2rnx turns the result back into a readable file with the same content, generation after generation.",
     ["histories", "inputs", "configurations"],
     "every receiver history: satellites rising and setting, signal outages, power failures, clock offsets that come and go, any number of satellites and observables",
     "the tests compress few sample files and compare loosely; the compressor carries state from epoch to epoch, so its output depends on the whole history",
     ["src/hatanaka/compressor.rs", "src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs", "src/hatanaka/crinex.rs", "src/observation/formatting.rs", "src/header/formatting.rs", "src/lib.rs"],
     [("compression kernels per satellite and signal", "CompressorExpert::format in src/hatanaka/compressor.rs"), ("numerical and text differences", "NumDiff, TextDiff in src/hatanaka"), ("conversion of the header", "Rinex::rnx2crnx, crnx2rnx in src/lib.rs")],
     ["Rinex::rnx2crnx", "Rinex::crnx2rnx", "Rinex::format", "Rinex::parse"],
     SIM + "a modelled receiver history is read, compressed over simulated sinks, decoded by an independent decoder and by the library, and compared with the model",
     "seeded search over receiver histories; the reference decoder shares no code with the library",
     [("kernels", "history of each arc, of the flags of each satellite, of the epoch line", "kernels, epoch_diff, clock_diff in src/hatanaka/compressor.rs")])

prop("C10", "CRINEX streams decode to what the receiver logged",
     "Parsing a CRINEX 1 or 3 file yields exactly what parsing the readable file would, along with the revision, program and date of the compression: whatever the order (1 to 5) of each arc, wherever arcs and epoch lines are initialized again, with clock offsets, missing observations, events with special records, and comments. When lines are lost or damaged on the way, the file is still accepted: everything before the damaged epoch, and everything from the next initialized epoch line on, is recovered exactly.",
     ["histories", "fault_sequences", "inputs"],
     "every receiver history, every choice the format leaves to the encoder, every single damaged line, under any delivery",
     "the tests decode sample files from one encoder with its one order and initialization policy, always intact",
     ["src/hatanaka/decompressor/mod.rs", "src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs", "src/record/parsing.rs", "src/observation/parsing.rs"],
     [("decompression state machine", "DecompressorExpert in src/hatanaka/decompressor/mod.rs"), ("numerical and text differences", "NumDiff, TextDiff in src/hatanaka"), RECORD],
     ["Rinex::parse", "Rinex::record"],
     SIM + "a modelled receiver history is encoded by a seeded reference encoder, damaged by a faulty transport in some runs, delivered by a simulated source, and compared with the model",
     "seeded search over histories, encoder choices, damage and deliveries; between the damage and the next initialization nothing is demanded",
     [("kernels", "history of each arc, of the flags of each satellite, of the epoch line", "kernels, epoch_diff, clock_diff in src/hatanaka/decompressor/mod.rs")])

prop("C11", "Streaming decompression obeys the Read contract and loses nothing",
     "Reading a CRINEX stream through DecompressorIO, with or without its header section, gives byte for byte the readable RINEX text (CRINEX header lines left out), whatever the sizes of the buffers it is asked to fill and of the pieces its source delivers. It never writes past the buffer, returns Ok(0) only at the end of the stream, reports every failure of the source, and after a failure that was temporary nothing is lost or repeated. Decompressor::decompress returns BufferOverflow without side effect when the buffer is too small.",
     ["schedules", "fault_sequences", "histories"],
     "every buffer size, delivery and failure position, for every receiver history and choice of the encoder",
     "the tests read sample files through one buffer size from an undisturbed source",
     ["src/hatanaka/decompressor/io.rs", "src/hatanaka/decompressor/mod.rs", "src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs", "src/header/parsing.rs"],
     [("forwarding of recovered lines", "Read for DecompressorExpertIO in src/hatanaka/decompressor/io.rs"), ("formatting of recovered lines", "DecompressorExpert in src/hatanaka/decompressor/mod.rs")],
     ["DecompressorIO", "Decompressor::decompress"],
     SIM + "simulated sources fragment, interrupt and fail; seeded readers ask for any size; the bytes are compared with the reference text of the model",
     "seeded search; V1 lines through Decompressor::decompress may be followed by the blank line the existing tests require",
     [("pending output", "recovered bytes not yet forwarded, line being gathered", "recovered, forwarded, line in src/hatanaka/decompressor/io.rs")])

prop("C12", "Rolled over, repeated and reordered records do not change content",
     "A log that is rolled over into several files (each with the header) holds in its parts exactly the records of the whole. Records delivered twice, or out of chronological order, in one file give the same content as the records delivered once in order. This holds for observation, navigation, meteo, clock, DORIS and IONEX (rollover only for ANTEX).",
     ["histories", "fault_sequences", "inputs"],
     "every placement of the file boundaries, every duplication and permutation of the records",
     "the sample files are ordered and complete",
     ["src/record/parsing.rs", "src/observation/parsing.rs", "src/navigation/parsing/mod.rs", "src/meteo/parsing.rs", "src/clock/record.rs", "src/ionex/mod.rs", "src/antex/record.rs"],
     [RECORD, ("merging of a record into the map", "Record::parse in src/record/parsing.rs")],
     ["Rinex::parse"],
     SIM + "a modelled log is rolled over at drawn places, or its records are duplicated or reordered by a faulty transport",
     "seeded search; IONEX keeps TEC before RMS maps and its last TEC map is excluded (known finding of C17)", [PENDING])

prop("C13", "Sessions sharing a process do not influence each other",
     "Parsing and writing files from several threads of one process, in any interleaving, gives for each file the result it gives alone: same content, comments, error or output.",
     ["schedules", "inputs"],
     "every interleaving of the reads and writes of two to four sessions, over files of every format, damaged ones included",
     "tests of one file run alone; the interleaving is never controlled",
     ["src/lib.rs", "src/record/parsing.rs", "src/header/parsing.rs", "src/hatanaka", "src/observation/formatting.rs"],
     [("no shared mutable state", "whole library"), ("lazily built static tables", "src/navigation/orbits.rs, lazy_static tables")],
     ["Rinex::parse", "Rinex::format"],
     SIM + "a seeded scheduler holds the baton: at every read and write it decides which session proceeds; each outcome is compared with the session run alone",
     "seeded search over interleavings at I/O granularity")

prop("C14", "Results do not depend on hash keys, wall clock or repetition",
     "Parsing the same bytes, listing what they hold (epochs, satellites, constellations, observables, signals, sampling, standard file name) and writing them back gives the same answer, byte for byte, in every process: whatever the random keys of hash tables and whatever the wall clock reads.",
     ["configurations", "schedules", "inputs"],
     "every file, every hash key, every behaviour of the clock",
     "a test runs with one set of random keys and rarely compares whole outputs",
     ["src/lib.rs", "src/header/formatting.rs", "src/observation/formatting.rs", "src/meteo/formatting.rs", "src/observation/header.rs"],
     [("ordered output of hash tables", "src/header/formatting.rs, src/observation/formatting.rs, src/meteo/formatting.rs"), ("file naming", "Rinex::standard_filename in src/lib.rs")],
     ["Rinex::parse", "Rinex iterators", "Rinex::format", "Rinex::standard_filename"],
     SIM + "the same session runs on two simulated machines whose entropy and clocks differ; every output is compared",
     "seeded search; iterators documented as unordered are compared as sets; CLK, ANTEX and DORIS file names are not implemented and skipped")

prop("C15", "Broadcast navigation frames are recovered exactly",
     "Parsing a navigation file (RINEX 2, 3 or 4) yields for every frame exactly its epoch, satellite, message type and frame type, the clock parameters and every non blank, non zero orbit field under its name, for all constellations; RINEX 4 system time offset, Earth orientation and ionosphere frames too. Frames of the same instant, of different satellites and out of chronological order are all kept.",
     ["histories", "inputs", "configurations"],
     "every broadcast history: constellation, message, blank and spare fields, number style (D, d, E, e exponents), order",
     "the tests check few frames of sample files",
     ["src/navigation/parsing/mod.rs", "src/navigation/orbits.rs", "src/navigation/ephemeris/parsing.rs", "src/navigation/frame.rs", "src/navigation/message.rs", "src/record/parsing.rs"],
     [("frame delimiting", "is_new_epoch in src/navigation"), ("field tables per message", "src/navigation/database.rs, orbits.rs"), ("field decoding", "src/navigation/parsing/mod.rs")],
     ["Rinex::parse", "Rinex::record"],
     SIM + "a seeded log of broadcast frames written by a reference writer, delivered by a simulated source, compared with the model",
     "seeded search; the third clock field of SBAS frames is excluded", [PENDING])

prop("C16", "Clock solutions are recovered exactly",
     "Parsing a clock file (revisions 2.00, 3.00, 3.02, 3.04) yields for every solution exactly its epoch (sub second digits included), type (AS, AR, CR, DR, MS), station or satellite, and the one to six values (bias, drift, acceleration and their deviations) it holds, continuation lines included, on the time scale of the header.",
     ["histories", "inputs", "configurations"],
     "every series of clock solutions, station names, number of values and time system",
     "the tests check few solutions",
     ["src/clock/record.rs", "src/clock/mod.rs", "src/header/parsing.rs", "src/record/parsing.rs"],
     [("clock line decoding", "src/clock/record.rs"), RECORD],
     ["Rinex::parse", "Rinex::record"],
     SIM + "a seeded series of solutions written by a reference writer, delivered by a simulated source, compared with the model",
     "seeded search over series and deliveries", [PENDING])

prop("C17", "Ionosphere maps are recovered exactly",
     "Parsing an IONEX file yields for every cell of every TEC map, at its epoch, latitude, longitude and altitude, exactly the value scaled by the exponent, and the RMS value of the cell when RMS maps follow. Cells marked missing (9999) yield nothing. It holds for 2D and 3D maps and any regular grid.",
     ["histories", "inputs", "configurations"],
     "every sequence of maps, grid definition and exponent",
     "the tests check few cells of two sample files",
     ["src/ionex/mod.rs", "src/ionex/record.rs", "src/ionex/grid.rs", "src/linspace.rs", "src/record/parsing.rs"],
     [("map delimiting", "is_new_tec_map in src/ionex"), ("map decoding", "src/ionex/parsing.rs"), ("grid", "src/linspace.rs")],
     ["Rinex::parse", "Rinex::record"],
     SIM + "a seeded sequence of maps written by a reference writer, delivered by a simulated source, compared with the model",
     "seeded search; known finding: the last TEC map is not recovered", [PENDING])

prop("C18", "Antenna catalogues are recovered exactly",
     "Parsing an ANTEX file yields every antenna in order, with its type, serial or satellite number, calibration method, agency and count, grid limits, period of validity, and for every frequency its north, east and up phase centre offsets, and nothing of another antenna.",
     ["histories", "inputs", "configurations"],
     "every catalogue of receiver and satellite antennas and frequencies",
     "the tests check few antennas of one sample file",
     ["src/antex/record.rs", "src/antex/antenna", "src/antex/frequency.rs", "src/record/parsing.rs"],
     [("antenna block decoding", "src/antex/record.rs"), RECORD],
     ["Rinex::parse", "Rinex::record"],
     SIM + "a seeded catalogue written by a reference writer, delivered by a simulated source, compared with the model",
     "seeded search; phase patterns and calibration dates are not compared", [PENDING])

prop("C19", "Meteo measurements are recovered exactly and survive rewriting",
     "Parsing a meteo file (RINEX 2, 3 or 4) yields for every epoch and sensor exactly the value the file holds and nothing for blank fields, for any number of sensors (continuation lines included). Writing the result and parsing it again yields the same measurements.",
     ["histories", "inputs", "configurations"],
     "every weather station history: sensor list, missing measurements, gaps",
     "the tests check few epochs of sample files",
     ["src/meteo/parsing.rs", "src/meteo/formatting.rs", "src/meteo/header.rs", "src/record/parsing.rs"],
     [("record decoding", "src/meteo/parsing.rs"), ("record formatting", "src/meteo/formatting.rs")],
     ["Rinex::parse", "Rinex::format"],
     SIM + "a seeded station history written by a reference writer, delivered by a simulated source, read, written and read again, compared with the model",
     "seeded search over station histories and deliveries", [PENDING])

prop("C20", "Files on a failing disk: whole ones are read back, torn ones never lie",
     "Over any history of writes, overwrites, reads, copies torn by truncation, full disks, I/O errors, crashes and restarts: a file whose write reported success (plain or gzip) is read back with its whole content; a failed read or write is reported; a gzip file that is incomplete is never accepted; an incomplete plain file yields at most a prefix of what was written. No file handle is left open.",
     ["histories", "crash_points", "fault_sequences"],
     "every sequence of file operations and disk faults on several paths",
     "tests write and read one file on a healthy disk",
     ["src/lib.rs", "src/header/formatting.rs", "src/observation/formatting.rs", "src/meteo/formatting.rs", "src/record/parsing.rs"],
     [("file entry points", "Rinex::to_file, to_gzip_file, from_file, from_gzip_file in src/lib.rs")],
     ["Rinex::to_file", "Rinex::to_gzip_file", "Rinex::from_file", "Rinex::from_gzip_file"],
     SIM + "a simulated disk with crashes and restarts executes seeded histories of file operations, checked against a model of what each path holds",
     "seeded search; data written before a crash is durable in write order and nothing is assumed atomic",
     [("contents of the disk", "bytes that survive a crash", "simulated disk in sim/src/seam.rs")])

prop("C21", "Header fields are recovered, and survive being written and read again",
     "Parsing an observation, meteo or DORIS file yields every header field it holds, whatever the order of the header lines: revision, type and satellite system (a letter, words may follow; blank means GPS in RINEX 2), program, run by, date, comments, marker, DOI, license, station information, observer, agency, receiver, antenna identity and eccentricities, approximate position, interval, leap seconds, GLONASS channels, compensations, scale factors (continuation lines included; one that names no observable applies to all the others of its system), receiver clock correction, times of first and last observation, observables, meteo sensors and their positions; rx_orbit gives the approximate position, and that of a sensor, as a state at the requested instant. Writing the file and parsing it again yields the same header fields.",
     ["inputs", "configurations"],
     "every selection, order and content of header records",
     "the tests look at few header fields of sample files and rewrite even fewer",
     ["src/header/parsing.rs", "src/header/formatting.rs", "src/observation/header.rs", "src/meteo/header.rs", "src/marker.rs", "src/leap.rs", "src/hardware.rs", "src/meteo/sensor.rs"],
     [HEADER, ("header formatting", "Header::format in src/header/formatting.rs")],
     ["Rinex::parse", "Rinex::header", "Rinex::format"],
     SIM + "header records drawn and shuffled as a faulty producer would, carried over simulated sources and sinks through a write and read generation, compared with the model",
     "seeded search; text fields are ASCII and fit their columns; codes of RINEX 2 files are compared by C07 and C08")

prop("C22", "Files of a session are found again under the names the library gives",
     "The long and short standard file names of an observation (readable or compressed), navigation or weather session carry its station, country, source, start (year, day of year, hour, minute), period, batch, type and, for observations, sampling; those of ionosphere maps the centre, region, year and day; a suffix is appended. guess_production_attributes gives the start, period and sampling of the content. A file stored under such a name (any letter case, plain or gzip) is recognised: the same production attributes are recovered from the name and naming it again gives the same name. A file under any other name is read normally.",
     ["histories", "inputs", "configurations"],
     "every session start, sampling, station, batch and period, over files rolled over; every product; every odd file name",
     "the tests generate names for few sample files",
     ["src/lib.rs", "src/production/mod.rs", "src/production/sequence.rs", "src/production/snapshot.rs", "src/production/ppu.rs", "src/production/ffu.rs"],
     [("name generation", "Rinex::standard_filename in src/lib.rs"), ("name recognition", "ProductionAttributes in src/production/mod.rs")],
     ["Rinex::standard_filename", "Rinex::from_file", "Rinex::to_file", "Rinex::production"],
     SIM + "a session is rolled over into files on a simulated disk under the names the library gives, read back and named again",
     "seeded search over sessions and names")

prop("C23", "Satellite position, velocity and clock follow from the message in force",
     "For any logged broadcast history, vehicle of GPS, QZSS, Galileo or BeiDou, and instant at which an ephemeris is in force (C29), Rinex::sv_orbit gives the position of the interface control document at that instant (within 1 cm) and the velocity that is its time derivative (within 1 mm/s), BeiDou geostationary vehicles included, as do Ephemeris::kepler2position and kepler2position_velocity (the latter not for QZSS) of that message, also after its kepler and perturbations were set again with with_kepler and with_perturbations; without a message in force it gives nothing. Ephemeris::clock_correction is the clock polynomial of that message with the clock of arrival corrected as many times as asked, nothing before the clock reference; tgd is the broadcast group delay. SBAS vehicles are at their broadcast position.",
     ["histories", "inputs", "configurations"],
     "every constellation of vehicles, broadcast history with missed, repeated and late uploads, week rollover, instant and time scale of the query",
     "the tests compare few instants of one file with reference values",
     ["src/navigation/ephemeris/mod.rs", "src/navigation/ephemeris/kepler/helper.rs", "src/navigation/rinex/feature.rs"],
     [("Kepler solver", "src/navigation/ephemeris/kepler/helper.rs"), ("clock correction, group delay", "src/navigation/ephemeris/mod.rs"), ("state of the message in force", "Rinex::sv_orbit in src/navigation/rinex/feature.rs")],
     ["Rinex::sv_orbit", "Ephemeris::clock_correction", "Ephemeris::tgd"],
     SIM + "a broadcast service under missed, repeated and late uploads and week rollover is logged and read back; states at drawn instants are compared with an independent evaluation of the interface equations",
     "seeded search over constellations, histories and instants; ephemerides whose fields are all given; GLONASS excluded")
prop("C24", "Ionosphere models, TEC units and grid arithmetic are numerically right",
     "Klobuchar and NeQuick/BDGIM models give the delays of their specifications, and conversion of TEC between units and quantized coordinates is exact.",
     ["inputs"], "every model coefficient, coordinate and instant", "the tests compare few values",
     ["src/navigation/ionosphere", "src/ionex"],
     [("models", "src/navigation/ionosphere")], ["ionosphere models", "TEC"],
     None, "Pure arithmetic on values already in memory; no nondeterminism to simulate. (Reading the maps is C17, reading the model frames is C15.)")
prop("C25", "Merging, splitting, masking and decimation keep what they should",
     "Merging two files, splitting one at an instant, masking and decimating yield exactly the records their definitions select, and merging the parts of a split restores the whole.",
     ["inputs", "histories"], "every pair of files and every split instant and mask", "the tests run few combinations",
     ["src/qc", "src/processing"],
     [("operations", "src/qc, src/processing")], ["Merge", "Split", "Masking", "Decimate"],
     None, "These operations sit behind the qc and processing features, whose dependencies come from git and are not available offline: the code does not build here, neither for the repository's own suite nor for a simulator. They are also pure functions of values in memory.")
prop("C26", "Conversion between RINEX and binary streams (BINEX, RTCM) is faithful",
     "Collecting a binary receiver stream into RINEX and streaming RINEX into it preserve the observations and frames.",
     ["inputs", "histories"], "every stream", "the feature is not exercised by the suite",
     ["src/binex", "src/rtcm"],
     [("stream conversion", "src/binex, src/rtcm")], ["RNX2BIN", "BIN2RNX", "RTCM2RNX"],
     None, "The binex and rtcm features depend on crates that are not available offline, and the conversion types are stubs at this commit: there is no behaviour to simulate.")

prop("C27", "Event and signal filters list exactly the matching part of the history",
     "For any logged receiver history: epoch_anomalies lists the epochs whose flag is not OK; signal, pseudo range, phase, doppler and SSI iterators list the signals of that physics; *_sampling_ok_iter those of healthy epochs; phase_range_tracking_ok_iter the phases of healthy epochs without loss of lock or half cycle flag; phase_cycle_slip_events and phase_half_full_cycle_slip_events the phases flagged so; clock_observations_iter the receiver clock offsets. Each item comes once, with its value, LLI, SSI, epoch and flag, in chronological order. Masking the phases by an LLI mask (observation_phase_tracking_lli_masking) keeps the phases whose indicator intersects the mask and everything that is not a phase, and leaves the original untouched. A signal is_ok when no loss of lock indicator bit is set and its SNR, when known, is strong; is_ok_snr demands that the SNR be known and at least the one given.",
     ["histories", "fault_sequences", "inputs"],
     "every history of power failures, cycle slips, losses of lock, half cycles, anti spoofing, missing signals and outages",
     "the tests count items in a few files that hardly contain events",
     ["src/observation/rinex/feature.rs", "src/observation/mod.rs", "src/observation/lli.rs", "src/observation/flag.rs"],
     [("filters", "src/observation/rinex/feature.rs"), ("LLI masking", "observation_phase_tracking_lli_masking in src/observation/rinex/feature.rs")],
     ["Rinex::epoch_anomalies", "Rinex::phase_cycle_slip_events", "Rinex::phase_range_tracking_ok_iter", "Rinex::observation_phase_tracking_lli_masking", "Rinex::signal_observations_iter"],
     SIM + "a receiver suffers injected power failures, cycle slips, lock losses and outages; every filter over its log is compared with the recorded history",
     "seeded search over histories")

prop("C28", "Time span, sampling and data gaps reported are those of the log",
     "For any log of observations, weather, clocks or ionosphere maps: epoch_iter, first_epoch, last_epoch and duration are those of the log; sampling_histogram counts every interval between consecutive epochs; dominant_sampling_interval and rate are those of a most frequent interval, steady_sampling tells whether there is only one, timeseries starts at the first epoch with that period and does not exceed the last. data_gaps reports exactly the intervals longer than the tolerance (the dominant interval when none is given), each with the epoch it starts at. sv_iter, constellations_iter, observables_iter, signal_code_iter and carrier_iter list what was observed, each once.",
     ["histories", "inputs"],
     "every sequence of epochs, intervals and outages, every tolerance",
     "the tests use steadily sampled files without outages",
     ["src/sampling.rs", "src/lib.rs"],
     [("sampling and gap analysis", "Rinex::sampling_histogram, Rinex::data_gaps, Rinex::dominant_sampling_interval in src/sampling.rs")],
     ["Rinex::epoch_iter", "Rinex::data_gaps", "Rinex::sampling_histogram", "Rinex::dominant_sampling_interval", "Rinex::steady_sampling", "Rinex::timeseries", "Rinex::sv_iter"],
     SIM + "producers log under injected outages of random length; reports are compared with the log",
     "seeded search over logs and tolerances; files with navigation messages or without epochs excluded")

prop("C29", "The message selected at an instant is the one in force at that instant",
     "nav_ephemeris_selection(sv, t) gives, whatever the order of the file and the time scale of t, the latest ephemeris of that vehicle whose clock reference is not after t and for which t lies after the time of ephemeris and before the end of its validity, with its time of clock and time of ephemeris, week rollover included; nothing when no message of that vehicle qualifies. SBAS messages have no validity: the closest past one is selected, the earliest when all are ahead. The navigation iterators list every message of their kind once: all keys, message types, ephemeris, system time, Earth orientation and ionosphere frames, Klobuchar, NeQuick-G and BDGIM models, satellite clocks and the TAI-UT1 offsets.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of uploads (missed, repeated under a new clock reference, late, out of order), around week boundaries, and every instant and time scale",
     "the tests look few instants up in complete daily files",
     ["src/navigation/rinex/feature.rs", "src/navigation/ephemeris/mod.rs", "src/navigation/frame.rs"],
     [("selection", "Rinex::nav_ephemeris_selection in src/navigation/rinex/feature.rs"), ("validity of a message", "Ephemeris::is_valid, Ephemeris::max_dtoe, Ephemeris::toe in src/navigation/ephemeris/mod.rs")],
     ["Rinex::nav_ephemeris_selection", "Rinex::nav_ephemeris_frames_iter", "Rinex::nav_sv_clock_iter", "Rinex::nav_delta_tai_ut1_iter"],
     SIM + "a broadcast service misses, repeats, delays and reorders uploads around week boundaries; the selection at drawn instants is compared with a model of the service",
     "seeded search over services and instants; instants equal to the time of ephemeris or the end of validity are not asked for; GLONASS excluded")

prop("C30", "Signal combinations only use what was observed together",
     "For any receiver history (every system but GLONASS; two character codes of GPS and QZSS only), signals_combination gives for every signal observed together with a first frequency reference (L1, E1, or B1 for BeiDou) of the same physics, at the same epoch and vehicle, exactly one geometry free, ionosphere free, wide lane and narrow lane value by their definitions (and Melbourne Wubbena for phases with a code of the same tracking), and nothing else. signals_multipath gives the code multipath for each code, phase of the same tracking and phase of another frequency at one epoch, and observation_dual_phase_ionosphere_tec the TEC for each pair of phases, one of them at 1575.42 MHz, the other elsewhere, at healthy epochs, including the last epoch. Nothing is carried over between epochs or vehicles when signals are lost, reappear or an outage takes place.",
     ["histories", "fault_sequences", "inputs"],
     "every history in which signals and vehicles appear, disappear and return",
     "the tests check few values of files where all signals are present",
     ["src/observation/rinex/feature.rs", "src/observation/rinex/tec.rs", "src/carrier.rs"],
     [("combinations", "signals_combination in src/observation/rinex/feature.rs"), ("multipath", "signals_multipath in src/observation/rinex/feature.rs"), ("ionosphere TEC", "src/observation/rinex/tec.rs"), ("carrier frequencies", "src/carrier.rs")],
     ["Rinex::signals_combination", "Rinex::signals_multipath", "Rinex::observation_dual_phase_ionosphere_tec"],
     SIM + "a receiver loses and regains signals, vehicles and epochs; every combined value is compared with one computed from the signals of its epoch alone",
     "seeded search over histories; any signal of the first frequency may serve as the reference")

prop("C31", "Differencing two logs subtracts what both observed and nothing else",
     "observation_substract of two observation logs, two meteo logs, or two DORIS logs of one station list, gives for each signal (or weather value) of the left log that the right log holds under the same epoch, flag, vehicle (or beacon) and observable the difference of the two values; what the right log does not hold is kept unchanged, and no item is added or lost. Indicators are those of the left log, and both logs are left untouched.",
     ["histories", "fault_sequences", "inputs"],
     "every pair of histories of two receivers or stations with different losses, orders and flags",
     "the tests subtract a file from itself or a close copy",
     ["src/lib.rs"],
     [("differencing", "observation_substract, observation_substract_mut in src/lib.rs")],
     ["Rinex::observation_substract"],
     SIM + "two receivers (or weather stations) sharing an antenna suffer independent losses; the difference of their logs is compared with that of the two recorded histories",
     "seeded search over pairs of histories")

prop("C32", "Antenna calibrations found at an instant are those in force at that instant",
     "For any antenna catalogue and instant (whatever its time scale): antex_valid_calibrations lists, in the order of the catalogue, exactly the antennas whose validity period includes the instant (both ends included) and those without validity period. sv_antenna_apc_offset and rx_antenna_apc_offset (by IGS code or serial number, letter case ignored) give the north, east and up offset of the wanted carrier from a calibration in force of that very vehicle or antenna, and nothing when there is none.",
     ["histories", "inputs"],
     "every catalogue in which antennas are calibrated again and calibrations relieve one another, every instant and carrier",
     "the tests look one antenna up in one catalogue",
     ["src/lib.rs", "src/antex/antenna/mod.rs", "src/antex/record.rs"],
     [("validity", "Antenna::is_valid in src/antex/antenna/mod.rs"), ("lookups", "antex_valid_calibrations, sv_antenna_apc_offset, rx_antenna_apc_offset in src/lib.rs")],
     ["Rinex::antex_valid_calibrations", "Rinex::sv_antenna_apc_offset", "Rinex::rx_antenna_apc_offset", "Rinex::antennas"],
     SIM + "a laboratory calibrates few antennas again and again; lookups at the ends of validity periods and at handovers are compared with the catalogue",
     "seeded search over catalogues and instants; where several calibrations of one antenna are in force any of them may be given")

prop("C33", "Weather, clock and ionosphere queries report the logged history",
     "Weather: total_accumulated_rain is the sum of the rain increments, rain_detected tells whether it is positive, hail_detected whether the hail indicator ever was; meteo_observation_keys and the wind, rain, zenith delay, pressure, temperature and moisture iterators list their measurements in chronological order. Clocks: precise_sv_clock and precise_station_clock list every vehicle and every station solution. Ionosphere: the TEC (ionex_tec_maps_keys included) and RMS iterators list the values of the maps at their epoch, latitude, longitude and altitude, and the map borders and altitudes (lowest first, whichever way the grid runs) and dimension (2D or 3D) are those of the header.",
     ["histories", "inputs"],
     "every history of a station, clock provider or ionosphere centre, with sensors that drop out and outages",
     "the tests query few files in which it hardly rains and all maps are 2D",
     ["src/meteo/rinex/feature.rs", "src/iterators.rs", "src/lib.rs", "src/ionex/rinex/feature.rs", "src/ionex/rinex/mod.rs", "src/ionex/header.rs"],
     [("weather events", "src/meteo/rinex/feature.rs"), ("clock queries", "precise_clock, precise_sv_clock, precise_station_clock in src/lib.rs"), ("map queries", "src/ionex/rinex/feature.rs")],
     ["Rinex::total_accumulated_rain", "Rinex::hail_detected", "Rinex::wind_speed_iter", "Rinex::precise_sv_clock", "Rinex::precise_station_clock", "Rinex::ionex_tecu_latlong_ddeg_alt_km_iter", "Rinex::is_ionex_3d"],
     SIM + "stations and centres log under sensor losses and outages; every query is compared with the recorded history",
     "seeded search over histories; IONEX: the last TEC map is excluded (known finding of C17)")

prop("C34", "Headers of navigation, clock, ionosphere and antenna files are recovered",
     "Parsing a navigation, clock, IONEX or ANTEX file yields every header field it holds, whatever the order of the header lines and foreign or short lines in between: revision, type and satellite system (navigation), program, run by, date, comments, leap seconds, ionospheric coefficients (Klobuchar, NeQuick G), clock data types, analysis center, site, reference and working clocks with their constraint, compensations, IONEX description, first and last map, mapping function, cutoff, observables, radius, counts of maps, stations and satellites, grid, exponent and dimension, ANTEX phase center type and reference antenna. dcb_compensation and pcv_compensation tell for which constellations compensations are declared. The body is recovered as well.",
     ["inputs", "configurations", "fault_sequences"],
     "every selection, order and content of header records of every product",
     "the tests look at few header fields of sample files, always in the same order",
     ["src/header/parsing.rs", "src/clock/mod.rs", "src/ionex/header.rs", "src/antex/mod.rs", "src/antex/pcv.rs", "src/navigation/ionosphere/mod.rs", "src/leap.rs", "src/lib.rs"],
     [HEADER, ("ionospheric coefficients", "src/navigation/ionosphere"), ("clock header", "src/clock/mod.rs"), ("IONEX header", "src/ionex/header.rs")],
     ["Rinex::parse", "Rinex::header", "Rinex::dcb_compensation", "Rinex::pcv_compensation"],
     SIM + "producers publish files with drawn header records in drawn order through disturbed reads; header and body are compared with what was published",
     "seeded search over header contents; not recovered by the library and left out: SYS / # / OBS TYPES and station lists of clock files, TIME SYSTEM CORR, DELTA-UTC")

prop("C35", "DORIS measurements are recovered exactly and survive being written",
     "Parsing any well formed DORIS file yields, for every epoch (in TAI, with its flag, sub second digits included), the satellite clock offset and whether it was extrapolated, and for every beacon and observable exactly the value and the two flags the file holds, blanks being absent; the header gives the satellite, its COSPAR number, observables, beacons, L2/L1 date offset, scale factors and times of first and last observation. doris_observation_iter, doris_observation_keys, doris_satellite_clock_offset_iter, doris_ground_station_signals_iter, observables_iter and the temperature, pressure and moisture iterators list exactly those records. The S1 and U2 frequencies of a beacon follow from its K factor, and writing the parsed file to any storage that only shortens or interrupts writes gives a file that is read as the same header and record.",
     ["inputs", "histories", "fault_sequences"],
     "every history of beacons rising and setting, missing measurements, clock estimates and power failures, every list of observables and beacons, every delivery",
     "the tests never look at a DORIS record",
     ["src/doris/parsing.rs", "src/doris/formatting.rs", "src/doris/rinex/mod.rs", "src/doris/station.rs", "src/doris/header.rs", "src/header/parsing.rs", "src/record/parsing.rs", "src/iterators.rs"],
     [("DORIS records", "parse_epoch, parse_observations in src/doris/parsing.rs"), ("beacons", "Station in src/doris/station.rs"), ("iterators", "src/doris/rinex/mod.rs, src/iterators.rs")],
     ["Rinex::parse", "Rinex::doris_satellite_clock_offset_iter", "Rinex::doris_ground_station_signals_iter", "Rinex::temperature_iter", "Station::s1_frequency_shift"],
     SIM + "a DORIS satellite passes over beacons; its log is written by a reference writer, delivered through disturbed reads, and compared with what was logged",
     "seeded search over histories; special events (flags above 1) are not written")
prop("C36", "Satellites are where the geometry says, seen from a receiver",
     "For every well formed broadcast history, receiver fixed to the Earth's ellipsoid (not at a pole) and instant, nav_azimuth_elevation_range gives a direction exactly when a message of that vehicle is in force, at that instant; azimuth (clockwise from north, 0 to 360 degrees), elevation above the receiver's horizon, slant range and range rate are those of the position and velocity the broadcast message gives, in the receiver's local east, north, up frame. Ephemeris::elevation_azimuth_range gives the same direction and range when it is given the same two positions (satellite and receiver are not interchangeable).",
     ["inputs", "histories", "clock_skew"],
     "every broadcast history (outages, late uploads, week rollovers, repeated data sets), every vehicle but GLONASS, every instant, every receiver away from the poles, above and below the horizon",
     "no test looks at an azimuth, an elevation or a range",
     ["src/navigation/rinex/feature.rs", "src/navigation/ephemeris/mod.rs", "src/navigation/ephemeris/kepler.rs", "src/navigation/rinex/mod.rs"],
     [("visibility", "nav_azimuth_elevation_range in src/navigation/rinex/feature.rs"), ("direction", "elevation_azimuth_range in src/navigation/ephemeris/mod.rs")],
     ["Rinex::nav_azimuth_elevation_range", "Ephemeris::elevation_azimuth_range"],
     SIM + "a constellation broadcasts, is recorded with gaps and delivered through disturbed reads; the directions in which receivers see it are compared with the geometry of an independent orbit model",
     "seeded search over histories, receivers and instants; relies on the interface control documents for positions; the poles and GLONASS are not explored")

prop("C37", "Edits made to a log in memory are saved, and nothing but them",
     "Whatever sequence of edits is made to an observation, weather or DORIS log, parsed or assembled from nothing (values changed through the mutable iterators, signals, satellites, beacons and epochs added or removed, receiver clock set with set_offset_s or with_clock_offset_s, conversion between readable and compressed with rnx2crnx_mut and crnx2rnx_mut, general information, receiver, antenna, position, comments and sensors put in the header with the with_ methods, header and record moved with replace_header, replace_record, with_header, with_record): after each one the log holds exactly the edited content. Every successful save gives a file that is read again as that content (and the header that was built), a save to a device that fails reports the failure, and no save changes the log in memory.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "every sequence of edits, conversions, saves, failed saves, crashes and restarts from the last save",
     "the tests write back what they have just read, unmodified",
     ["src/lib.rs", "src/iterators.rs", "src/observation/mod.rs", "src/observation/clock.rs", "src/observation/signal.rs", "src/observation/rinex/mod.rs", "src/observation/formatting.rs", "src/meteo/formatting.rs", "src/header/formatting.rs", "src/hatanaka/rinex.rs"],
     [("edits", "signal_observations_iter_mut, observations_iter_mut, clock_observations_iter_mut in src/observation/rinex/mod.rs"), ("conversions", "rnx2crnx_mut, crnx2rnx_mut in src/lib.rs"), ("writers", "src/observation/formatting.rs, src/meteo/formatting.rs, src/header/formatting.rs")],
     ["Rinex::signal_observations_iter_mut", "Rinex::observations_iter_mut", "Rinex::clock_observations_iter_mut", "Rinex::meteo_observations_iter_mut", "Rinex::doris_observation_iter_mut", "Rinex::rnx2crnx_mut", "Rinex::crnx2rnx_mut", "Rinex::with_header", "Rinex::replace_record", "Rinex::format"],
     SIM + "an editor works on a log in memory, saves it to a device that may fail, dies and starts again from the last save; a reference log follows every operation",
     "seeded search over editing sessions; satellites belong to a system and signals to an observable that the header declares, values fit their fields and are not zero")

prop("C38", "Comments of the body stay with the record they belong to",
     "Comment lines may stand anywhere in the body of a file of any kind but ANTEX (between its records, within one, before the first, after the last; only between records in CRINEX), in any number, with any text: the parsed record is exactly the one parsed without them. Rinex::comments holds every one of them once, in file order, without trailing blanks, under the epoch of the record it interrupts or follows, or that of the first record when it precedes them all; events and other blocks that record nothing do not count as records, and comments they carry are kept alike.",
     ["histories", "inputs", "fault_sequences"],
     "every file, every set of comments and places in its body, and every delivery",
     "the tests count the comments of two sample files",
     ["src/record/parsing.rs", "src/lib.rs", "src/hatanaka/decompressor/mod.rs"],
     [("comment storage", "Record::parse in src/record/parsing.rs"), ("comment lines", "is_rinex_comment in src/lib.rs"), ("compressed files", "src/hatanaka/decompressor/mod.rs")],
     ["Rinex::parse", "Rinex::comments", "Rinex::record"],
     SIM + "comment lines left at drawn places of a file produced by a reference writer, delivered by a simulated source; record and comments compared with the model",
     "seeded search; ANTEX has no epochs and is left out")

prop("C39", "Written files follow the columns of the format",
     "Every uncompressed observation (RINEX 2, 3, 4), meteo and DORIS file the library writes, of a log it read, was given or that was edited, and whatever pieces the sink accepts, can be read by a program that only knows the columns of the RINEX tables. Header records hold their label from column 61 on, within 80 columns, no other line stands between them, and every field (version, type and system letters, observable codes, scale factors, time of first and last observation with its 3 letter time system, interval, leap seconds, equipment, position, GLONASS slots, sensors, stations) is in its columns. Epoch lines, satellites, F14.3 observations with their two flags, F7.1 measurements, clock offsets, continuation lines and the counts that announce them are where the format wants them, and every value read there is the one that was logged.",
     ["histories", "inputs", "fault_sequences"],
     "every log that fits the format, every selection and order of header records, every history of edits and of failed saves, and every way the sink accepts the bytes",
     "the tests read what is written with the library itself, whose parser tolerates what other readers do not",
     ["src/header/formatting.rs", "src/observation/formatting.rs", "src/observation/header.rs", "src/meteo/formatting.rs", "src/meteo/header.rs", "src/doris/formatting.rs", "src/doris/header.rs", "src/leap.rs"],
     [("header records", "Header::format in src/header/formatting.rs"), ("observations", "src/observation/formatting.rs"), ("meteo", "src/meteo/formatting.rs"), ("DORIS", "src/doris/formatting.rs")],
     ["Rinex::format", "Header::format", "Rinex::to_file"],
     SIM + "a seeded log is read (or assembled through the API and edited), saved through a simulated device that accepts pieces and fails, and the text is interpreted by an independent reader of the column tables; its findings are compared with the model",
     "seeded search; RINEX 2.11, 3.05 and DORIS 3.0 tables; values fit their fields")
