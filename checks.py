"""The checks: which harness, in which mode, how many cases."""
CHECKS = {}


def check(pid, rule, jobs, assumptions=()):
    CHECKS[pid] = {"rule": rule, "jobs": jobs, "assumptions": list(assumptions)}


def job(harness, mods, mode, quick, thorough, **kw):
    d = {"harness": harness, "mods": mods, "mode": mode, "cases": {"quick": quick, "thorough": thorough}}
    d.update(kw)
    return d


NOV = ["nov"]
check("C04", "Random and mutated NovAtel streams through the whole converter; non-trivial: the converter ran to the end of the input; distinct by output bytes.",
      [job("nov.cc", NOV, "hostile", 40000, 1500000)])
check("C13", "Streams of valid, corrupted, truncated, nested and oversized frames in random chunk sizes against a reference frame scanner; non-trivial: at least one valid frame; distinct by (positions, types, chunking).",
      [job("nov.cc", NOV, "frame", 40000, 1500000)])
check("C70", "Random valid frames of every supported type, every field compared with the raw bytes; plus primitive readers against references; distinct by frame body.",
      [job("nov.cc", NOV, "fields", 40000, 1500000)])
check("C71", "Timed sequences of NovAtel logs through the converter against an independent model of every SBP message; distinct by checked SBP payload.",
      [job("nov.cc", NOV, "sbp", 40000, 1500000)])

RT = ["librtcm"]
check("C07", "Every bounded decoder on exact-size payload buffers (random, mutated, structured), encoders into exact-size buffers; non-trivial: payload of at least 8 bytes; distinct by payload.",
      [job("rtcm.cc", RT, "hostile", 60000, 1500000),
       job("ubx.cc", ["librtcm", "libubx", "libixcom", "gc"], "codechost", 30000, 1000000)])
check("C20", "Legacy observation messages built bit by bit and compared with the decoder, and encoded/decoded round trips; distinct by message.",
      [job("rtcm.cc", RT, "legacy", 300000, 6000000)])
check("C21", "MSM4..7 messages built bit by bit and compared with the decoder, and encoded/decoded round trips; distinct by message.",
      [job("rtcm.cc", RT, "msm", 300000, 5000000)])
check("C22", "Ephemerides of all constellations from random raw fields, decode, encode and round trip; distinct by message.",
      [job("rtcm.cc", RT, "eph", 400000, 8000000)])
check("C23", "Station, text, bias and wrapper messages from random fields, decode, encode, truncation and foreign types; distinct by message.",
      [job("rtcm.cc", RT, "sta", 400000, 8000000)])
check("C24", "SSR messages of every kind and constellation from random fields, 0..63 satellites; distinct by message.",
      [job("rtcm.cc", RT, "ssr", 300000, 6000000)])
check("C25", "Random writes at random positions and widths compared bit by bit with a reference, read back, and scripts of stream reads; distinct by buffer.",
      [job("rtcm.cc", RT, "bits", 400000, 8000000)])
check("C26", "All message numbers, random masks, and the helpers of the converter for every signal and satellite bit; distinct by header.",
      [job("rtcm.cc", RT, "util", 60000, 3000000), job("r2s.cc", ["librtcm", "libubx", "libixcom", "gc"], "msmutil", 60000, 3000000)])
check("C27", "Random sequences of sink changes and log calls; distinct by message.",
      [job("rtcm.cc", RT, "log", 30000, 1500000)])

GC = ["librtcm", "libubx", "libixcom", "gc"]
check("C01", "Random, mutated, truncated and recorded RTCM streams and payloads with any time source state; non-trivial: at least one SBP message came out; distinct by payload.",
      [job("r2s.cc", GC, "hostile", 60000, 2000000, flavors=["san", "zero", "pattern"])])
check("C10", "Streams of valid, corrupted, truncated and nested frames and garbage in random read sizes against a reference scan; distinct by stream.",
      [job("r2s.cc", GC, "frame", 40000, 800000)])
check("C30", "Message sequences over several epochs, stations and constellations, up to overfull epochs, against a lockstep model; distinct by payload.",
      [job("r2s.cc", GC, "seq", 60000, 1000000)])
check("C31", "Observation messages of every kind with random fields, biases and channels, every field of every SBP observation compared; distinct by payload.",
      [job("r2s.cc", GC, "values", 60000, 1000000)])
check("C32", "Epochs around week, day and GLONASS day boundaries with coarse times on either side; distinct by payload.",
      [job("r2s.cc", GC, "time", 60000, 1000000)])
check("C33", "Ephemerides of all constellations from random raw fields, every SBP parameter compared; distinct by payload.",
      [job("r2s.cc", GC, "eph", 60000, 1000000)])
check("C34", "Legacy and MSM messages mixed with pauses around the timeout; distinct by payload.",
      [job("r2s.cc", GC, "mix", 60000, 1000000)])
check("C35", "1005, 1006, 1033 and 1230 of random content and order; distinct by payload.",
      [job("r2s.cc", GC, "station", 40000, 600000)])
check("C36", "1029 texts of valid UTF-8 of every length; distinct by payload.",
      [job("r2s.cc", GC, "text", 40000, 600000)])
check("C37", "SSR messages of every kind and constellation in random order; distinct by payload.",
      [job("r2s.cc", GC, "ssr", 60000, 1000000)])
check("C38", "Unsupported messages, codes and overfull or unfinished epochs; every diagnostic compared; distinct by payload.",
      [job("r2s.cc", GC, "diag", 40000, 600000)])
check("C39", "4062 wrapped SBP messages and SBAS frames in 4075, valid and damaged; distinct by payload.",
      [job("r2s.cc", GC, "wrap", 40000, 600000)])

# UBX and IXCOM
ALL3 = ["san", "zero", "pattern"]
check("C02", "Random, mutated, truncated and recorded UBX streams through the whole converter, and frames handed over in exact-size memory; non-trivial: at least one SBP message came out; distinct by stream.",
      [job("ubx.cc", GC, "hostile", 20000, 800000, flavors=ALL3)])
check("C03", "Random, mutated, truncated and recorded IXCOM streams through the whole converter; non-trivial: at least one SBP message came out; distinct by stream.",
      [job("ixcom.cc", GC, "hostile", 40000, 800000, flavors=ALL3)])
check("C11", "Streams of valid, corrupted, truncated, nested and oversized UBX frames and garbage in random read sizes against a reference scan; distinct by stream.",
      [job("ubx.cc", GC, "frame", 60000, 1000000)])
check("C12", "Streams of valid, corrupted, truncated, nested and impossibly long IXCOM frames and garbage in random read sizes, with ends of input in between, against a reference scan; distinct by message content.",
      [job("ixcom.cc", GC, "frame", 120000, 2000000)])
check("C28", "Every UBX and IXCOM message from random field bytes: decoded fields, re-encoded bytes, truncated, damaged and foreign messages; distinct by message.",
      [job("ubx.cc", GC, "codec", 200000, 4000000), job("ixcom.cc", GC, "codec", 200000, 4000000)])
check("C40", "Raw measurements, solutions, attitude, velocity and satellite status of random content, every SBP field compared; distinct by SBP message.",
      [job("ubx.cc", GC, "obs", 60000, 1000000)])
check("C41", "Navigation subframes of several satellites and constellations, interleaved, repeated, inconsistent and damaged, every SBP ephemeris field compared; distinct by SBP message.",
      [job("ubx.cc", GC, "eph", 60000, 1000000)])
check("C06", "SBP messages of random and hostile content with random rates and thresholds into the NMEA converter under sanitizers; distinct by sentence text.",
      [job("nm.cc", GC, "hostile", 40000, 2000000, flavors=ALL3)])
check("C50", "Every sentence of complete, lossy and hostile epochs parsed: checksum, characters, field count, number syntax and ranges; distinct by sentence text.",
      [job("nm.cc", GC, "form", 40000, 600000)])
check("C51", "Complete solution epochs of random and boundary content, every field of every sentence compared with the SBP inputs; distinct by sentence text.",
      [job("nm.cc", GC, "content", 40000, 600000)])
check("C52", "Epoch sequences in GNSS, best and fused mode, at many rates, with message loss, repetition and week ends; each emission and each expected emission checked; distinct by epoch shape and sentence.",
      [job("nm.cc", GC, "sched", 32000, 500000)])
check("C05", "Random, mutated and truncated SBP messages of every converted type, random configuration, direct and buffered; non-trivial: RTCM came out; distinct by RTCM frame.",
      [job("s2r.cc", GC, "hostile", 12000, 600000, flavors=ALL3)])
check("C60", "Observation epochs of every constellation in MSM4, MSM5 and legacy mode; every field of every frame recomputed from the SBP values, then decoded back by the RTCM converter; histories with parts lost, repeated, late and from several senders, every set traced to the one epoch it comes from; distinct by frame.",
      [job("s2r.cc", GC, "obs", 60000, 1500000), job("s2r.cc", GC, "hist", 20000, 600000)])
check("C61", "Epochs with lost, repeated, reordered, truncated and stale parts from several senders, other messages in between; framing, acceptance by the decoders and grouping into sets; distinct by frame.",
      [job("s2r.cc", GC, "frames", 48000, 800000)])
check("C62", "Ephemerides, base positions, descriptors, biases, logs and tunnelled messages of boundary and random field values, bit by bit and round trip, and unrepresentable values; distinct by frame.",
      [job("s2r.cc", GC, "eph", 80000, 1500000)])
check("C63", "Message sequences through the buffered converter with random output buffer sizes against direct conversion, with starving readers; distinct by frame.",
      [job("s2r.cc", GC, "conv", 20000, 400000)])
check("C42", "Raw IMU, wheel and odometer samples over sensor clock rollovers and time marks, every SBP field compared; distinct by SBP message.",
      [job("ubx.cc", GC, "imu", 60000, 1000000)])
check("C43", "IXCOM IMU and wheel data of random content, every SBP field compared; distinct by message content.",
      [job("ixcom.cc", GC, "conv", 80000, 1500000)])
check("C44", "Sequences of updates, refusals and reads against a model; and histories of two to six threads with delays between the atomic operations, checked offline as a forward-only register, plain and under ThreadSanitizer; non-trivial: an accepted time, or overlapping operations; distinct by history.",
      [job("tt.cc", GC, "seq", 60000, 2000000), job("tt.cc", GC, "conc", 6000, 200000),
       job("tt.cc", GC, "conc", 3000, 60000, flavors=["tsan"])])
PAIRS = [("r2s.cc", "seq,frame,values,eph,ssr,mix,station,text,diag,wrap,hostile"), ("s2r.cc", "obs,hist,frames,eph,conv,hostile"),
         ("ubx.cc", "frame,obs,eph,imu,hostile"), ("ixcom.cc", "frame,conv,hostile"), ("nm.cc", "form,content,sched,hostile")]
check("C80", "Two cases of any modes of a converter run alone and then together, taking turns at random points (also inside output callbacks) or in two threads, on memory with different contents; also under ThreadSanitizer and in builds that differ only in what automatic and heap memory holds; outputs and findings compared; non-trivial: both cases made output and the turns changed; distinct by outputs.",
      [job(h, GC, "pair:" + m, 1600, 60000, flavors=ALL3) for h, m in PAIRS] +
      [job(h, GC, "pair:" + m, 400, 12000, flavors=["tsan"]) for h, m in PAIRS] +
      [job("nov.cc", ["nov"], "again", 4000, 100000)])
MAINS = GC + ["mains"]
check("C81", "The programs themselves, each run as a process fed through a pipe in pieces of random sizes: random valid options in every form getopt takes them with inputs whose conversion is known from the models of the other checks, and values out of range or malformed, with convertible input; non-trivial: something was converted or a value refused; distinct by converted content and command.",
      [job("cli_rtcm.cc", MAINS, "cli", 4000, 100000), job("cli_ubx.cc", MAINS, "cli", 2000, 60000), job("cli_ixcom.cc", MAINS, "cli", 2000, 60000),
       job("cli_s2r.cc", MAINS, "cli", 1500, 40000), job("cli_nov.cc", ["nov"], "cli", 1500, 40000)])
check("C82", "The Rust programs, linked with the instrumented C libraries and run as processes with their input and output in files named on the command line or in pipes, over the options and inputs of C81; also writing to a full device; non-trivial: something was converted or a value refused; distinct by converted content and command.",
      [job("cli_rtcm.cc", MAINS, "files", 1500, 40000, rust="rtcm3tosbp"), job("cli_ubx.cc", MAINS, "files", 1200, 30000, rust="ubx2sbp"),
       job("cli_ixcom.cc", MAINS, "files", 1200, 30000, rust="ixcom2sbp"), job("cli_s2r.cc", MAINS, "files", 1000, 20000, rust="sbp2rtcm"),
       job("cli_nov.cc", ["nov"], "files", 1000, 20000, rust="nov2sbp")])
