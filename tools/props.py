#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
P = []


def p(pid, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [f if f.startswith("rust/") else "c/" + f for f in files],
                          "mechanism": [{"name": n, "where": w if w.startswith("rust/") else "c/" + w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": "c/" + w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


GC, LR = "gnss_converters/src/", "librtcm/src/"
SAMPLED = "The unit tests replay a few recorded files; the guarantee is over every byte string, and the recordings contain almost no malformed, extreme or adversarially timed input."

# ---- memory safety / robustness
p("C01", "RTCM to SBP conversion survives any byte stream",
  "Feeding any byte stream, well formed or not, in any chunk sizes and with any time source state to the RTCM3-to-SBP converter never reads or writes out of bounds, overflows, performs an undefined conversion, aborts or loops forever. Everything it emits is a well-formed SBP message.",
  ["inputs", "histories"], "all RTCM3 byte streams, chunkings and converter options", SAMPLED,
  [GC + "rtcm3_sbp.c", GC + "rtcm3_sbp_ssr.c", GC + "rtcm3_sbp_ephemeris.c", LR + "decode.c"],
  [("length and CRC checks", GC + "rtcm3_sbp.c:rtcm2sbp_process"), ("bounded bit reader", LR + "bits.c")], ["SBP callback", "sanitizer reports"])
p("C02", "UBX to SBP conversion survives any byte stream",
  "Feeding any byte stream in any chunk sizes to the UBX-to-SBP converter never reads or writes out of bounds, overflows, performs an undefined conversion, aborts or loops forever. Everything it emits is a well-formed SBP message.",
  ["inputs", "histories"], "all UBX byte streams and chunkings", SAMPLED,
  [GC + "ubx_sbp.c", GC + "ubx_ephemeris/glo.c", "libubx/src/decode.c"], [("frame length and checksum", GC + "ubx_sbp.c:ubx_sbp_process")], ["SBP callback", "sanitizer reports"])
p("C03", "IXCOM to SBP conversion survives any byte stream",
  "Feeding any byte stream in any chunk sizes to the IXCOM-to-SBP converter never reads or writes out of bounds, overflows, performs an undefined conversion, aborts or loops forever. Everything it emits is a well-formed SBP message.",
  ["inputs", "histories"], "all IXCOM byte streams and chunkings", SAMPLED,
  [GC + "ixcom_sbp.c", "libixcom/src/decode.c"], [("frame length and checksum", GC + "ixcom_sbp.c:ixcom_sbp_process")], ["SBP callback", "sanitizer reports"])
p("C04", "NovAtel to SBP conversion survives any byte stream",
  "Feeding any byte stream in any chunk sizes to the NovAtel-to-SBP converter never reads or writes out of bounds, overflows, performs an undefined conversion, aborts or loops forever. Everything it emits is a well-formed SBP message from the converter's own sender.",
  ["inputs", "histories"], "all NovAtel byte streams and chunkings", SAMPLED,
  ["nov2sbp/parser/parser.cc", "nov2sbp/src/nov2sbp.cc", "nov2sbp/src/swiftnav_conversion_helpers.cc"], [("frame length and CRC", "nov2sbp/parser/parser.cc:process")], ["SBP write function", "sanitizer reports"])
p("C05", "SBP to RTCM conversion survives any SBP message sequence",
  "Feeding any sequence of SBP messages, of any type, sender, length and content, to the SBP-to-RTCM3 converter never reads or writes out of bounds, overflows, performs an undefined conversion, aborts or loops forever.",
  ["inputs", "histories"], "all SBP streams, including inconsistent observation sequences", SAMPLED,
  ["gnss_converters_extra/src/sbp_rtcm3.c", "gnss_converters_extra/src/sbp_conv.c", LR + "encode.c"], [("observation buffer bound", "gnss_converters_extra/src/sbp_rtcm3.c:sbp2rtcm_sbp_obs_cb")], ["RTCM callback", "sanitizer reports"])
p("C06", "SBP to NMEA conversion survives any SBP message sequence",
  "Feeding any sequence of SBP messages, with any content and any rate configuration, to the SBP-to-NMEA converter never reads or writes out of bounds, overflows, performs an undefined conversion, aborts or loops forever.",
  ["inputs", "histories", "configurations"], "all SBP message sequences and rate settings", SAMPLED,
  [GC + "sbp_nmea.c", GC + "nmea.c"], [("sentence buffer", GC + "nmea.c:NMEA_SENTENCE_START")], ["NMEA callback", "sanitizer reports"])
p("C07", "Codec entry points stay inside the buffers they are given",
  "Each RTCM3, UBX and IXCOM message decoder, given any buffer contents, neither reads beyond the longest encoding its message type can have nor writes outside its output, and it refuses a payload of another message type. Each encoder writes only inside the buffer it is given and reports the number of bytes it wrote.",
  ["inputs"], "all buffers and all decodable messages", SAMPLED,
  [LR + "decode.c", LR + "encode.c", "libubx/src/decode.c", "libixcom/src/decode.c"], [("bit/byte buffer readers", LR + "bits.c")], ["return codes", "sanitizer reports"])

# ---- framing
p("C10", "RTCM framing: every valid frame is taken exactly once",
  "For any byte stream and any way of splitting it into reads, the RTCM3 reader hands on exactly the frames that a left-to-right scan for preamble, length and CRC finds, in order and once each; garbage, corruption or truncation costs only the bytes it damaged.",
  ["inputs", "schedules"], "all byte streams and read chunkings", "Tests feed undamaged recordings in one chunking.",
  [GC + "rtcm3_sbp.c"], [("fifo, preamble scan, CRC24Q", GC + "rtcm3_sbp.c:rtcm2sbp_process")], ["converter callbacks"])
p("C11", "UBX framing: every valid frame is taken exactly once",
  "For any byte stream and any way of splitting it into reads, the UBX reader hands on exactly the frames that a left-to-right scan for sync bytes, length and checksum finds, in order and once each. A frame with a wrong checksum is skipped as a whole; an announced payload longer than the reader's buffer (more than 4090 bytes) costs only the header.",
  ["inputs", "schedules"], "all byte streams and read chunkings", "Tests feed undamaged recordings in one chunking.",
  [GC + "ubx_sbp.c"], [("sync scan and checksum", GC + "ubx_sbp.c:ubx_sbp_process")], ["SBP callback"])
p("C12", "IXCOM framing: every valid frame is taken exactly once",
  "For any byte stream and any way of splitting it into reads, the IXCOM reader takes exactly the frames that a left-to-right scan for the sync byte and the announced length finds, in order and once each, also when the input pauses inside a frame and continues later; nothing is converted from a frame with a wrong checksum, a foreign kind or a wrong size for its kind, and an impossible announced length (below 20 or above 4095) costs only the 16-byte header.",
  ["inputs", "schedules"], "all byte streams and read chunkings", "Tests feed undamaged recordings in one chunking.",
  [GC + "ixcom_sbp.c"], [("sync scan and CRC", GC + "ixcom_sbp.c")], ["SBP callback"])
p("C13", "NovAtel framing: every valid frame is taken exactly once",
  "For any byte stream and any way of splitting it into reads, the NovAtel parser delivers exactly the long- and short-header messages that a left-to-right scan for sync bytes, header length, length and CRC finds (messages of a wrong size for their type excepted), in order and once each, and consumes all input.",
  ["inputs", "schedules"], "all byte streams and read chunkings", "One recording, delivered in full reads, counted by number of messages.",
  ["nov2sbp/parser/parser.cc", "nov2sbp/parser/crc_checker.cc", "nov2sbp/parser/binary_header.cc"], [("sliding buffer, CRC-32", "nov2sbp/parser/parser.cc:process")], ["parser callbacks"])

# ---- codecs
p("C20", "RTCM legacy observations survive encode and decode",
  "Encoding a legacy RTCM3 observation message (1001-1004, 1010, 1012) and decoding it returns the same header, satellites, measurements within the resolution of their fields, and validity; the encoded bits are those the standard prescribes for each field.",
  ["inputs"], "all representable observation messages", "Tests round-trip a handful of hand-written messages.",
  [LR + "encode.c", LR + "decode.c"], [("field packing", LR + "encode.c:rtcm3_encode_1004")], ["encoded bytes", "decoded structs"])
p("C21", "RTCM MSM messages survive encode and decode",
  "Encoding an MSM4/5/6/7 message for any constellation and any satellite/signal/cell masks and decoding it returns the same header, masks, satellites and signals, with measurements within the resolution of their fields and invalid fields still invalid; the bit layout is the standard's (a GLONASS epoch decodes as the time of day).",
  ["inputs"], "all MSM headers, masks and values", "Tests round-trip a few messages with few satellites.",
  [LR + "encode.c", LR + "decode.c", LR + "msm_utils.c"], [("MSM field packing", LR + "encode.c:encode_msm_internal")], ["encoded bytes", "decoded structs"])
p("C22", "RTCM ephemerides survive encode and decode",
  "Every broadcast ephemeris message (1019, 1020, 1042, 1044, 1045, 1046) that can be encoded decodes to the same field values; each field sits at the bit position, width and sign convention the standard prescribes.",
  ["inputs"], "all ephemeris field values", "Tests use one or two ephemerides.",
  [LR + "eph_encode.c", LR + "eph_decode.c"], [("field packing", LR + "eph_encode.c")], ["encoded bytes", "decoded structs"])
p("C23", "RTCM station, text, bias and wrapper messages survive encode and decode",
  "Station coordinates (1005/1006), antenna and receiver descriptions (1007/1008/1033), text (1029), GLONASS code-phase biases (1230), proprietary SBP wrappers (4062) and 999 firmware version and configuration texts decode to what was encoded, within field resolution, for every field value.",
  ["inputs"], "all field values, string lengths and masks", "Tests use a handful of hand-written messages.",
  [LR + "encode.c", LR + "decode.c", LR + "sta_decode.c"], [("field packing", LR + "encode.c")], ["encoded bytes", "decoded structs"])
p("C24", "RTCM SSR messages are decoded field by field",
  "For any well-formed SSR orbit, clock, combined, code bias or phase bias message of any constellation, the decoder returns exactly the field values encoded in the bits, for every satellite and bias listed, and rejects a message of another type.",
  ["inputs"], "all SSR messages", "Tests decode a few recorded messages.",
  [LR + "ssr_decode.c"], [("SSR decoders", LR + "ssr_decode.c")], ["decoded structs"])
p("C25", "Bit-field reads and writes are inverse and never touch neighbours",
  "Writing a signed, unsigned or sign-magnitude value of any width at any bit position and reading it back yields the value reduced to that width; bits outside the field are unchanged, a write of no bits or of more bits than the routine takes (32, 64 for the long ones) stores nothing, and the sign-magnitude stream reader delivers the same values and refuses to read past the end of its stream.",
  ["inputs"], "all positions, widths and values", "Covered by tests only through a few messages.",
  [LR + "bits.c"], [("bit loops", LR + "bits.c")], ["buffers"])
p("C26", "MSM numbering, masks and frequencies are consistent",
  "For every constellation, MSM type and mask, message numbers map to the right constellation and type, satellite/signal/cell counts equal the bits set, mask indices name the satellite and code the standard assigns, and signal frequencies are those of the signal (with the GLONASS channel applied).",
  ["inputs", "configurations"], "all message numbers, masks, indices and frequency channels", "Tests cover single examples of some of these maps.",
  [LR + "msm_utils.c"], [("lookup tables", LR + "msm_utils.c")], ["return values"])
p("C27", "Log messages reach the registered sink exactly once and intact",
  "After a log callback is registered, every log call invokes it exactly once with the level, the text and length given, and the registered context; without a callback logging has no effect and never fails.",
  ["inputs", "histories"], "all texts, lengths and callback changes", "No test covers it.",
  [LR + "logging.c"], [("callback dispatch", LR + "logging.c")], ["callback arguments"])
p("C28", "UBX and IXCOM messages survive encode and decode",
  "Every UBX and IXCOM message the libraries can encode decodes to identical field values, each field occupying the documented byte offset in little-endian order; decoding arbitrary field contents and encoding them again reproduces the bytes.",
  ["inputs"], "all field values and repeat counts", "Tests round-trip one message per type.",
  ["libubx/src/encode.c", "libubx/src/decode.c", "libixcom/src/encode.c", "libixcom/src/decode.c"], [("byte buffers", "libubx/src/decode.c")], ["encoded bytes", "decoded structs"])

# ---- RTCM -> SBP
p("C30", "RTCM observations become complete, well-sequenced SBP epochs",
  "The SBP observation messages emitted for an epoch form one sequence numbered 0..n-1 of n that share one time, and together carry every valid, supported observation received for that epoch exactly once (up to the 210 an epoch can hold); nothing from another epoch or another station is mixed in. An epoch is sent when its last message says so or when data of another epoch arrives.",
  ["inputs", "histories"], "all sequences of legacy and MSM messages", "Recordings contain only regular multi-message bit patterns.",
  [GC + "rtcm3_sbp.c"], [("epoch buffer", GC + "rtcm3_sbp.c:send_observations")], ["SBP observation messages"])
p("C31", "SBP observations carry the RTCM measurements",
  "Each SBP observation produced from RTCM has the satellite and code the RTCM signal denotes, pseudorange, carrier phase, Doppler and C/N0 equal to the transmitted values within the resolution of both formats, and flags and lock indicator matching the transmitted validity and lock.",
  ["inputs"], "all observation values, signals and constellations", "A few files, compared by count or loosely.",
  [GC + "rtcm3_sbp.c", GC + "rtcm3_utils.c"], [("rtcm3_to_sbp / add_msm_obs_to_buffer", GC + "rtcm3_sbp.c")], ["SBP observation messages"])
p("C32", "RTCM epochs get the right GPS time",
  "With a known coarse time and leap second, every observation epoch is tagged with the unique GPS time consistent with its transmitted time of week or time of day within half a week or half a day of the coarse time, including across week and day boundaries and the leap second offset; without the required knowledge nothing is emitted for it, and GLONASS times far from both the coarse time and the last epoch are refused. Base observations 10 s or more older than the coarse time are reported to the age callback.",
  ["inputs", "histories"], "all coarse times, leap seconds and epoch times", "Tests exercise a few rollovers.",
  [GC + "rtcm3_sbp.c"], [("compute_gps_time, compute_glo_time", GC + "rtcm3_sbp.c")], ["SBP observation times"])
p("C33", "SBP ephemerides carry the RTCM broadcast values",
  "For any broadcast ephemeris received over RTCM3, the emitted SBP ephemeris has the transmitted satellite, issue of data, health and validity, each parameter scaled to SI units, and reference times in the week nearest the current time.",
  ["inputs"], "all ephemeris values and times", "One ephemeris per constellation.",
  [GC + "rtcm3_sbp_ephemeris.c"], [("rtcm3_*_eph_to_sbp", GC + "rtcm3_sbp_ephemeris.c")], ["SBP ephemeris messages"])
p("C34", "MSM and legacy observations of one stream are not mixed",
  "Once MSM messages are being received, legacy observation messages of the same stream contribute no observations until no MSM epoch lies within the 5 s before theirs, and an unfinished legacy epoch is discarded when MSM (re)appears, so no signal is ever reported once from each kind in one epoch. Legacy epochs not newer than the last one are dropped.",
  ["inputs", "histories"], "all interleavings of MSM and legacy messages", "Tests feed one kind at a time.",
  [GC + "rtcm3_sbp.c"], [("last_msm_received", GC + "rtcm3_sbp.c")], ["SBP observation messages"])
p("C35", "Base position and GLONASS biases are converted faithfully",
  "Every 1005/1006 yields one SBP base position equal to the transmitted reference point coordinates, from the station's sender id (antenna height is not applied); every 1230, and every 1033 of a known receiver type unless a 1230 arrived within the timeout, yields SBP GLONASS biases with the transmitted or documented values and mask.",
  ["inputs"], "all coordinates, heights, station ids, biases", "Tests check one message of each.",
  [GC + "rtcm3_sbp.c"], [("rtcm3_1005_to_sbp, rtcm3_1230_to_sbp", GC + "rtcm3_sbp.c")], ["SBP messages"])
p("C36", "RTCM text becomes an SBP log with the text intact",
  "Every 1029 text message becomes one SBP log message that carries the text unchanged, or, when it does not fit, its longest prefix that does not split a UTF-8 character.",
  ["inputs"], "all UTF-8 texts up to the RTCM limit", "Tests use one short and one long message.",
  [GC + "rtcm3_sbp.c"], [("rtcm3_1029_to_sbp", GC + "rtcm3_sbp.c:send_1029")], ["SBP log messages"])
p("C37", "SSR corrections are forwarded faithfully",
  "Every supported SSR message yields, per satellite listed, an SBP message with that satellite, the transmitted correction values, issue of data, update interval and a correction time consistent with the current time; separate orbit and clock messages are combined only when they belong together, and nothing is invented.",
  ["inputs", "histories"], "all SSR messages and orders of arrival", "Recordings of one provider.",
  [GC + "rtcm3_sbp_ssr.c"], [("orbit/clock cache", GC + "rtcm3_sbp_ssr.c")], ["SBP SSR messages"])

p("C38", "Unsupported RTCM input is reported once, not silently dropped",
  "The first MSM1-3 message, the first observation of a code the converter cannot represent and of each unsupported GLONASS P code yield exactly one warning each, and every overfull epoch and every unfinished MSM epoch that MSM data of another epoch or station ends one diagnostic, as SBP log messages of the documented level from the station (or the unknown station) that caused them; supported input yields no such diagnostic.",
  ["inputs", "histories"], "all message sequences", "Tests do not look at diagnostics beyond one message.",
  [GC + "rtcm3_sbp.c"], [("send_MSM_warning, send_unsupported_code_warning, send_buffer_*_message", GC + "rtcm3_sbp.c")], ["SBP log messages"])
p("C39", "SBP and SBAS data wrapped in RTCM is passed on unchanged",
  "Every SBP message wrapped in a 4062 message is emitted with its own type, sender and content; every SBAS L1 frame in a 4075 message with an SBAS satellite, a known preamble and a correct CRC is emitted as one raw SBAS message with its satellite, time of week, message type and data, and every other frame yields nothing.",
  ["inputs"], "all wrapped messages and frames", "Tests use one wrapped message.",
  [GC + "rtcm3_sbp.c", LR + "decode.c"], [("handle_ndf_frame, 4062 case", GC + "rtcm3_sbp.c")], ["SBP messages"])

# ---- UBX / IXCOM -> SBP
p("C40", "UBX measurements and solutions are converted faithfully",
  "Every valid UBX raw-measurement message yields a complete SBP observation epoch (all supported signals, up to the 210 observations SBP can number, in correctly numbered messages) with its measurements within SBP resolution and measurements SBP cannot represent flagged invalid; an invalid receiver time yields nothing. Every navigation solution, attitude, velocity and satellite-status message (first 100 satellites) yields the SBP message with the same values, units, time and status, saturating values that do not fit.",
  ["inputs"], "all field values", "Recordings, compared by count or a few fields.",
  [GC + "ubx_sbp.c"], [("handle_rxm_rawx, handle_nav_pvt", GC + "ubx_sbp.c")], ["SBP messages"])
p("C41", "Navigation frames from UBX assemble into correct ephemerides",
  "From any interleaving of GPS, GLONASS, Galileo and BeiDou navigation subframes, an ephemeris is emitted only when a complete, mutually consistent set for one satellite has arrived, and it carries the values those subframes encode; inconsistent or damaged sets emit nothing. SBAS frames are passed on with their satellite, bits and time.",
  ["inputs", "histories"], "all subframe contents and arrival orders", "One good sequence per constellation.",
  [GC + "ubx_ephemeris/gps.c", GC + "ubx_ephemeris/glo.c", GC + "ubx_ephemeris/gal.c", GC + "ubx_ephemeris/bds.c"], [("per-satellite subframe store", GC + "ubx_ephemeris")], ["SBP ephemeris messages"])
p("C42", "IMU samples keep their order, values and time",
  "Raw IMU samples from UBX are emitted in order with their values and with times that advance with the sensor clock across its rollover, shifted to GNSS time only after a valid time status has been received; they are always labelled as time since startup. Wheel ticks accumulate per wheel with their direction, and odometer speeds carry their value, time and source.",
  ["inputs", "histories"], "all sensor clocks, rollovers and time marks", "One recording.",
  [GC + "ubx_sbp.c"], [("esf_meas/esf_raw time matching", GC + "ubx_sbp.c")], ["SBP IMU messages"])
p("C43", "IXCOM messages are converted faithfully",
  "Every valid IXCOM IMU and wheel-data message yields the SBP messages with the same values scaled to SBP units (saturating where they do not fit, zero for NaN), time and order, with the IMU auxiliary message after the first and every hundredth further sample.",
  ["inputs"], "all field values", "One recording, a few fields.",
  [GC + "ixcom_sbp.c"], [("handle_imuraw etc.", GC + "ixcom_sbp.c")], ["SBP messages"])
p("C44", "The shared time truth is monotonic and race free",
  "The shared time source moves from unknown to solved only on a valid time, not before the build's reference week, from a healthy broadcast ephemeris of GPS, Galileo or BeiDou, then only forward in time; it accepts every later such time and refuses all others, never reports a time that was not supplied and accepted (to the resolution it stores) nor an invalid one, and under concurrent updates and reads from several threads it stays a register that only moves forward, free of data races, lost updates and torn values.",
  ["schedules", "histories"], "all interleavings and update sequences", "Tests are single threaded and short.",
  [GC + "time_truth.c"], [("atomic compare and exchange", GC + "time_truth.c")], ["API results", "ThreadSanitizer"])

# ---- NMEA
p("C50", "Every NMEA sentence is well formed",
  "Every sentence emitted starts with '$', has the field count of its type, contains only printable characters, no NaN or infinity, ends with the correct checksum and CR LF, and keeps its numeric fields in their legal ranges whenever the SBP fields they show are in theirs.",
  ["inputs"], "all SBP inputs", "Tests compare a few fixed sentences.",
  [GC + "nmea.c", GC + "sbp_nmea.c"], [("checksum and formatting", GC + "nmea.c")], ["NMEA callback"])
p("C51", "NMEA sentences say what the SBP solution said",
  "Position, time, speed, heading, DOP, error and satellite fields of each sentence equal the SBP inputs of that epoch rounded to the sentence's resolution, with correct hemisphere letters, quality indicators and empty fields when there is no fix; the signal strength of a satellite in view is that of its first signal in the measurement state.",
  ["inputs"], "all SBP solutions", "Tests compare a few fixed sentences.",
  [GC + "nmea.c", GC + "sbp_nmea.c"], [("send_gpgga etc.", GC + "nmea.c")], ["NMEA callback"])
p("C52", "NMEA sentences appear once per epoch at the configured rate",
  "For each solution epoch every sentence type is emitted at most once, those that become ready together in a fixed order, with a period of its configured rate divisor in solution epochs and never when disabled; when all messages of an epoch arrive every type that is due is emitted (an epoch at time of week zero only if the type was emitted before). Of the GNSS solution, GGA, RMC, VTG, GLL, GSA, GST and PUBX wait for the position, GPS time, velocity, DOPs and corrections age of their epoch, HDT for its heading and THS for its attitude and position; a sentence that is due is emitted once these and the UTC time of the epoch have arrived, whatever else was lost. A sentence of the GNSS solution never mixes data of two epochs or lists the satellites of an incomplete observation sequence, and one of the fused solution never appears before its message group is complete.",
  ["inputs", "histories", "configurations"], "all epoch sequences, message orders and rate settings", "Tests use one rate per sentence type.",
  [GC + "sbp_nmea.c"], [("check_nmea_rate, epoch tracking", GC + "sbp_nmea.c")], ["NMEA callback"])

# ---- SBP -> RTCM
p("C60", "Observations survive SBP to RTCM and back",
  "Converting a complete SBP observation epoch to RTCM (legacy 1004/1012 or MSM4/MSM5) yields messages of the configured kind that carry the epoch time, the station and exactly the valid observations that the RTCM form can represent, with code, pseudorange, phase (legacy: up to whole 1500 cycles), half-cycle status, lock, C/N0 and (MSM5) Doppler within the resolution of the fields and nothing valid that was not valid; converting the messages back yields those observations again. A value or constellation that does not fit is left out, never sent as another value. In legacy form a satellite's second frequency is carried when it follows the first in the epoch, and only GPS and GLONASS L1/L2 are carried. GLONASS is sent only while the leap second is known. When parts of an epoch are lost, repeated or late or the sender changes, observations are never sent with another epoch's time or another sender's station; the parts that arrived in order are sent when the last one comes or when a newer epoch or another sender ends the epoch, and parts of an older epoch do not disturb the one being collected.",
  ["inputs"], "all observation epochs", "Recordings in one configuration.",
  ["gnss_converters_extra/src/sbp_rtcm3.c"], [("sbp_buffer_to_msm, sbp_buffer_to_rtcm3", "gnss_converters_extra/src/sbp_rtcm3.c")], ["RTCM and SBP messages"])
p("C61", "RTCM output consists only of valid frames",
  "Whatever SBP input arrives, the RTCM output is a sequence of frames with correct preamble, length and CRC whose payloads the library's own decoders accept (BeiDou geostationary ephemerides, which they do not support, aside). Each complete observation epoch produces at most one set of observation messages, of one time and station and each number at most once, whose multiple-message flags mark exactly the last; no other message interrupts a set, and messages of other types or from elsewhere between the parts of an epoch do not split it.",
  ["inputs", "histories"], "all SBP streams", "Recordings only.",
  ["gnss_converters_extra/src/sbp_rtcm3.c"], [("encode_rtcm3_frame", "gnss_converters_extra/src/sbp_rtcm3.c")], ["RTCM bytes"])
p("C62", "Ephemerides, station data and tunnelled messages survive SBP to RTCM and back",
  "Converting an SBP GPS, GLONASS, BeiDou or Galileo ephemeris, base position, GLONASS bias or log message to RTCM yields one message (a base position also the antenna and receiver descriptions once known) whose every field holds the SBP value in the units of that field, and converting it back yields the same values and times. An ephemeris or position with a parameter beyond the range of its RTCM field, of a satellite or constellation the message cannot hold, or with an impossible time of week is not sent at all; an accuracy that no index stands for is sent as the index for no prediction. OSR and SSR messages are tunnelled with type, sender, length and content unchanged.",
  ["inputs"], "all representable ephemerides, positions, biases", "One example per type.",
  ["gnss_converters_extra/src/sbp_rtcm3_ephemeris.c", "gnss_converters_extra/src/sbp_rtcm3.c"], [("sbp_*_to_rtcm3_*", "gnss_converters_extra/src/sbp_rtcm3_ephemeris.c")], ["RTCM and SBP messages"])
p("C63", "Chunked SBP to RTCM conversion loses nothing",
  "The buffer-oriented SBP-to-RTCM converter (sbp_conv) yields, whatever output buffer sizes are offered from call to call, the same RTCM bytes as converting the messages directly with the same configuration, each call as much of the pending output as fits the offered size and never more, as long as no more than its 8 kB of output is left unread; beyond that it drops whole frames, never parts of one.",
  ["inputs", "schedules"], "all splits of all SBP streams", "One split.",
  ["gnss_converters_extra/src/sbp_conv.c"], [("fifo", "gnss_converters_extra/src/sbp_conv.c")], ["RTCM bytes"])

# ---- NovAtel
p("C70", "NovAtel messages are decoded field by field",
  "For every supported NovAtel message, long or short header, every header and body field delivered equals the little-endian value at its documented offset (documented bit positions and sign extension for compressed ranges; the documented sign change of the IMU Y axes), and the CRC is NovAtel's CRC-32.",
  ["inputs"], "all field values", "Two tests read two numbers; no test checks a message field.",
  ["nov2sbp/parser/read_little_endian.h", "nov2sbp/parser/message_rangecmp.cc", "nov2sbp/parser/message_bestpos.cc", "nov2sbp/parser/crc_checker.cc", "nov2sbp/parser/binary_header.cc"], [("FromBytes", "nov2sbp/parser/message_*.cc")], ["parser callbacks"])
p("C71", "NovAtel logs become the SBP messages they describe",
  "Each NovAtel position, velocity, attitude, IMU, GPS ephemeris and range log yields exactly its SBP messages, in order, with values converted to SBP units (saturating where they do not fit), IMU rates derived from consecutive samples even across a week rollover, GPS time sent once per new epoch, IMU auxiliary data at most once a second, and no output for unusable logs.",
  ["inputs", "histories"], "all log values and sequences", "The converter has no tests.",
  ["nov2sbp/src/nov2sbp.cc", "nov2sbp/src/swiftnav_conversion_helpers.cc", "nov2sbp/src/send_sbp_obs_messages.cc"], [("convert_*", "nov2sbp/src/swiftnav_conversion_helpers.cc")], ["SBP write function"])

# ---- cross-cutting
p("C80", "Converters are deterministic and independent of each other",
  "A converter's output depends only on its own configuration and input: two instances taking turns in one process, or running in two threads, produce what each produces alone, and repeated conversions, or conversions starting from memory with different previous contents, produce identical bytes (settings documented as those of the whole process aside; the NovAtel converter, which is a program, is judged on successive conversions).",
  ["inputs", "histories", "configurations"], "all pairs of inputs and interleavings", "Tests run one instance at a time.",
  [GC + "rtcm3_sbp.c", GC + "ubx_sbp.c", GC + "ixcom_sbp.c", GC + "sbp_nmea.c", "gnss_converters_extra/src/sbp_rtcm3.c"], [("per-instance state", GC)], ["output bytes"])
p("C81", "Command line options mean what they say",
  "The converter programs accept every documented option in range and refuse values out of range or malformed, with a message and an error status and without converting anything; -h shows the usage and converts nothing; and a piped conversion ends successfully having processed the whole input up to end of file, however the input arrives in pieces. For rtcm3tosbp, -G -R -E -C -J -S leave that constellation (GPS, GLONASS, Galileo, BeiDou, QZSS, SBAS) out of the observations and affect nothing else, -b adds metres to the pseudoranges of a code, -c and -l add metres per frequency channel to GLONASS pseudoranges and cycles per channel to GLONASS carrier phases, -w, -d and -s set the time that resolves weeks and days, -o follows the time of the observations from there, and -t prints the time. For ubx2sbp and ixcom2sbp, -s (--sender_id, decimal or 0x hex, 0 to 65535) sets the sender of every message, and --hnr of ubx2sbp takes positions from the high rate messages.",
  ["configurations", "inputs"], "all option values and input lengths", "Tests cover one option parser partially.",
  [GC + "options.c", "ubx2sbp/src/ubx2sbp.c", "rtcm3tosbp/src/rtcm3tosbp.c", "ixcom2sbp/src/ixcom2sbp.c", "sbp2rtcm/src/sbp2rtcm.c", "nov2sbp/src/nov2sbp.cc"], [("getopt loops", GC + "options.c")], ["exit status", "output bytes"])

p("C82", "The installed programs convert files exactly as they convert pipes",
  "The Rust programs (rtcm3tosbp, ubx2sbp, ixcom2sbp, sbp2rtcm, nov2sbp) take `[options] [INPUT [OUTPUT]]`: with an existing input file and an output named at the end of the command line they read that file only, leave it unchanged, replace the output file by the complete conversion and write nothing to the standard output; with only an input file they convert it to the standard output; with neither they convert the standard input to the standard output. In every case the options mean and the conversion gives what they do for the C programs, the program ends at the end of its input with the same status, all output has been written by then, and the status is not success if output could not be written (also what was still buffered at the end).",
  ["configurations", "inputs", "fault_sequences"], "all option values, file arguments and input lengths", "One upstream test converts one file with both names given.",
  ["rust/lib.rs", "rust/rtcm3tosbp.rs", "rust/ubx2sbp.rs", "rust/ixcom2sbp.rs", "rust/sbp2rtcm.rs", "rust/nov2sbp.rs", "sbp2rtcm/src/sbp2rtcm.c"], [("fetch_io", "rust/lib.rs")], ["exit status", "output files", "standard output"])

NOT_APPLICABLE = {}
PENDING = "check not built (yet): see DESIGN.md"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids) and all(c in ids for c in CHECKS)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
man = {"version": 1, "setup_cmd": "python3 check.py --list",
       "checks": [{"property": c, "quick_cmd": "python3 check.py %s --tier quick" % c, "thorough_cmd": "python3 check.py %s --tier thorough" % c,
                   "technique": CHECKS[c].get("technique", "runtime monitoring: ASan/UBSan build driven by generated workloads, online reference-model monitors"),
                   "level": "exploration", "level_note": CHECKS[c]["rule"]} for c in sorted(CHECKS)],
       "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, PENDING)} for i in ids if i not in CHECKS],
       "notes": "No hooks: everything is observed at public interfaces. Known findings and fixed defects: known_findings.json."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(CHECKS), "claimed")
