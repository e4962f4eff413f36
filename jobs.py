from __main__ import Job
ASSUME = ["LP64 little-endian x86-64; two's-complement wrap-around for signed arithmetic (-fwrapv), as the real build behaves",
          "malloc/realloc succeed; diagnostics output (logging, stdio printing) is stubbed except where logging is the subject",
          "C library routines are C models (harness/libc_model.c); counterexamples are confirmed with the real libc",
          "trusted: clang 18 front end, engine/ (this repository), Z3; path models are replayed natively on every run"]
ASSUME_PER = {}
NA = {}
JOBS = {}
GEN = ["genutils.c", "gmtime64.c", "lookup.c"]
COD = ["packdata.c", "unpackdata.c"] + GEN
DEC = ["unpack.c", "unpackdata.c", "packdata.c"] + GEN
UNP = ["unpack.c", "parseutils.c", "msrutils.c", "extraheaders.c", "yyjson.c", "crc32c.c", "pack.c"] + COD
def D(**k): return ["-D%s%s" % (a, "" if b is None else "=%s" % b) for a, b in k.items()]
T = ("thorough",)
LO = ["logging.c"]

JOBS["C01"] = [
 Job("rt", "codec.c", "h_steim_rt", D(VER=1, N=8), COD, bounds="any 1..8 samples and first difference, one frame, both byte orders"),
 Job("rt2", "codec.c", "h_steim_rt", D(VER=1, N=18, MINN=15, PRE=12, FRAMES=2, SLACK=None), COD, bounds="15..18 samples, first 12 differences any wide value, so packing crosses into frame 2; space 128..191 bytes; both byte orders"),
 Job("full", "codec.c", "h_steim_rt", D(VER=1, N=15, MINN=13, PRE=11, FRAMES=1, SLACK=None), COD, bounds="13..15 samples into one frame that fills up; space 64..127 bytes"),
 Job("dec", "codec.c", "h_steim_dec", D(VER=1, NW=3), COD, bounds="first frame, words 3-5 any content and code, 1..22 samples requested, both byte orders"),
 Job("dec2", "codec.c", "h_steim_dec", D(VER=1, FRAME=1, FW=13, NW=3), COD, bounds="second frame, words 13-15 any content and code"),
]
JOBS["C02"] = [
 Job("rt", "codec.c", "h_steim_rt", D(VER=2, N=7), COD, reach=("end", "refused"), bounds="any 1..7 samples and first difference, one frame, both byte orders"),
 Job("rt10", "codec.c", "h_steim_rt", D(VER=2, N=10), COD, reach=("end", "refused"), tiers=T, time=600, bounds="any 1..10 samples"),
 Job("rt2", "codec.c", "h_steim_rt", D(VER=2, N=17, MINN=15, PRE=12, FRAMES=2, SLACK=None), COD, bounds="crossing into frame 2"),
 Job("full", "codec.c", "h_steim_rt", D(VER=2, N=15, MINN=13, PRE=11, FRAMES=1), COD, bounds="one frame that fills up"),
 Job("dec", "codec.c", "h_steim_dec", D(VER=2, NW=2), COD, bounds="first frame, words 3-4 any content and code"),
 Job("dec2", "codec.c", "h_steim_dec", D(VER=2, FRAME=1, FW=14, NW=2), COD, bounds="second frame, words 14-15"),
]
JOBS["C03"] = [Job("plain", "codec.c", "h_plain_rt", [], DEC, bounds="1..3 values of each encoding, every output space from 1 byte to one past what is needed, both byte orders"),
 Job("int16", "codec.c", "h_int16_range", [], DEC, reach=("end", "refused"), bounds="1..3 samples of any 32-bit value, space for 1..3")]
JOBS["C04"] = [Job("legacy_" + e, "codec.c", "h_legacy", D(ENC="DE_" + e), DEC, reach=("end",), bounds="any 1..2 words, both byte orders") for e in ("CDSN", "SRO", "DWWSSN", "GEOSCOPE24", "GEOSCOPE163", "GEOSCOPE164")]
JOBS["C05"] = [
 Job("any", "codec.c", "h_decode_any", [], DEC, bounds="payload 0..12 bytes of any content, any encoding code except Steim, output 0..24 bytes, counts 0..7 and six huge counts, both byte orders"),
 Job("steim1", "codec.c", "h_steim_any", D(VER=1), DEC, bounds="0,63,64,127,128 byte payloads"),
 Job("steim2", "codec.c", "h_steim_any", D(VER=2), DEC, bounds="0,63,64,127,128 byte payloads"),
 Job("steim1s", "codec.c", "h_steim_any", D(VER=1, ALLSAME=None), DEC, bounds="same code in every word"),
 Job("steim2s", "codec.c", "h_steim_any", D(VER=2, ALLSAME=None), DEC, bounds="same code in every word (up to 105 differences per frame)"),
]
JOBS["P08"] = [
 Job("crc", "crc.c", "h_crc", D(MAXLEN=130), ["crc32c.c"] + GEN, bounds="every length 1..130, every alignment 0..7, any bytes, any previous CRC"),
 Job("split", "crc.c", "h_crc_split", [], ["crc32c.c"] + GEN, bounds="every split of 2..34 bytes into two calls (1..17 each), alignments 0..3, any bytes, any previous CRC"),
]
YR = "YEARS={1678,1699,1700,1701,1799,1800,1896,1899,1900,1901,1904,1968,1969,1970,1971,1972,1973,1999,2000,2001,2004,2007,2008,2009,2023,2024,2099,2100,2101,2200,2261,2262}"
JOBS["T01"] = [
 Job("rt", "timeh.c", "h_time_rt", [], GEN, procs=8, time=300, bounds="every time (to the nanosecond) of every year 1678..2262"),
 Job("range", "timeh.c", "h_time_range", [], GEN, reach=("refused",), bounds="any 32-bit component values"),
 Job("sec60", "timeh.c", "h_time_60", ["-D" + YR], GEN, bounds="second 60 in 32 representative years (century, leap, epoch and range boundaries)"),
]
JOBS["T02"] = [
 Job("doy2md", "timeh.c", "h_doy2md", ["-D" + YR], GEN, procs=4, reach=("end", "refused"), bounds="any day of year of 32 representative years; any invalid year"),
 Job("md2doy", "timeh.c", "h_md2doy", ["-D" + YR], GEN, procs=4, reach=("end", "refused"), bounds="any month and day of 32 representative years; any invalid year"),
 Job("doy2mdall", "timeh.c", "h_doy2md", [], GEN, procs=8, time=600, tiers=T, reach=("end", "refused"), bounds="any year and day of year"),
 Job("md2doyall", "timeh.c", "h_md2doy", [], GEN, procs=8, time=600, tiers=T, reach=("end", "refused"), bounds="any year, month and day"),
]
PAR = ["parseutils.c", "unpack.c", "msrutils.c", "extraheaders.c", "yyjson.c", "crc32c.c", "pack.c"] + COD
JOBS["P01"] = [
 Job("any", "rec.c", "h_detect", ["-DLENS={39,40,47,48}"], PAR, reach=("v3", "none"), bounds="buffers of 39,40,47,48 bytes of any content"),
 Job("v2_64", "rec.c", "h_detect", ["-DV2", "-DLENS={40,47,48,52,56,63,64}", "-DSTRIDE=1", "-DDEPTH=9"], PAR, reach=("v2", "b1000", "backward", "unknown"), bounds="any v2 buffer of 40..64 bytes, any blockette links"),
 Job("v2_72", "rec.c", "h_detect", ["-DV2", "-DLENS={72}", "-DSTRIDE=4", "-DDEPTH=9"], PAR, reach=("v2", "b1000"), bounds="72 bytes, links at multiples of 4"),
 Job("v2_178", "rec.c", "h_detect", ["-DV2", "-DLENS={113,114,177,178}", "-DSTRIDE=16", "-DDEPTH=3"], PAR, reach=("v2", "b1000", "nexthdr"), bounds="113,114,177,178 bytes, up to 3 links at multiples of 16, next-header search"),
]

JOBS["T03"] = [
 Job("fmt", "timeh.c", "h_time_fmt", ["-DBYMONTH", "-DYEARS={2012}"], GEN, procs=8, time=200, bounds="every time of 2012, 7 calendar formats, 7 sub-second modes, both functions"),
 Job("old", "timeh.c", "h_time_fmt", ["-DBYMONTH", "-DYEARS={1678,1969}", "-DFMTS={0,6}"], GEN, procs=8, time=200, bounds="every time of 1678 and 1969 (negative epoch), formats ISOMONTHDAY and SEEDORDINAL"),
 Job("late", "timeh.c", "h_time_fmt", ["-DBYMONTH", "-DYEARS={1970,2000,2100,2262}", "-DFMTS={0,6}"], GEN, procs=8, time=200, bounds="every time of 1970, 2000, 2100 and (to March) 2262"),
 Job("epoch", "timeh.c", "h_time_epoch", [], GEN, procs=4, bounds="every Unix epoch time of magnitude below 9223372036 s, both signs, 7 sub-second modes"),
 Job("nsepoch", "timeh.c", "h_time_nsepoch", [], GEN, procs=4, bounds="every nanosecond epoch (modes that depend on the value: 6 digits)"),
 Job("fmtall", "timeh.c", "h_time_fmt", ["-DBYMONTH", "-D" + YR, "-DFMTS={0,2,6}"], GEN, procs=8, time=600, tiers=T, bounds="32 representative years"),
]
JOBS["T04"] = [
 Job("parse", "timeh.c", "h_time_parse", ["-DYEARS={2012,2011,1600,1969,2262,2263,1678}"], GEN, procs=4, reach=("end", "refused"), bounds="7 years, any two-digit components, full and partial dates, 1..9 fractional digits, calendar and ordinal forms, optional Z"),
 Job("pepoch", "timeh.c", "h_time_pepoch", [], GEN, reach=("end", "refused"), bounds="1..12 digit seconds, 0..9 fractional digits, each sign"),
 Job("any", "timeh.c", "h_time_any", D(TL=6), GEN, procs=4, reach=("end", "refused", "year"), bounds="any text of 0..6 characters"),
 Job("any8", "timeh.c", "h_time_any", D(TL=8), GEN, procs=8, time=600, tiers=T, reach=("end", "refused", "year"), bounds="any text of 0..8 characters"),
]
JOBS["T05"] = [
 Job("sampletime", "rate.c", "h_sampletime", [], PAR, bounds="19 rates and periods; any start time; any offset with a span below 4 days for periods of whole nanoseconds, listed offsets otherwise"),
 Job("leap", "rate.c", "h_leap", [], PAR, reach=("end", "leap"), bounds="any list of up to 2 leap seconds, any start time 1970..2039, 4 rates, spans to 17 days"),
]
JOBS["T06"] = [
 Job("nomrate", "rate.c", "h_nomrate", [], PAR, bounds="one of the pair any 16-bit value, the other from a list of 18, all signs, both ways round"),
 Job("packrate", "rate.c", "h_packrate", [], PAR, bounds="every whole rate and period 1..32767"),
 Job("packrate2", "rate.c", "h_packrate2", [], PAR, reach=("end", "refused"), bounds="35 listed rates and periods, fractional, large and tiny"),
 Job("packrate3", "rate.c", "h_packrate3", [], PAR, procs=4, bounds="listed rates a pair can express (17 by 12 products and quotients, as rates and periods): the pair alone means the rate"),
]
SEL = ["selection.c", "msrutils.c"] + GEN
JOBS["S04"] = [
 Job("glob", "sel.c", "h_glob", [], SEL, procs=4, bounds="every pattern of 0..4 characters over ordinary and special characters, every string of 0..2 characters"),
 Job("glob3", "sel.c", "h_glob", D(MAXP=3, MAXS=5), SEL, procs=4, bounds="patterns of 0..3 characters, strings of 0..5"),
 Job("set", "sel.c", "h_glob", ["-DMINP=5", "-DMAXP=5", '-DPREFIX="["'], SEL, procs=4, bounds="every pattern of 5 characters that starts with a bracket, strings of 0..2"),
 Job("set6", "sel.c", "h_glob", ["-DMINP=6", "-DMAXP=6", '-DPREFIX="[^"'], SEL, procs=4, bounds="every pattern of 6 characters that starts with a negated bracket"),
 Job("star", "sel.c", "h_glob", ["-DMINP=5", "-DMAXP=5", "-DMAXS=4", '-DPREFIX="a*"'], SEL, procs=4, bounds="ordinary character, asterisk, any 3; strings of 0..4"),
 Job("all6", "sel.c", "h_glob", D(MAXP=5, MAXS=3), SEL, procs=8, time=600, tiers=T, bounds="every pattern of 0..5 characters, strings of 0..3"),
]
JOBS["S05"] = [
 Job("select", "sel.c", "h_select", [], SEL, procs=8, reach=("match", "none"), bounds="0..2 entries (4 patterns, any version), up to 2 and 1 time windows with any or open bounds, records of any or open span, 2 identifiers"),
 Job("selectmsr", "sel.c", "h_selectmsr", [], SEL, reach=("in", "out"), bounds="any window and record start, 6 sample counts at 10 Hz"),
 Job("addselect", "sel.c", "h_addselect", [], SEL, bounds="1..3 additions, any windows"),
 Job("addcomp", "sel.c", "h_addcomp", [], SEL, bounds="60 code combinations against 4 identifiers"),
]
JOBS["S01"] = [
 Job("build", "str.c", "h_sid_build", [], GEN, procs=2, reach=("end", "small", "bad"), bounds="network and station of 1..2, location of 0..2 any characters, channel in 5 forms, identifier space 15..26"),
 Job("split", "str.c", "h_sid_split", [], GEN, procs=4, reach=("end", "bad"), bounds="namespace good, wrong or cut short, then any text of 0..7 characters"),
 Job("build3", "str.c", "h_sid_build", D(NMAX=5), GEN, procs=4, tiers=T, time=600, reach=("end", "small", "bad"), bounds="network and station of 1..5"),
 Job("split9", "str.c", "h_sid_split", D(SMAX=9), GEN, procs=8, tiers=T, time=800, reach=("end", "bad"), bounds="any text of 0..9 characters"),
]
JOBS["S02"] = [Job("chan", "str.c", "h_chan", [], GEN, reach=("seed", "x"), bounds="any string of 0..7 characters, both directions, in place and test only")]
JOBS["S03"] = [
 Job("strcpy", "str.c", "h_strcpy", [], GEN, procs=4, reach=("clean", "open", "tail"), bounds="fields of 0..5 bytes of any content (all UTF-8 sequences), nothing readable behind the field"),
 Job("strterm", "str.c", "h_strterm", [], GEN, bounds="terminated sources of 0..3 characters, fields 1..3 wider; missing source"),
 Job("strcpy6", "str.c", "h_strcpy", D(FMAX=7), GEN, procs=8, tiers=T, time=800, reach=("clean", "open", "tail"), bounds="fields of 0..7 bytes"),
]
JOBS["G01"] = [
 Job("message", "log.c", "h_message", [], ["logging.c"] + GEN, extra=(), reach=("end", "registered"), bounds="17 text lengths 0..420, 9 prefix lengths 0..250, 4 levels, any characters at the ends and at the truncation point, both parameter kinds, with and without registry"),
 Job("registry", "log.c", "h_registry", [], ["logging.c"] + GEN, extra=(), reach=("end", "emit", "free"), bounds="registry of 1..3, every sequence of 1..4 operations (error, warning, emit any number with and without context, free)"),
 Job("registry6", "log.c", "h_registry", D(STEPS=6), ["logging.c"] + GEN, extra=(), procs=8, tiers=T, time=800, reach=("end", "emit", "free"), bounds="1..6 operations"),
]
JOBS["M01"] = [
 Job("prealloc", "mem.c", "h_prealloc", [], GEN, reach=("end", "fail", "enough"), bounds="any block size and current size below 2^40, request within 5 blocks, allocation success and failure"),
 Job("keep", "mem.c", "h_keep", [], GEN, bounds="4 block sizes, every sequence of 3 requests of 0..12 bytes"),
 Job("unpack", "mem.c", "h_unpack", [], UNP, reach=("end", "resize"), bounds="4 block sizes, every sequence of 2 records of 0..5 samples of 2 sizes, then resize"),
]
EHX = [x for x in UNP if x not in ("extraheaders.c",)]
SE_ = "-DSTUBEH"
JOBS["P04"] = [
 Job("v3", "parse.c", "h_v3parse", [SE_], EHX, procs=8, reach=("ok", "more", "refused", "samples"), bounds="8 identifier, 4 extra header and 8 payload lengths, 11 sample counts, 16 encoding codes, buffer exact, short, long or cut; all other header bytes any value; with and without decoding"),
]
JOBS["P05"] = [
 Job("v2_64", "parse.c", "h_v2parse", [SE_, "-DLENS2={64}"], EHX, procs=8, reach=("ok", "refused", "bounds"), bounds="64-byte records, blockette of each of 15 types at every offset, 13 kinds of link to a second blockette of 6 types, any numeric content, full-width text, both byte orders"),
 Job("v2_256", "parse.c", "h_v2parse", [SE_, "-DLENS2={256}", "-DNEAR"], EHX, procs=8, reach=("ok", "refused", "bounds"), bounds="256-byte records, blockettes at the start or ending within 8 bytes of the end of the record"),
 Job("v2_128", "parse.c", "h_v2parse", [SE_, "-DLENS2={128}"], EHX, procs=8, tiers=T, time=800, reach=("ok", "refused", "bounds"), bounds="128-byte records, every offset"),
 Job("data", "parse.c", "h_v2data", [SE_], EHX, procs=8, reach=("ok", "refused", "samples"), bounds="64 and 128 byte records, 19 encoding codes, 13 sample counts, 19 data offsets, 3 contents, 3 Blockette 1000 lengths or none, both byte orders"),
]
JOBS["P12"] = [
 Job("bounds", "parse.c", "h_bounds", [SE_], EHX, procs=8, reach=("end", "none", "outside"), bounds="any record length, identifier, extra header and payload lengths, data offset, sample count; 10 encoding codes, both formats and byte orders"),
 Job("steim", "parse.c", "h_bounds_steim", [SE_], EHX, procs=8, bounds="0..3 frames, each empty or with one nonzero byte, 0, 1 or 63 extra bytes"),
]
JOBS["P02"] = [
 Job("pack3", "pk.c", "h_pack3", [SE_], EHX, procs=8, reach=("end", "refused"), bounds="identifiers of 0, 1, 16 and 63 characters, extra headers of 0, 1, 7 bytes of any content, 7 encodings, 0..3 samples of any value, any time of 4 days, any rate bits that need no division and 3 that do, any flags and publication version, 3 maximum record lengths; one part symbolic at a time"),
]
JOBS["P03"] = [
 Job("pack2", "pk.c", "h_pack2", [SE_], EHX, procs=8, bounds="3 identifiers, 7 encodings, 0..3 samples of any value, any time of 4 days, 15 rates, any flags and publication version, 3 record lengths"),
 Job("flags", "pkx.c", "h_flags", [], UNP, procs=4, bounds="each of 20 flag, correction and quality extra headers set, unset and absent, with every record flag combination, real JSON library"),
 Job("blkts", "pkx.c", "h_blkts", [], UNP, procs=4, bounds="10 event, calibration and timing extra headers to blockettes 200, 201, 300, 310, 320, 390, 395, 500 and back"),
]
JOBS["P07"] = [
 Job("crc", "pk.c", "h_crc3", [SE_], EHX, procs=4, reach=("end", "refused"), bounds="records with 0..2 samples of any value (4 encodings), any flags; any stored CRC"),
 Job("byte", "pk.c", "h_crcbyte", [SE_], EHX, procs=4, bounds="any change of any one byte except the length fields"),
]
JOBS["P10"] = [
 Job("split", "pk.c", "h_split", [SE_], EHX, procs=8, reach=("flush", "keep", "none"), bounds="both versions, 7 encodings, records of 2 to 18 samples, 0 to 3 records and a remainder, any sample values, 8 rates (two with periods that are not whole nanoseconds), 5 start times, with and without flushing"),
 Job("huge", "pk.c", "h_huge", [SE_], EHX, procs=4, bounds="65534 to 66000 text samples in version 2 records of 131072 bytes"),
]
JOBS["P11"] = [
 Job("repack", "pk.c", "h_repack", [SE_], EHX, procs=8, reach=("end", "refused"), bounds="sources of both versions and byte orders, 13 encodings, 0..2 samples of any value, changed and unchanged header values, 6 buffer lengths around what is needed"),
 Job("headbuf", "pk.c", "h_header2buf", [SE_], EHX, reach=("end", "refused"), bounds="buffers of 0..79 bytes, every combination of fixed blockettes, both versions"),
]
TRC = ["tracelist.c"] + UNP
JOBS["P06"] = [
 Job("raw2", "raw.c", "h_raw2", ["-DLENS={64}"], UNP, extra=(), procs=8, reach=("clean", "errors"), bounds="64-byte version 2 records, blockettes at every offset, any content of numeric fields, both byte orders; every logged text is read as printf would"),
 Job("raw2far", "raw.c", "h_raw2", ["-DLENS={256}", "-DNEAR"], UNP, extra=(), procs=8, reach=("errors",), bounds="256-byte records, blockettes at the start or ending near the end"),
 Job("raw2c", "raw.c", "h_raw2c", [], UNP, extra=(), procs=4, bounds="chains of blockettes"),
 Job("raw2h", "raw.c", "h_raw2h", [], UNP, extra=(), procs=4, bounds="any header content, every buffer length, explicit and automatic byte order"),
 Job("raw3", "raw.c", "h_raw3", [], UNP, extra=(), procs=4, bounds="version 3 headers of any content in buffers of every length"),
 Job("own2", "pk.c", "h_pack2", [SE_, "-DRAWCHECK"], EHX, procs=8, reach=("raw", "end"), bounds="every record of check P03"),
 Job("own3", "pk.c", "h_pack3", [SE_, "-DRAWCHECK"], EHX, procs=8, reach=("raw", "end"), bounds="every record of check P02 whose identifier has 4 characters"),
]
JOBS["P09"] = [
 Job("time", "map2.c", "h_time", [SE_], EHX, bounds="any time fields and microsecond offset of representative days, correction applied or not"),
 Job("flag", "map2.c", "h_flag", [SE_], EHX, bounds="any flag bytes"),
 Job("fields", "map2.c", "h_fields", [SE_], EHX, bounds="identifier fields, quality, rate factor and multiplier"),
 Job("blk", "map2.c", "h_blk", [SE_], EHX, bounds="blockettes of every mapped type with any content"),
]
JOBS["L01"] = [
 Job("ids", "trace.c", "h_account", [], TRC, procs=8, bounds="3 records of 2 identifiers and versions, times on a quarter-period grid over 8 periods, 0, 1 or 4 samples, split by version or not"),
 Job("one", "trace.c", "h_account", ["-DONEID", "-DTLS=0"], TRC, procs=8, bounds="3 records of one identifier and 2 rates, default tolerance, healing on and off"),
 Job("tol", "trace.c", "h_account", ["-DONEID", "-DTLS=2"], TRC, procs=8, bounds="the same with a time tolerance of one period"),
 Job("tol0", "trace.c", "h_account", ["-DONEID", "-DTLS=1"], TRC, procs=8, tiers=T, time=600, bounds="the same with a time tolerance of zero"),
 Job("links", "trace.c", "h_links", [], TRC, procs=4, reach=("end", "joined"), bounds="3 segments added in any order, then 1 or 2 records at any of 256 offsets around the gaps between them, then one at the end; healing on and off, another identifier interleaved or not"),
]
JOBS["L02"] = [
 Job("merge", "trace.c", "h_merge", [], TRC, procs=8, reach=("apart", "merged"), bounds="one segment, then one record at any time within 34 s (to the nanosecond), 10 rates, 6 time and 5 rate tolerances, healing on and off"),
 Job("among", "trace.c", "h_among", [], TRC, procs=4, reach=("near", "new"), bounds="a record at any time around the edge of one of two overlapping segments of 4 layouts, added in either order, with or without a later third segment, 4 tolerances, healing on and off"),
 Job("heal", "trace.c", "h_heal", [], TRC, procs=4, reach=("extended", "joined", "new"), bounds="a record at any time around a gap between two segments, neighbours, 3 rates"),
]
JOBS["L03"] = [Job("order", "trace.c", "h_order", [], TRC, procs=8, bounds="up to 5 records of 1 or 2 samples of any value in every arrival order, 4 sample types, healing on and off, with and without record lists and pre-allocation"),
 Job("order7", "trace.c", "h_order", ["-DSLOTS=7"], TRC, procs=8, tiers=T, time=850, bounds="the same with up to 7 records"),
 Job("order6", "trace.c", "h_order", ["-DSLOTS=6"], TRC, procs=8, bounds="the same with up to 6 records")]
JOBS["L04"] = [Job("from_" + t, "trace.c", "h_convert", ["-DFROM='%s'" % t], TRC, procs=4, reach=("end",) if 0 else (("float",) if t == "i" else ("float", "int", "refused")), bounds="1..3 samples, any value at any position, every target type, truncation allowed or not") for t in "ifd"]
JOBS["L04"] += [Job("exp_" + t, "trace.c", "h_convert", ["-DFROM='%s'" % t, "-DONEEXP"], TRC, procs=4, reach=("int",), bounds="conversion to integers, truncation allowed, with one binary exponent at a time, from 2^-24 to 2^33") for t in "fd"]
EHT = ["tracelist.c"] + EHX
JOBS["L05"] = [
 Job("pack", "tlp.c", "h_tlpack", [SE_], EHT, procs=8, reach=("end", "flushed", "kept", "partial"), bounds="1 or 2 identifiers, 1 or 2 segments, 4 sample types, 1 to 2 records and a remainder, every flag combination, then more data and a flush; any sample values, both record versions"),
 Job("fail", "tlp.c", "h_tlfail", [SE_], EHT, bounds="record lengths without room for a sample"),
]
JOBS["L06"] = [Job("unpack", "tlp.c", "h_tlunpack", [SE_], EHT, procs=8, reach=("end", "small"), bounds="3 records in every order, 8 encodings and mixes, versions 2 and 3, every combination of header and payload byte order, any sample values, no output buffer, an exact and a short one"),
 Job("unpack4", "tlp.c", "h_tlunpack4", [SE_], EHT, procs=8, bounds="4 records in every order (segments joined and then extended), 3 encodings, versions 2 and 3, with and without pre-allocation and output buffer, each record decoded on its own for comparison")]
JOBS["L07"] = [
 Job("ids", "trace.c", "h_ids", [], TRC, procs=8, bounds="up to 3 additions of 5 identifiers at 3 index heights, 2 versions, split or not; every identifier looked up"),
 Job("ids4", "trace.c", "h_ids", ["-DNIDS=4", "-DNH=2", "-DNSN=3"], TRC, procs=8, bounds="up to 4 additions of 3 identifiers at 2 index heights"),
 Job("sym", "trace.c", "h_ids", ["-DSYMSID", "-DNIDS=2"], TRC, procs=8, bounds="2 identifiers of any second byte, any third looked up"),
 Job("sym3", "trace.c", "h_ids", ["-DSYMSID", "-DNIDS=3", "-DNH=2"], TRC, procs=8, tiers=T, time=600, bounds="3 such identifiers"),
]
FIL = ["fileutils.c", "msio.c", "tracelist.c", "selection.c"] + EHX
SFL = ["fileutils.c", "msio.c", "tracelist.c", "selection.c"] + UNP
JOBS["L06"] += [Job("file", "tlp.c", "h_tlfile", [SE_, "-DFILES"], FIL, reach=("end",), bounds="record lists of a file read through a file parameter, with and without a time window; any sample values")]
JOBS["S06"] = [
 Job("lines", "sfile.c", "h_lines", [], SFL, procs=8, reach=("bad", "end"), bounds="1 to 3 lines of each field layout (patterns, separate codes, 1 to 5 fields, valid and malformed times, comments, blank and unrecognized lines), with and without a final newline"),
 Job("chars", "sfile.c", "h_chars", [], SFL, procs=8, reach=("comment", "end"), bounds="a line beginning with any characters"),
 Job("long", "sfile.c", "h_long", [], SFL, procs=4, reach=("comment", "end"), bounds="comments and selections longer than the line buffer"),
]
JOBS["F01"] = [Job("read", "file.c", "h_read", [SE_], FIL, procs=8, reach=("end", "empty"), bounds="up to 3 records of 6 kinds (lengths 40 to 256, versions 2 and 3, both byte orders), reads cut into any of several sizes, the last record whole or truncated, by path name and by descriptor; any payload bytes"),
 Job("select", "file.c", "h_select", [SE_], FIL, procs=4, reach=("end", "two"), bounds="3 records of 3 kinds, a selection by time window (closed or open) and version that leaves any of them out")]
JOBS["F02"] = [
 Job("range", "file.c", "h_range", [SE_], FIL, procs=8, reach=("end", "record"), bounds="3 records, 7 starts and 12 ends around every record boundary, two written forms, names that contain @"),
 Job("path", "file.c", "h_path", [SE_], FIL, procs=8, reach=("empty", "name", "range"), bounds="up to 4 characters of any value behind an @"),
 Job("pathlen", "file.c", "h_pathlen", [SE_], FIL, procs=4, reach=("end", "long"), bounds="path names of lengths around the limit of the path field, with and without range"),
]
JOBS["F03"] = [
 Job("junk", "file.c", "h_junk", [SE_], FIL, procs=8, reach=("end", "report"), bounds="junk of any bytes and several lengths before, between and after 2 records, skipping on and off, cut reads"),
 Job("nodata", "file.c", "h_nodata", [SE_], FIL, reach=("end",), bounds="streams without any record"),
]
JOBS["X01"] = [
 Job("int", "eh.c", "h_int", [D(IBITS=5)[0]], UNP, procs=8, bounds="8 ranges of 32 consecutive 64-bit integers (around 0, the 32-bit limits, both 64-bit extremes), 7 paths, 2 base documents, with and without parse state"),
 Job("int9", "eh.c", "h_int", [D(IBITS=8)[0]], UNP, procs=8, tiers=T, time=700, bounds="ranges of 256 integers"),
 Job("num", "eh.c", "h_num", [], UNP, procs=4, bounds="16 floating point values (signed zero, subnormal, largest, exact and inexact), 7 paths, 2 base documents, with and without parse state"),
 Job("str", "eh.c", "h_str", [], UNP, procs=8, bounds="text of 0 to 2 of any ASCII characters, 7 paths, 2 base documents"),
 Job("bool", "eh.c", "h_bool", [], UNP, bounds="any int as truth value"),
 Job("fail", "eh.c", "h_fail", [], UNP, reach=("now", "late"), bounds="12 kinds of update that cannot be made (any first path character and any type code among them), with and without parse state"),
 Job("seq", "eh.c", "h_seq", [], UNP, procs=4, bounds="every sequence of 3 sets and reads of 4 paths through a parse state, then serialization"),
 Job("merge", "eh.c", "h_merge", [], UNP, bounds="merge patch that replaces, removes and adds"),
 Job("replace", "eh.c", "h_replace", [], UNP, reach=("end", "bad"), bounds="replacement by nothing, valid and invalid text"),
 Job("room", "eh.c", "h_room", [], UNP, bounds="text of 0..4 characters into 1..6 bytes"),
 Job("state", "eh.c", "h_state", [], UNP, procs=4, bounds="any 2 of 7 operations (sets, merge patch, appended groups) through one parse state, any value read before, every value read after each"),
 Job("add", "eh.c", "h_add", [], UNP, bounds="event detection, calibration, timing exception and recenter groups, minimal and full, one or two, with and without parse state, with and without other headers"),
]
APP = ["genutils.c", "gmtime64.c", "lookup.c", "msrutils.c"]
JOBS["A01"] = [
 Job("time", "app.c", "h_time", [], APP, procs=8, reach=("end", "error"), bounds="3 records in 1 or 2 files at any time within 34 s (to the nanosecond), 0 or 3 samples, 3 start and 3 end limits or none, record counts 0, 1, 2, 7 or none, a match or reject pattern (without both limits), reading ended by end of file or an error"),
 Job("time1", "app.c", "h_time", ["-DCZ=1"], APP, procs=8, tiers=T, reach=("end", "error"), bounds="the same with 1 or 3 samples"),
 Job("time4", "app.c", "h_time", ["-DNR=4"], APP, procs=8, tiers=T, time=700, reach=("end", "error"), bounds="the same with 4 records"),
 Job("match", "app.c", "h_glob", ["-DWHICH=1"], APP, procs=4, reach=("printed", "left out"), bounds="any identifier of 0 to 3 printable characters, match pattern of 1 or 2 elements (letters, ?, *, [set], [^set], [range], escaped)"),
 Job("reject", "app.c", "h_glob", ["-DWHICH=2"], APP, procs=4, reach=("printed", "left out"), bounds="match or reject pattern of the same kind"),
 Job("both", "app.c", "h_glob", ["-DWHICH=3", "-DNEL=1", "-DSL=2"], APP, procs=4, reach=("printed", "left out"), bounds="match and reject pattern of 1 element each, identifiers of 0 to 2 characters"),
 Job("match3", "app.c", "h_glob", ["-DWHICH=1", "-DNEL=3", "-DSL=4"], APP, procs=8, reach=("printed", "left out"), bounds="match pattern of 1 to 3 elements, identifiers of 0 to 4 characters"),
 Job("out", "app.c", "h_out", [], APP, procs=4, bounds="3 records at any time around an end limit; 6 trace and gap list options, binary output, record output, 3 forms of sample printing, raw printing"),
 Job("list", "app.c", "h_list", [], APP, procs=8, bounds="list files of up to 6 characters (newlines, comment marks, names)"),
]
