#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the lines stay editable)."""
import json, os
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
L="libmseed/"
p("C01","Steim-1 compression is lossless",
  "Packing any sequence of 32-bit integers with Steim-1 and decoding the result yields exactly the samples that were packed, in order, in either byte order; the encoder never writes beyond the output space it was given and reports how much it packed. The decoded words follow the SEED Steim-1 layout (control nibbles, 8/16/32-bit differences, forward and reverse integration constants).",
  "for every sample sequence, sample count, output size, initial difference and byte order",
  "Two fixed sine-like test series reach only a few difference widths and group alignments; which word layout is used depends on every combination of neighbouring differences.",
  [L+"packdata.c",L+"unpackdata.c"],[("msr_encode_steim1","libmseed/packdata.c"),("msr_decode_steim1","libmseed/unpackdata.c")],observe=["msr_encode_steim1","msr_decode_steim1"])
p("C02","Steim-2 compression is lossless or refused",
  "Packing any sequence of 32-bit integers with Steim-2 and decoding the result yields exactly the packed samples, in order, in either byte order; a sequence with a sample-to-sample difference that does not fit in 30 bits is refused with an error instead of being corrupted. The encoder never writes beyond its output space, and decoding any frame follows the SEED Steim-2 layout (4/5/6/8/10/15/30-bit differences).",
  "for every sample sequence, sample count, output size, initial difference and byte order; for every frame content on decoding",
  "Existing tests cover a few fixed series; the seven packings and their boundary values are chosen by data-dependent look-ahead.",
  [L+"packdata.c",L+"unpackdata.c"],[("msr_encode_steim2","libmseed/packdata.c"),("msr_decode_steim2","libmseed/unpackdata.c")])
p("C03","Uncompressed encodings round-trip bit-exactly",
  "Text, 16-bit and 32-bit integer, and 32-bit and 64-bit float payloads decode to exactly the values that were encoded, in either byte order, for the number of samples that fit the output space; 16-bit integer packing refuses values outside the 16-bit range.",
  "for every sample value, count, buffer size and byte order",
  "Tests decode fixed reference files with small fixed values; byte-order, sign and length boundary behaviour is not sampled.",
  [L+"packdata.c",L+"unpackdata.c"],[("msr_encode_int16/int32/float32/float64/text","libmseed/packdata.c"),("msr_decode_int16/int32/float32/float64","libmseed/unpackdata.c")])
p("C04","Legacy encodings decode to their published formulas",
  "CDSN, SRO, DWWSSN and the three GEOSCOPE encodings decode every sample word to the value given by the published format definition (mantissa, sign, gain/exponent), in either byte order.",
  "for every 16-bit / 24-bit word and byte order",
  "One oddball reference file per encoding is decoded; most gain and sign codes never occur in it.",
  [L+"unpackdata.c"],[("msr_decode_cdsn/sro/dwwssn/geoscope","libmseed/unpackdata.c")])
p("C05","Decoding never reads or writes outside its buffers",
  "Decoding a data payload of any content and any declared encoding, sample count and length never reads outside the payload and never writes outside the output buffer supplied; too small an output or payload yields an error or fewer samples, and the reported sample count never exceeds what was asked for or what the output holds.",
  "for every payload content, encoding, declared count, payload length and output size",
  "Tests only decode well-formed payloads whose sizes agree with the declared sample count.",
  [L+"unpack.c",L+"unpackdata.c"],[("ms_decode_data","libmseed/unpack.c"),("msr3_unpack_data","libmseed/unpack.c")])
p("P01","Record detection is correct and confined to the buffer",
  "Given any byte buffer, record detection reports a format version and record length only for a valid v2 or v3 header signature, reports for v3 exactly the fixed header plus identifier, extra header and payload lengths and for v2 the length given by Blockette 1000 (or the distance to the next header), reports unknown length when more bytes are needed, and never reads outside the buffer.",
  "for every buffer content and every buffer length",
  "Tests detect a few well-formed files; truncated buffers, hostile blockette chains and length-field extremes are not sampled.",
  [L+"parseutils.c",L+"mseedformat.h"],[("ms3_detect","libmseed/parseutils.c")])
p("P02","miniSEED 3 records parse back to what was packed",
  "A record packed as miniSEED 3 from any valid header values, identifier, extra headers and samples parses back to the same identifier, start time to the nanosecond, sample rate or period, encoding, publication version, flags, extra headers, sample count and samples, and its on-disk header fields follow the FDSN miniSEED 3 layout.",
  "for every header field value, identifier, extra header and sample value",
  "write.trace packs one series with fixed headers; field boundary values (nanoseconds, day 366, rates/periods, flag bits, lengths) are not sampled.",
  [L+"pack.c",L+"unpack.c"],[("msr3_pack (version 3)","libmseed/pack.c"),("msr3_unpack_mseed3","libmseed/unpack.c")])
p("P03","miniSEED 2 records parse back to what was packed",
  "A record packed as miniSEED 2 from any valid header values representable in that format parses back to the same identifier, start time to the microsecond, sample rate (to the precision of its factor and multiplier or its 32-bit float), encoding, quality/publication version, sample count and samples, and uses the header and blockette layout of the SEED manual.",
  "for every header field value, identifier and sample value representable in miniSEED 2",
  "write.trace packs one series; microsecond/tenth-millisecond splitting, rate factors, and quality mapping are not sampled.",
  [L+"pack.c",L+"unpack.c"],[("msr3_pack (version 2)","libmseed/pack.c"),("msr3_unpack_mseed2","libmseed/unpack.c")])
p("P04","Parsing any miniSEED 3 bytes is memory-safe",
  "Parsing any byte buffer presented as a miniSEED 3 record never reads outside the supplied record, never writes outside the library's own structures, and either returns an error or a record whose identifier, extra header and payload lengths lie within the record.",
  "for every record content and length",
  "Tests parse well-formed reference files only; a parser of untrusted bytes must hold for all contents.",
  [L+"unpack.c",L+"parseutils.c"],[("msr3_parse","libmseed/parseutils.c"),("msr3_unpack_mseed3","libmseed/unpack.c")])
p("P05","Parsing any miniSEED 2 bytes is memory-safe",
  "Parsing any byte buffer presented as a miniSEED 2 record, with any chain of blockettes, never reads outside the supplied record, never writes outside the library's own structures, always terminates, and returns an error or a record whose payload lies within the record.",
  "for every record content, blockette chain and length",
  "Tests parse well-formed reference files only; blockette offsets, types and lengths are attacker-controlled.",
  [L+"unpack.c",L+"parseutils.c"],[("msr3_unpack_mseed2","libmseed/unpack.c"),("ms2_blktlen","libmseed/unpack.c")])
p("P06","Raw header diagnostics are memory-safe and agree with the format",
  "The raw v2 and v3 header inspection of any byte buffer never reads outside the supplied length, always terminates, and reports no errors for a record the library itself packed (with an identifier of at least four characters and a year up to 2100).",
  "for every buffer content, length, detail level and byte-order hint",
  "The raw inspection routines are not exercised by the test suite at all.",
  [L+"parseutils.c"],[("ms_parse_raw3","libmseed/parseutils.c"),("ms_parse_raw2","libmseed/parseutils.c")])
p("P07","A miniSEED 3 record with a wrong CRC is rejected",
  "Every miniSEED 3 record the library packs carries the CRC-32C of the record computed with the CRC field zeroed; with validation requested a record is accepted exactly when its stored CRC equals that value, so any corruption of a single byte (other than the bytes that state the record's length) is rejected, and parsing leaves the caller's bytes as they were.",
  "for every record content and every corruption within the bounds",
  "One fixed file with a valid CRC is parsed; acceptance of a wrong CRC is not sampled.",
  [L+"unpack.c",L+"pack.c",L+"crc32c.c"],[("msr3_unpack_mseed3 CRC validation","libmseed/unpack.c"),("CRC calculation when packing","libmseed/pack.c")])
p("P08","The CRC is CRC-32C for any length, alignment and chunking",
  "The checksum of any byte sequence equals the reflected Castagnoli CRC-32C (polynomial 0x82F63B78), independent of the buffer's alignment and of how the sequence is split into successive calls.",
  "for every byte sequence, alignment, initial value and split point",
  "One aligned buffer is checked against one constant; head/tail alignment and slice-by-N table entries are barely touched.",
  [L+"crc32c.c"],[("ms_crc32c","libmseed/crc32c.c")])
p("P09","miniSEED 2 header fields map to the documented record fields",
  "Parsing a miniSEED 2 record yields the start time given by the header time plus Blockette 1001 microseconds plus the time correction when not already applied, the sample rate given by factor and multiplier or overridden by Blockette 100, the encoding and length given by Blockette 1000, the documented flag mapping, and extra headers for the activity, I/O and quality flags, timing quality and known blockettes, in either header byte order.",
  "for every fixed-header field value, flag combination and byte order",
  "Tests check a couple of reference records in which most flags and corrections are zero.",
  [L+"unpack.c"],[("msr3_unpack_mseed2","libmseed/unpack.c"),("ms_nomsamprate","libmseed/unpack.c"),("ms_btime2nstime","libmseed/unpack.c")])
p("P10","Packing splits data into continuous bounded records without loss",
  "Packing any number of samples into records of any allowed length emits records no longer than the maximum, that together contain every sample exactly once and in order when flushing (or a prefix of them, of the reported count, when not), each record starting one sample period after the last sample of the previous record.",
  "for every sample count, encoding, maximum record length, sample rate and start time",
  "write.trace packs one series with one length per format; record boundaries at arbitrary counts are not sampled.",
  [L+"pack.c"],[("msr3_pack","libmseed/pack.c"),("msr_pack_data","libmseed/pack.c")],over=("inputs","histories"))
p("P11","Repacking and header rebuilding preserve the record",
  "Repacking a parsed record as miniSEED 3 produces a record that parses to the same header values and identical samples, with a valid CRC, never writing beyond the supplied buffer (an error is returned if the result does not fit).",
  "for every source record within the bounds and every buffer size",
  "No existing test repacks a record.",
  [L+"pack.c"],[("msr3_repack_mseed3","libmseed/pack.c"),("msr3_pack_header3/2","libmseed/pack.c")])
p("P12","Payload bounds of a record are exact and inside the record",
  "For any parsed record the reported payload offset and size are those of the format definition and always lie within the record; inconsistent headers give an error.",
  "for every record header, identifier and record length",
  "Bounds are only used indirectly on well-formed records.",
  [L+"unpack.c"],[("msr3_data_bounds","libmseed/unpack.c")])
p("T01","Epoch nanoseconds and calendar time convert exactly both ways",
  "Converting any epoch nanosecond value to year, day-of-year, hour, minute, second and nanosecond and back returns the same value, the components are those of the proleptic Gregorian calendar, and out-of-range components are reported as errors.",
  "for every representable time and every component combination",
  "time.nstime checks a handful of constants; leap-year, negative-time and sub-second borrow boundaries are not sampled.",
  [L+"genutils.c",L+"gmtime64.c"],[("ms_time2nstime, ms_nstime2time","libmseed/genutils.c"),("ms_gmtime64_r","libmseed/gmtime64.c")])
p("T02","Day-of-year and month/day conversions are mutually inverse",
  "For every valid year, converting a day-of-year to month and day and back, or the reverse, returns the original and agrees with the Gregorian calendar; invalid dates are refused.",
  "for every year, day-of-year, month and day, valid or not",
  "A few dates are tested indirectly.",
  [L+"genutils.c"],[("ms_doy2md","libmseed/genutils.c"),("ms_md2doy","libmseed/genutils.c")])
p("T03","Formatted times parse back to the same time",
  "Formatting any representable time in the ISO, SEED ordinal and UNIX epoch time string formats (every format in which times can be parsed) and every sub-second mode and parsing that string returns the same time truncated to the printed resolution, and the text shows the calendar components of that time.",
  "for every time, time format and sub-second mode",
  "time.nstime formats a handful of constants.",
  [L+"genutils.c"],[("ms_nstime2timestr(z)","libmseed/genutils.c"),("ms_timestr2nstime","libmseed/genutils.c")])
p("T04","Time string parsing is total and correct",
  "Parsing any text as a time never reads outside the string, accepts calendar, ordinal and epoch forms with 1 to 9 fractional digits, partial dates and optional trailing Z giving the time written, and reports an error for text that is not a valid time.",
  "for every string up to the bounded length",
  "A fixed list of strings is parsed.",
  [L+"genutils.c"],[("ms_timestr2nstime, ms_mdtimestr2nstime, ms_seedtimestr2nstime","libmseed/genutils.c")])
p("T05","Sample times and end times follow the sample rate",
  "The time of the n-th sample is the start time plus n sample periods (rate in Hz, or period if negative), non-decreasing in n, unchanged for zero offset or rate, reduced by a leap second exactly when one (at most) occurs in the covered interval, and the end time of a record is the time of its last sample.",
  "for every start time, offset and rate within the bounds",
  "Only a few rates occur in the reference data and no leap second falls in any of it.",
  [L+"genutils.c",L+"msrutils.c"],[("ms_sampletime","libmseed/genutils.c"),("msr3_endtime","libmseed/msrutils.c")])
p("T06","SEED rate factor and multiplier represent the sample rate",
  "Interpreting any SEED sample rate factor and multiplier gives the rate of the SEED definition, and generating a factor and multiplier for any representable rate yields a pair whose interpretation is that rate.",
  "for every factor/multiplier pair, and every rate in the bounded families",
  "A few common rates are exercised.",
  [L+"pack.c",L+"unpack.c"],[("ms_genfactmult (miniSEED 2 packing)","libmseed/pack.c"),("ms_nomsamprate","libmseed/unpack.c")])
p("S01","Source identifiers and network/station/location/channel codes convert",
  "Building a source identifier from codes and splitting it again returns the same codes (SEED channels mapped to and from their band_source_subsource form), results never exceed the supplied identifier length, and malformed identifiers are refused.",
  "for every combination of codes and every identifier within the bounded lengths",
  "SID tests use a fixed table of identifiers.",
  [L+"genutils.c"],[("ms_nslc2sid","libmseed/genutils.c"),("ms_sid2nslc","libmseed/genutils.c")])
p("S02","SEED channels map to extended channels and back",
  "Every three-character SEED channel converts to band_source_subsource and back unchanged, extended channels with single-character codes convert back to the same three characters, and anything not representable is refused.",
  "for every channel string up to the bounded length",
  "Only channels in the identifier table are converted.",
  [L+"genutils.c"],[("ms_seedchan2xchan","libmseed/genutils.c"),("ms_xchan2seedchan","libmseed/genutils.c")])
p("S03","Fixed-width string copying is exact and bounded",
  "Copying strings to and from fixed-width header fields copies exactly the non-space (or tail-trimmed, or blank-padded) characters, never more than the stated length, terminates the destination as documented and returns the number of characters copied; UTF-8 text is truncated only at character boundaries.",
  "for every source string, field width and destination size",
  "Used indirectly with well-formed short codes only.",
  [L+"genutils.c"],[("ms_strncpclean, ms_strncpcleantail, ms_strncpopen","libmseed/genutils.c")])
p("S04","Pattern matching follows its glob definition",
  "Matching a string against a pattern with '*', '?', character sets, ranges, negation and backslash escapes accepts exactly the strings of the glob definition, terminates, and never reads outside the string or the pattern.",
  "for every pattern and string up to the bounded lengths",
  "selection.match uses a few patterns, mostly trailing '*'.",
  [L+"selection.c","src/msi.c"],[("ms3_matchselect glob matching","libmseed/selection.c"),("msi -m/-r matching","src/msi.c")])
p("S05","Selections accept exactly matching records",
  "A record matches a selection list exactly when some entry's pattern matches its identifier, the publication version equals the entry's (or the entry accepts all), and the record's time span intersects one of the entry's time windows (unset limits are open); an empty list of windows never rejects and the entry and window reported are the ones that matched.",
  "for every list of entries and windows within the bounds and every record time span",
  "selection.match probes a handful of combinations of one list.",
  [L+"selection.c"],[("ms3_matchselect","libmseed/selection.c"),("ms3_addselect","libmseed/selection.c")],over=("inputs","histories"))
p("S06","Selection files and lists mean what their lines say",
  "Every valid line of a selection file adds exactly the selection it states (pattern or codes, start, end, publication version), comment and blank lines add nothing, a line of any length is one line, and a malformed time is refused rather than becoming an open window.",
  "for every line within the bounded shapes",
  "selection tests read one fixed file and one malformed case.",
  [L+"selection.c"],[("ms3_readselectionsfile","libmseed/selection.c"),("ms3_addselect_comp","libmseed/selection.c")])
p("L01","A trace list accounts for every record added",
  "After adding records in any order, each trace identifier's segments together contain the sum of the added sample counts, identifiers' earliest and latest times equal the extremes of their segments, segment counts and links agree in both directions, and segments are kept in time order (with the default or a time tolerance up to one sample period; publication versions of at least 1 when splitting by version).",
  "for every sequence of added records (identifier, version, start time, rate, count) within the bounds",
  "trace.read adds the records of two files in file order.",
  [L+"tracelist.c"],[("mstl3_addmsr","libmseed/tracelist.c")],over=("histories","inputs"))
p("L02","Records merge only within time and rate tolerance",
  "A record extends an existing segment exactly when its start (or end) lies within the time tolerance of one sample period past the segment's end (or before its start) and its rate agrees within the rate tolerance; otherwise it forms a new segment, also with caller-supplied tolerances, and segments that become adjacent are joined when healing is enabled.",
  "for every start time, rate and tolerance within the bounds",
  "trace.read covers contiguous data and a couple of large gaps; boundaries of the tolerance are not sampled.",
  [L+"tracelist.c"],[("mstl3_addmsr","libmseed/tracelist.c"),("tolerance functions","libmseed/libmseed.h")],over=("histories","inputs"))
p("L03","Merged segments keep sample values in time order",
  "When records with decoded samples are added in any order, each segment's sample array holds the concatenation, in time order, of the samples of the records merged into it, with the right count and size.",
  "for every arrival order of up to the bounded number of records and every sample value",
  "trace.read adds in-order records; prepend and join paths are not exercised with data.",
  [L+"tracelist.c"],[("mstl3_addmsr sample buffers","libmseed/tracelist.c")],over=("histories","inputs"))
p("L04","Converting segment samples preserves values or is refused",
  "Converting a segment's samples between integer, float and double yields the nearest representable value for each sample with the count unchanged (for conversion to integers, of every value in the range of a 32-bit integer); unless truncation is allowed, a conversion to integers that would drop a fraction larger than 0.000001 or leave the range is refused leaving the data unchanged.",
  "for every sample value, type pair and count within the bounds",
  "No existing test converts samples.",
  [L+"tracelist.c"],[("mstl3_convertsamples","libmseed/tracelist.c")])
p("L05","Packing a trace list conserves samples",
  "Packing a trace list emits records whose samples are exactly those of its segments in order; without flushing, the samples not yet packed stay in the list with their start time and count adjusted, so that repeated adding and packing followed by a flush emits every sample exactly once.",
  "for every interleaving of adds and packs within the bounds",
  "write.trace packs a list once with flushing.",
  [L+"tracelist.c",L+"pack.c"],[("mstl3_pack","libmseed/tracelist.c")],over=("histories","inputs"))
p("L06","Deferred unpacking equals direct unpacking",
  "Unpacking a segment's samples later from its list of record pointers yields exactly the samples that decoding while reading would have produced, in time order, and never writes beyond the output buffer supplied.",
  "for every set of records within the bounds and every output size",
  "read.recptr tests compare a few samples of one file.",
  [L+"tracelist.c"],[("mstl3_unpack_recordlist","libmseed/tracelist.c"),("mstl3_readbuffer","libmseed/tracelist.c")],over=("histories","inputs"))
p("L07","Every trace identifier stays findable and sorted",
  "After inserting any identifiers and publication versions (of at least 1) in any order and whatever the random level heights, iterating visits each identifier exactly once in ascending order and looking up any inserted pair finds it while any other pair is not found.",
  "for every insertion order, identifier set and random level within the bounds",
  "trace.read inserts one identifier.",
  [L+"tracelist.c"],[("mstl3_findID","libmseed/tracelist.c"),("mstl3_addID","libmseed/tracelist.c")],over=("histories","inputs"))
p("F01","Reading a stream returns its records at their exact offsets",
  "Reading a file of records returns every record exactly once, in order, with its exact length and file offset, independent of how read calls are split by the operating system, then reports end of file, also when the final record is truncated; with a selection, exactly the selected records are returned.",
  "for every layout of records within the bounds and every read chunking",
  "Tests read regular files with full reads; short reads never happen.",
  [L+"fileutils.c",L+"msio.c"],[("ms3_readmsr_selection","libmseed/fileutils.c"),("msio_fread","libmseed/msio.c")],over=("inputs","fault_sequences"))
p("F02","Byte ranges in path names select exactly that range",
  "A path name suffixed with a byte range returns every record that lies wholly in the range and none that begins beyond the end offset, starting at the given offset (end offsets of at least 1), and text that is not a valid range suffix is treated as part of the name; parsing any path is memory-safe.",
  "for every path suffix and range within the bounds",
  "read.byterange reads two ranges of one file.",
  [L+"fileutils.c"],[("ms3_readmsr_selection","libmseed/fileutils.c"),("path name range parsing","libmseed/fileutils.c")])
p("F03","Skipping non-data always resynchronises and terminates",
  "With skipping requested, records separated by any bytes that do not themselves look like a miniSEED header are all returned in order and reading terminates at end of input; without it, non-data is reported as not miniSEED.",
  "for every junk content and length within the bounds",
  "No test reads a stream with embedded junk.",
  [L+"fileutils.c"],[("ms3_readmsr_selection skipping","libmseed/fileutils.c")])
p("X01","Extra header values read back as they were set",
  "Setting any extra header value and reading it back with the same path and type returns the same value, other values are unaffected, the declared length equals the serialized text, and a failed update is reported and changes nothing (with a parse state kept, at the latest when it is serialized).",
  "for every integer, float, boolean and string value, and sequence of sets, within the bounds",
  "extraheaders tests set a few fixed values.",
  [L+"extraheaders.c"],[("mseh_set_ptr_r","libmseed/extraheaders.c"),("mseh_get_ptr_r","libmseed/extraheaders.c"),("mseh_serialize","libmseed/extraheaders.c")],over=("inputs","histories"))
p("G01","Log messages are bounded and the registry keeps the newest",
  "Logging any message never reads or writes outside its message buffer, truncates to the documented maximum, and a message registry limited to N entries holds exactly the newest messages, which are emitted oldest first and removed once.",
  "for every message length and every sequence of log, emit and free calls within the bounds",
  "The test suite logs short messages only.",
  [L+"logging.c"],[("ms_rlog, ms_rlog_l","libmseed/logging.c"),("ms_rlog_emit, ms_rlog_free","libmseed/logging.c")],over=("inputs","histories"))
p("M01","Buffer pre-allocation never returns less than asked",
  "The pre-allocating memory routine returns a region at least as large as requested, keeps existing content, records the size actually allocated, grows by the configured block size, and releases memory on request.",
  "for every current size, requested size and block size within the bounds",
  "Covered only through default-sized growth.",
  [L+"genutils.c"],[("libmseed_memory_prealloc","libmseed/genutils.c")])
p("A01","The msi program prints exactly the records its options select",
  "For any combination of time limits, match, reject and record count options, msi reports, in the order read, exactly the records that satisfy all of them (a record satisfies a time limit it contains, and a pattern its identifier contains), and with no such option every record read; sample values, output files, traces and the summary cover exactly those records, every named or listed file is read once in order, and a reading error ends with a failure status.",
  "for every record start time, rate, identifier and limit value within the bounds",
  "The msi program itself has no tests in the suite.",
  ["src/msi.c"],[("main read loop","src/msi.c"),("my_globmatch","src/msi.c"),("processparam","src/msi.c"),("addlistfile","src/msi.c")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
