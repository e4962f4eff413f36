/* P09: every field of a miniSEED 2 record reaches the documented record field or extra header */
#include "libmseed.h"
#include "vp.h"
#include "ehstub.h"
typedef unsigned char uc;
static int len, big; static uc *rec;
static void put (int o, uint64_t v, int n) { for (int i = 0; i < n; i++) rec[o + (big ? n - 1 - i : i)] = (uc)(v >> (8 * i)); }
static uint64_t dbits (double d) { uint64_t u; memcpy (&u, &d, 8); return u; }
static double f32 (uint32_t u) { float f; memcpy (&f, &u, 4); return (double)f; }
#define SAME(a, b) (dbits (a) == dbits (b))
/* 2012-060T23:59:58.fsec */
#define T0 1330559998000000000LL
static void btime (int o, int fsec) { put (o, 2012, 2); put (o + 2, 60, 2); rec[o + 4] = 23; rec[o + 5] = 59; rec[o + 6] = 58; rec[o + 7] = 0; put (o + 8, fsec, 2); }
static int nx;
/* blockette of a type at the next place */
static int add (int type, int size)
{
  static int at = 48, last = 46, count = 0; int o = at; memset (rec + o, 0, size);
  put (last, o, 2); put (o, type, 2); put (o + 2, 0, 2); last = o + 2; at += size; rec[39] = (uc)++count; nx = at; return o;
}
static void start (int l)
{
  len = l; big = vp_concretize (vp_u8 () & 1); rec = vp_alloc (len); memset (rec, 0, len); memcpy (rec, "000001D STA  10BHZNN", 20); btime (20, 1234);
  put (30, 0, 2); put (32, 20, 2); put (34, 1, 2); put (44, 0, 2); put (46, 0, 2);
}
static MS3Record *parse (void)
{
  MS3Record *msr = NULL; int r = msr3_parse ((char *)rec, len, &msr, MSF_ATENDOFFILE, 0); VP_ASSERT (r == MS_NOERROR && msr != NULL, "valid record is parsed"); VP_ASSERT (msr->formatversion == 2 && !strcmp (msr->sid, "FDSN:NN_STA_10_B_H_Z"), "identifier and version"); return msr;
}
static Set *named (const char *p) { Set *x = NULL; for (int i = 0; i < nsets; i++) if (!strcmp (sets[i].ptr, p)) { VP_ASSERT (!x, "header set once"); x = &sets[i]; } return x; }
static int nam (const char *p, char type, int64_t i) { Set *x = named (p); if (!x) return 0; VP_ASSERT (x->type == type, "type of header"); VP_ASSERT (x->i == i, "value of header"); return 1; }

void h_time (void)
{
  start (128); int fs = vp_u16 () & 16383; VP_ASSUME (fs <= 9999); int act = vp_concretize (vp_u8 () & 2), usb = vp_concretize (vp_u8 () & 1); uint32_t tc = 0; uc us = 0; int which = vp_concretize (vp_u8 () % 4);
  if (which == 0) tc = vp_u32 (); else if (which == 1) tc = 0; else tc = which == 2 ? 5 : (uint32_t)-7;
  btime (20, fs); rec[36] = (uc)act; put (40, tc, 4);
  int o = add (1000, 8); rec[o + 4] = 3; rec[o + 5] = (uc)big; rec[o + 6] = 7;
  if (usb) { us = vp_u8 (); o = add (1001, 8); rec[o + 4] = 90; rec[o + 5] = us; }
  MS3Record *m = parse ();
  int64_t want = T0 + (int64_t)fs * 100000 + (int64_t)(int8_t)us * 1000 + (act ? 0 : (int64_t)(int32_t)tc * 100000);
  VP_ASSERT (m->starttime == want, "start time");
  if (vp_concretize (tc != 0)) { Set *x = named ("/FDSN/Time/Correction"); VP_ASSERT (x && x->type == 'n' && SAME (x->n, (double)(int32_t)tc / 10000.0), "time correction header"); VP_ASSERT (nsets == 1 + usb, "other headers"); VP_ASSERT (!usb || nam ("/FDSN/Time/Quality", 'i', 90), "quality header"); }
  else { VP_ASSERT (nsets == 0, "no header"); if (usb) VP_ASSERT (m->extra && !strcmp (m->extra, "{\"FDSN\":{\"Time\":{\"Quality\":90}}}") && m->extralength == strlen (m->extra), "quality header"); else VP_ASSERT (m->extra == NULL && m->extralength == 0, "no extra headers"); }
  VP_ASSERT (m->flags == 0, "no flags"); VP_REACH ("end");
}
void h_flag (void)
{
  static const char *an[8] = { 0, 0, "/FDSN/Event/Begin", "/FDSN/Event/End", "/FDSN/Time/LeapSecond", "/FDSN/Time/LeapSecond", "/FDSN/Event/InProgress", 0 };
  static const char *in[8] = { "/FDSN/Flags/StationVolumeParityError", "/FDSN/Flags/LongRecordRead", "/FDSN/Flags/ShortRecordRead", "/FDSN/Flags/StartOfTimeSeries", "/FDSN/Flags/EndOfTimeSeries", 0, 0, 0 };
  static const char *dn[8] = { "/FDSN/Flags/AmplifierSaturation", "/FDSN/Flags/DigitizerClipping", "/FDSN/Flags/Spikes", "/FDSN/Flags/Glitches", "/FDSN/Flags/MissingData", "/FDSN/Flags/TelemetrySyncError", "/FDSN/Flags/FilterCharging", 0 };
  start (128); int g = vp_concretize (vp_u8 () % 3); uc f = vp_u8 (); rec[36 + g] = f; int both = vp_concretize ((g == 0) & ((f & 0x30) == 0x30)); if (both) return;
  /* the other two flag bytes empty or full */
  int o1 = vp_concretize (vp_u8 () & 1); if (o1) for (int i = 0; i < 3; i++) if (i != g) rec[36 + i] = i == 0 ? 0x4d : 0xff;
  int o = add (1000, 8); rec[o + 4] = 3; rec[o + 5] = (uc)big; rec[o + 6] = 7; MS3Record *m = parse ();
  uc a = rec[36], io = rec[37], dq = rec[38]; int n = 0;
  for (int b = 0; b < 8; b++) { if (an[b]) { int set = vp_concretize ((a >> b) & 1); if (b == 4 || b == 5) { if (set) { VP_ASSERT (nam (an[b], 'i', b == 4 ? 1 : -1), "leap second header"); n++; } } else { VP_ASSERT (nam (an[b], 'b', 1) == set, "activity header"); n += set; } } 
    if (in[b]) { int set = vp_concretize ((io >> b) & 1); VP_ASSERT (nam (in[b], 'b', 1) == set, "I/O header"); n += set; }
    if (dn[b]) { int set = vp_concretize ((dq >> b) & 1); VP_ASSERT (nam (dn[b], 'b', 1) == set, "quality header"); n += set; } }
  VP_ASSERT (nsets == n && nserial == (n > 0), "no other headers");
  VP_ASSERT (m->flags == ((a & 1) | ((io & 0x20) ? 4 : 0) | ((dq & 0x80) ? 2 : 0)), "record flags"); VP_REACH ("end");
}
void h_fields (void)
{
  start (256); int g = vp_concretize (vp_u8 () % 6), n = vp_concretize (vp_u8 () & 1) ? 3 : 0, rl = 8, ex = 3, bo = big, q = 90, b1000 = 1, b100 = 0; uint16_t ns = 0; uint32_t fr = 0; double rate = 20.0; int pv = 2; uint16_t fac = 20, mul = 1;
  static const uint16_t lst[] = { 0, 1, 2, 7, 10, 100, 32767, 65535, 65534, 65436, 32768 };
  if (g == 0) { static const char qc[] = "MQDR"; int c = vp_concretize (vp_u8 () % 4); rec[6] = qc[c]; pv = 4 - c; }
  else if (g == 1) { ex = vp_u8 (); } /* any encoding */
  else if (g == 2) { fac = vp_u16 (); mul = lst[vp_concretize (vp_u8 () % 11)]; int sw = vp_concretize (vp_u8 () & 1); if (sw) { uint16_t t = fac; fac = mul; mul = t; } put (32, fac, 2); put (34, mul, 2);
    double f = (int16_t)fac, u = (int16_t)mul; int fz = vp_concretize (fac == 0), uz = vp_concretize (mul == 0), fp = vp_concretize ((int16_t)fac > 0), up = vp_concretize ((int16_t)mul > 0);
    rate = fz ? 0.0 : fp ? f : -1.0 / f; if (!fz) rate = uz ? rate * 0.0 : up ? rate * u : -1.0 * (rate / u); if (uz && !fz) rate = -1; }
  else if (g == 3) { b100 = 1; fr = vp_u32 (); }
  else if (g == 4) { ns = vp_u16 (); n = -1; }
  else { int c = vp_concretize (vp_u8 () % 4); b1000 = c != 0; rl = c == 1 ? 6 : c == 2 ? 7 : 8; bo = vp_concretize (vp_u8 () & 1); }
  put (30, n < 0 ? ns : n, 2); int o; int sw = vp_concretize (vp_u8 () & 1);
  if (b100 && sw) { o = add (100, 12); put (o + 4, fr, 4); }
  if (b1000) { o = add (1000, 8); rec[o + 4] = (uc)ex; rec[o + 5] = (uc)bo; rec[o + 6] = (uc)rl; }
  if (b100 && !sw) { o = add (100, 12); put (o + 4, fr, 4); }
  o = add (1001, 8); rec[o + 4] = (uc)q; int doff = n ? 64 + 64 * (g == 5 ? 0 : 1) : 0; if (g == 5 && rl == 6) doff = n ? 64 : 0; put (44, doff, 2);
  MS3Record *m = NULL;
  if (!b1000) { int r = msr3_parse ((char *)rec, len, &m, MSF_ATENDOFFILE, 0); VP_ASSERT (r == MS_NOERROR && m, "record without Blockette 1000"); VP_ASSERT (m->encoding == -1, "encoding is unknown"); VP_ASSERT (m->reclen == 256, "length"); VP_ASSERT (!!(m->swapflag & MSSWAP_PAYLOAD) == big, "payload byte order"); }
  else { m = parse (); VP_ASSERT (m->encoding == (uc)ex, "encoding"); VP_ASSERT (m->reclen == 1 << rl, "length of record"); VP_ASSERT (!!(m->swapflag & MSSWAP_PAYLOAD) == bo, "payload byte order"); }
  VP_ASSERT (!!(m->swapflag & MSSWAP_HEADER) == big, "header byte order"); VP_ASSERT (m->samplecnt == (n < 0 ? ns : n), "sample count"); VP_ASSERT (m->pubversion == pv, "publication version");
  if (b100) VP_ASSERT (SAME (m->samprate, f32 (fr)), "rate of Blockette 100"); else if (g == 2) { if (rate != -1) VP_ASSERT (SAME (m->samprate, rate) || (rate == 0.0 && m->samprate == 0.0), "sample rate"); else VP_ASSERT (1, "x"); } else VP_ASSERT (m->samprate == 20.0, "rate");
  VP_ASSERT (m->datalength == (doff ? (uint32_t)(m->reclen - doff) : 0), "payload length"); VP_ASSERT (m->starttime == T0 + 123400000 && m->flags == 0, "time and flags"); VP_REACH ("end");
}
static char txt[8][20]; static int ntxt;
/* text field of size n at o: first letter and length vary, padded with spaces */
static char *text (int o, int n, int k) { char *t = txt[ntxt++]; int l = k == 0 ? 0 : k == 1 ? 1 : n; if (l > 19) l = 19; for (int i = 0; i < n; i++) { rec[o + i] = i < l ? 'A' + (i + ntxt) % 26 : ' '; if (i < l) t[i] = (char)rec[o + i]; } t[l] = 0; return t; }
static uint32_t u32at (int o) { uint32_t v = vp_u32 (); put (o, v, 4); return v; }
static uc u8at (int o) { uc v = vp_u8 (); rec[o] = v; return v; }
static int is (const char *a, const char *b) { return !strcmp (a, b); }
void h_blk (void)
{
  static const int16_t ty[] = { 200, 201, 300, 310, 320, 390, 395, 500 }, sz[] = { 52, 60, 60, 60, 64, 28, 16, 200 };
  start (512); int k = vp_concretize (vp_u8 () % 8), tk = vp_concretize (vp_u8 () % 3), sw = vp_concretize (vp_u8 () & 1), fs = vp_u16 () & 16383, o; VP_ASSUME (fs <= 9999); int64_t bt = T0 + (int64_t)fs * 100000;
  if (sw) { o = add (1000, 8); rec[o + 4] = 3; rec[o + 5] = (uc)big; rec[o + 6] = 9; }
  o = add (ty[k], sz[k]); uint32_t a = 0, b = 0, c = 0, d = 0; uc f = 0, p = 0, q = 0, s = 0; char *t1 = "", *t2 = "", *t3 = "", *t4 = ""; uc snr[6];
  switch (k) {
  case 0: a = u32at (o + 4); b = u32at (o + 8); c = u32at (o + 12); f = u8at (o + 16); btime (o + 18, fs); t1 = text (o + 28, 24, tk); break;
  case 1: a = u32at (o + 4); b = u32at (o + 8); c = u32at (o + 12); f = u8at (o + 16); btime (o + 18, fs); for (int i = 0; i < 6; i++) snr[i] = u8at (o + 28 + i); p = u8at (o + 34); q = u8at (o + 35); t1 = text (o + 36, 24, tk); break;
  case 2: btime (o + 4, fs); p = u8at (o + 14); f = u8at (o + 15); a = u32at (o + 16); b = u32at (o + 20); c = u32at (o + 24); t1 = text (o + 28, 3, tk); d = u32at (o + 32); t2 = text (o + 36, 12, tk); t3 = text (o + 48, 12, tk); break;
  case 3: btime (o + 4, fs); f = u8at (o + 15); a = u32at (o + 16); b = u32at (o + 20); c = u32at (o + 24); t1 = text (o + 28, 3, tk); d = u32at (o + 32); t2 = text (o + 36, 12, tk); t3 = text (o + 48, 12, tk); break;
  case 4: btime (o + 4, fs); f = u8at (o + 15); a = u32at (o + 16); c = u32at (o + 20); t1 = text (o + 24, 3, tk); d = u32at (o + 28); t2 = text (o + 32, 12, tk); t3 = text (o + 44, 12, tk); t4 = text (o + 56, 8, tk); break;
  case 5: btime (o + 4, fs); f = u8at (o + 15); a = u32at (o + 16); c = u32at (o + 20); t1 = text (o + 24, 3, tk); break;
  case 6: btime (o + 4, fs); break;
  default: a = u32at (o + 4); btime (o + 8, fs); p = u8at (o + 18); q = u8at (o + 19); b = u32at (o + 20); t1 = text (o + 24, 16, tk); t2 = text (o + 40, 32, tk); t3 = text (o + 72, 128, tk); break;
  }
  if (!sw) { o = add (1000, 8); rec[o + 4] = 3; rec[o + 5] = (uc)big; rec[o + 6] = 9; }
  MS3Record *m = parse (); (void)m; VP_ASSERT (nserial == 1, "extra headers stored"); VP_ASSERT (nev == (k < 2) && ncal == (k >= 2 && k < 7) && nexc == (k == 7) && nsets == (k == 7), "one header of the kind");
  if (k < 2) {
    VP_ASSERT (is (ev.type, k ? "MURDOCK" : "GENERIC") && is (ev.detector, t1), "event text"); VP_ASSERT (SAME (ev.signalamplitude, f32 (a)) & SAME (ev.signalperiod, f32 (b)) & SAME (ev.backgroundestimate, f32 (c)), "event numbers"); VP_ASSERT (ev.onsettime == bt, "onset time");
    int dil = vp_concretize (f & 1); if (k == 0 && vp_concretize ((f & 4) != 0)) VP_ASSERT (ev.wave[0] == 0, "undetermined wave"); else VP_ASSERT (is (ev.wave, dil ? "DILATATION" : "COMPRESSION"), "wave");
    if (k == 0) { int dec = vp_concretize ((f & 2) != 0); VP_ASSERT (is (ev.units, dec ? "DECONVOLVED" : "COUNTS"), "units"); for (int i = 0; i < 6; i++) VP_ASSERT (ev.medsnr[i] == 0, "no SNR"); VP_ASSERT (ev.medlookback == -1 && ev.medpickalgorithm == -1, "no Murdock values"); }
    else { VP_ASSERT (ev.units[0] == 0, "no units"); for (int i = 0; i < 6; i++) VP_ASSERT (ev.medsnr[i] == snr[i], "SNR"); VP_ASSERT ((ev.medlookback == p) & (ev.medpickalgorithm == q), "Murdock values"); }
  } else if (k < 7) {
    static const char *tn[] = { "STEP", "SINE", "PSEUDORANDOM", "GENERIC", "ABORT" }; VP_ASSERT (is (cal.type, tn[k - 2]), "calibration type");
    if (k == 6) { VP_ASSERT ((cal.endtime == bt) & (cal.begintime == NSTERROR || cal.begintime == NSTUNSET), "time of abort"); VP_ASSERT (cal.trigger[0] == 0 && cal.continued == -1, "no flags"); }
    else { VP_ASSERT ((cal.begintime == bt) & (cal.endtime == NSTERROR || cal.endtime == NSTUNSET), "begin time"); int au = vp_concretize ((f & 4) != 0), co = vp_concretize ((f & 8) != 0); VP_ASSERT (is (cal.trigger, au ? "AUTOMATIC" : "MANUAL"), "trigger"); VP_ASSERT (cal.continued == (co ? 1 : -1), "continued"); }
    VP_ASSERT (is (cal.inputchannel, t1) && is (cal.coupling, t2) && is (cal.rolloff, t3) && is (cal.noise, t4), "calibration text"); VP_ASSERT (cal.inputunits[0] == 0, "no units");
    VP_ASSERT (SAME (cal.amplitude, f32 (c)), "amplitude"); VP_ASSERT (SAME (cal.duration, (double)a / 10000.0), "duration"); VP_ASSERT (SAME (cal.refamplitude, (double)d), "reference amplitude"); VP_ASSERT (SAME (cal.sineperiod, k == 3 ? f32 (b) : 0.0), "period"); VP_ASSERT (SAME (cal.stepbetween, k == 2 ? (double)b / 10000.0 : 0.0), "interval");
    VP_ASSERT (cal.steps == (k == 2 ? p : -1), "steps"); int fp = k == 2 && vp_concretize (f & 1), al = k == 2 && vp_concretize ((f & 2) != 0); VP_ASSERT (cal.firstpulsepositive == (fp ? 1 : -1) && cal.alternatesign == (al ? 1 : -1), "step flags");
    const char *rg = ""; if (k == 3) { if (vp_concretize ((f & 16) != 0)) rg = "PEAKTOPEAK"; else if (vp_concretize ((f & 32) != 0)) rg = "ZEROTOPEAK"; else if (vp_concretize ((f & 64) != 0)) rg = "RMS"; } else if (k == 4 && vp_concretize ((f & 16) != 0)) rg = "RANDOM"; VP_ASSERT (is (cal.amplituderange, rg), "amplitude range");
  } else {
    float v; memcpy (&v, &exc.vcocorrection, 4); VP_ASSERT (SAME ((double)exc.vcocorrection, f32 (a)), "VCO correction"); VP_ASSERT (exc.time == bt + (int64_t)(int8_t)p * 1000, "exception time"); VP_ASSERT ((exc.receptionquality == q) & (exc.count == b) & (exc.usec == 0), "exception numbers");
    VP_ASSERT (is (exc.type, t1) && !strncmp (exc.clockstatus, t3, 19), "exception text"); Set *x = named ("/FDSN/Clock/Model"); VP_ASSERT (x && x->type == 's' && !strncmp (x->s, t2, 19), "clock model");
  }
  VP_REACH ("end");
}
