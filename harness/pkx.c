/* P03, P09: extra headers of miniSEED 3 against the flag fields and blockettes of miniSEED 2, with the real JSON library */
#include "libmseed.h"
#include "vp.h"
typedef unsigned char uc;
static uint64_t get (const uc *p, int n, int big) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[big ? n - 1 - i : i] << (8 * i); return v; }
static uc *rec; static int rlen;
static void handler (char *r, int n, void *priv) { rec = vp_alloc (n); memcpy (rec, r, n); rlen = n; }
static MS3Record *pack2 (char *json, int reclen, int flags)
{
  MS3Record m, *o = NULL; memset (&m, 0, sizeof m); strcpy (m.sid, "FDSN:XX_S_00_B_H_Z"); m.formatversion = 2; m.reclen = reclen; m.starttime = 1325376000123456000LL; m.samprate = 20.0; m.encoding = DE_INT32; m.flags = flags; m.pubversion = 3;
  int32_t d[2] = { 1, -2 }; m.datasamples = d; m.numsamples = m.samplecnt = 2; m.sampletype = 'i'; m.extra = json; m.extralength = json ? strlen (json) : 0; int64_t k = 0;
  VP_ASSERT (msr3_pack (&m, handler, NULL, &k, MSF_FLUSHDATA, 0) == 1, "packs"); VP_ASSERT (rlen == reclen, "length");
  VP_ASSERT (msr3_parse ((char *)rec, rlen, &o, MSF_UNPACKDATA, 0) == MS_NOERROR, "record parses"); VP_ASSERT (o->starttime == m.starttime && o->numsamples == 2 && ((int32_t *)o->datasamples)[1] == -2, "time and samples"); return o;
}
static const struct { const char *group, *name, *val; int off, bit; } fl[] = {
 { "Event", "Begin", "true", 36, 4 }, { "Event", "End", "true", 36, 8 }, { "Event", "InProgress", "true", 36, 0x40 }, { "Time", "LeapSecond", "1", 36, 0x10 }, { "Time", "LeapSecond", "-1", 36, 0x20 },
 { "Flags", "StationVolumeParityError", "true", 37, 1 }, { "Flags", "LongRecordRead", "true", 37, 2 }, { "Flags", "ShortRecordRead", "true", 37, 4 }, { "Flags", "StartOfTimeSeries", "true", 37, 8 }, { "Flags", "EndOfTimeSeries", "true", 37, 16 },
 { "Flags", "AmplifierSaturation", "true", 38, 1 }, { "Flags", "DigitizerClipping", "true", 38, 2 }, { "Flags", "Spikes", "true", 38, 4 }, { "Flags", "Glitches", "true", 38, 8 }, { "Flags", "MissingData", "true", 38, 16 }, { "Flags", "TelemetrySyncError", "true", 38, 32 }, { "Flags", "FilterCharging", "true", 38, 64 },
 { "Time", "Correction", "-0.1234", 40, 0 }, { "Time", "Correction", "2.5", 40, 0 }, { "Time", "Quality", "87", 0, 0 }, { NULL } };
void h_flags (void)
{
  int k = vp_concretize (vp_u8 () % 21), f = vp_concretize (vp_u8 () & 7), off = vp_concretize (vp_u8 () & 1); char js[128]; js[0] = 0;
  if (k < 20) { strcpy (js, "{\"FDSN\":{\""); strcat (js, fl[k].group); strcat (js, "\":{\""); strcat (js, fl[k].name); strcat (js, "\":"); strcat (js, fl[k].bit && off && k != 3 && k != 4 ? "false" : fl[k].val); strcat (js, "}}}"); }
  int on = k < 20 && !(fl[k].bit && off && k != 3 && k != 4); MS3Record *o = pack2 (k < 20 ? js : NULL, 256, f);
  int e36 = f & 1, e37 = (f & 4) << 3, e38 = (f & 2) << 6; int32_t tc = 0; if (on && fl[k].bit) { if (fl[k].off == 36) e36 |= fl[k].bit; if (fl[k].off == 37) e37 |= fl[k].bit; if (fl[k].off == 38) e38 |= fl[k].bit; }
  if (k == 17) { tc = -1234; e36 |= 2; } if (k == 18) { tc = 25000; e36 |= 2; }
  VP_ASSERT (rec[36] == e36 && rec[37] == e37 && rec[38] == e38, "flag fields"); VP_ASSERT ((int32_t)get (rec + 40, 4, 1) == tc, "time correction field");
  VP_ASSERT (get (rec + 56, 2, 1) == 1001 && rec[60] == (k == 19 ? 87 : 0) && rec[61] == 56, "blockette 1001 fields");
  VP_ASSERT (o->flags == f, "flags read back"); char path[64]; if (k < 20) { strcpy (path, "/FDSN/"); strcat (path, fl[k].group); strcat (path, "/"); strcat (path, fl[k].name);
    int b = 0; int64_t i = 0; double n = 0; char t = k == 3 || k == 4 || k == 19 ? 'i' : k >= 17 ? 'n' : 'b'; int g = mseh_get_ptr_r (o, path, t == 'i' ? (void *)&i : t == 'n' ? (void *)&n : (void *)&b, t, 0, NULL);
    VP_ASSERT (on ? g == 0 : g != 0, "extra header present"); if (on) VP_ASSERT (t == 'b' ? b : t == 'i' ? i == (k == 3 ? 1 : k == 4 ? -1 : 87) : n == tc / 10000.0, "extra header value"); }
  VP_REACH ("end");
}
/* blockettes: JSON, blockette type, fields (offset, width, value; width 0: text), values read back */
typedef struct { int off, w; double v; const char *s; } Fld; /* w < 0: float */
static const char *js_[] = {
 "{\"FDSN\":{\"Event\":{\"Detection\":[{\"Type\":\"GENERIC\",\"SignalAmplitude\":80.5,\"SignalPeriod\":0.5,\"BackgroundEstimate\":18,\"Wave\":\"DILATATION\",\"Units\":\"VOLTS\",\"OnsetTime\":\"2022-06-05T20:32:39.1234Z\",\"Detector\":\"Mod X\"}]}}}",
 "{\"FDSN\":{\"Event\":{\"Detection\":[{\"Type\":\"MURDOCK\",\"SignalAmplitude\":80.5,\"SignalPeriod\":0.5,\"BackgroundEstimate\":18,\"Wave\":\"COMPRESSION\",\"OnsetTime\":\"2022-06-05T20:32:39.1234Z\",\"MEDSNR\":[1,2,3,4,5,6,7,8],\"MEDLookback\":2,\"MEDPickAlgorithm\":1,\"Detector\":\"Mod Y\"}]}}}",
 "{\"FDSN\":{\"Time\":{\"Exception\":[{\"Time\":\"2022-06-05T20:32:39.123456Z\",\"VCOCorrection\":50.5,\"ReceptionQuality\":90,\"Count\":65537,\"Type\":\"MISSING\",\"ClockStatus\":\"Drift 1\"}]},\"Clock\":{\"Model\":\"Acme\"}}}",
 "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"STEP\",\"BeginTime\":\"2022-06-05T20:32:39.1234Z\",\"EndTime\":\"2022-06-05T20:33:40.5678Z\",\"Steps\":3,\"StepFirstPulsePositive\":true,\"StepAlternateSign\":true,\"Trigger\":\"AUTOMATIC\",\"Continued\":true,\"Duration\":1.5,\"StepBetween\":0.25,\"Amplitude\":2.5,\"InputChannel\":\"BHZ\",\"ReferenceAmplitude\":7,\"Coupling\":\"RESISTIVE\",\"Rolloff\":\"3DB\"}]}}}",
 "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"SINE\",\"BeginTime\":\"2022-06-05T20:32:39.1234Z\",\"Trigger\":\"MANUAL\",\"AmplitudeRange\":\"PEAKTOPEAK\",\"Duration\":1.5,\"SinePeriod\":0.125,\"Amplitude\":2.5,\"InputChannel\":\"BHZ\",\"ReferenceAmplitude\":7,\"Coupling\":\"RESISTIVE\",\"Rolloff\":\"3DB\"}]}}}",
 "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"PSEUDORANDOM\",\"BeginTime\":\"2022-06-05T20:32:39.1234Z\",\"AmplitudeRange\":\"RANDOM\",\"Duration\":1.5,\"Amplitude\":2.5,\"InputChannel\":\"BHZ\",\"ReferenceAmplitude\":7,\"Coupling\":\"RESISTIVE\",\"Rolloff\":\"3DB\",\"Noise\":\"White\"}]}}}",
 "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"GENERIC\",\"BeginTime\":\"2022-06-05T20:32:39.1234Z\",\"Trigger\":\"AUTOMATIC\",\"Continued\":true,\"Duration\":1.5,\"Amplitude\":2.5,\"InputChannel\":\"BHZ\"}]}}}",
 "{\"FDSN\":{\"Event\":{\"Detection\":[{\"Type\":\"GENERIC\",\"OnsetTime\":\"2022-06-05T20:32:39.1234Z\"},{\"Type\":\"MURDOCK\",\"OnsetTime\":\"2022-06-05T20:32:39.1234Z\"}]}}}",
 "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"SINE\",\"BeginTime\":\"2022-06-05T20:32:39.1234Z\",\"AmplitudeRange\":\"ZEROTOPEAK\",\"Continued\":true}]}}}",
 "{\"FDSN\":{\"Calibration\":{\"Sequence\":[{\"Type\":\"SINE\",\"BeginTime\":\"2022-06-05T20:32:39.1234Z\",\"AmplitudeRange\":\"RMS\"}]}}}",
};
static const int jtype[] = { 200, 201, 500, 300, 310, 320, 390, 200, 310, 310 }, jlen[] = { 52, 60, 200, 60, 60, 64, 28, 52, 60, 60 }, btoff[] = { 18, 18, 8, 4, 4, 4, 4, 18, 4, 4 };
static const Fld jf[][16] = {
 { { 4, -4, 80.5 }, { 8, -4, 0.5 }, { 12, -4, 18 }, { 16, 1, 3 }, { 28, 0, 24, "Mod X" }, { 0 } },
 { { 4, -4, 80.5 }, { 8, -4, 0.5 }, { 12, -4, 18 }, { 16, 1, 0 }, { 28, 1, 1 }, { 29, 1, 2 }, { 33, 1, 6 }, { 34, 1, 2 }, { 35, 1, 1 }, { 36, 0, 24, "Mod Y" }, { 0 } },
 { { 4, -4, 50.5 }, { 18, 1, 56 }, { 19, 1, 90 }, { 20, 4, 65537 }, { 24, 0, 16, "MISSING" }, { 40, 0, 32, "Acme" }, { 72, 0, 128, "Drift 1" }, { 0 } },
 { { 14, 1, 3 }, { 15, 1, 15 }, { 16, 4, 15000 }, { 20, 4, 2500 }, { 24, -4, 2.5 }, { 28, 0, 3, "BHZ" }, { 32, 4, 7 }, { 36, 0, 12, "RESISTIVE" }, { 48, 0, 12, "3DB" }, { 0 } },
 { { 15, 1, 16 }, { 16, 4, 15000 }, { 20, -4, 0.125 }, { 24, -4, 2.5 }, { 28, 0, 3, "BHZ" }, { 32, 4, 7 }, { 36, 0, 12, "RESISTIVE" }, { 48, 0, 12, "3DB" }, { 0 } },
 { { 15, 1, 16 }, { 16, 4, 15000 }, { 20, -4, 2.5 }, { 24, 0, 3, "BHZ" }, { 28, 4, 7 }, { 32, 0, 12, "RESISTIVE" }, { 44, 0, 12, "3DB" }, { 56, 0, 8, "White" }, { 0 } },
 { { 15, 1, 12 }, { 16, 4, 15000 }, { 20, -4, 2.5 }, { 24, 0, 3, "BHZ" }, { 0 } },
 { { 16, 1, 4 }, { 0 } }, { { 15, 1, 0x28 }, { 0 } }, { { 15, 1, 0x40 }, { 0 } } };
static const struct { const char *p; char t; double n; const char *s; } jr[][18] = {
 { { "/FDSN/Event/Detection/0/Type", 's', 0, "GENERIC" }, { "/FDSN/Event/Detection/0/SignalAmplitude", 'n', 80.5 }, { "/FDSN/Event/Detection/0/SignalPeriod", 'n', 0.5 }, { "/FDSN/Event/Detection/0/BackgroundEstimate", 'n', 18 }, { "/FDSN/Event/Detection/0/Wave", 's', 0, "DILATATION" }, { "/FDSN/Event/Detection/0/OnsetTime", 's', 0, "2022-06-05T20:32:39.123400Z" }, { "/FDSN/Event/Detection/0/Detector", 's', 0, "Mod X" }, { 0 } },
 { { "/FDSN/Event/Detection/0/Type", 's', 0, "MURDOCK" }, { "/FDSN/Event/Detection/0/SignalAmplitude", 'n', 80.5 }, { "/FDSN/Event/Detection/0/MEDSNR/0", 'n', 1 }, { "/FDSN/Event/Detection/0/MEDSNR/5", 'n', 6 }, { "/FDSN/Event/Detection/0/MEDLookback", 'n', 2 }, { "/FDSN/Event/Detection/0/MEDPickAlgorithm", 'n', 1 }, { "/FDSN/Event/Detection/0/Wave", 's', 0, "COMPRESSION" }, { "/FDSN/Event/Detection/0/OnsetTime", 's', 0, "2022-06-05T20:32:39.123400Z" }, { "/FDSN/Event/Detection/0/Detector", 's', 0, "Mod Y" }, { 0 } },
 { { "/FDSN/Time/Exception/0/VCOCorrection", 'n', 50.5 }, { "/FDSN/Time/Exception/0/Time", 's', 0, "2022-06-05T20:32:39.123456Z" }, { "/FDSN/Time/Exception/0/ReceptionQuality", 'n', 90 }, { "/FDSN/Time/Exception/0/Count", 'n', 65537 }, { "/FDSN/Time/Exception/0/Type", 's', 0, "MISSING" }, { "/FDSN/Time/Exception/0/ClockStatus", 's', 0, "Drift 1" }, { "/FDSN/Clock/Model", 's', 0, "Acme" }, { 0 } },
 { { "/FDSN/Calibration/Sequence/0/Type", 's', 0, "STEP" }, { "/FDSN/Calibration/Sequence/0/BeginTime", 's', 0, "2022-06-05T20:32:39.123400Z" }, { "/FDSN/Calibration/Sequence/1/EndTime", 's', 0, "2022-06-05T20:33:40.567800Z" }, { "/FDSN/Calibration/Sequence/0/Steps", 'n', 3 }, { "/FDSN/Calibration/Sequence/0/StepFirstPulsePositive", 'b', 1 }, { "/FDSN/Calibration/Sequence/0/StepAlternateSign", 'b', 1 }, { "/FDSN/Calibration/Sequence/0/Trigger", 's', 0, "AUTOMATIC" }, { "/FDSN/Calibration/Sequence/0/Continued", 'b', 1 }, { "/FDSN/Calibration/Sequence/0/Duration", 'n', 1.5 }, { "/FDSN/Calibration/Sequence/0/StepBetween", 'n', 0.25 }, { "/FDSN/Calibration/Sequence/0/Amplitude", 'n', 2.5 }, { "/FDSN/Calibration/Sequence/0/InputChannel", 's', 0, "BHZ" }, { "/FDSN/Calibration/Sequence/0/ReferenceAmplitude", 'n', 7 }, { "/FDSN/Calibration/Sequence/0/Coupling", 's', 0, "RESISTIVE" }, { "/FDSN/Calibration/Sequence/0/Rolloff", 's', 0, "3DB" }, { 0 } },
 { { "/FDSN/Calibration/Sequence/0/Type", 's', 0, "SINE" }, { "/FDSN/Calibration/Sequence/0/Trigger", 's', 0, "MANUAL" }, { "/FDSN/Calibration/Sequence/0/AmplitudeRange", 's', 0, "PEAKTOPEAK" }, { "/FDSN/Calibration/Sequence/0/Duration", 'n', 1.5 }, { "/FDSN/Calibration/Sequence/0/SinePeriod", 'n', 0.125 }, { "/FDSN/Calibration/Sequence/0/Amplitude", 'n', 2.5 }, { "/FDSN/Calibration/Sequence/0/InputChannel", 's', 0, "BHZ" }, { "/FDSN/Calibration/Sequence/0/ReferenceAmplitude", 'n', 7 }, { "/FDSN/Calibration/Sequence/0/Coupling", 's', 0, "RESISTIVE" }, { "/FDSN/Calibration/Sequence/0/Rolloff", 's', 0, "3DB" }, { 0 } },
 { { "/FDSN/Calibration/Sequence/0/Type", 's', 0, "PSEUDORANDOM" }, { "/FDSN/Calibration/Sequence/0/AmplitudeRange", 's', 0, "RANDOM" }, { "/FDSN/Calibration/Sequence/0/Amplitude", 'n', 2.5 }, { "/FDSN/Calibration/Sequence/0/InputChannel", 's', 0, "BHZ" }, { "/FDSN/Calibration/Sequence/0/ReferenceAmplitude", 'n', 7 }, { "/FDSN/Calibration/Sequence/0/Coupling", 's', 0, "RESISTIVE" }, { "/FDSN/Calibration/Sequence/0/Rolloff", 's', 0, "3DB" }, { "/FDSN/Calibration/Sequence/0/Noise", 's', 0, "White" }, { 0 } },
 { { "/FDSN/Calibration/Sequence/0/Type", 's', 0, "GENERIC" }, { "/FDSN/Calibration/Sequence/0/Trigger", 's', 0, "AUTOMATIC" }, { "/FDSN/Calibration/Sequence/0/Continued", 'b', 1 }, { "/FDSN/Calibration/Sequence/0/Duration", 'n', 1.5 }, { "/FDSN/Calibration/Sequence/0/Amplitude", 'n', 2.5 }, { "/FDSN/Calibration/Sequence/0/InputChannel", 's', 0, "BHZ" }, { 0 } },
 { { "/FDSN/Event/Detection/0/Type", 's', 0, "GENERIC" }, { "/FDSN/Event/Detection/1/Type", 's', 0, "MURDOCK" }, { 0 } },
 { { "/FDSN/Calibration/Sequence/0/AmplitudeRange", 's', 0, "ZEROTOPEAK" }, { "/FDSN/Calibration/Sequence/0/Continued", 'b', 1 }, { 0 } }, { { "/FDSN/Calibration/Sequence/0/AmplitudeRange", 's', 0, "RMS" }, { 0 } } };
static void btime (const uc *p, int min, int sec, int frac) { VP_ASSERT (get (p, 2, 1) == 2022 && get (p + 2, 2, 1) == 156 && p[4] == 20 && p[5] == min && p[6] == sec && get (p + 8, 2, 1) == (uint64_t)frac, "blockette time"); }
void h_blkts (void)
{
  int k = vp_concretize (vp_u8 () % 10); MS3Record *o = pack2 ((char *)js_[k], 512, 0); uc *b = rec + 64;
  VP_ASSERT (get (rec + 50, 2, 1) == 56 && get (rec + 58, 2, 1) == 64, "blockette chain"); VP_ASSERT (get (b, 2, 1) == (uint64_t)jtype[k], "blockette type"); int nx = (int)get (b + 2, 2, 1);
  if (k == 3) { VP_ASSERT (nx == 64 + 60 && get (rec + nx, 2, 1) == 395 && get (rec + nx + 2, 2, 1) == 0, "blockette 395 follows"); btime (rec + nx + 4, 33, 40, 5678); VP_ASSERT (rec[39] == 4, "blockette count"); }
  else if (k == 7) VP_ASSERT (nx == 64 + 52 && get (rec + nx, 2, 1) == 201 && rec[39] == 4, "second detection follows"); else VP_ASSERT (nx == 0 && rec[39] == 3, "last blockette");
  btime (b + btoff[k], 32, 39, 1234);
  for (int i = 0; jf[k][i].off; i++) { const Fld *f = &jf[k][i];
    if (f->w > 0) VP_ASSERT (get (b + f->off, f->w, 1) == (uint64_t)f->v, "blockette field"); else if (f->w < 0) { uint32_t u; float x = (float)f->v; memcpy (&u, &x, 4); VP_ASSERT (get (b + f->off, 4, 1) == u, "blockette number"); }
    else for (int j = 0, n = strlen (f->s); j < (int)f->v; j++) VP_ASSERT (b[f->off + j] == (j < n ? f->s[j] : ' '), "blockette text"); }
  int doff = (int)get (rec + 44, 2, 1); VP_ASSERT (doff >= 64 + jlen[k] && doff <= 512 - 8, "data behind the blockettes");
  for (int i = 0; jr[k][i].p; i++) { int bv = 0; double n = 0; char s[64]; memset (s, 0, 64); char t = jr[k][i].t; int g = mseh_get_ptr_r (o, jr[k][i].p, t == 's' ? (void *)s : t == 'n' ? (void *)&n : (void *)&bv, t, t == 's' ? 63 : 0, NULL);
    VP_ASSERT (g == 0, "value read back is present"); VP_ASSERT (t == 's' ? strcmp (s, jr[k][i].s) == 0 : t == 'n' ? n == jr[k][i].n : bv == (int)jr[k][i].n, "value read back"); }
  if (k == 7) { char w[32]; VP_ASSERT (mseh_get_ptr_r (o, "/FDSN/Event/Detection/0/Wave", w, 's', 31, NULL) != 0, "undetermined wave stays undetermined"); }
  VP_REACH ("end");
}
