/* X01: extra headers */
#include "libmseed.h"
#include "vp.h"
#include <math.h>
typedef unsigned char uc;
static const char *bases[] = { NULL, "{\"A\":{\"B\":1,\"S\":\"t\"},\"C\":[1,2],\"T\":true}" };
static const char *ptrs[] = { "/X", "/A/B", "/A/N", "/C/1", "/D/E/F", "/A/S", "/T" };
/* a value not written to still reads as before */
static void others (MS3Record *m, int base, int pi, LM_PARSED_JSON **ps)
{
  int64_t v; char s[8]; int b; if (!base) { VP_ASSERT (mseh_get_ptr_r (m, "/A/B", &v, 'i', 0, ps) == (pi == 1 ? 0 : 1) || pi == 1, "nothing else is there"); return; }
  if (pi != 1) VP_ASSERT (mseh_get_ptr_r (m, "/A/B", &v, 'i', 0, ps) == 0 && v == 1, "other number"); if (pi != 5) VP_ASSERT (mseh_get_ptr_r (m, "/A/S", s, 's', 8, ps) == 0 && !strcmp (s, "t"), "other text"); if (pi != 6) VP_ASSERT (mseh_get_ptr_r (m, "/T", &b, 'b', 0, ps) == 0 && b == 1, "other truth value"); VP_ASSERT (mseh_get_ptr_r (m, "/C/0", &v, 'i', 0, ps) == 0 && v == 1, "other element"); if (pi != 3) VP_ASSERT (mseh_get_ptr_r (m, "/C/1", &v, 'i', 0, ps) == 0 && v == 2, "other element");
}
static MS3Record *start (int base) { MS3Record *m = msr3_init (NULL); if (bases[base]) { int n = (int)strlen (bases[base]); m->extra = vp_alloc (n + 1); strcpy (m->extra, bases[base]); m->extralength = (uint16_t)n; } return m; }
static void text (MS3Record *m) { VP_ASSERT (m->extra && strlen (m->extra) == m->extralength, "declared length is that of the text"); VP_ASSERT (m->extra[0] == '{' && m->extra[m->extralength - 1] == '}', "an object"); }
#ifndef IBITS
#define IBITS 5
#endif
void h_int (void)
{
  int base = vp_concretize (vp_u8 () & 1), pi = vp_concretize (vp_u8 () % 7), keep = vp_concretize (vp_u8 () & 1); MS3Record *m = start (base); if (base == 0 && pi == 3) return; LM_PARSED_JSON *st = NULL; static const int64_t offs[] = { 0, -512, 2147483647LL, -2147483648LL, 4294967295LL, 9223372036854775000LL, INT64_MIN, 999999999999LL };
  int64_t v = offs[vp_concretize (vp_u8 () & 7)] + (vp_u16 () & ((1 << IBITS) - 1)), g = 77; if (v > 9223372036854775000LL) v = 9223372036854775000LL; VP_ASSERT (mseh_set_ptr_r (m, ptrs[pi], &v, 'i', keep ? &st : NULL) == 0, "set"); if (keep) { VP_ASSERT (mseh_serialize (m, &st) > 0, "serialized"); mseh_free_parsestate (&st); } text (m);
  VP_ASSERT (mseh_get_ptr_r (m, ptrs[pi], &g, 'i', 0, NULL) == 0 && g == v, "integer reads back"); VP_REACH ("end");
}
void h_str (void)
{
  int base = vp_concretize (vp_u8 () & 1), pi = vp_concretize (vp_u8 () % 7); MS3Record *m = start (base); if (base == 0 && pi == 3) return; char v[4], g[8]; int n = vp_concretize (vp_u8 () % 3), i; for (i = 0; i < n; i++) { v[i] = (char)vp_u8 (); VP_ASSUME (((uc)v[i] < 128) & (v[i] != 0)); } v[i] = 0;
  VP_ASSERT (mseh_set_ptr_r (m, ptrs[pi], v, 's', NULL) == 0, "set"); text (m); VP_ASSERT (mseh_get_ptr_r (m, ptrs[pi], g, 's', 8, NULL) == 0 && !strcmp (g, v), "text reads back"); others (m, base, pi, NULL); VP_REACH ("end");
}

static const double dbls[] = { 0.0, -0.0, 1.0, -1.5, 0.1, 1e-7, 123456789.125, 1e22, -2.2250738585072014e-308, 5e-324, 1.7976931348623157e308, 9007199254740993.0, 3.0e-5, -100.0, 4294967296.0, 0.30000000000000004 };
void h_num (void)
{
  int base = vp_concretize (vp_u8 () & 1), pi = vp_concretize (vp_u8 () % 7); MS3Record *m = start (base); if (base == 0 && pi == 3) return; int keep = vp_concretize (vp_u8 () & 1); LM_PARSED_JSON *st = NULL;
  double v = dbls[vp_concretize (vp_u8 () & 15)], g = 77; VP_ASSERT (mseh_set_ptr_r (m, ptrs[pi], &v, 'n', keep ? &st : NULL) == 0, "set"); if (keep) { VP_ASSERT (mseh_get_ptr_r (m, ptrs[pi], &g, 'n', 0, &st) == 0, "reads back from the parsed state"); VP_ASSERT (g == v, "same"); VP_ASSERT (mseh_serialize (m, &st) == m->extralength, "serialized"); mseh_free_parsestate (&st); } text (m);
  VP_ASSERT (mseh_get_ptr_r (m, ptrs[pi], &g, 'n', 0, NULL) == 0 && g == v && signbit (g) == signbit (v), "number reads back"); others (m, base, pi, NULL); int64_t i; VP_ASSERT (mseh_get_ptr_r (m, ptrs[pi], &i, 'i', 0, NULL) == 2, "not an integer"); VP_REACH ("end");
}
void h_bool (void)
{
  int base = vp_concretize (vp_u8 () & 1), pi = vp_concretize (vp_u8 () % 7); MS3Record *m = start (base); if (base == 0 && pi == 3) return; int v = (int)vp_u32 (), g = 77; int64_t i;
  VP_ASSERT (mseh_set_ptr_r (m, ptrs[pi], &v, 'b', NULL) == 0, "set"); text (m); VP_ASSERT (mseh_get_ptr_r (m, ptrs[pi], &g, 'b', 0, NULL) == 0 && g == (v != 0), "truth value reads back"); VP_ASSERT (mseh_get_ptr_r (m, ptrs[pi], &i, 'i', 0, NULL) == 2, "another type is told apart"); others (m, base, pi, NULL); VP_REACH ("end");
}
/* updates that cannot be made */
void h_fail (void)
{
  static const char base[] = "{\"A\":{\"B\":1,\"S\":\"t\"},\"C\":[1,2],\"T\":true}"; int k = vp_concretize (vp_u8 () % 12), keep = vp_concretize (vp_u8 () & 1), n, rv; LM_PARSED_JSON *st = NULL; MS3Record *m = start (1); char before[80]; int64_t i = 5, g; double d; static char big[70000]; int b = 1;
  if (k == 4) { strcpy (m->extra, "{\"A\":"); m->extralength = 5; } if (k == 11) { strcpy (m->extra, "[1"); m->extralength = 2; } n = m->extralength; memcpy (before, m->extra, n + 1); LM_PARSED_JSON **ps = keep ? &st : NULL; char pre = vp_u8 (); char bad[4];
  switch (k)
  {
    case 0: VP_ASSUME (pre != '/'); bad[0] = pre; bad[1] = 'A'; bad[2] = 0; rv = mseh_set_ptr_r (m, bad, &i, 'i', ps); break; case 1: rv = mseh_set_ptr_r (m, "/A/B/C", &i, 'i', ps); break; case 2: rv = mseh_set_ptr_r (m, "/C/7", &i, 'i', ps); break; case 3: rv = mseh_set_ptr_r (m, "/A/S/Q/R", "v", 's', ps); break; case 4: case 11: rv = mseh_set_ptr_r (m, "/X", &i, 'i', ps); break;
    case 5: d = INFINITY; rv = mseh_set_ptr_r (m, "/X", &d, 'n', ps); break; case 6: d = NAN; rv = mseh_set_ptr_r (m, "/X", &d, 'n', ps); break; case 7: bad[0] = (char)(0xf8 | (pre & 7)); bad[1] = 0; rv = mseh_set_ptr_r (m, "/X", bad, 's', ps); break; case 8: memset (big, 'a', 66000); rv = mseh_set_ptr_r (m, "/X", big, 's', ps); break;
    case 9: rv = mseh_set_ptr_r (m, "/A", "{\"B\":", 'M', ps); break; default: pre = (char)(pre | 0x80); rv = mseh_set_ptr_r (m, "/X", &i, pre, ps); break;
  }
  if (keep && rv == 0) { VP_ASSERT (k >= 5 && k <= 8, "only a value that cannot be written may wait for serialization"); rv = mseh_serialize (m, &st); VP_REACH ("late"); } else VP_REACH ("now");
  VP_ASSERT (rv < 0, "an update that cannot be made is reported"); VP_ASSERT (m->extralength == n && !memcmp (m->extra, before, n), "the extra headers are as before"); (void)b; (void)g; mseh_free_parsestate (&st);
}
/* a sequence of three updates with a parse state kept */
void h_seq (void)
{
  int base = vp_concretize (vp_u8 () & 1), i, k; MS3Record *m = start (base); LM_PARSED_JSON *st = NULL; static const char *pp[] = { "/X", "/A/B", "/A/N", "/D/E" }; int64_t want[4] = { 0, 1, 0, 0 }, g; int has[4] = { 0, base, 0, 0 };
  for (i = 0; i < 3; i++) { k = vp_concretize (vp_u8 () & 3); int64_t v = 100 + i; VP_ASSERT (mseh_set_ptr_r (m, pp[k], &v, 'i', &st) == 0, "set"); want[k] = v; has[k] = 1; { k = vp_concretize (vp_u8 () & 1) ? k : (k + 1) & 3; VP_ASSERT (mseh_get_ptr_r (m, pp[k], &g, 'i', 0, &st) == (has[k] ? 0 : 1) && (!has[k] || g == want[k]), "reads back through the state"); } }
  VP_ASSERT (mseh_serialize (m, &st) == m->extralength, "serialized"); mseh_free_parsestate (&st); text (m); for (k = 0; k < 4; k++) VP_ASSERT (mseh_get_ptr_r (m, pp[k], &g, 'i', 0, &st) == (has[k] ? 0 : 1) && (!has[k] || g == want[k]), "each reads back"); mseh_free_parsestate (&st); VP_REACH ("end");
}
/* merge patch and replacement of everything */
void h_merge (void)
{
  MS3Record *m = start (1); int64_t v; char p[] = "{\"B\":0,\"S\":null,\"N\":\"x\"}", s[8]; uint8_t d = vp_u8 () & 15; VP_ASSUME (d < 10); p[5] = (char)('0' + d); int keep = vp_concretize (vp_u8 () & 1); LM_PARSED_JSON *st = NULL;
  VP_ASSERT (mseh_set_ptr_r (m, "/A", p, 'M', keep ? &st : NULL) == 0, "patched"); if (keep) { VP_ASSERT (mseh_serialize (m, &st) > 0, "serialized"); mseh_free_parsestate (&st); } text (m);
  VP_ASSERT (mseh_get_ptr_r (m, "/A/B", &v, 'i', 0, NULL) == 0 && v == d, "replaced"); VP_ASSERT (mseh_get_ptr_r (m, "/A/S", s, 's', 8, NULL) == 1, "removed"); VP_ASSERT (mseh_get_ptr_r (m, "/A/N", s, 's', 8, NULL) == 0 && !strcmp (s, "x"), "added"); VP_ASSERT (mseh_get_ptr_r (m, "/C/1", &v, 'i', 0, NULL) == 0 && v == 2, "the rest"); VP_REACH ("end");
}
void h_replace (void)
{
  static char *js[] = { NULL, "{ \"Q\" : [ 1 , 2.5 ], \"T\":\"\\u0041\" }", "{\"Q\":", "nope" }; int k = vp_concretize (vp_u8 () & 3), base = vp_concretize (vp_u8 () & 1); MS3Record *m = start (base); char before[80], s[8]; int n = m->extralength, rv; double d; if (n) memcpy (before, m->extra, n + 1); rv = mseh_replace (m, js[k]);
  if (k == 0) VP_ASSERT (rv == 0 && !m->extralength && !m->extra, "removed"); else if (k == 1) { VP_ASSERT (rv == m->extralength, "length"); text (m); VP_ASSERT (mseh_get_ptr_r (m, "/Q/1", &d, 'n', 0, NULL) == 0 && d == 2.5 && mseh_get_ptr_r (m, "/T", s, 's', 8, NULL) == 0 && !strcmp (s, "A"), "values"); VP_REACH ("end"); } else { VP_ASSERT (rv < 0 && m->extralength == n && (!n || !memcmp (m->extra, before, n)), "reported and nothing changed"); VP_REACH ("bad"); }
}
/* a text value is returned within the room given */
void h_room (void)
{
  MS3Record *m = start (0); char v[6], *g; int n = vp_concretize (vp_u8 () % 5), r = 1 + vp_concretize (vp_u8 () % 6), i; for (i = 0; i < n; i++) v[i] = (char)('a' + (vp_u8 () & 15)); v[n] = 0; VP_ASSERT (mseh_set_ptr_r (m, "/A/B", v, 's', NULL) == 0, "set"); g = vp_alloc (r); VP_ASSERT (mseh_get_ptr_r (m, "/A/B", g, 's', r, NULL) == 0, "found"); for (i = 0; i < r - 1 && i < n; i++) VP_ASSERT (g[i] == v[i], "text"); VP_ASSERT (g[i] == 0, "ended"); VP_REACH ("end");
}
/* parameter groups are appended with exactly the values given */
static MS3Record *am; static LM_PARSED_JSON *aps; static const char *apre;
static const char *ap (const char *f) { static char b[80]; strcpy (b, apre); strcat (b, f); return b; }
static void es (const char *f, const char *want) { char g[48]; int rv = mseh_get_ptr_r (am, ap (f), g, 's', sizeof g, &aps); VP_ASSERT (rv == (want ? 0 : 1) && (!want || !strcmp (g, want)), "text of the group"); }
static void en (const char *f, double want, int has) { double g = 0; int rv = mseh_get_ptr_r (am, ap (f), &g, 'n', 0, &aps); VP_ASSERT (rv == !has && (!has || g == want), "number of the group"); }
static void ei (const char *f, int64_t want, int has) { int64_t g = 0; int rv = mseh_get_ptr_r (am, ap (f), &g, 'i', 0, &aps); VP_ASSERT (rv == !has && (!has || g == want), "integer of the group"); }
static void eb (const char *f, int want, int has) { int g = 0; int rv = mseh_get_ptr_r (am, ap (f), &g, 'b', 0, &aps); VP_ASSERT (rv == !has && (!has || g == want), "truth value of the group"); }
#define TB 1262304001123456789LL
#define TBS "2010-01-01T00:00:01.123456789Z"
#define TE 1262304060500000000LL
#define TES "2010-01-01T00:01:00.500000Z"
void h_add (void)
{
  static const char empty[] = "{}"; int k = vp_concretize (vp_u8 () & 3), all = vp_concretize (vp_u8 () & 1), second = vp_concretize (vp_u8 () & 1), keep = vp_concretize (vp_u8 () & 1), i, n; am = start (vp_concretize (vp_u8 () & 1)); LM_PARSED_JSON *st = NULL, **ps = keep ? &st : NULL; (void)empty; static const char *where[] = { "/FDSN/Event/Detection", "/FDSN/Calibration/Sequence", "/FDSN/Time/Exception", "/FDSN/Recenter/Sequence" }; aps = NULL;
  for (i = 0, n = 1 + second; i < n; i++)
  {
    int m = (i == n - 1) ? all : 1; /* the last may hold only its type */
    if (k == 0) { MSEHEventDetection d; memset (&d, 0, sizeof d); strcpy (d.type, "MURDOCK"); d.onsettime = NSTUNSET; d.medlookback = d.medpickalgorithm = -1; if (m) { strcpy (d.detector, "Det"); d.signalamplitude = 80.5; d.signalperiod = 0.4; d.backgroundestimate = 18; strcpy (d.wave, "DILATATION"); strcpy (d.units, "COUNTS"); d.onsettime = TB; for (int j = 0; j < 6; j++) d.medsnr[j] = (uint8_t)(j * 51); d.medlookback = 0; d.medpickalgorithm = 2; } VP_ASSERT (mseh_add_event_detection_r (am, NULL, &d, ps) == 0, "added"); }
    if (k == 1) { MSEHCalibration c; memset (&c, 0, sizeof c); strcpy (c.type, "STEP"); c.begintime = c.endtime = NSTUNSET; c.steps = c.firstpulsepositive = c.alternatesign = c.continued = -1; if (m) { c.begintime = TB; c.endtime = TE; c.steps = 3; c.firstpulsepositive = 1; c.alternatesign = 0; strcpy (c.trigger, "AUTO"); c.continued = 1; c.amplitude = 1.5; strcpy (c.inputunits, "V"); strcpy (c.amplituderange, "RMS"); c.duration = 300; c.sineperiod = 0.25; c.stepbetween = 20; strcpy (c.inputchannel, "BC0"); c.refamplitude = 7.125; strcpy (c.coupling, "RES"); strcpy (c.rolloff, "3DB"); strcpy (c.noise, "WHITE"); } VP_ASSERT (mseh_add_calibration_r (am, NULL, &c, ps) == 0, "added"); }
    if (k == 2) { MSEHTimingException e; memset (&e, 0, sizeof e); strcpy (e.type, "Valid"); e.time = NSTUNSET; e.vcocorrection = -1; e.receptionquality = -1; if (m) { e.time = TB; e.vcocorrection = 50.5; e.receptionquality = 90; e.count = 7; strcpy (e.clockstatus, "Drift=1"); } VP_ASSERT (mseh_add_timing_exception_r (am, NULL, &e, ps) == 0, "added"); }
    if (k == 3) { MSEHRecenter r; memset (&r, 0, sizeof r); strcpy (r.type, "MASS"); r.begintime = r.endtime = NSTUNSET; if (m) { r.begintime = TB; r.endtime = TE; strcpy (r.trigger, "MANUAL"); } VP_ASSERT (mseh_add_recenter_r (am, NULL, &r, ps) == 0, "added"); }
  }
  if (keep) { VP_ASSERT (mseh_serialize (am, &st) > 0, "serialized"); mseh_free_parsestate (&st); } text (am);
  for (i = 0; i < n; i++)
  {
    static char pre[64]; int m = (i == n - 1) ? all : 1; strcpy (pre, where[k]); strcat (pre, i ? "/1/" : "/0/"); apre = pre;
    if (k == 0) { es ("Type", "MURDOCK"); es ("Detector", m ? "Det" : NULL); en ("SignalAmplitude", 80.5, m); en ("SignalPeriod", 0.4, m); en ("BackgroundEstimate", 18, m); es ("Wave", m ? "DILATATION" : NULL); es ("Units", m ? "COUNTS" : NULL); es ("OnsetTime", m ? TBS : NULL); ei ("MEDSNR/0", 0, m); ei ("MEDSNR/5", 255, m); ei ("MEDSNR/3", 153, m); ei ("MEDLookback", 0, m); ei ("MEDPickAlgorithm", 2, m); }
    if (k == 1) { es ("Type", "STEP"); es ("BeginTime", m ? TBS : NULL); es ("EndTime", m ? TES : NULL); ei ("Steps", 3, m); eb ("StepFirstPulsePositive", 1, m); eb ("StepAlternateSign", 0, m); es ("Trigger", m ? "AUTO" : NULL); eb ("Continued", 1, m); en ("Amplitude", 1.5, m); es ("InputUnits", m ? "V" : NULL); es ("AmplitudeRange", m ? "RMS" : NULL); en ("Duration", 300, m); en ("SinePeriod", 0.25, m); en ("StepBetween", 20, m); es ("InputChannel", m ? "BC0" : NULL); en ("ReferenceAmplitude", 7.125, m); es ("Coupling", m ? "RES" : NULL); es ("Rolloff", m ? "3DB" : NULL); es ("Noise", m ? "WHITE" : NULL); }
    if (k == 2) { es ("Type", "Valid"); es ("Time", m ? TBS : NULL); en ("VCOCorrection", 50.5, m); ei ("ReceptionQuality", 90, m); ei ("Count", 7, m); es ("ClockStatus", m ? "Drift=1" : NULL); }
    if (k == 3) { es ("Type", "MASS"); es ("BeginTime", m ? TBS : NULL); es ("EndTime", m ? TES : NULL); es ("Trigger", m ? "MANUAL" : NULL); }
  }
  mseh_free_parsestate (&aps); VP_REACH ("end");
}
/* what is done through a parse state is visible through it, whatever was read before */
static const char *const sp[] = { "/X", "/A/B", "/A/S", "/FDSN/Recenter/Sequence/0/Type", "/FDSN/Time/Exception/0/Type", "/FDSN/Event/Detection/0/Type", "/FDSN/Calibration/Sequence/0/Type" };
static const char sty[] = { 'i', 'i', 's', 's', 's', 's', 's' };
static int svis[7]; static int64_t sval[2];
static void sees (MS3Record *m, int k, LM_PARSED_JSON **ps) { char g[16]; int64_t v = 0; static const char *const want[] = { "", "", "t", "MASS", "Valid", "MURDOCK", "STEP" }; int rv = mseh_get_ptr_r (m, sp[k], sty[k] == 'i' ? (void *)&v : (void *)g, sty[k], sty[k] == 'i' ? 0 : 16, ps); VP_ASSERT (rv == !svis[k], "present or not"); if (svis[k]) VP_ASSERT (sty[k] == 'i' ? v == sval[k] : !strcmp (g, want[k]), "value"); }
void h_state (void)
{
  int base = vp_concretize (vp_u8 () & 1), pre = vp_concretize (vp_u8 () % 8), i; MS3Record *m = start (base); LM_PARSED_JSON *st = NULL; for (i = 0; i < 7; i++) svis[i] = 0; svis[1] = svis[2] = base; sval[1] = 1; if (pre < 7) sees (m, pre, &st);
  for (i = 0; i < 2; i++)
  {
    int op = vp_concretize (vp_u8 () % 7); int64_t v = 40 + i; char p[] = "{\"B\":5,\"S\":null}";
    if (op < 2) { VP_ASSERT (mseh_set_ptr_r (m, sp[op], &v, 'i', &st) == 0, "set"); svis[op] = 1; sval[op] = v; } if (op == 2) { if (!svis[1] && !svis[2]) return; VP_ASSERT (mseh_set_ptr_r (m, "/A", p, 'M', &st) == 0, "patched"); svis[1] = 1; sval[1] = 5; svis[2] = 0; }
    if (op == 3) { MSEHRecenter r; memset (&r, 0, sizeof r); strcpy (r.type, "MASS"); r.begintime = r.endtime = NSTUNSET; VP_ASSERT (mseh_add_recenter_r (m, NULL, &r, &st) == 0, "added"); } if (op == 4) { MSEHTimingException e; memset (&e, 0, sizeof e); strcpy (e.type, "Valid"); e.time = NSTUNSET; e.vcocorrection = -1; e.receptionquality = -1; VP_ASSERT (mseh_add_timing_exception_r (m, NULL, &e, &st) == 0, "added"); }
    if (op == 5) { MSEHEventDetection d; memset (&d, 0, sizeof d); strcpy (d.type, "MURDOCK"); d.onsettime = NSTUNSET; d.medlookback = d.medpickalgorithm = -1; VP_ASSERT (mseh_add_event_detection_r (m, NULL, &d, &st) == 0, "added"); } if (op == 6) { MSEHCalibration c; memset (&c, 0, sizeof c); strcpy (c.type, "STEP"); c.begintime = c.endtime = NSTUNSET; c.steps = c.firstpulsepositive = c.alternatesign = c.continued = -1; VP_ASSERT (mseh_add_calibration_r (m, NULL, &c, &st) == 0, "added"); }
    if (op > 2) svis[op] = 1; for (int k = 0; k < 7; k++) sees (m, k, &st);
  }
  VP_ASSERT (mseh_serialize (m, &st) == m->extralength, "serialized"); text (m); mseh_free_parsestate (&st); for (int k = 0; k < 7; k++) sees (m, k, NULL); VP_REACH ("end");
}
