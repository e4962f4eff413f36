/* ---- extra header recorders (the JSON side is the subject of X01) ---- */
typedef struct { const char *ptr; char type; int64_t i; double n; char s[64]; } Set;
static Set sets[24]; static int nsets, nserial, nev, ncal, nexc; static MSEHEventDetection ev; static MSEHCalibration cal; static MSEHTimingException exc;
static int fits (const char *s, int size) { int n = 0; while (n < size && s[n]) n++; return n < size; }
int mseh_set_ptr_r (MS3Record *msr, const char *ptr, void *value, char type, LM_PARSED_JSON **ps)
{
  VP_ASSERT (nsets < 24, "number of extra headers"); Set *x = &sets[nsets++]; x->ptr = ptr; x->type = type; x->i = 0; x->n = 0;
  if (type == 'b') x->i = *(int *)value; else if (type == 'i') x->i = *(int64_t *)value; else if (type == 'n') x->n = *(double *)value; else { VP_ASSERT (type == 's', "value type"); strncpy (x->s, (char *)value, 63); x->s[63] = 0; }
  if (ps && !*ps) *ps = (LM_PARSED_JSON *)sets; return 0;
}
int mseh_get_ptr_r (const MS3Record *msr, const char *ptr, void *value, char type, uint32_t maxlength, LM_PARSED_JSON **ps) { return 1; }
int mseh_add_event_detection_r (MS3Record *msr, const char *ptr, MSEHEventDetection *e, LM_PARSED_JSON **ps) { nev++; ev = *e; VP_ASSERT (fits (e->type, 30) && fits (e->detector, 30) && fits (e->wave, 30) && fits (e->units, 30), "terminated text"); if (ps && !*ps) *ps = (LM_PARSED_JSON *)sets; return 0; }
int mseh_add_calibration_r (MS3Record *msr, const char *ptr, MSEHCalibration *c, LM_PARSED_JSON **ps) { ncal++; cal = *c; VP_ASSERT (fits (c->type, 30) && fits (c->trigger, 30) && fits (c->inputunits, 30) && fits (c->amplituderange, 30) && fits (c->inputchannel, 30) && fits (c->coupling, 30) && fits (c->rolloff, 30) && fits (c->noise, 30), "terminated text"); if (ps && !*ps) *ps = (LM_PARSED_JSON *)sets; return 0; }
int mseh_add_timing_exception_r (MS3Record *msr, const char *ptr, MSEHTimingException *e, LM_PARSED_JSON **ps) { nexc++; exc = *e; VP_ASSERT (fits (e->type, sizeof e->type) && fits (e->clockstatus, sizeof e->clockstatus), "terminated text"); if (ps && !*ps) *ps = (LM_PARSED_JSON *)sets; return 0; }
int mseh_add_recenter_r (MS3Record *msr, const char *ptr, MSEHRecenter *r, LM_PARSED_JSON **ps) { return 0; }
int mseh_serialize (MS3Record *msr, LM_PARSED_JSON **ps) { nserial++; return 0; }
void mseh_free_parsestate (LM_PARSED_JSON **ps) { if (ps) *ps = NULL; }
int mseh_replace (MS3Record *msr, char *j) { return 0; }
int mseh_print (const MS3Record *msr, int indent) { return 0; }
