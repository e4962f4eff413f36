/* Pre-allocating memory (M01) */
#include "libmseed.h"
#include "vp.h"
#ifndef KMAX
#define KMAX 5
#endif
static uint64_t asked; static int calls, fail; static char region[16];
static void *rec (void *p, size_t n) { asked = n; calls++; return fail ? NULL : region + 8; }
/* any block size, current size and request (within a few blocks of each other) */
void h_prealloc (void)
{
  uint64_t block = vp_u64 () & 0xffffffffffull, cur = vp_u64 () & 0xffffffffffull, size = vp_u64 () & 0x3ffffffffffull; char old[4];
  VP_ASSUME ((block > 0) & (size <= cur + KMAX * block));
  size_t c = cur; fail = vp_concretize (vp_u8 () & 1); calls = 0; libmseed_memory.realloc = rec; libmseed_prealloc_block_size = block;
  void *r = libmseed_memory_prealloc (old, size, &c);
  if (calls == 0) { VP_ASSERT (r == old, "same region"); VP_ASSERT ((c == cur) & (size <= cur), "already large enough"); VP_REACH ("enough"); return; }
  VP_ASSERT (calls == 1, "one reallocation"); VP_ASSERT (size >= cur, "only when needed"); VP_ASSERT (asked >= size, "at least as large as requested");
  int ok = 0; for (int k = 1; k <= KMAX; k++) ok |= asked == cur + k * block; VP_ASSERT (ok, "grows by whole blocks"); VP_ASSERT ((asked - cur == block) | (asked - block < size), "no more blocks than needed");
  if (fail) { VP_ASSERT (r == NULL && c == cur, "failure leaves the recorded size"); VP_REACH ("fail"); }
  else { VP_ASSERT (r == region + 8 && c == asked, "the size actually allocated is recorded"); VP_REACH ("end"); }
}
/* real allocations: content kept, the recorded size usable */
void h_keep (void)
{
  static const int blocks[] = { 1, 3, 8, 64 }; libmseed_prealloc_block_size = blocks[vp_concretize (vp_u8 () % 4)];
  size_t c = 0; uint8_t *p = NULL; int used = 0; uint8_t v[64];
  for (int k = 0; k < 3; k++) {
    int n = vp_concretize (vp_u8 () % 13); p = libmseed_memory_prealloc (p, n, &c);
    if (n) VP_ASSERT (p != NULL && c >= (size_t)n, "large enough");
    int ok = 1; for (int i = 0; i < used; i++) ok &= p[i] == v[i]; VP_ASSERT (ok, "content kept");
    for (int i = used; i < (int)c; i++) { v[i] = vp_u8 (); p[i] = v[i]; } used = (int)c;
  }
  libmseed_memory.free (p);
  VP_ASSERT (libmseed_memory_prealloc (NULL, 5, NULL) == NULL, "missing argument"); libmseed_prealloc_block_size = 0; c = 0; VP_ASSERT (libmseed_memory_prealloc (NULL, 5, &c) == NULL && c == 0, "disabled");
  VP_REACH ("end");
}
/* unpacking records one after the other into one MS3Record, then shrinking to fit */
void h_unpack (void)
{
  static const int blocks[] = { 0, 1, 6, 32 }; libmseed_prealloc_block_size = blocks[vp_concretize (vp_u8 () % 4)];
  MS3Record *msr = msr3_init (NULL); char rec[64]; strcpy (msr->sid, "FDSN:XX_S__B_H_Z"); int n = 0; uint8_t enc = 0;
  for (int k = 0; k < 2; k++) {
    n = vp_concretize (vp_u8 () % 6); enc = vp_concretize (vp_u8 () & 1) ? DE_INT32 : DE_TEXT; int sz = enc == DE_INT32 ? 4 : 1;
    memset (rec, 0, sizeof rec); rec[0] = 'M'; rec[1] = 'S'; for (int i = 0; i < n * sz; i++) rec[40 + i] = (char)vp_u8 ();
    msr->record = rec; msr->reclen = 40 + n * sz; msr->formatversion = 3; msr->samplecnt = n; msr->encoding = enc; msr->datalength = n * sz; msr->numsamples = 0; msr->extralength = 0; msr->swapflag = 0; rec[33] = 0;
    int64_t r = msr3_unpack_data (msr, 0);
    VP_ASSERT (r == n && msr->numsamples == n, "all samples"); 
    if (n) { VP_ASSERT (msr->datasize >= (size_t)(n * sz), "recorded size"); int ok = 1; for (int i = 0; i < n * sz; i++) ok &= ((char *)msr->datasamples)[i] == rec[40 + i]; VP_ASSERT (ok, "samples"); memset ((char *)msr->datasamples + n * sz, 0x11, msr->datasize - n * sz); }
  }
  if (n) { VP_ASSERT (msr3_resize_buffer (msr) == 0, "resized"); int sz = enc == DE_INT32 ? 4 : 1, ok = msr->datasize == (size_t)(n * sz); for (int i = 0; i < n * sz; i++) ok &= ((char *)msr->datasamples)[i] == rec[40 + i]; VP_ASSERT (ok, "exact size and same samples"); VP_REACH ("resize"); }
  msr->record = NULL; msr3_free (&msr); VP_ASSERT (msr == NULL, "freed"); VP_REACH ("end");
}
