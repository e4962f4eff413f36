/* Native side of vp.h: feeds the solver's values, in call order, to the harness. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
static FILE *vp_in_;
uint64_t vp_next_ (void)
{
  unsigned long long v;
  if (fscanf (vp_in_, "%llu", &v) != 1)
    return 0; /* values the solver left unconstrained */
  return (uint64_t)v;
}
void vp_fail_ (const char *msg, const char *file, int line)
{
  fflush (stdout);
  fprintf (stderr, "VP-ASSERT-FAILED: %s (%s:%d)\n", msg, file, line);
  _Exit (42);
}
void vp_skip_ (const char *msg)
{
  fprintf (stderr, "VP-ASSUME-UNMET: %s\n", msg);
  _Exit (77);
}
void VP_ENTRY (void);
int main (int argc, char **argv)
{
  if (argc < 2 || !(vp_in_ = fopen64 (argv[1], "r")))
    return 99;
  VP_ENTRY ();
  fprintf (stderr, "VP-REPLAY-COMPLETED\n");
  return 0;
}
