/* Logging stub: diagnostics are not the subject of these harnesses. */
#include "libmseed.h"
int ms_rlog (const char *function, int level, const char *format, ...) { (void)function; (void)level; (void)format; return 0; }
int ms_rlog_l (MSLogParam *logp, const char *function, int level, const char *format, ...) { (void)logp; (void)function; (void)level; (void)format; return 0; }
