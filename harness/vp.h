/* Shared harness interface: one source serves two builds.
 *   goto-cc (symbolic): inputs are nondeterministic, VP_ASSERT is a proof obligation.
 *   cc -DVP_REPLAY     : inputs are read from the counterexample file, VP_ASSERT aborts.
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef VP_REPLAY
uint64_t vp_next_ (void);
void vp_fail_ (const char *msg, const char *file, int line);
void vp_skip_ (const char *msg);
#define VP_ASSERT(c, msg) do { if (!(c)) vp_fail_ (msg, __FILE__, __LINE__); } while (0)
#define VP_ASSUME(c)      do { if (!(c)) vp_skip_ (#c); } while (0)
#define VP_REACH(msg)     do { } while (0)
static inline uint8_t  vp_u8  (void) { return (uint8_t)vp_next_ (); }
static inline uint16_t vp_u16 (void) { return (uint16_t)vp_next_ (); }
static inline uint32_t vp_u32 (void) { return (uint32_t)vp_next_ (); }
static inline uint64_t vp_u64 (void) { return vp_next_ (); }
#define VP_CBMC 0
#define vp_concretize(x) (x)
#elif defined(VP_SE)
uint8_t nondet_vp_u8 (void);
uint16_t nondet_vp_u16 (void);
uint32_t nondet_vp_u32 (void);
uint64_t nondet_vp_u64 (void);
void vp_se_assert (int c, const char *msg);
void vp_se_assume (int c);
void vp_se_reach (const char *msg);
uint64_t vp_se_concretize (uint64_t v);
void vp_se_print (const char *name, uint64_t v);
#define VP_ASSERT(c, msg) vp_se_assert (!!(c), msg)
#define VP_ASSUME(c)      vp_se_assume (!!(c))
#define VP_REACH(msg)     vp_se_reach (msg)
#define vp_concretize(x)  vp_se_concretize (x)
#define vp_u8 nondet_vp_u8
#define vp_u16 nondet_vp_u16
#define vp_u32 nondet_vp_u32
#define vp_u64 nondet_vp_u64
#define VP_CBMC 0
#else
#define vp_concretize(x) (x)
#define VP_ASSERT(c, msg) __CPROVER_assert ((c), "VP: " msg)
#define VP_ASSUME(c)      __CPROVER_assume (c)
#define VP_REACH(msg)     __CPROVER_assert (0, "VPREACH: " msg)
uint8_t nondet_vp_u8 (void);
uint16_t nondet_vp_u16 (void);
uint32_t nondet_vp_u32 (void);
uint64_t nondet_vp_u64 (void);
static inline uint8_t  vp_u8  (void) { uint8_t  vp_input = nondet_vp_u8 ();  return vp_input; }
static inline uint16_t vp_u16 (void) { uint16_t vp_input = nondet_vp_u16 (); return vp_input; }
static inline uint32_t vp_u32 (void) { uint32_t vp_input = nondet_vp_u32 (); return vp_input; }
static inline uint64_t vp_u64 (void) { uint64_t vp_input = nondet_vp_u64 (); return vp_input; }
#define VP_CBMC 1
#endif

static inline int8_t  vp_i8  (void) { return (int8_t)vp_u8 (); }
static inline int16_t vp_i16 (void) { return (int16_t)vp_u16 (); }
static inline int32_t vp_i32 (void) { return (int32_t)vp_u32 (); }
static inline int64_t vp_i64 (void) { return (int64_t)vp_u64 (); }

/* Never-NULL exact-size allocation (allocation failure is outside the claims). */
static inline void *vp_alloc (size_t n)
{
  void *p = malloc (n ? n : 1);
#if VP_CBMC
  __CPROVER_assume (p != NULL);
#endif
  return p;
}
#endif
