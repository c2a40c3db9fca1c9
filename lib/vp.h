/* Harness API, usable both under CBMC (symbolic) and natively (replay). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#ifdef VP_CBMC
/* --- symbolic mode ------------------------------------------------------ */
extern uint8_t nondet_vp8(void);
extern uint16_t nondet_vp16(void);
extern uint32_t nondet_vp32(void);
extern uint64_t nondet_vp64(void);
#define VP_ND(bits) \
static inline uint##bits##_t vp_u##bits(void) \
{ \
	uint##bits##_t v = nondet_vp##bits(); \
	__CPROVER_input("vp", v); \
	return v; \
}
VP_ND(8) VP_ND(16) VP_ND(32) VP_ND(64)
#define vp_assume(c)		__CPROVER_assume(c)
#define vp_assert(c, msg)	__CPROVER_assert(c, msg)
/* Reachability witness: the solver must find an execution that gets here. */
#define vp_reach(name)		__CPROVER_assert(0, "VP_REACH:" name)
#define vp_reach_if(c, name)	__CPROVER_assert(!(c), "VP_REACH:" name)
#define VP_R_OK(p, n)		__CPROVER_r_ok(p, n)
#define VP_W_OK(p, n)		__CPROVER_w_ok(p, n)
#else
/* --- native replay ------------------------------------------------------ */
#include <stdio.h>
#include <stdlib.h>
extern uint64_t vp_next(unsigned bits);
extern void vp_fail(const char *msg, const char *file, int line);
extern void vp_hit(const char *name);
static inline uint8_t vp_u8(void) { return (uint8_t)vp_next(8); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_next(16); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_next(32); }
static inline uint64_t vp_u64(void) { return vp_next(64); }
extern void vp_assume_failed(const char *file, int line);
#define vp_assume(c) do { if (!(c)) vp_assume_failed(__FILE__, __LINE__); } while (0)
#define vp_assert(c, msg) do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define vp_reach(name) vp_hit(name)
#define vp_reach_if(c, name) do { if (c) vp_hit(name); } while (0)
#define VP_R_OK(p, n) 1
#define VP_W_OK(p, n) 1
#endif

static inline uint32_t vp_range(uint32_t lo, uint32_t hi)
{
	uint32_t v = vp_u32();
	vp_assume(v >= lo && v <= hi);
	return v;
}
static inline size_t vp_rangez(size_t lo, size_t hi)
{
	size_t v = vp_u64();
	vp_assume(v >= lo && v <= hi);
	return v;
}
static inline int vp_bool(void)
{
	uint8_t v = vp_u8();
	vp_assume(v <= 1);
	return v;
}
#endif
