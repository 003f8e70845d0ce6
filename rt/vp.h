// Verification interface: implemented by the symbolic executor (engine/vse.cpp) and, for replay
// against the natively compiled code, by rt/native.c.
#ifndef VP_H
#define VP_H
#ifdef __cplusplus
extern "C" {
#endif
void vp_sym(void* p, unsigned long n, const char* name);       // n unconstrained bytes
long vp_range(long lo, long hi, const char* name);             // any value in lo..hi
void vp_assume(int c);
void vp_assert(int c, const char* msg);
long vp_fix(long v);                                           // one path per value
void vp_reach(const char* label);                              // must be reached on some path
void vp_obs(long v);                                           // compared with the native run
void vp_allow_exit(void);
long vp_arg(int i);
int vp_native(void);
long vp_live(void);                                            // live heap
void vp_fail(const char* msg);
void vp_unsupported(const char* msg);
long vp_sel(int c, long a, long b);                            // c ? a : b without a fork
void vp_spawn(void (*fn)(void*), void* arg);
void vp_joinall(void);
void vp_yield(void);
int vp_dtoa(char* buf, unsigned long size, int fmt, int prec, double d);
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define CHECK(c) vp_assert((c) ? 1 : 0, #c " (" __FILE__ ":" VP_STR(__LINE__) ")")
// condition evaluated without forking: use & and | inside
#define CHECKX(c) vp_assert((c), #c " (" __FILE__ ":" VP_STR(__LINE__) ")")
static inline unsigned char vp_byte(const char* name)
{
	unsigned char c;
	vp_sym(&c, 1, name);
	return c;
}
static inline long vp_long(const char* name)
{
	long c;
	vp_sym(&c, sizeof(c), name);
	return c;
}
static inline int vp_int(const char* name)
{
	int c;
	vp_sym(&c, sizeof(c), name);
	return c;
}
#ifdef __cplusplus
}
#endif
#endif
