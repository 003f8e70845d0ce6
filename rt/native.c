// Native implementation of the verification interface: replays recorded inputs and schedules against
// the code compiled by the ordinary compiler (with AddressSanitizer).
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <ucontext.h>
#include <errno.h>
#include "vp.h"

static FILE* in;
static int sched[100000], nsched, isched;
static long args[4];
static int maxpre = 2;
struct inp { char name[64]; unsigned n; unsigned char* b; };
static struct inp inps[100000];
static int ninp, iinp;

static void out(const char* k, const char* v)
{
	char b[1200];
	int n = snprintf(b, sizeof(b), "%s %s\n", k, v);
	if (n > (int)sizeof(b) - 1) n = sizeof(b) - 1;
	if (write(1, b, n) < 0) _exit(96);
}
static void diverge(const char* w) { out("VPDIVERGE", w); _exit(98); }

static void load(void)
{
	const char* f = getenv("VP_INPUTS");
	if (!f || !(in = fopen(f, "r"))) { fprintf(stderr, "VP_INPUTS\n"); _exit(97); }
	char kind[32], *name = malloc(256), *hex = malloc(1 << 20);
	while (fscanf(in, "%31s", kind) == 1) {
		if (!strcmp(kind, "S")) { if (fscanf(in, "%d", &sched[nsched]) == 1) ++nsched; }
		else if (!strcmp(kind, "A")) { int i; long v; if (fscanf(in, "%d %ld", &i, &v) == 2) args[i & 3] = v; }
		else if (!strcmp(kind, "P")) { if (fscanf(in, "%d", &maxpre) != 1) _exit(97); }
		else if (!strcmp(kind, "I")) {
			if (fscanf(in, "%255s %1048000s", name, hex) != 2) _exit(97);
			struct inp* p = &inps[ninp++];
			strncpy(p->name, name, 63);
			p->n = !strcmp(hex, "-") ? 0 : strlen(hex) / 2;
			p->b = malloc(p->n + 1);
			for (unsigned i = 0; i < p->n; ++i) { unsigned x; sscanf(hex + 2 * i, "%2x", &x); p->b[i] = x; }
		}
	}
	fclose(in);
	free(name);
	free(hex);
}

void vp_sym(void* p, unsigned long n, const char* name)
{
	if (iinp >= ninp) diverge("more inputs asked for than recorded");
	struct inp* i = &inps[iinp++];
	if (i->n != n) diverge("input of another size");
	memcpy(p, i->b, n);
}
long vp_range(long lo, long hi, const char* name)
{
	long v;
	vp_sym(&v, 8, name);
	if (v < lo || v > hi) diverge("input out of range");
	return v;
}
void vp_assume(int c) { if (!c) diverge("assumption"); }
void vp_assert(int c, const char* msg)
{
	if (c) return;
	out("VPFAIL", msg);
	_exit(99);
}
void vp_fail(const char* msg) { vp_assert(0, msg); }
long vp_fix(long v) { return v; }
void vp_reach(const char* l) { out("VPREACH", l); }
void vp_obs(long v) { char b[32]; sprintf(b, "%ld", v); out("VPOBS", b); }
static int exit_ok;
void vp_allow_exit(void) { exit_ok = 1; }
long vp_arg(int i) { return args[i & 3]; }
int vp_native(void) { return 1; }
size_t __sanitizer_get_current_allocated_bytes(void);
long vp_live(void) { return __sanitizer_get_current_allocated_bytes(); }
void vp_unsupported(const char* m) { diverge(m); }
long vp_sel(int c, long a, long b) { return c ? a : b; }
int vp_dtoa(char* buf, unsigned long size, int fmt, int prec, double d)
{
	char f[16];
	if (prec < 0) sprintf(f, "%%%c", fmt); else sprintf(f, "%%.%d%c", prec, fmt);
	return snprintf(buf, size, f, d);
}

// ---- cooperative threads following the recorded schedule
enum { RUN, MUTEX, COND, JOIN, DONE };
#define MAXT 8
static struct { ucontext_t u; int st; void* m; void* cv; void (*fn)(void*); void* arg; } th[MAXT];
static int nth = 1, cur = 0, npre = 0;
static struct { void* m; int owner; } mt[64];
static int nmt;
static int* owner(void* m)
{
	for (int i = 0; i < nmt; ++i) if (mt[i].m == m) return &mt[i].owner;
	mt[nmt].m = m;
	mt[nmt].owner = -1;
	return &mt[nmt++].owner;
}
static int enabled(int t)
{
	if (th[t].st == RUN) return 1;
	if (th[t].st == MUTEX) return *owner(th[t].m) < 0;
	if (th[t].st == JOIN) { for (int i = 0; i < nth; ++i) if (i != t && th[i].st != DONE) return 0; return 1; }
	return 0;
}
static int next_sched(void)
{
	if (isched >= nsched) diverge("schedule exhausted");
	return sched[isched++];
}
static void go(int t)
{
	if (t >= nth || !enabled(t)) diverge("schedule names a thread that cannot run");
	if (th[t].st == MUTEX) { *owner(th[t].m) = t; th[t].st = RUN; }
	if (th[t].st == JOIN) th[t].st = RUN;
	int o = cur;
	cur = t;
	if (o != t) swapcontext(&th[o].u, &th[t].u);
}
static void blocked(void)
{
	int any = 0, left = 0;
	for (int i = 0; i < nth; ++i) { any |= enabled(i); left |= th[i].st != DONE; }
	if (!any) {
		if (left) { out("VPFAIL", "no thread can make progress"); _exit(99); }
		_exit(0);
	}
	go(next_sched());
}
void vp_yield(void)
{
	if (nth < 2 || npre >= maxpre) return;
	// the executor records a choice here only when some other thread could run
	int t = next_sched();
	if (t != cur) { ++npre; go(t); }
}
static void tmain(void)
{
	th[cur].fn(th[cur].arg);
	th[cur].st = DONE;
	blocked();
}
void vp_spawn(void (*fn)(void*), void* arg)
{
	int t = nth++;
	getcontext(&th[t].u);
	th[t].u.uc_stack.ss_sp = malloc(1 << 20);
	th[t].u.uc_stack.ss_size = 1 << 20;
	th[t].fn = fn;
	th[t].arg = arg;
	th[t].st = RUN;
	makecontext(&th[t].u, tmain, 0);
}
void vp_joinall(void)
{
	th[cur].st = JOIN;
	if (enabled(cur)) { th[cur].st = RUN; return; }
	blocked();
}
int vpn_mutex_init(void* m, void* a) { *owner(m) = -1; return 0; }
int vpn_mutex_destroy(void* m) { return 0; }
int vpn_cond_init(void* c, void* a) { return 0; }
int vpn_cond_destroy(void* c) { return 0; }
int vpn_mutex_lock(void* m)
{
	vp_yield();
	int* o = owner(m);
	if (*o < 0) { *o = cur; return 0; }
	th[cur].st = MUTEX;
	th[cur].m = m;
	blocked();
	return 0;
}
int vpn_mutex_trylock(void* m)
{
	vp_yield();
	int* o = owner(m);
	if (*o < 0) { *o = cur; return 0; }
	return EBUSY;
}
int vpn_mutex_unlock(void* m)
{
	int* o = owner(m);
	vp_assert(*o == cur, "unlock of a mutex the thread does not hold");
	*o = -1;
	return 0;
}
int vpn_cond_wait(void* c, void* m)
{
	int* o = owner(m);
	vp_assert(*o == cur, "wait on a condition without holding its mutex");
	*o = -1;
	th[cur].st = COND;
	th[cur].m = m;
	th[cur].cv = c;
	blocked();
	return 0;
}
int vpn_cond_signal(void* c)
{
	int n = 0, f = -1;
	for (int i = 0; i < nth; ++i) if (th[i].st == COND && th[i].cv == c) { ++n; if (f < 0) f = i; }
	if (!n) return 0;
	if (n > 1) f = next_sched() - 1000;
	if (f < 0 || f >= nth) diverge("schedule");
	th[f].st = MUTEX;
	return 0;
}
int vpn_cond_broadcast(void* c)
{
	for (int i = 0; i < nth; ++i) if (th[i].st == COND && th[i].cv == c) th[i].st = MUTEX;
	return 0;
}

static void at_exit(void) { if (!exit_ok) { out("VPFAIL", "the code under test ended the process"); _exit(99); } out("VPDONE", "exit"); _exit(0); }
void VP_ENTRY(void);
int main(void)
{
	static char obuf[65536];
	setvbuf(stdout, obuf, _IOFBF, sizeof(obuf)); // keeps the standard streams off the heap (vp_live)
	load();
	atexit(at_exit);
	VP_ENTRY();
	out("VPDONE", "return");
	_exit(0);
}
void vp_done(void) { out("VPDONE", "done"); _exit(0); }
