/* ld --wrap shims: an event before and after each phase of the time loop */
extern void pxr_mon_event(const char *, int);
static int len(const char *s) { int n = 0; while (s[n]) n++; return n; }
static void ev(const char *s) { pxr_mon_event(s, len(s)); }
#define W(sym, lab) extern void __real_##sym(void); void __wrap_##sym(void) { ev(lab "0"); __real_##sym(); ev(lab "1"); }
#define WO(sym) extern void __real_##sym(void); extern void pxr_mon_override(void); void __wrap_##sym(void) { __real_##sym(); pxr_mon_override(); }
#include "wraps.inc"
