/* Harness support: case generation, oracles' reporting, event counters. See DESIGN.md. */
#ifndef VH_H
#define VH_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <ctype.h>
#include <unistd.h>
#include <apop.h>

typedef struct {
    const char *name;
    void (*fn)(void);
    int quick, thorough;  /* how many cases in each tier */
    int threads;          /* OMP_NUM_THREADS; 0 means 1 */
} vh_family;
extern vh_family vh_families[];   /* ends with a NULL name; each harness defines it */
extern const char *vh_rule;       /* how cases are made and what makes one non-trivial */

extern int vh_case;               /* index of this case in its family */
extern int vh_thorough;           /* is the tier thorough? */
extern uint64_t vh_seed;

/* The harness's own randomness: independent of the library's and of the GSL. */
uint64_t vr_u64(void);
void vr_reseed(uint64_t);           /* start this thread's stream afresh */
bool vh_child(void);               /* fork: true in the child, which ends with vh_child_done() */
void vh_child_done(void);
int    vi(int lo, int hi);        /* uniform on lo..hi, inclusive */
double vd(double lo, double hi);
double vnorm(void);
bool   vflip(double p);
double vval(void);                /* a finite double from a mixture: small ints, decimals, normals, big, tiny */
double vint_val(void);            /* a smallish integer value */
char  *vstr_plain(char *buf, int maxlen);    /* [a-z][a-z0-9_]* */
char  *vstr_any(char *buf, int maxlen);      /* printable, includes spaces % ' " , \ and so on */
#define vpick(arr) ((arr)[vi(0, (int)(sizeof(arr)/sizeof(*(arr)))-1)])
void   vshuffle(int *a, int n);

/* Reporting. A key names the oracle that failed; the family name is put in front of it. */
void v_fail(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3)));
#define V_CHECK(cond, key, ...) ((cond) ? (v_ev("oracle_checks"), true) : (v_fail(key, __VA_ARGS__), false))
void v_ev(const char *counter);              /* count one observed event */
void v_evn(const char *counter, long n);
void v_desc(const char *fmt, ...) __attribute__((format(printf,1,2)));  /* describe this case */
void v_sig(const void *p, size_t n);         /* mix into this case's signature */
void v_sigd(double d);
void v_sigs(const char *s);
void v_trivial(void);                        /* this case does not count as non-trivial */
int  v_nfails(void);                         /* failures recorded so far in this case */

/* Comparison */
bool v_eq(double a, double b);                          /* identical, with NaN equal to NaN */
bool v_close(double a, double b, double rel, double abs);/* |a-b| <= abs + rel*max(|a|,|b|), NaN equal to NaN, infs equal */
#define V_EQ(a, b, key, ...) do { double va_=(a), vb_=(b); if (!v_eq(va_, vb_)) v_fail2(key, va_, vb_, __VA_ARGS__); else v_ev("oracle_checks"); } while (0)
#define V_CLOSE(a, b, rel, abs_, key, ...) do { double va_=(a), vb_=(b); if (!v_close(va_, vb_, rel, abs_)) v_fail2(key, va_, vb_, __VA_ARGS__); else v_ev("oracle_checks"); } while (0)
void v_fail2(const char *key, double got, double want, const char *fmt, ...) __attribute__((format(printf,4,5)));
#define V_STR(a, b, key, ...) do { const char *va_=(a), *vb_=(b); if ((va_==NULL)!=(vb_==NULL) || (va_ && strcmp(va_, vb_))) v_fails(key, va_, vb_, __VA_ARGS__); else v_ev("oracle_checks"); } while (0)
void v_fails(const char *key, const char *got, const char *want, const char *fmt, ...) __attribute__((format(printf,4,5)));

/* Data-set generation and shadow copies, see vh.c */
typedef struct {
    int vsize, m1, m2, t1, t2, wsize;  /* 0 means no such part; vsize etc. as in apop_data */
    bool rownames, colnames, vecname, textnames, title, nans, plainstr, nameless_ok;
    int pages;
} vh_shape;
apop_data *vh_data(vh_shape s);           /* random content */
vh_shape vh_random_shape(int maxr, int maxc);
char *vh_dump(const apop_data *d, bool pages);        /* canonical text of every component, malloced; hex floats */
bool vh_same(const apop_data *a, const apop_data *b, bool pages, const char *key, const char *what);
void vh_sig_data(const apop_data *d);

size_t vh_allocated(void);                /* bytes now allocated, by the sanitizer's allocator */
int vh_gsl_handler_intact(void);          /* is the GSL's error handler the default? */
#define Vlen(x) ((int)(sizeof(x)/sizeof(*(x))))
#endif
#ifndef VH_PICK
#define VH_PICK
apop_data *vh_pick_rows(const apop_data *d, const int *rows, int n); /* the reference subset: these rows, in this order; no title, no pages */
apop_data *vh_pick_cols(const apop_data *d, const int *cols, int n); /* these matrix columns; everything else kept; no pages */
void vh_strip(apop_data *d, bool title, bool pages);
int vh_rows(const apop_data *d);
#endif
