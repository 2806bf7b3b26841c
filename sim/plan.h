/* What the simulated application does for a request; shared between app.c and the harness. */
#pragma once
#include <stddef.h>
#include <regex.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <stdbool.h>
#include <string.h>
#include <time.h>
#include <mqueue.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <math.h>
#include <errno.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "types.h"
#include "grengine.h"
#include "server.h"
#include "parse.h"
#include "greshunkel.h"
#include "simple_sparsehash.h"
#include "vector.h"
#include "logging.h"
#include "utils.h"
enum { AK_STATIC, AK_HEAP, AK_HEAPNC, AK_MMAP, AK_RENDER, AK_EMPTY404, AK_RAW, AK_NKINDS };
struct plan {
	int id, kind, status;
	const char *body; size_t len;
	const char *mimetype;
	int nh; const char *hn[64], *hv[64];
	const char *path;              /* AK_MMAP, AK_RENDER */
	int delay_us, nonnull;
	int nq; const char *q[64];     /* header names to look up */
	int nf; const char *fk[600]; size_t fkn[600];   /* form keys to look up */
	int nck; const char *ck[16]; const char *cookie; size_t ncookie;   /* cookies to look up */
};
#define N_ROUTE_SLOTS 24
/* implemented by the harness */
struct plan *h_enter(int slot, const m38_http_request *rq);
void h_header_value(struct plan *p, int i, const char *v);
void h_form_value(struct plan *p, int i, const char *v, size_t n);
void h_cookie_value(struct plan *p, int i, const char *v);
void *h_anon_token(void);
void h_no_form(struct plan *p, int isnull);
greshunkel_ctext *h_build_context(struct plan *p);
void h_delay(int us);
void h_produced(struct plan *p, int slot, int status, m38_http_response *rs);
void h_cleanup(int slot, int status, m38_http_response *rs, int phase);
void h_touch(const void *p, size_t n);
/* implemented by app.c */
extern int (*app_handlers[N_ROUTE_SLOTS + 1])(const m38_http_request *, m38_http_response *);
extern void (*app_cleanups[N_ROUTE_SLOTS + 1])(const int, m38_http_response *);
extern int app_slot_kind[N_ROUTE_SLOTS + 1];
#ifdef __cplusplus
}
#endif
