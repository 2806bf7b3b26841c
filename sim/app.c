/* The application served by the simulated server. Compiled and instrumented like the code under test. */
#include <stdlib.h>
#include <string.h>
#include "plan.h"

int app_slot_kind[N_ROUTE_SLOTS + 1];

/* Either whole strings, or pieces of a larger buffer that is gone afterwards. */
static void app_header(m38_http_response *rs, const char *n, const char *v, int piece) {
	size_t ln = strlen(n), lv = strlen(v);
	char *b;
	if (!piece) {
		m38_insert_custom_header(rs, n, ln, v, lv);
		return;
	}
	b = malloc(ln + 2 + lv + 9);
	memcpy(b, n, ln);
	memcpy(b + ln, ": ", 2);
	memcpy(b + ln + 2, v, lv);
	memcpy(b + ln + 2 + lv, "\r\nX: junk", 9);
	m38_insert_custom_header(rs, b, ln, b + ln + 2, lv);
	memset(b, '#', ln + 2 + lv + 9);
	free(b);
}

static int app_handle(int slot, const m38_http_request *rq, m38_http_response *rs) {
	struct plan *p = h_enter(slot, rq);
	int i, rc;
	if (!p) {                                   /* a request of no known client */
		rs->out = (unsigned char *)"anonymous";
		rs->outsize = 9;
		rs->extra_data = h_anon_token();
		if (app_slot_kind[slot] == AK_HEAP || app_slot_kind[slot] == AK_HEAPNC || app_slot_kind[slot] == AK_RENDER) {
			rs->out = malloc(9);
			memcpy(rs->out, "anonymous", 9);
		} else if (app_slot_kind[slot] == AK_MMAP) {
			rs->out = NULL;
			rs->outsize = 0;
			rs->extra_data = NULL;
			h_produced(NULL, slot, 404, rs);
			return 404;
		}
		h_produced(NULL, slot, 200, rs);
		return 200;
	}
	for (i = 0; i < p->nq; i++) {
		char *v = m38_get_header_value_request(rq, p->q[i]);
		h_header_value(p, i, v);
		free(v);
	}
	if (p->nf) {
		if (!rq->form_elements)
			h_no_form(p, 1);
		else for (i = 0; i < p->nf; i++) {
			size_t n = 0;
			const char *v = sparse_dict_get(rq->form_elements, p->fk[i], p->fkn[i], &n);
			h_form_value(p, i, v, n);
		}
	}
	for (i = 0; i < p->nck; i++) {
		char *v = m38_get_cookie_value(p->cookie, p->ncookie, p->ck[i]);
		h_cookie_value(p, i, v);
		free(v);
	}
	if (p->kind != AK_MMAP && p->kind != AK_RENDER && p->kind != AK_EMPTY404)
		rs->extra_data = p;
	if (p->delay_us)
		h_delay(p->delay_us);
	if (p->mimetype)
		strncpy(rs->mimetype, p->mimetype, sizeof(rs->mimetype) - 1);
	for (i = 0; i < p->nh; i++)
		app_header(rs, p->hn[i], p->hv[i], (p->id + i) % 3 == 1);
	rc = p->status;
	switch (p->kind) {
	case AK_HEAP:
	case AK_HEAPNC:
		if (RESPONSE_OK(p->status) || p->kind == AK_HEAPNC) {
			rs->out = malloc(p->len ? p->len : 1);
			memcpy(rs->out, p->body, p->len);
		} else
			rs->out = (unsigned char *)p->body;
		rs->outsize = p->len;
		break;
	case AK_MMAP:
		rc = m38_mmap_file(p->path, rs);
		if (RESPONSE_OK(rc))
			h_touch(rs->out, rs->outsize);
		break;
	case AK_RENDER:
		rc = m38_render_file(h_build_context(p), p->path, rs);
		break;
	case AK_EMPTY404:
		rs->out = p->nonnull ? (unsigned char *)"" : NULL;
		rs->outsize = 0;
		rc = 404;
		break;
	case AK_RAW:
		rc = m38_return_raw_buffer(p->body, p->len, rs);
		break;
	default:
		rs->out = (unsigned char *)p->body;
		rs->outsize = p->len;
	}
	h_produced(p, slot, rc, rs);
	return rc;
}

static void app_cleanup(int slot, int status, m38_http_response *rs) {
	h_cleanup(slot, status, rs, 0);
	switch (app_slot_kind[slot]) {
	case AK_HEAP: case AK_RENDER: m38_heap_cleanup(status, rs); break;
	case AK_HEAPNC: m38_heap_cleanup_no_check(status, rs); break;
	case AK_MMAP: m38_mmap_cleanup(status, rs); break;
	}
	h_cleanup(slot, status, rs, 1);
}

#define T(k) static int hd##k(const m38_http_request *rq, m38_http_response *rs) { return app_handle(k, rq, rs); } \
	static void cl##k(const int s, m38_http_response *rs) { app_cleanup(k, s, rs); }
T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7) T(8) T(9) T(10) T(11) T(12) T(13) T(14) T(15) T(16) T(17) T(18) T(19) T(20) T(21) T(22) T(23) T(24)
int (*app_handlers[N_ROUTE_SLOTS + 1])(const m38_http_request *, m38_http_response *) = {
	hd0, hd1, hd2, hd3, hd4, hd5, hd6, hd7, hd8, hd9, hd10, hd11, hd12, hd13, hd14, hd15, hd16, hd17, hd18, hd19, hd20, hd21, hd22, hd23, hd24};
void (*app_cleanups[N_ROUTE_SLOTS + 1])(const int, m38_http_response *) = {
	cl0, cl1, cl2, cl3, cl4, cl5, cl6, cl7, cl8, cl9, cl10, cl11, cl12, cl13, cl14, cl15, cl16, cl17, cl18, cl19, cl20, cl21, cl22, cl23, cl24};
