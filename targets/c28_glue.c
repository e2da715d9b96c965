#include <stdlib.h>
#include <string.h>
#include "c28_stub.h"
#undef rrr_event_add
#undef rrr_event_remove
#undef rrr_event_activate
#include "lib/log.h"
#include "lib/event/event_functions.h"
#include "lib/allocator.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/message_holder/message_holder_collection.h"
#include "lib/messages/msg_msg.h"
#include "lib/msgdb/msgdb_client.h"
#include "c28_glue.h"
void c28_init_cacher(struct rrr_instance_module_data *); void c28_init_averager(struct rrr_instance_module_data *);
uint64_t c28_now; uint64_t __wrap_rrr_time_get_64(void) { return c28_now; }
struct ev { void (*cb)(evutil_socket_t, short, void *); void *arg; uint64_t us, due; int added, active; };
static struct { struct rrr_instance_module_data md; struct rrr_thread *t; struct rrr_msg_holder **e; size_t n; struct ev ev[8]; int evs, broken; struct { const char *name; const void *c; } rec[8]; int recs; void (*pause)(RRR_EVENT_FUNCTION_PAUSE_ARGS); void *pause_arg; } g;
void c28_run(int module, struct rrr_instance_config_data *cfg) {
	memset(&g, 0, sizeof(g)); (module == C28_CACHER ? c28_init_cacher : c28_init_averager)(&g.md); g.md.instance_name = cfg->name_debug;
	struct rrr_instance_runtime_data *rd = calloc(1, sizeof(*rd)); struct rrr_thread *t = calloc(1, sizeof(*t)); rd->init_data.instance_config = cfg; rd->init_data.module = &g.md; rd->thread = t; t->private_data = rd; g.t = t;
	g.md.operations.thread_entry(t); free(rd); free(t);
}
int c28_dispatch(struct rrr_event_queue *q, unsigned int us, int (*p)(RRR_EVENT_FUNCTION_PERIODIC_ARGS), void *arg) { (void) q; (void) us; (void) p; (void) arg; c28_case(); return 0; }
void c28_start(struct rrr_thread *t) { (void) t; }
void c28_break(struct rrr_event_queue *q) { (void) q; g.broken = 1; }
int c28_broken(void) { return g.broken; }
void c28_pause_set(struct rrr_event_queue *q, uint8_t code, void (*cb)(RRR_EVENT_FUNCTION_PAUSE_ARGS), void *arg) { (void) q; if (code != RRR_EVENT_FUNCTION_MESSAGE_BROKER_DATA_AVAILABLE) abort(); g.pause = cb; g.pause_arg = arg; }
int c28_paused(void) { unsigned short p = 0; if (g.pause) g.pause(&p, 0, g.pause_arg); return p; }
int c28_push_periodic(rrr_event_handle *h, struct rrr_event_collection *c, void (*cb)(evutil_socket_t, short, void *), void *arg, uint64_t us) { (void) c; if (g.evs == 8) abort(); struct ev *e = &g.ev[g.evs++]; e->cb = cb; e->arg = arg; e->us = us; h->event = e; return 0; }
int c28_push(rrr_event_handle *h, struct rrr_event_collection *c, void (*cb)(evutil_socket_t, short, void *), void *arg) { return c28_push_periodic(h, c, cb, arg, 0); }
void c28_clear(struct rrr_event_collection *c) { (void) c; }
void c28_ev_init(struct rrr_event_collection *c, struct rrr_event_queue *q) { (void) c; (void) q; }
void c28_ev_add(rrr_event_handle *h) { struct ev *e = h->event; if (e) { e->added = 1; e->due = c28_now + e->us; } }
void c28_ev_remove(rrr_event_handle *h) { struct ev *e = h->event; if (e) e->added = e->active = 0; }
void c28_ev_activate(rrr_event_handle *h) { struct ev *e = h->event; if (e) e->active = 1; }
void c28_loop(uint64_t until) {
	for (;;) {
		struct ev *x = NULL; for (int i = 0; i < g.evs; i++) if (g.ev[i].active) { x = &g.ev[i]; x->active = 0; x->cb(-1, 0, x->arg); break; } if (g.broken) return; if (x) continue;
		for (int i = 0; i < g.evs; i++) { struct ev *e = &g.ev[i]; if (e->added && e->us && e->due <= until && (!x || e->due < x->due)) x = e; }
		if (!x) { c28_now = until; return; }
		c28_now = x->due; x->due += x->us; x->cb(-1, 0, x->arg); if (g.broken) return;
	}
}
int c28_feed(struct rrr_msg_holder **e, size_t n) { g.e = e; g.n = n; uint16_t amount = (uint16_t) n; return g.md.event_functions.broker_data_available(&amount, g.t); }
int c28_poll(uint16_t *amount, struct rrr_instance_runtime_data *rd, int (*cb)(RRR_MODULE_POLL_CALLBACK_SIGNATURE)) { int ret = 0; for (size_t i = 0; i < g.n; i++) { if (!ret) { rrr_msg_holder_lock(g.e[i]); ret = cb(g.e[i], rd); (*amount)--; } rrr_msg_holder_decref(g.e[i]); } return ret; }
int c28_receivers(struct rrr_instance_friend_collection *t, struct rrr_instance_collection *a, const struct rrr_instance *i, struct rrr_instance_config_data *c, const char *setting) { (void) a; (void) i; (void) c; if (g.recs == 8) abort(); g.rec[g.recs].name = setting; g.rec[g.recs++].c = t; return 0; }
static const char *name(const rrr_msg_holder_nexthops *nh) { for (int i = 0; i < g.recs; i++) if (g.rec[i].c == (const void *) nh) return g.rec[i].name; return nh ? "?" : NULL; }
int c28_write(struct rrr_message_broker_costumer *c, struct rrr_msg_holder *e, const rrr_msg_holder_nexthops *nh, int (*cc)(void *), void *ca) { (void) c; (void) cc; (void) ca; return c28_written(e, name(nh)); }
int c28_write_clone(struct rrr_message_broker_costumer *c, const struct rrr_msg_holder *e, const rrr_msg_holder_nexthops *nh) { (void) c; return c28_written((struct rrr_msg_holder *) e, name(nh)); }
int c28_write_all(struct rrr_message_broker_costumer *c, struct rrr_msg_holder_collection *col, const rrr_msg_holder_nexthops *nh, int (*cc)(void *), void *ca) {
	(void) c; (void) cc; (void) ca; int ret = 0;
	RRR_LL_ITERATE_BEGIN(col, struct rrr_msg_holder); rrr_msg_holder_lock(node); ret |= c28_written(node, name(nh)); RRR_LL_ITERATE_SET_DESTROY(); RRR_LL_ITERATE_END_CHECK_DESTROY(col, 0; rrr_msg_holder_decref_while_locked_and_unlock(node));
	return ret;
}
int c28_write_new(struct rrr_message_broker_costumer *c, const struct sockaddr *a, socklen_t l, uint8_t p, const rrr_msg_holder_nexthops *nh, int (*cb)(struct rrr_msg_holder *, void *), void *arg, int (*cc)(void *), void *ca) {
	(void) c; (void) cc; (void) ca; struct rrr_msg_holder *e = NULL; if (rrr_msg_holder_new(&e, 0, a, l, p, NULL)) return 1;
	rrr_msg_holder_lock(e); int ret = cb(e, arg); if (ret == 0) ret = c28_written(e, name(nh)); rrr_msg_holder_decref(e); return ret;
}
int c28_delivery(c28_deliver_t f, void *arg, struct rrr_msg_msg **m, int pos, int neg) { return f(m, (short) pos, (short) neg, arg); }
int __wrap_rrr_msgdb_client_conn_ensure_with_callback(struct rrr_msgdb_client_conn *conn, const char *socket, struct rrr_event_queue *q, int (*cb)(struct rrr_msgdb_client_conn *, void *), void *arg, int (*d)(RRR_MSGDB_CLIENT_DELIVERY_CALLBACK_ARGS), void *da) { (void) q; if (strcmp(socket, "sock")) abort(); if (c28_db_open()) return 1; conn->delivery_callback = d; conn->delivery_callback_arg = da; return cb(conn, arg); }
static int cmd(struct rrr_msgdb_client_conn *c, int op, const char *t, uint32_t n, const struct rrr_msg_msg *m) { c28_db(c, op, t, n, m, c->delivery_callback, c->delivery_callback_arg); return 0; }
int __wrap_rrr_msgdb_client_send(struct rrr_msgdb_client_conn *c, const struct rrr_msg_msg *m) { return cmd(c, 'p', NULL, 0, m); }
int __wrap_rrr_msgdb_client_cmd_idx(struct rrr_msgdb_client_conn *c, uint32_t n) { return cmd(c, 'i', NULL, n, NULL); }
int __wrap_rrr_msgdb_client_cmd_tidy(struct rrr_msgdb_client_conn *c, uint32_t n) { return cmd(c, 't', NULL, n, NULL); }
int __wrap_rrr_msgdb_client_cmd_get(struct rrr_msgdb_client_conn *c, const char *t) { return cmd(c, 'g', t, 0, NULL); }
int __wrap_rrr_msgdb_client_cmd_del(struct rrr_msgdb_client_conn *c, const char *t) { return cmd(c, 'd', t, 0, NULL); }
void __wrap_rrr_msgdb_client_close(struct rrr_msgdb_client_conn *c) { c28_db_closed(c); }
