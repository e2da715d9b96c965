// The WebSocket implementation with the transport replaced: reading is done by the socket framework on a local socket, what is sent is recorded
#include <stddef.h>
struct rrr_net_transport_handle;
#define rrr_net_transport_ctx_read_message vp_read_message
#define rrr_net_transport_ctx_send_push_const vp_send_push_const
#include "lib/websocket/websocket.c"
#include "lib/socket/rrr_socket_read.h"
#include "lib/socket/rrr_socket_constants.h"
#include "lib/read.h"
#include "c15_glue.h"
struct rrr_read_session_collection g_sessions; int g_fd; rrr_biglength g_step;
int vp_read_message(struct rrr_net_transport_handle *h, rrr_biglength a, rrr_biglength step, rrr_biglength max, uint64_t ri, rrr_biglength rm, int (*ts)(struct rrr_read_session *, void *), void *tsa, void (*te)(struct rrr_read_session *, int, void *), void *tea, int (*cc)(struct rrr_read_session *, void *), void *cca) {
	uint64_t n = 0; (void) h; (void) step;
	return rrr_socket_read_message_default(&n, &g_sessions, g_fd, a, g_step, max, RRR_SOCKET_READ_METHOD_RECV | RRR_SOCKET_READ_CHECK_EOF | RRR_SOCKET_READ_NO_GETSOCKOPTS | RRR_READ_MESSAGE_FLUSH_OVERSHOOT, ri, rm, ts, tsa, te, tea, cc, cca);
}
int vp_send_push_const(struct rrr_net_transport_handle *h, const void *p, rrr_biglength n) { (void) h; return g_sent(p, n); }
static struct rrr_websocket_state ws;
void g_ws_init(int fd, size_t step, int client) { g_fd = fd; g_step = step; rrr_read_session_collection_init(&g_sessions); memset(&ws, 0, sizeof ws); if (client) rrr_websocket_state_set_client_mode(&ws); }
void g_ws_end(void) { rrr_websocket_state_clear_all(&ws); rrr_read_session_collection_clear(&g_sessions); }
static int cb(uint8_t op, const struct rrr_nullsafe_str *s, void *a) { (void) a; struct { const void *p; rrr_nullsafe_len n; } x = {"", 0}; rrr_nullsafe_len w = 0; size_t n = rrr_nullsafe_str_len(s); void *b = malloc(n + 1); (void) x; rrr_nullsafe_str_copyto(&w, b, n, s); int r = g_got(op, b, n); free(b); return r; }
int g_ws_read(size_t max) { return rrr_websocket_transport_ctx_read_frames((void *) &ws, &ws, 4096, g_step, max, 0, 0, cb, NULL); }
int g_ws_enqueue(int op, char **p, size_t n) { return rrr_websocket_frame_enqueue(&ws, (uint8_t) op, p, n); }
int g_ws_send(void) { return rrr_websocket_transport_ctx_send_frames((void *) &ws, &ws); }
int g_ws_timeout(unsigned s) { return rrr_websocket_check_timeout(&ws, s); }
int g_ws_ping(unsigned s) { return rrr_websocket_enqueue_ping_if_needed(&ws, s); }
int g_ws_waiting(void) { return ws.waiting_for_pong; }
void g_ws_shift(uint64_t us) { if (ws.last_receive_time) ws.last_receive_time -= us; if (ws.last_ping_time) ws.last_ping_time -= us; }
void g_ws_key(char **k) { if (rrr_websocket_state_get_key_base64(k, &ws) != 0) abort(); }
void *g_alloc(size_t n) { return rrr_allocate(n); }
void g_ws_step(size_t data) { if (data > 1500 && g_step < data / 20) g_step = data / 20; }
