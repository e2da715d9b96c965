#include <stddef.h>
#include <stdint.h>
int g_sent(const void *p, size_t n);
int g_got(int opcode, const void *p, size_t n);
void g_ws_init(int fd, size_t step, int client); void g_ws_end(void);
int g_ws_read(size_t max); int g_ws_enqueue(int op, char **p, size_t n); int g_ws_send(void);
int g_ws_timeout(unsigned s); int g_ws_ping(unsigned s); int g_ws_waiting(void); void g_ws_shift(uint64_t us); void g_ws_key(char **k); void *g_alloc(size_t n);
void g_ws_step(size_t data);
