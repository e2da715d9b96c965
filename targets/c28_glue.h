// Runs a module without its thread, its queues, its timers and its message database
#include <stdint.h>
#include <stddef.h>
struct rrr_instance_config_data; struct rrr_msg_holder; struct rrr_msg_msg;
enum { C28_CACHER, C28_AVERAGER };
extern uint64_t c28_now;
void c28_run(int module, struct rrr_instance_config_data *cfg);	// calls c28_case() if the module starts
int c28_feed(struct rrr_msg_holder **entries, size_t n);
void c28_loop(uint64_t until);	// runs what has been activated and all timers until then
int c28_broken(void), c28_paused(void);
// Commands to the message database: conn identifies the connection
typedef int (*c28_deliver_t)(struct rrr_msg_msg **, short, short, void *);
int c28_delivery(c28_deliver_t f, void *arg, struct rrr_msg_msg **m, int pos, int neg);
// The test
void c28_case(void);
int c28_written(struct rrr_msg_holder *entry, const char *receivers);	// name of the setting or NULL for everyone
int c28_db_open(void);	// 1 for failure
void c28_db(void *conn, int op, const char *topic, uint32_t n, const struct rrr_msg_msg *msg, c28_deliver_t f, void *arg);	// op: 'p'ut 'g'et 'd'elete 't'idy 'i'ndex
void c28_db_closed(void *conn);
