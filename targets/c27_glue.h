// Runs a module without its thread, its queue and its message database
#include <stdint.h>
#include <stddef.h>
#include "lib/instance_config.h"
struct rrr_msg_holder;
enum { C27_MANGLER, C27_EXPLODER, C27_INCREMENTER, C27_BUFFER };
void c27_run(int module, struct rrr_instance_config_data *cfg);	// calls c27_case() if the module starts
int c27_feed(struct rrr_msg_holder **entries, size_t n);	// delivers messages; called from c27_case()
// The test
void c27_case(void);
int c27_written(struct rrr_msg_holder *entry);
int c27_db(int op, const char *topic, uint16_t topic_len, uint64_t *id);	// 0 get, 1 put; returns 1 for failure
