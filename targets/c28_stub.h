// A module without its thread, its queues and its timers
#include "lib/event/event.h"
#include "lib/event/event_collection.h"
#include "lib/event/event_collection_struct.h"
#include "lib/instance_config.h"
#include "lib/message_broker.h"
#include "lib/poll_helper.h"
#include "lib/threads.h"
#include "lib/instances.h"
void c28_ev_add(rrr_event_handle *h); void c28_ev_remove(rrr_event_handle *h); void c28_ev_activate(rrr_event_handle *h);
#define rrr_event_add c28_ev_add
#define rrr_event_remove c28_ev_remove
#define rrr_event_activate c28_ev_activate
int c28_push(rrr_event_handle *h, struct rrr_event_collection *c, void (*cb)(evutil_socket_t, short, void *), void *arg);
int c28_push_periodic(rrr_event_handle *h, struct rrr_event_collection *c, void (*cb)(evutil_socket_t, short, void *), void *arg, uint64_t us);
#define rrr_event_collection_push_oneshot c28_push
#define rrr_event_collection_push_periodic c28_push_periodic
void c28_ev_init(struct rrr_event_collection *c, struct rrr_event_queue *q);
#define rrr_event_collection_init c28_ev_init
void c28_clear(struct rrr_event_collection *c);
#define rrr_event_collection_clear c28_clear
void c28_break(struct rrr_event_queue *q);
#define rrr_event_dispatch_break c28_break
int c28_dispatch(struct rrr_event_queue *q, unsigned int us, int (*p)(RRR_EVENT_FUNCTION_PERIODIC_ARGS), void *arg);
#define rrr_event_dispatch c28_dispatch
void c28_pause_set(struct rrr_event_queue *q, uint8_t code, void (*cb)(RRR_EVENT_FUNCTION_PAUSE_ARGS), void *arg);
#define rrr_event_callback_pause_set c28_pause_set
void c28_start(struct rrr_thread *t);
#define rrr_thread_start_condition_helper_nofork c28_start
int c28_poll(uint16_t *amount, struct rrr_instance_runtime_data *rd, int (*cb)(RRR_MODULE_POLL_CALLBACK_SIGNATURE));
#define rrr_poll_do_poll_delete c28_poll
int c28_receivers(struct rrr_instance_friend_collection *t, struct rrr_instance_collection *a, const struct rrr_instance *i, struct rrr_instance_config_data *c, const char *setting);
#define rrr_instance_config_friend_collection_populate_receivers_from_config c28_receivers
int c28_write(struct rrr_message_broker_costumer *c, struct rrr_msg_holder *e, const rrr_msg_holder_nexthops *nh, int (*cc)(void *), void *ca);
#define rrr_message_broker_incref_and_write_entry_unsafe c28_write
int c28_write_clone(struct rrr_message_broker_costumer *c, const struct rrr_msg_holder *e, const rrr_msg_holder_nexthops *nh);
#define rrr_message_broker_clone_and_write_entry c28_write_clone
int c28_write_all(struct rrr_message_broker_costumer *c, struct rrr_msg_holder_collection *col, const rrr_msg_holder_nexthops *nh, int (*cc)(void *), void *ca);
#define rrr_message_broker_write_entries_from_collection_unsafe c28_write_all
int c28_write_new(struct rrr_message_broker_costumer *c, const struct sockaddr *a, socklen_t l, uint8_t p, const rrr_msg_holder_nexthops *nh, int (*cb)(struct rrr_msg_holder *, void *), void *arg, int (*cc)(void *), void *ca);
#define rrr_message_broker_write_entry c28_write_new
