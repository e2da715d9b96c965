// The parts of c12_broker.cpp which need headers that do not compile as C++
#include <stdint.h>
#include <string.h>
#include "lib/log.h"
#include "lib/event/event.h"
#include "lib/mqtt/mqtt_broker.h"
#include "lib/mqtt/mqtt_common.h"
#include "lib/mqtt/mqtt_session.h"
#include "lib/mqtt/mqtt_session_ram.h"
#include "lib/net_transport/net_transport_config.h"
#include "lib/mqtt/mqtt_acl.h"
#include "c12_glue.h"
static struct rrr_mqtt_acl acl;
static struct rrr_mqtt_broker_data *broker;
int c12_new(struct rrr_event_queue *queue, const char *acl_file, const char *pw, const char *perm, int noanon, int disc, unsigned max_clients, unsigned close_wait) {
	struct rrr_mqtt_common_init_data id = { "verif", 60ull * 1000000, close_wait, max_clients };
	memset(&acl, 0, sizeof(acl)); if ((acl_file ? rrr_mqtt_acl_entry_collection_populate_from_file(&acl, acl_file) : rrr_mqtt_acl_entry_collection_push_allow_all(&acl)) != 0) return 1;
	return rrr_mqtt_broker_new(&broker, &id, queue, 65535, pw, perm, &acl, noanon, disc, rrr_mqtt_session_collection_ram_new_broker, NULL);
}
int c12_listen(unsigned port) { struct rrr_net_transport_config nc = RRR_NET_TRANSPORT_CONFIG_PLAIN_INITIALIZER; return rrr_mqtt_broker_listen_ipv4_and_ipv6(broker, &nc, (uint16_t) port); }
void c12_down(void) { rrr_mqtt_broker_destroy(broker); rrr_mqtt_acl_entry_collection_clear(&acl); broker = NULL; }
int c12_maintain(void) { return broker->mqtt_data.sessions->methods->maintain_expiration(broker->mqtt_data.sessions); }
void c12_stats(unsigned long long out[4]) { struct rrr_mqtt_broker_stats st; rrr_mqtt_broker_get_stats(&st, broker); out[0] = st.connections_active; out[1] = st.session_stats.active; out[2] = st.session_stats.total_created; out[3] = st.session_stats.total_deleted; }
