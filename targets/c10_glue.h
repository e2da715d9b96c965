#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct rrr_mqtt_p;
void g_init(void); void g_destroy(void); void g_reset(void);
int g_feed(const char *buf, size_t wpos, int version);
size_t g_target(void);
char *g_dump(struct rrr_mqtt_p *p);
struct rrr_mqtt_p *g_extract(size_t *payload_pos);
int g_set_payload(struct rrr_mqtt_p *p, const char *d, size_t n);
const char *g_payload(struct rrr_mqtt_p *p, size_t *n);
int g_assemble(char **d, size_t *n, struct rrr_mqtt_p *p);
struct rrr_mqtt_p *g_clone(struct rrr_mqtt_p *p);
void g_unref(struct rrr_mqtt_p *p);
void g_free(void *p);
int g_suback_fill(struct rrr_mqtt_p *p);
#ifdef __cplusplus
}
#endif
