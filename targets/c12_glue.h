struct rrr_event_queue;
int c12_new(struct rrr_event_queue *queue, const char *acl_file, const char *pw, const char *perm, int noanon, int disc, unsigned max_clients, unsigned close_wait);
int c12_listen(unsigned port);
void c12_down(void);
int c12_maintain(void);
void c12_stats(unsigned long long out[4]);
