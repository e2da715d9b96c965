// The message database server, with its iteration event firing every millisecond instead of every 200
#include "lib/event/event_collection.h"
#define rrr_event_collection_push_periodic(a, b, c, d, e) rrr_event_collection_push_periodic(a, b, c, d, 1000)
#include "lib/msgdb/msgdb_server.c"
