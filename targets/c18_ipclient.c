// The ipclient module, of which the allocator for received messages is used
#define load c18_load
#define init c18_init
#define unload c18_unload
#include "modules/p_ipclient.c"
int c18_allocate(RRR_UDPSTREAM_ALLOCATOR_CALLBACK_ARGS) { (void) arg; struct ipclient_udpstream_allocator_callback_data d = {NULL, size, remote_addr, remote_addr_len, receive_callback, udpstream_callback_arg}; return ipclient_udpstream_allocator_intermediate(&d, NULL); }
