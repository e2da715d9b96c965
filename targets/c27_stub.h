struct rrr_event_queue; struct rrr_instance_runtime_data; struct rrr_msg_holder; struct rrr_thread; struct rrr_message_broker_costumer;
#define rrr_event_dispatch c27_dispatch
#define rrr_poll_do_poll_delete c27_poll
#define rrr_message_broker_incref_and_write_entry_unsafe c27_write
#define rrr_thread_start_condition_helper_nofork c27_start
#define rrr_msgdb_client_conn_ensure_with_callback c27_db_ensure
#define rrr_msgdb_client_cmd_get c27_db_get
#define rrr_msgdb_client_send c27_db_send
#define rrr_msgdb_client_await c27_db_await
#define rrr_msgdb_client_close c27_db_close
