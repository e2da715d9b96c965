From 2fb90131c9fa47e9666e1e92a61e7a692dad9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 001/134] fix: reject messages stating a size smaller than the
 message header

A size of zero to 17 with a correct header checksum triggered bugtraps in the
read framework and in the checksum function (abort from network input).
---
 src/lib/messages/msg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg.c b/src/lib/messages/msg.c
index 0abf4e2..4256548 100644
--- a/src/lib/messages/msg.c
+++ b/src/lib/messages/msg.c
@@ -141,7 +141,15 @@ int rrr_msg_get_target_size_and_check_checksum (
 		return RRR_MSG_READ_SOFT_ERROR;
 	}
 
-	*target_size = rrr_be32toh(msg->msg_size);
+	const rrr_u32 msg_size = rrr_be32toh(msg->msg_size);
+
+	if (msg_size < sizeof(*msg)) {
+		RRR_MSG_0("Stated size %" PRIu32 " of message is smaller than the message header in %s\n",
+				msg_size, __func__);
+		return RRR_MSG_READ_SOFT_ERROR;
+	}
+
+	*target_size = msg_size;
 
 	return RRR_MSG_READ_OK;
 }
-- 
2.43.0


From 274439aad050fa2ad7dcf912bc2a1b8637771c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 002/134] fix: correct size checks of received log messages

The check wrapped around for messages shorter than the log message structure
(out of bounds reads), and rejected valid messages with an empty text.
---
 src/lib/messages/msg_log.c | 5 +++++
 src/lib/messages/msg_log.h | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_log.c b/src/lib/messages/msg_log.c
index 9ade221..36fef0c 100644
--- a/src/lib/messages/msg_log.c
+++ b/src/lib/messages/msg_log.c
@@ -36,6 +36,11 @@ void rrr_msg_msg_log_prepare_for_network (struct rrr_msg_log *msg) {
 }
 
 int rrr_msg_msg_log_to_host (struct rrr_msg_log *msg) {
+	if (!RRR_MSG_LOG_HEAD_SIZE_OK(msg)) {
+		RRR_MSG_0("Message was too short in rrr_msg_msg_log_to_host\n");
+		return 1;
+	}
+
 	msg->prefix_size = rrr_be16toh(msg->prefix_size);
 	msg->line = rrr_be32toh(msg->line);
 
diff --git a/src/lib/messages/msg_log.h b/src/lib/messages/msg_log.h
index b2733ee..08f5608 100644
--- a/src/lib/messages/msg_log.h
+++ b/src/lib/messages/msg_log.h
@@ -34,8 +34,11 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #define RRR_MSG_LOG_MSG_POS(msg)											\
 	((msg->prefix_and_message) + (msg)->prefix_size)
 
+#define RRR_MSG_LOG_HEAD_SIZE_OK(msg)											\
+	((msg)->msg_size >= sizeof(*(msg)) - 1)
+
 #define RRR_MSG_LOG_SIZE_OK(msg)											\
-	((msg)->prefix_size > (msg)->msg_size - sizeof(*(msg)) - 1 ? 0 : 1)
+	(RRR_MSG_LOG_HEAD_SIZE_OK(msg) && (msg)->prefix_size <= (msg)->msg_size - (sizeof(*(msg)) - 1))
 
 #define RRR_MSG_LOG_LEVEL_ORIG_NOT_GIVEN RRR_LOG_LEVEL_NOT_GIVEN
 
-- 
2.43.0


From ea6afd38d8b1dd1baa44a4d236800e1cd6a6a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 003/134] fix: reject received messages with topic length
 exceeding message size

The topic was read out of bounds and the data length wrapped around.
---
 src/lib/messages/msg_msg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/messages/msg_msg.c b/src/lib/messages/msg_msg.c
index 4d7e821..eeb69c7 100644
--- a/src/lib/messages/msg_msg.c
+++ b/src/lib/messages/msg_msg.c
@@ -260,6 +260,12 @@ static int __message_validate (const struct rrr_msg_msg *message){
 		ret = 1;
 		goto out;
 	}
+	if (MSG_TOPIC_LENGTH(message) > message->msg_size - MSG_MIN_SIZE(message)) {
+		RRR_DBG_1("Received a message in message_validate where topic length %u exceeds the message size %" PRIu32 "\n",
+				MSG_TOPIC_LENGTH(message), message->msg_size);
+		ret = 1;
+		goto out;
+	}
 	if (!MSG_CLASS_OK(message)) {
 		RRR_DBG_1("Invalid class %u in message to message_validate\n", MSG_CLASS(message));
 		ret = 1;
-- 
2.43.0


From f0391da999ead907f684439cb66dc8d713d1609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 004/134] fix: check path and data sizes of received statistics
 messages

Sizes exceeding the fixed size buffers of the message structure caused the
memory following them to be overwritten.
---
 src/lib/stats/stats_message.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/stats/stats_message.c b/src/lib/stats/stats_message.c
index fb75af0..d7ca6a6 100644
--- a/src/lib/stats/stats_message.c
+++ b/src/lib/stats/stats_message.c
@@ -93,6 +93,18 @@ static int __rrr_msg_stats_unpack (
 		goto out;
 	}
 
+	if (path_size > sizeof(target->path)) {
+		RRR_MSG_0("Path size in received statistics packet exceeds maximum\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
+	if (actual_path_and_data_size - path_size > sizeof(target->data)) {
+		RRR_MSG_0("Data size in received statistics packet exceeds maximum\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
 	memset (target, '\0', sizeof(*target));
 
 	target->flags = flags;
-- 
2.43.0


From fdd8978c8b5cf87b3659d399523911a5c8524154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 005/134] fix: check sizes of received address messages

Addresses longer than the address field were accepted, and the memory after a
message with a short address was read when converting it to a string.
---
 src/lib/messages/msg_addr.c | 14 +++++++++++++-
 src/lib/messages/msg_addr.h |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib/messages/msg_addr.c b/src/lib/messages/msg_addr.c
index 05fa82c..7e7fa22 100644
--- a/src/lib/messages/msg_addr.c
+++ b/src/lib/messages/msg_addr.c
@@ -92,5 +92,17 @@ void rrr_msg_addr_to_str (
 		rrr_biglength target_size,
 		const struct rrr_msg_addr *msg
 ) {
-	rrr_ip_to_str (target, target_size, (const struct sockaddr *) msg->addr, sizeof(msg->addr));
+	// The memory of received messages may end after the actual address
+	struct sockaddr_storage addr = {0};
+	rrr_length addr_len = RRR_MSG_ADDR_SIZE_OK(msg)
+		? (rrr_length) RRR_MSG_ADDR_GET_ADDR_LEN(msg)
+		: 0
+	;
+
+	if (addr_len > sizeof(addr)) {
+		addr_len = sizeof(addr);
+	}
+
+	memcpy(&addr, msg->addr, addr_len);
+	rrr_ip_to_str (target, target_size, (const struct sockaddr *) &addr, addr_len);
 }
diff --git a/src/lib/messages/msg_addr.h b/src/lib/messages/msg_addr.h
index c4b1558..b846e9a 100644
--- a/src/lib/messages/msg_addr.h
+++ b/src/lib/messages/msg_addr.h
@@ -36,7 +36,7 @@ struct rrr_msg_addr {
 } __attribute((__packed__));
 
 #define RRR_MSG_ADDR_SIZE_OK(msg) \
-	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr))
+	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr) && (msg)->msg_size <= sizeof(*(msg)))
 
 // NOTE ! This will underflow and wrap around if msg_size is small. We only check for 0 here.
 #define RRR_MSG_ADDR_GET_ADDR_LEN(msg) \
-- 
2.43.0


From 7e6f667269b787cbde97d68caf94fb555b76f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 006/134] fix: send address messages with the size stated in
 their header

Messages with an address shorter than the address field were followed by extra
bytes, causing the receiver to lose track of the message stream.
---
 src/lib/socket/rrr_socket_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/socket/rrr_socket_common.c b/src/lib/socket/rrr_socket_common.c
index 7897e56..48452da 100644
--- a/src/lib/socket/rrr_socket_common.c
+++ b/src/lib/socket/rrr_socket_common.c
@@ -156,13 +156,15 @@ int rrr_socket_common_prepare_and_send_msg_blocking (
 	else if (RRR_MSG_IS_RRR_MESSAGE_ADDR(msg)) {
 		struct rrr_msg_addr *message = (struct rrr_msg_addr *) msg;
 
+		const rrr_length msg_size = MSG_TOTAL_SIZE(message);
+
 		rrr_msg_addr_prepare_for_network(message);
 		rrr_msg_checksum_and_to_network_endian ((struct rrr_msg *) message);
 
 		if ((ret = rrr_socket_send_blocking (
 				fd,
 				message,
-				sizeof(struct rrr_msg_addr),
+				msg_size,
 				wait_callback,
 				wait_callback_arg,
 				silent
-- 
2.43.0


From 1d2daa8d34d158338b892c97f9cc0d006cd331ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 007/134] fix: read the correct element when getting 64-bit
 array values by index

---
 src/lib/array.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/array.c b/src/lib/array.c
index 3fe66c9..8a8d773 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -480,8 +480,15 @@ static int __rrr_array_get_value_64_by_tag (
 		goto out;
 	}
 
-	signed_result = *((int64_t*) value->data + (sizeof(int64_t) * index));
-	unsigned_result = *((uint64_t*) value->data + (sizeof(uint64_t) * index));
+	if (((rrr_biglength) index + 1) * sizeof(uint64_t) > value->total_stored_length) {
+		RRR_MSG_0("Array value '%s' index %u was requested as a 64-bit value but the value is only %" PRIrrrl " bytes long\n",
+				tag, index, value->total_stored_length);
+		ret = 1;
+		goto out;
+	}
+
+	memcpy(&signed_result, value->data + sizeof(int64_t) * index, sizeof(signed_result));
+	memcpy(&unsigned_result, value->data + sizeof(uint64_t) * index, sizeof(unsigned_result));
 
 	if (do_signed) {
 		if (!RRR_TYPE_FLAG_IS_SIGNED(value->flags) && unsigned_result > INT64_MAX) {
-- 
2.43.0


From 93f3928886b9c6f9db7484ba15fa5296ae54bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 008/134] fix: check element counts and sizes of values in
 received array messages

---
 src/lib/array.c |  8 ++++++++
 src/lib/type.c  | 13 +++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/lib/array.c b/src/lib/array.c
index 8a8d773..128523f 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -1204,6 +1204,14 @@ int rrr_array_message_iterate (
 			goto out;
 		}
 
+		// The element count of msg values is found when they are unpacked
+		if (elements == 0 || (type != RRR_TYPE_MSG && total_length % elements != 0)) {
+			RRR_MSG_0("Length %u of type %u index %i in array message does not match the element count %u\n",
+					total_length, type, i, elements);
+			ret = 1;
+			goto out;
+		}
+
 		const struct rrr_type_definition *def = rrr_type_get_from_id(type);
 		if (def == NULL) {
 			RRR_MSG_0("Unknown type %u in type index %i of array message\n", type, i);
diff --git a/src/lib/type.c b/src/lib/type.c
index 11a58fc..c67ea70 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -549,6 +549,12 @@ static int __rrr_type_msg_unpack (RRR_TYPE_UNPACK_ARGS) {
 	// It is not possible to specify a multi-value msg definition, but we
 	// support it here for now anyway
 
+	if (node->total_stored_length == 0) {
+		RRR_MSG_0("Length of msg type was 0 in %s\n", __func__);
+		ret = RRR_TYPE_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	rrr_length pos = 0;
 	rrr_length count = 0;
 	while (pos < node->total_stored_length) {
@@ -710,7 +716,7 @@ static int __rrr_type_import_hdlc (RRR_TYPE_IMPORT_ARGS) {
 }
 
 static int __rrr_type_64_unpack (RRR_TYPE_UNPACK_ARGS, uint8_t target_type) {
-	if (node->total_stored_length % sizeof(rrr_type_be) != 0) {
+	if (node->total_stored_length == 0 || node->total_stored_length != (rrr_biglength) node->element_count * sizeof(rrr_type_be)) {
 		RRR_MSG_0("Size of 64 type was not 8 bytes in %s\n", __func__);
 		return 1;
 	}
@@ -1168,7 +1174,10 @@ static int __rrr_type_import_str (RRR_TYPE_IMPORT_ARGS) {
 }
 
 static int __rrr_type_vain_unpack (RRR_TYPE_UNPACK_ARGS) {
-	(void)(node);
+	if (node->total_stored_length != 0) {
+		RRR_MSG_0("Length of vain type was not 0 in %s\n", __func__);
+		return 1;
+	}
 	return 0;
 }
 
-- 
2.43.0


From f52053092ac528c3c53f61ea662f4ea41e5ce569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 009/134] fix: do not abort when a fixed point value is
 exported

---
 src/lib/type.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index c67ea70..ee619ac 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -777,13 +777,13 @@ static int __rrr_type_fixp_pack (RRR_TYPE_PACK_ARGS) {
 }
 
 static int __rrr_type_fixp_export (RRR_TYPE_EXPORT_ARGS) {
-	RRR_BUG("%s not implemented", __func__);
-
 	(void)(target);
 	(void)(written_bytes);
 	(void)(node);
 
-	return 0;
+	RRR_MSG_0("Export of fixed point values is not supported\n");
+
+	return 1;
 }
 
 static int __rrr_type_blob_unpack (RRR_TYPE_UNPACK_ARGS) {
-- 
2.43.0


From 0814c41cbe06a2601b81abdf70383e55498ce20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 010/134] fix: report allocation failure when cloning an array

---
 src/lib/array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/array.c b/src/lib/array.c
index 128523f..adc5bb3 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -112,6 +112,7 @@ int rrr_array_clone (
 
 	if ((array = rrr_allocate_zero(sizeof(*array))) == NULL) {
 		RRR_MSG_0("Could not allocate memory in rrr_array_clone\n");
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From adb57a109019fbb2eab4c0d4fd91ef74c6dc8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 011/134] fix: match whole tag names in references of array
 definitions

---
 src/lib/array_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/array_tree.c b/src/lib/array_tree.c
index abf4228..236bbe4 100644
--- a/src/lib/array_tree.c
+++ b/src/lib/array_tree.c
@@ -1299,7 +1299,7 @@ int __rrr_array_tree_import_value_resolve_ref (
 		const char *name
 ) {
 	RRR_LL_ITERATE_BEGIN_REVERSE(source, struct rrr_type_value);
-		if (node->tag != NULL && strncmp(name, node->tag, node->tag_length) == 0) {
+		if (node->tag != NULL && strcmp(name, node->tag) == 0) {
 			uint64_t result_tmp = node->definition->to_64(node);
 			if (result_tmp > RRR_LENGTH_MAX) {
 				RRR_MSG_0("Evaluation of reference '%s' resulted in a value of %" PRIu64 " while maximum value is %" PRIrrrl "\n",
@@ -1427,7 +1427,7 @@ static int __rrr_array_tree_import_condition_name_evaluate_callback (
 	struct rrr_array *array_tmp = arg;
 
 	RRR_LL_ITERATE_BEGIN_REVERSE(array_tmp, struct rrr_type_value);
-		if (node->tag != NULL && strncmp(node->tag, name, node->tag_length) == 0) {
+		if (node->tag != NULL && strcmp(node->tag, name) == 0) {
 			*result = node->definition->to_64(node);
 			*is_signed = RRR_TYPE_FLAG_IS_SIGNED(node->flags);
 			return RRR_ARRAY_TREE_OK;
-- 
2.43.0


From 50489d3335dc66b5514988e40d67ed55365a5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 012/134] fix: check for overflow when element counts come from
 input data

---
 src/lib/type.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index ee619ac..6d2f221 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -173,6 +173,11 @@ static int __rrr_type_import_int (
 		return RRR_TYPE_PARSE_SOFT_ERR;
 	}
 
+	if ((rrr_biglength) node->element_count * sizeof(uint64_t) > RRR_LENGTH_MAX) {
+		RRR_MSG_0("Too many elements (%" PRIrrrl ") while importing 64 type\n", node->element_count);
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
+
 	rrr_length array_size = node->element_count;
 	rrr_length total_size = node->element_count * node->import_length;
 
@@ -225,6 +230,12 @@ static int __rrr_type_import_blob (RRR_TYPE_IMPORT_ARGS) {
 		RRR_BUG("data was not NULL in %s\n", __func__);
 	}
 
+	if ((rrr_biglength) node->import_length * node->element_count > RRR_LENGTH_MAX) {
+		RRR_MSG_0("Total size of %" PRIrrrl " elements of length %" PRIrrrl " exceeds maximum while importing value\n",
+				node->element_count, node->import_length);
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
+
 	rrr_length total_size = node->import_length * node->element_count;
 
 	CHECK_END_AND_RETURN(total_size);
@@ -439,6 +450,12 @@ static int __rrr_type_import_sep_stx (RRR_TYPE_IMPORT_ARGS, int (*validate)(char
 		RRR_BUG("data was not NULL in %s\n", __func__);
 	}
 
+	if ((rrr_biglength) node->import_length * node->element_count > RRR_LENGTH_MAX) {
+		RRR_MSG_0("Total size of %" PRIrrrl " elements of length %" PRIrrrl " exceeds maximum while importing separator value\n",
+				node->element_count, node->import_length);
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
+
 	rrr_length total_size = node->import_length * node->element_count;
 
 	CHECK_END_AND_RETURN(total_size);
-- 
2.43.0


From 55f2b584733bb4dbabc4fbeaab9f723e72f68203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 013/134] fix: let REWIND move back past values with automatic
 length

---
 src/lib/type.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index 6d2f221..18f759e 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -397,6 +397,7 @@ static int __rrr_type_import_ustr (RRR_TYPE_IMPORT_ARGS) {
 
 	node->definition = rrr_type_get_from_id(RRR_TYPE_H);
 	node->total_stored_length = sizeof(rrr_type_h);
+	node->import_length = *parsed_bytes; // Used by REWIND
 	RRR_TYPE_FLAG_SET_UNSIGNED(node->flags);
 
 	out:
@@ -431,6 +432,7 @@ static int __rrr_type_import_istr (RRR_TYPE_IMPORT_ARGS) {
 
 	node->definition = rrr_type_get_from_id(RRR_TYPE_H);
 	node->total_stored_length = sizeof(rrr_type_h);
+	node->import_length = *parsed_bytes; // Used by REWIND
 	RRR_TYPE_FLAG_SET_SIGNED(node->flags);
 
 	out:
@@ -674,6 +676,7 @@ static int __rrr_type_import_msg (RRR_TYPE_IMPORT_ARGS) {
 	}
 
 	*parsed_bytes = (rrr_length) target_size_total;
+	node->import_length = *parsed_bytes; // Used by REWIND
 
 	out:
 	return ret;
@@ -728,6 +731,7 @@ static int __rrr_type_import_hdlc (RRR_TYPE_IMPORT_ARGS) {
 	node->definition = rrr_type_get_from_id(RRR_TYPE_HDLC);
 
 	*parsed_bytes = pos.pos;
+	node->import_length = *parsed_bytes; // Used by REWIND
 
 	return RRR_TYPE_PARSE_OK;
 }
@@ -1016,6 +1020,7 @@ static int __rrr_type_import_fixp (RRR_TYPE_IMPORT_ARGS) {
 	}
 
 	*parsed_bytes = (rrr_length) (endptr - start);
+	node->import_length = *parsed_bytes; // Used by REWIND
 
 	out:
 	return ret;
-- 
2.43.0


From 9160a90716ae0bb245c7c2c49e170672b58094c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 014/134] fix: wait for more data when a fixed point number or
 message is not complete

---
 src/lib/fixed_point.c | 2 +-
 src/lib/type.c        | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index a8aa3fb..c3459eb 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -260,7 +260,7 @@ static int __rrr_fixp_str_preliminary_parse (
 	*is_negative = 0;
 
 	// PREFIX PARSING
-	if (str_length > 3) {
+	if (str_length >= 3) {
 		if (strncmp(start, "16#", 3) == 0) {
 			*base = 16;
 			start += 3;
diff --git a/src/lib/type.c b/src/lib/type.c
index 18f759e..69c792b 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -605,6 +605,8 @@ static int __rrr_type_import_msg (RRR_TYPE_IMPORT_ARGS) {
 		RRR_BUG("BUG: end was less than start in %s\n", __func__);
 	}
 
+	CHECK_END_AND_RETURN(1);
+
 	rrr_slength size_total = end - start;
 	rrr_slength remaining_size = size_total;
 
@@ -989,13 +991,15 @@ static int __rrr_type_import_fixp (RRR_TYPE_IMPORT_ARGS) {
 	rrr_fixp fixp = 0;
 	const char *endptr = NULL;
 
+	CHECK_END_AND_RETURN(1);
+
 	if ((ret = rrr_fixp_str_to_fixp (
 			&fixp,
 			start,
 			rrr_length_from_ptr_sub_bug_const (end, start),
 			&endptr
 	)) != 0) {
-		return RRR_TYPE_PARSE_SOFT_ERR;
+		return ret == RRR_FIXED_POINT_PARSE_INCOMPLETE ? RRR_TYPE_PARSE_INCOMPLETE : RRR_TYPE_PARSE_SOFT_ERR;
 	}
 
 	// Fixed point needs another field after it to know where the number ends
-- 
2.43.0


From d9950c282a3a0b600c8625cb23bda0270ce1f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 015/134] fix: allow definitions of two characters in arrays

---
 src/lib/array_tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/array_tree.c b/src/lib/array_tree.c
index 236bbe4..267f66a 100644
--- a/src/lib/array_tree.c
+++ b/src/lib/array_tree.c
@@ -795,7 +795,7 @@ static int __rrr_array_tree_interpret_node (
 			}
 		}
 
-		if (i < 2) {
+		if (i < 1) {
 			RRR_MSG_0("Array value definition was too short (less than 2 characters long)\n");
 			ret = RRR_ARRAY_TREE_SOFT_ERROR;
 			goto out_destroy;
-- 
2.43.0


From f7e4df119f045ce2a9ee19c64b222670f81e0843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 016/134] fix: evaluate conditions which consist of a single
 value

---
 src/lib/condition.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index a8f93c7..22f3e9f 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -906,6 +906,7 @@ int rrr_condition_evaluate (
 			)) != 0) {
 				goto out;
 			}
+			*result = position->result;
 		}
 	}
 
-- 
2.43.0


From 320597a442110ca79f2bb680a57ac52465516d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 017/134] fix: evaluate operators of equal priority from left
 to right in conditions

---
 src/lib/condition.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index 22f3e9f..e83ed7a 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -305,7 +305,11 @@ static int __rrr_condition_shunting_yard_shunt_op (
 	else {
 		while (RRR_LL_COUNT(&shunting_yard->op_stack) > 0) {
 			struct rrr_condition_shunting_yard_carrier *carrier = RRR_LL_FIRST(&shunting_yard->op_stack);
-			if (carrier->op->prio < carrier_new->op->prio && carrier->op != operator_par_open) {
+			// Binary operators of equal priority are evaluated from left to right
+			if ((carrier->op->prio < carrier_new->op->prio ||
+			    (carrier->op->prio == carrier_new->op->prio && op->prio != RRR_CONDITION_PRIORITY_SINGULAR)) &&
+			    carrier->op != operator_par_open
+			) {
 				carrier = RRR_LL_SHIFT(&shunting_yard->op_stack);
 				RRR_LL_APPEND(shunting_yard, carrier);
 			}
-- 
2.43.0


From 1c66a504f0def972a07c4dee3d1bd22bad70abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 018/134] fix: subtract when a minus follows a closing
 parenthesis in conditions

---
 src/lib/condition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index e83ed7a..d8440aa 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -400,7 +400,7 @@ int rrr_condition_interpret (
 		}
 
 		if (op != NULL) {
-			prev_was_op = 1;
+			prev_was_op = (op != operator_par_close);
 
 			if ((ret = __rrr_condition_shunting_yard_shunt_op (
 					&par_level,
-- 
2.43.0


From 4bb1406b50b27577bb8156b90745f28b44cb8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 019/134] fix: check that all operators in conditions have
 values

---
 src/lib/condition.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index d8440aa..4b44a52 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -241,22 +241,24 @@ static int __rrr_condition_shunting_yard_finalize (
 	}
 
 	if (RRR_LL_COUNT(shunting_yard) > 0) {
-		int op_count = 0;
 		int value_count = 0;
 		RRR_LL_ITERATE_BEGIN(shunting_yard, struct rrr_condition_shunting_yard_carrier);
 			if (node->op) {
-				if (node->op->prio != RRR_CONDITION_PRIORITY_SINGULAR) {
-					op_count++;
+				const int operands = (node->op->prio == RRR_CONDITION_PRIORITY_SINGULAR ? 1 : 2);
+				if (value_count < operands) {
+					RRR_MSG_0("Too many operators in condition expression, value missing for operator %s\n", node->op->op);
+					return RRR_CONDITION_SOFT_ERROR;
 				}
+				value_count -= operands - 1;
 			}
 			else {
 				value_count++;
 			}
 		RRR_LL_ITERATE_END();
 
-		if (value_count - op_count != 1) {
-			RRR_MSG_0("Too many operators in condition expression (%i too many)\n", op_count - value_count + 1);
-			return 1;
+		if (value_count != 1) {
+			RRR_MSG_0("Too many values in condition expression (%i too many)\n", value_count - 1);
+			return RRR_CONDITION_SOFT_ERROR;
 		}
 	}
 
-- 
2.43.0


From c5a36d22e7a17b8d04f4e2c4278b7054a1d99166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 020/134] fix: reject numbers too large for fixed point when
 converting from floating point

---
 src/lib/fixed_point.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index c3459eb..dfde696 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -32,6 +32,10 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include "util/rrr_endian.h"
 #include "util/gnu.h"
 
+// Limit of the integer part, 2^(63-24)
+#define RRR_FIXED_POINT_INTEGER_LIMIT \
+	((uint64_t) 1 << (63 - RRR_FIXED_POINT_BASE2_EXPONENT))
+
 // 16#-0.000001 == 10#-0.00000005960464477539
 
 static const long double decimal_fractions_base2[24] = {
@@ -70,7 +74,7 @@ int rrr_fixp_ldouble_to_fixp (
 	int sign = 0;
 	uint64_t result = 0;
 
-	if (!isfinite(fraction)) {
+	if (!isfinite(source) || fabsl(integer) >= RRR_FIXED_POINT_INTEGER_LIMIT) {
 		return 1;
 	}
 
-- 
2.43.0


From 0f6911fa769191e147e8cf0c50277372130702be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 021/134] fix: convert the lowest fixed point number to
 floating point with correct sign

---
 src/lib/fixed_point.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index dfde696..d026246 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -106,10 +106,10 @@ int rrr_fixp_to_ldouble (
 ) {
 	long double result = 0;
 	uint64_t sign = ((uint64_t) source) >> 63;
-	int64_t positive = sign ? -source : source;
+	uint64_t positive = sign ? 0 - (uint64_t) source : (uint64_t) source;
 
-	int64_t whole_number = positive >> RRR_FIXED_POINT_BASE2_EXPONENT;
-	int64_t decimals = positive & 0xFFFFFF;
+	uint64_t whole_number = positive >> RRR_FIXED_POINT_BASE2_EXPONENT;
+	uint64_t decimals = positive & 0xFFFFFF;
 
 	result += (long double) whole_number;
 
-- 
2.43.0


From 1994b4d2e2fcc6d688475d878934fe65be6f3de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 022/134] fix: write negative fixed point numbers to
 hexadecimal strings in readable format

---
 src/lib/fixed_point.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index d026246..4ab4fb4 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -134,8 +134,9 @@ int rrr_fixp_to_str_16 (
 ) {
 	unsigned char buf[8];
 
-	source = (rrr_fixp) rrr_htobe64((uint64_t) source);
-	memcpy(buf, &source, sizeof(buf));
+	const int is_negative = source < 0;
+	const uint64_t positive = rrr_htobe64(is_negative ? 0 - (uint64_t) source : (uint64_t) source);
+	memcpy(buf, &positive, sizeof(buf));
 
 	char tmp_b[32];
 	int wpos = 0;
@@ -152,12 +153,12 @@ int rrr_fixp_to_str_16 (
 
 	tmp_b[wpos] = '\0';
 
-	size_t size = strlen("16#") + strlen(tmp_b) + 1;
+	size_t size = strlen("16#") + (is_negative ? 1 : 0) + strlen(tmp_b) + 1;
 	if (size > target_size) {
 		return 1;
 	}
 
-	sprintf(target, "16#%s", tmp_b);
+	sprintf(target, "16#%s%s", is_negative ? "-" : "", tmp_b);
 
 	return 0;
 }
-- 
2.43.0


From 2c2b8b93386458928c42ef011d621eaab990ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 023/134] fix: reject numbers too large for fixed point when
 converting from text

---
 src/lib/fixed_point.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index 4ab4fb4..eb4498f 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -408,12 +408,20 @@ int rrr_fixp_str_to_fixp (
 	factor = 1.0;
 	for (const char *pos = (dot != NULL ? dot - 1 : end - 1); pos >= start; pos--) {
 		char c = *pos;
-		result_integer += (uint64_t) (__rrr_fixp_convert_char(c) * factor);
+		const long double value = __rrr_fixp_convert_char(c) * factor;
+		if (!(value <= RRR_FIXED_POINT_INTEGER_LIMIT) ||
+		    (result_integer += (uint64_t) value) > RRR_FIXED_POINT_INTEGER_LIMIT
+		) {
+			return RRR_FIXED_POINT_PARSE_ERR;
+		}
 		factor *= base;
 	}
 
+	if (result_integer == RRR_FIXED_POINT_INTEGER_LIMIT && (!is_negative || result_fraction != 0)) {
+		return RRR_FIXED_POINT_PARSE_ERR;
+	}
+
 	result |= (result_integer << RRR_FIXED_POINT_BASE2_EXPONENT);
-	result &= ~((uint64_t) 1 << 63);
 
 	// NEGATION
 	if (is_negative) {
-- 
2.43.0


From 61cdbbf9d431ca3203f56ec020aac078b8e4e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 024/134] fix: keep result of earlier conversions when the last
 conversion in a list is not possible

---
 src/lib/type_conversion.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/lib/type_conversion.c b/src/lib/type_conversion.c
index 4f61f46..15970e4 100644
--- a/src/lib/type_conversion.c
+++ b/src/lib/type_conversion.c
@@ -658,12 +658,8 @@ static int __rrr_type_convert_using_list (
 
 	// The innermost function eventually writes to target
 	if ((ret = __rrr_type_convert_using_list (target, next_source, list, pos + 1, flags)) != 0) {
-		if (ret == RRR_TYPE_CONVERSION_DONE) {
-			if (result_local == NULL) {
-				ret = RRR_TYPE_CONVERSION_NOT_POSSIBLE;
-				goto out;
-			}
-
+		// If there is no local result, a result further out (if any) is the final one
+		if (ret == RRR_TYPE_CONVERSION_DONE && result_local != NULL) {
 			*target = result_local;
 			result_local = NULL;
 			ret = 0;
@@ -683,7 +679,9 @@ int rrr_type_convert_using_list (
 		const struct rrr_type_conversion_collection *list,
 		const int flags
 ) {
-	return __rrr_type_convert_using_list (target, source, list, 0, flags);
+	const int ret = __rrr_type_convert_using_list (target, source, list, 0, flags);
+
+	return ret == RRR_TYPE_CONVERSION_DONE ? RRR_TYPE_CONVERSION_NOT_POSSIBLE : ret;
 }
 
 void rrr_type_conversion_collection_destroy (
-- 
2.43.0


From 2b27f2d7787ca35596a33e00b497cad7b9b95a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 025/134] fix: Bytes above 0x7f are not control characters when
 parsing

The bytes of UTF-8 characters were, due to the signedness of char, taken for
control characters, which made topic filters with such characters in route
and method definitions end early or be rejected.
---
 src/lib/parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parse.h b/src/lib/parse.h
index 0b1e750..27bb6e5 100644
--- a/src/lib/parse.h
+++ b/src/lib/parse.h
@@ -64,7 +64,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #define RRR_PARSE_MATCH_C_NULL(c) 		\
 	((c) == '\0')
 #define RRR_PARSE_MATCH_C_CONTROL(c)	\
-	((c) <= 0x1f)
+	((unsigned char) (c) <= 0x1f)
 #define RRR_PARSE_MATCH_C_TAG(c)	\
 	(RRR_PARSE_MATCH_C_LETTER(c) || RRR_PARSE_MATCH_C_NUMBER(c))
 
-- 
2.43.0


From 7b230162130ab520538acd446105d7f40eb71395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 026/134] fix: Parse helpers do not read the byte after the end
 of the input

---
 src/lib/parse.c | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/lib/parse.c b/src/lib/parse.c
index f8de84b..77d6c8d 100644
--- a/src/lib/parse.c
+++ b/src/lib/parse.c
@@ -126,11 +126,12 @@ void rrr_parse_comment (
 		return;
 	}
 
-	char c = pos->data[pos->pos];
-
-	while (c != '\r' && c != '\n' && pos->pos < pos->size) {
+	while (!RRR_PARSE_CHECK_EOF(pos)) {
+		const char c = pos->data[pos->pos];
+		if (c == '\r' || c == '\n') {
+			break;
+		}
 		pos->pos++;
-		c = pos->data[pos->pos];
 	}
 
 	rrr_parse_ignore_spaces_and_increment_line(pos);
@@ -282,8 +283,8 @@ void rrr_parse_match_until (
 	rrr_length pos_orig = pos->pos;
 
 	int found = 0;
-	char c = pos->data[pos->pos];
 	while (!RRR_PARSE_CHECK_EOF(pos)) {
+		const char c = pos->data[pos->pos];
 		if (__rrr_parse_match_char(c, flags)) {
 			found = 1;
 			break;
@@ -296,7 +297,6 @@ void rrr_parse_match_until (
 			}
 			break;
 		}
-		c = pos->data[pos->pos];
 	}
 
 	if (found == 0) {
@@ -315,17 +315,13 @@ void rrr_parse_non_newline (
 	*start = pos->pos;
 	*end = pos->pos;
 
-	char c = pos->data[pos->pos];
 	while (!RRR_PARSE_CHECK_EOF(pos)) {
+		const char c = pos->data[pos->pos];
 		if (c == '\r' || c == '\n') {
 			break;
 		}
 
 		pos->pos++;
-		if (RRR_PARSE_CHECK_EOF(pos)) {
-			break;
-		}
-		c = pos->data[pos->pos];
 	}
 
 	*end = (rrr_slength) pos->pos - 1;
@@ -339,17 +335,13 @@ void rrr_parse_non_control (
 	*start = pos->pos;
 	*end = pos->pos;
 
-	char c = pos->data[pos->pos];
 	while (!RRR_PARSE_CHECK_EOF(pos)) {
+		const char c = pos->data[pos->pos];
 		if (RRR_PARSE_MATCH_C_CONTROL(c)) {
 			break;
 		}
 
 		pos->pos++;
-		if (RRR_PARSE_CHECK_EOF(pos)) {
-			break;
-		}
-		c = pos->data[pos->pos];
 	}
 
 	*end = (rrr_slength) pos->pos - 1;
-- 
2.43.0


From bc65038e58c427a0d98a35a7044fcab77be7d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:05 +0000
Subject: [PATCH 027/134] fix: Topic matching does not look at the byte after
 the topic

When the last level of a topic was empty and was matched with a wildcard, the
byte following the topic (the first data byte of the message) was examined,
and the result was mismatch if it happened to be a dollar sign.
---
 src/lib/mqtt/mqtt_topic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_topic.c b/src/lib/mqtt/mqtt_topic.c
index 0eb0c94..25f7df7 100644
--- a/src/lib/mqtt/mqtt_topic.c
+++ b/src/lib/mqtt/mqtt_topic.c
@@ -191,7 +191,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 
@@ -202,7 +202,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 			for (; topic_pos < topic_end; topic_pos++) {
-- 
2.43.0


From 87ca5076a9e517523a04396c01fb3fda9c6ed4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 028/134] fix: Delayed FIFO write reports the error of its
 callback

---
 src/lib/fifo_protected.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index f8c9c56..049c8f2 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -933,6 +933,7 @@ int rrr_fifo_protected_write_delayed (
 				if ((ret &= ~RRR_FIFO_PROTECTED_GLOBAL_ERR) != 0) {
 					RRR_BUG("BUG: Callback returned GLOBAL_ERR along with return values %i in rrr_fifo_protected_delayed_write\n", ret);
 				}
+				ret = RRR_FIFO_PROTECTED_GLOBAL_ERR;
 				goto out;
 			}
 			else if ((ret & RRR_FIFO_PROTECTED_WRITE_DROP) == RRR_FIFO_PROTECTED_WRITE_DROP) {
-- 
2.43.0


From a96069db3a7b8b4edb90b9cc480b6e43d75bac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 029/134] fix: Ordered writes to protected FIFO store the order

---
 src/lib/fifo_protected.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index 049c8f2..3b5af30 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -422,6 +422,8 @@ static void __rrr_fifo_protected_write_update_pointers (
 ) {
 	struct rrr_fifo_protected_entry *pos = buffer->gptr_first;
 
+	entry->order = order;
+
 	if (pos == NULL) {
 		buffer->gptr_first = entry;
 		buffer->gptr_last = entry;
-- 
2.43.0


From 5a8e1a4848d15d37e5478264bf3547d61f1edfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 030/134] fix: FIFO search and replace keeps track of replaced
 entries when later entries are removed

---
 src/lib/fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/fifo.c b/src/lib/fifo.c
index af9227b..d6212bd 100644
--- a/src/lib/fifo.c
+++ b/src/lib/fifo.c
@@ -545,6 +545,8 @@ int rrr_fifo_search_and_replace (
 
 				__rrr_fifo_entry_destroy(buffer, entry);
 				rrr_length_dec_bug (&buffer->entry_count);
+
+				entry = prev;
 			}
 			else {
 				if (entry->data == data) {
@@ -565,7 +567,6 @@ int rrr_fifo_search_and_replace (
 				rrr_length_dec_bug (&buffer->entry_count);
 			}
 
-			entry = prev;
 			did_something = 1;
 		}
 		if ((actions & RRR_FIFO_SEARCH_STOP) != 0) {
-- 
2.43.0


From fde68772c524b96fb89bed3393eef7e359a8d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 031/134] fix: Protected FIFO reader which stops at its last
 entry does not put back entries of others

---
 src/lib/fifo_protected.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index 3b5af30..66793bb 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -589,7 +589,7 @@ int rrr_fifo_protected_read_clear_forward (
 					pthread_cleanup_push(__rrr_fifo_protected_unlock_void, buffer);
 					struct rrr_fifo_protected_entry *new_first = next;
 
-					if (next == NULL) {
+					if (next == stop) {
 						// We are done anyway
 					}
 					else {
-- 
2.43.0


From 7c157e0fbb92e5227c8ec85136f7266c29d35591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 032/134] fix: FIFO read above minimum reports the error of the
 last callback

---
 src/lib/fifo.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/fifo.c b/src/lib/fifo.c
index d6212bd..561c8f2 100644
--- a/src/lib/fifo.c
+++ b/src/lib/fifo.c
@@ -766,9 +766,6 @@ int rrr_fifo_read_minimum (
 
 			res_ = callback(callback_data, first->data, first->size);
 
-			if (++processed_entries == RRR_FIFO_MAX_READS || first == last_element) {
-				break;
-			}
 			if (res_ == RRR_FIFO_OK) {
 				// Do nothing
 			}
@@ -783,6 +780,10 @@ int rrr_fifo_read_minimum (
 				ret = res_;
 				break;
 			}
+
+			if (++processed_entries == RRR_FIFO_MAX_READS || first == last_element) {
+				break;
+			}
 		}
 
 		first = first->next;
-- 
2.43.0


From d2277dc21305e2a8100ee4bd3a73e8e39e2d99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 033/134] fix: preserve the origin of messages in slots and
 duplicated buffers

The backstop check could not recognize messages which were forwarded by
an instance with buffering disabled or duplication enabled.
---
 src/lib/message_broker.c                     | 10 ++++++++--
 src/lib/message_holder/message_holder_slot.c |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 4943116..197464d 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1108,6 +1108,7 @@ struct rrr_message_broker_clone_and_write_entry_callback_data {
 	struct rrr_message_broker_costumer *costumer;
 	const struct rrr_msg_holder *source;
 	const rrr_msg_holder_nexthops *nexthops;
+	int keep_source;
 };
 
 static int __rrr_message_broker_clone_and_write_entry_callback (RRR_FIFO_PROTECTED_WRITE_CALLBACK_ARGS) {
@@ -1124,6 +1125,9 @@ static int __rrr_message_broker_clone_and_write_entry_callback (RRR_FIFO_PROTECT
 	}
 
 	rrr_msg_holder_lock(target);
+	if (callback_data->keep_source) {
+		target->source = callback_data->source->source;
+	}
 	ret |= __rrr_message_broker_entry_prepare(callback_data->costumer, target, callback_data->nexthops);
 	ret |= __rrr_message_broker_pre_buffer_hook(callback_data->costumer, target);
 	rrr_msg_holder_unlock(target);
@@ -1196,7 +1200,8 @@ int rrr_message_broker_clone_and_write_entry (
 		struct rrr_message_broker_clone_and_write_entry_callback_data callback_data = {
 			costumer,
 			entry,
-			nexthops
+			nexthops,
+			0
 		};
 
 		if (rrr_fifo_protected_write (
@@ -1521,7 +1526,8 @@ static int __rrr_message_broker_split_buffers_fill_callback (RRR_FIFO_PROTECTED_
 		struct rrr_message_broker_clone_and_write_entry_callback_data callback_data = {
 			costumer,
 			entry,
-			&entry->nexthops
+			&entry->nexthops,
+			1 // Backstop must work also for duplicated messages
 		};
 
 		// Use delayed write in case there are other threads reading from their buffer
diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 62ac996..ebb9960 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -229,7 +229,10 @@ int rrr_msg_holder_slot_read (
 	}
 
 	rrr_msg_holder_lock(slot->entry);
-	ret = rrr_msg_holder_util_clone_no_locking(&entry_new, slot->entry);
+	if ((ret = rrr_msg_holder_util_clone_no_locking(&entry_new, slot->entry)) == 0) {
+		// Needed for the backstop check
+		entry_new->source = slot->entry->source;
+	}
 	rrr_msg_holder_unlock(slot->entry);
 
 	if (ret != 0) {
-- 
2.43.0


From 3177de70e3b23a81da7646293662a3c325970b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 034/134] fix: Slot takes its reference to an entry before
 readers can find it

---
 src/lib/message_holder/message_holder_slot.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index ebb9960..50e1ffd 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -475,12 +475,14 @@ int rrr_msg_holder_slot_write_incref (
 ) {
 	int ret = 0;
 
+	// The slot must have its reference before a reader can find the entry
+	rrr_msg_holder_incref(entry_new);
+
 	if ((ret = __rrr_msg_holder_slot_write(slot, entry_new, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+		rrr_msg_holder_decref(entry_new);
 		goto out;
 	}
 
-	rrr_msg_holder_incref(entry_new);
-
 	out:
 	return ret;
 }
-- 
2.43.0


From ad06e1268a3aea6bfb4dd7f41d5f385b4ed88baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 035/134] fix: Writing several entries to a slot notifies the
 readers about each of them

---
 src/lib/message_broker.c                     | 20 +++++++++++++++++++-
 src/lib/message_holder/message_holder_slot.c | 14 ++++++++------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 197464d..1aa328a 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1335,7 +1335,25 @@ int rrr_message_broker_write_entries_from_collection_unsafe (
 	RRR_LL_ITERATE_END();
 
 	if (costumer->slot != NULL) {
-		ret = rrr_msg_holder_slot_write_from_collection(costumer->slot, collection, check_cancel_callback, check_cancel_callback_arg);
+		while (RRR_LL_COUNT(collection) > 0) {
+			if ((ret = rrr_msg_holder_slot_write_from_collection (
+					costumer->slot,
+					collection,
+					check_cancel_callback,
+					check_cancel_callback_arg
+			)) != 0) {
+				goto out;
+			}
+			if ((ret = __rrr_message_broker_write_notifications_send (
+					costumer,
+					1,
+					check_cancel_callback,
+					check_cancel_callback_arg
+			)) != 0) {
+				goto out;
+			}
+		}
+		goto out;
 	}
 	else {
 		ret = rrr_fifo_protected_write(&costumer->main_queue, __rrr_message_broker_write_entries_from_collection_callback, collection);
diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 50e1ffd..e18a91a 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -487,6 +487,8 @@ int rrr_msg_holder_slot_write_incref (
 	return ret;
 }
 
+// Write the first entry of the collection. Readers must be notified
+// before the next one is written.
 int rrr_msg_holder_slot_write_from_collection (
 		struct rrr_msg_holder_slot *slot,
 		struct rrr_msg_holder_collection *collection,
@@ -495,12 +497,12 @@ int rrr_msg_holder_slot_write_from_collection (
 ) {
 	int ret = 0;
 
-	while (RRR_LL_COUNT(collection) > 0) {
-		struct rrr_msg_holder *entry = RRR_LL_FIRST(collection);
-		if ((ret = __rrr_msg_holder_slot_write (slot, entry, check_cancel_callback, check_cancel_callback_arg)) != 0) {
-			goto out;
-		}
-		(void)RRR_LL_SHIFT(collection);
+	// A reader may free the entry once it is in the slot, unlink it first
+	struct rrr_msg_holder *entry = RRR_LL_SHIFT(collection);
+
+	if ((ret = __rrr_msg_holder_slot_write (slot, entry, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+		RRR_LL_UNSHIFT(collection, entry);
+		goto out;
 	}
 
 	out:
-- 
2.43.0


From 13ad8cf32ae51546ccc92eb4bd0885f7b7e3f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 036/134] fix: Errors while writing a collection of entries are
 not overwritten

---
 src/lib/message_broker.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 1aa328a..2a41b3c 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1356,28 +1356,26 @@ int rrr_message_broker_write_entries_from_collection_unsafe (
 		goto out;
 	}
 	else {
-		ret = rrr_fifo_protected_write(&costumer->main_queue, __rrr_message_broker_write_entries_from_collection_callback, collection);
+		if ((ret = rrr_fifo_protected_write (
+				&costumer->main_queue,
+				__rrr_message_broker_write_entries_from_collection_callback,
+				collection
+		)) != 0) {
+			goto out;
+		}
 	}
 
 	while (written_entries > 0) {
-		if (written_entries > 0xff) {
-			ret = __rrr_message_broker_write_notifications_send (
-					costumer,
-					0xff,
-					check_cancel_callback,
-					check_cancel_callback_arg
-			);
-			written_entries -= 0xff;
-		}
-		else {
-			ret = __rrr_message_broker_write_notifications_send (
-					costumer,
-					(uint8_t) written_entries,
-					check_cancel_callback,
-					check_cancel_callback_arg
-			);
-			written_entries = 0;
+		const uint8_t amount = (uint8_t) (written_entries > 0xff ? 0xff : written_entries);
+		if ((ret = __rrr_message_broker_write_notifications_send (
+				costumer,
+				amount,
+				check_cancel_callback,
+				check_cancel_callback_arg
+		)) != 0) {
+			goto out;
 		}
+		written_entries -= amount;
 	}
 
 	out:
-- 
2.43.0


From 14489980b4c064bef4e88e78429d2078ba13f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 037/134] fix: Unique ID is read while the counter is locked

---
 src/lib/message_broker.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 2a41b3c..99f483a 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -988,8 +988,7 @@ int __rrr_message_broker_get_next_unique_id_callback (
 		void *callback_arg_2
 ) {
 	uint64_t *unique_counter = callback_arg_1;
-
-	(void)(callback_arg_2);
+	uint64_t *result = callback_arg_2;
 
 	(*unique_counter)++;
 
@@ -997,6 +996,8 @@ int __rrr_message_broker_get_next_unique_id_callback (
 		*unique_counter = 1;
 	}
 
+	*result = *unique_counter;
+
 	return 0;
 }
 
@@ -1013,7 +1014,7 @@ int rrr_message_broker_get_next_unique_id (
 				costumer->slot,
 				__rrr_message_broker_get_next_unique_id_callback,
 				&costumer->unique_counter,
-				NULL
+				result
 		)) != 0) {
 			goto out;
 		}
@@ -1023,14 +1024,12 @@ int rrr_message_broker_get_next_unique_id (
 				&costumer->main_queue,
 				__rrr_message_broker_get_next_unique_id_callback,
 				&costumer->unique_counter,
-				NULL
+				result
 		)) != 0) {
 			goto out;
 		}
 	}
 
-	*result = costumer->unique_counter;
-
 	out:
 	return ret;
 }
-- 
2.43.0


From 6e9fba861725740e661a3acf8ccad56718349ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:52 +0000
Subject: [PATCH 038/134] fix: Deferred events are not lost when an event
 function has been paused

---
 src/lib/event/event.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/event/event.c b/src/lib/event/event.c
index f44b983..2593590 100644
--- a/src/lib/event/event.c
+++ b/src/lib/event/event.c
@@ -189,6 +189,10 @@ static void __rrr_event_unpause (
 	for (uint8_t i = 0; i <= RRR_EVENT_FUNCTION_MAX; i++) {
 		if (queue->functions[i].is_paused) {
 			event_add(queue->functions[i].signal_event, NULL);
+			if (queue->deferred_amount[i] > 0) {
+				// Activation was cancelled by the pausing
+				event_active(queue->functions[i].signal_event, 0, 0);
+			}
 		}
 	}
 }
-- 
2.43.0


From 40b1950a42452c91488e6b94d7d4a8fc4aa07d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 039/134] fix: Empty strings in MQTT packets do not stop the
 program

A peer may send properties, client identifiers and will messages
of zero length, which caused a bug trap when the packet was cloned,
read or assembled.
---
 src/lib/mqtt/mqtt_assemble.c    |  4 ++--
 src/lib/mqtt/mqtt_payload_buf.c |  4 ----
 src/lib/mqtt/mqtt_property.c    | 27 ++++++++++-----------------
 3 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index 3206194..b6cb751 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -134,8 +134,8 @@ static int __rrr_mqtt_assemble_put_properties_callback (
 
 	int ret = RRR_MQTT_ASSEMBLE_OK;
 
-	if (property->data == NULL || property->length == 0) {
-		RRR_BUG("Property data and/or length was 0 in %s\n", __func__);
+	if (property->data == NULL) {
+		RRR_BUG("Property data was NULL in %s\n", __func__);
 	}
 
 	PUT_U8(property->definition->identifier);
diff --git a/src/lib/mqtt/mqtt_payload_buf.c b/src/lib/mqtt/mqtt_payload_buf.c
index 4a03070..8575876 100644
--- a/src/lib/mqtt/mqtt_payload_buf.c
+++ b/src/lib/mqtt/mqtt_payload_buf.c
@@ -63,10 +63,6 @@ void rrr_mqtt_payload_buf_dump (struct rrr_mqtt_payload_buf_session *session) {
 }
 
 int rrr_mqtt_payload_buf_ensure (struct rrr_mqtt_payload_buf_session *session, rrr_length size) {
-	if (size <= 0) {
-		RRR_BUG("size was <= 0 in %s\n", __func__);
-	}
-
 	if (session->wpos + size <= session->buf + session->buf_size) {
 		return RRR_MQTT_PAYLOAD_BUF_OK;
 	}
diff --git a/src/lib/mqtt/mqtt_property.c b/src/lib/mqtt/mqtt_property.c
index 0828938..8ba11a9 100644
--- a/src/lib/mqtt/mqtt_property.c
+++ b/src/lib/mqtt/mqtt_property.c
@@ -139,11 +139,8 @@ int rrr_mqtt_property_clone (
 	RRR_LL_NODE_INIT(result);
 	result->sibling = NULL;
 
-	if (result->length <= 0) {
-		RRR_BUG("Length was <= 0 in %s\n", __func__);
-	}
-
-	if ((result->data = rrr_allocate(result->length)) == NULL) {
+	// Blobs and strings might be empty, data pointer must still be set
+	if ((result->data = rrr_allocate(result->length > 0 ? result->length : 1)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
 		ret = 1;
 		goto out_free;
@@ -177,7 +174,7 @@ int rrr_mqtt_property_save_blob (
 		int add_zero_if_needed
 ) {
 	uint32_t size_padded = size;
-	if (add_zero_if_needed != 0 && value[size - 1] != '\0') {
+	if (add_zero_if_needed != 0 && (size == 0 || value[size - 1] != '\0')) {
 		size_padded++;
 	}
 
@@ -233,9 +230,6 @@ const char *rrr_mqtt_property_get_blob (
 	if (property->internal_data_type != RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB) {
 		RRR_BUG("Property was not BLOB in %s\n", __func__);
 	}
-	if (property->length < 1) {
-		RRR_BUG("Length of property was <1 in %s\n", __func__);
-	}
 	*length = property->length;
 	return property->data;
 }
@@ -295,15 +289,14 @@ static int __rrr_mqtt_property_clone (
 	result->order = source->order;
 	result->internal_data_type = source->internal_data_type;
 
-	if (source->length > 0) {
-		result->length = source->length;
-		if ((result->data = rrr_allocate(result->length)) == NULL) {
-			RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
-			ret = 1;
-			goto out_destroy;
-		}
-		memcpy(result->data, source->data, result->length);
+	// Blobs and strings might be empty, data pointer must still be set
+	result->length = source->length;
+	if ((result->data = rrr_allocate(result->length > 0 ? result->length : 1)) == NULL) {
+		RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
+		ret = 1;
+		goto out_destroy;
 	}
+	memcpy(result->data, source->data, result->length);
 
 	*target = result;
 
-- 
2.43.0


From 6783d0c95d2b85a57db2bb038d9681a59bc970f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 040/134] fix: Length of binary properties is only counted once
 in MQTT packets

Data following correlation data and authentication data was not parsed or
parsed from the wrong position.
---
 src/lib/mqtt/mqtt_parse.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 18577aa..81fa6b5 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -679,8 +679,6 @@ static int __rrr_mqtt_parse_property_blob (RRR_PROPERTY_PARSER_DEFINITION) {
 	target->length_orig = blob_length;
 	target->internal_data_type = RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB;
 
-	bytes_parsed += blob_length;
-
 	*bytes_parsed_final = bytes_parsed;
 
 	return ret;
-- 
2.43.0


From cb0447a4a68f52ecbf657c2fe38cbee18fab8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 041/134] fix: Buffer may move while MQTT properties are
 assembled

When the buffer moved, the position of the beginning of the properties
pointed into the old buffer which caused a bug trap.
---
 src/lib/mqtt/mqtt_assemble.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index b6cb751..975cb2d 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -211,7 +211,8 @@ static int __rrr_mqtt_assemble_put_properties (
 
 	PUT_VARIABLE_INT(total_size);
 
-	const char *begin = session->wpos;
+	// Buffer may be re-allocated while properties are written
+	const rrr_length begin = rrr_length_from_ptr_sub_bug_const (session->wpos, session->buf);
 
 	if (rrr_mqtt_property_collection_iterate(properties, __rrr_mqtt_assemble_put_properties_callback, session) != 0) {
 		RRR_MSG_0("Error while iterating properties in %s\n", __func__);
@@ -219,9 +220,9 @@ static int __rrr_mqtt_assemble_put_properties (
 		goto out;
 	}
 
-	const char *end = session->wpos;
+	const rrr_length end = rrr_length_from_ptr_sub_bug_const (session->wpos, session->buf);
 
-	if ((rrr_length) (end - begin) != total_size) {
+	if (end - begin != total_size) {
 		RRR_BUG("Size mismatch in %s\n", __func__);
 	}
 
-- 
2.43.0


From 5509d8b40fdffbb7244293cc4b1a69c3eb60dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 042/134] fix: Fields of MQTT packets must be within the packet

When more data followed a packet which was too short, the fields missing were
read from the next packet and the packet could be accepted.
---
 src/lib/mqtt/mqtt_parse.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 81fa6b5..f05aadb 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -60,7 +60,13 @@ struct parse_state {
     PARSE_CHECK_END_RAW((parse_state->end)+1,(session)->buf+(session)->target_size) \
 
 #define PARSE_CHECK_END_AND_RETURN(end,session)                \
-    PARSE_CHECK_END_AND_RETURN_RAW((end),(session)->buf+(session)->buf_wpos)        \
+    do { if (PARSE_CHECK_END_RAW((end), (session)->buf+(session)->target_size)) {   \
+        RRR_MSG_0("Field traverses packet end while parsing packet of type %s\n",   \
+            session->type_properties->name);                   \
+        return RRR_MQTT_SOFT_ERROR;                            \
+    }                                                          \
+    PARSE_CHECK_END_AND_RETURN_RAW((end),(session)->buf+(session)->buf_wpos);       \
+    } while (0)                                                \
 
 #define PARSE_INIT(type)                                       \
     struct parse_state parse_state_static = {                  \
@@ -435,6 +441,10 @@ static int __rrr_mqtt_parse_blob (
 	const char *end = start + 2;
 	*bytes_parsed = 2;
 
+	if (PARSE_CHECK_END_RAW(end, target_end)) {
+		RRR_MSG_0("Invalid position for blob data, traverses packet end\n");
+		return RRR_MQTT_SOFT_ERROR;
+	}
 	PARSE_CHECK_END_AND_RETURN_RAW(end,buffer_end);
 	*blob_length = rrr_be16toh(*((uint16_t *) start));
 
@@ -475,6 +485,10 @@ static int __rrr_mqtt_parse_blob_nullsafe (
 	const char *end = start + 2;
 	*bytes_parsed = 2;
 
+	if (PARSE_CHECK_END_RAW(end, target_end)) {
+		RRR_MSG_0("Invalid position for blob data, traverses packet end\n");
+		return RRR_MQTT_SOFT_ERROR;
+	}
 	PARSE_CHECK_END_AND_RETURN_RAW(end,buffer_end);
 	*blob_length = rrr_be16toh(*((uint16_t *) start));
 
-- 
2.43.0


From f199045a5f8d2116e9f57ebbf5aae1fbddb9cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 043/134] fix: Zero-terminate data of MQTT properties also when
 they are cloned

The MQTT client module stops the program if the content type is
not terminated, which was the case for cloned packets.
---
 src/lib/mqtt/mqtt_property.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/mqtt/mqtt_property.c b/src/lib/mqtt/mqtt_property.c
index 8ba11a9..2ec0bb7 100644
--- a/src/lib/mqtt/mqtt_property.c
+++ b/src/lib/mqtt/mqtt_property.c
@@ -139,14 +139,15 @@ int rrr_mqtt_property_clone (
 	RRR_LL_NODE_INIT(result);
 	result->sibling = NULL;
 
-	// Blobs and strings might be empty, data pointer must still be set
-	if ((result->data = rrr_allocate(result->length > 0 ? result->length : 1)) == NULL) {
+	// Blobs and strings might be empty, and users expect zero-termination as when parsed
+	if ((result->data = rrr_allocate(result->length + 1)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
 		ret = 1;
 		goto out_free;
 	}
 
 	memcpy(result->data, source->data, result->length);
+	result->data[result->length] = '\0';
 	result->order = 0;
 
 	if (source->sibling != NULL) {
@@ -289,14 +290,15 @@ static int __rrr_mqtt_property_clone (
 	result->order = source->order;
 	result->internal_data_type = source->internal_data_type;
 
-	// Blobs and strings might be empty, data pointer must still be set
+	// Blobs and strings might be empty, and users expect zero-termination as when parsed
 	result->length = source->length;
-	if ((result->data = rrr_allocate(result->length > 0 ? result->length : 1)) == NULL) {
+	if ((result->data = rrr_allocate(result->length + 1)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
 		ret = 1;
 		goto out_destroy;
 	}
 	memcpy(result->data, source->data, result->length);
+	result->data[result->length] = '\0';
 
 	*target = result;
 
-- 
2.43.0


From 51b14e0549cf32f62959a4ddd7f33519ac55882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 044/134] fix: MQTT properties must be within the length given

Also free the property when its value is incomplete or invalid.
---
 src/lib/mqtt/mqtt_parse.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index f05aadb..8c74bf5 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -788,6 +788,12 @@ static int __rrr_mqtt_parse_properties (
 	const char *properties_body_start = start;
 	const char *properties_body_end = properties_body_start + property_length;
 
+	if (PARSE_CHECK_END_RAW(properties_body_end, session->buf + session->target_size)) {
+		RRR_MSG_0("Invalid size for properties, traverses packet end\n");
+		ret = RRR_MQTT_SOFT_ERROR;
+		goto out;
+	}
+
 	while (end < properties_body_end) {
 		uint8_t type;
 		PARSE_U8_RAW(start,end,type);
@@ -807,10 +813,16 @@ static int __rrr_mqtt_parse_properties (
 		start = end;
 		ret = property_parsers[property_def->internal_data_type](property_tmp, session, start, &bytes_parsed);
 		if (ret != 0) {
-			return ret;
+			goto out;
 		}
 		end = start + bytes_parsed;
 
+		if (PARSE_CHECK_END_RAW(end, properties_body_end)) {
+			RRR_MSG_0("Value of mqtt property field 0x%02x traverses end of properties\n", type);
+			ret = RRR_MQTT_SOFT_ERROR;
+			goto out;
+		}
+
 		rrr_mqtt_property_collection_add (target, property_tmp);
 		property_tmp = NULL;
 	}
-- 
2.43.0


From fcdacf7316f99826fb1ab40da5578fa2b4518347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 045/134] fix: No local and retain as published in SUBSCRIBE do
 not stop the program

The flags are valid for version 5, but caused a bug trap in the broker.
---
 src/lib/mqtt/mqtt_assemble.c     | 2 +-
 src/lib/mqtt/mqtt_subscription.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index 975cb2d..3c220f5 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -379,7 +379,7 @@ int __rrr_mqtt_assemble_sub_usub_callback (struct rrr_mqtt_subscription *sub, vo
 	struct assemble_sub_usub_callback_data *callback_data = arg;
 	struct rrr_mqtt_payload_buf_session *session = callback_data->session;
 
-	if (sub->nl > 0 || sub->rap > 0 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
+	if (sub->nl > 1 || sub->rap > 1 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
 		RRR_BUG("Invalid flags/QoS in %s\n", __func__);
 	}
 
diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 10fc0bf..0409c92 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -60,7 +60,7 @@ int rrr_mqtt_subscription_new (
 
 	*target = NULL;
 
-	if (nl > 0 || rap > 0 || retain_handling > 2) {
+	if (nl > 1 || rap > 1 || retain_handling > 2) {
 		RRR_BUG("Invalid flags in %s\n", __func__);
 	}
 
-- 
2.43.0


From 9826950dad949315c243e784bdb608a6ec884fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 046/134] fix: Check correct pointer after allocation of topic
 filter

---
 src/lib/mqtt/mqtt_subscription.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 0409c92..ba88643 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -85,7 +85,7 @@ int rrr_mqtt_subscription_new (
 
 	else {
 		sub->topic_filter = rrr_allocate(strlen(topic_filter) + 1);
-		if (sub == NULL) {
+		if (sub->topic_filter == NULL) {
 			RRR_MSG_0("Could not allocate memory for topic filter in %s\n", __func__);
 			ret = 1;
 			goto out_free_subscription;
-- 
2.43.0


From 3312b70c808d730995ebbfdcbc7a53e9956327b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 047/134] fix: Accept MQTT acknowledgements with reason but
 without properties

---
 src/lib/mqtt/mqtt_parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 8c74bf5..5c779c4 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1086,6 +1086,9 @@ int rrr_mqtt_parse_def_puback (struct rrr_mqtt_parse_session *session) {
 			RRR_BUG("Unknown packet type %u in %s\n", RRR_MQTT_P_GET_TYPE(def_puback), __func__);
 		}
 
+		// Property length may be omitted if there are no properties
+		PARSE_CHECK_NO_MORE_DATA();
+
 		PARSE_PROPERTIES_IF_V5(def_puback,properties);
 	}
 
-- 
2.43.0


From db665770a5da7eecc33e8b5f01e4e8209eca20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 048/134] fix: Reject zero characters in MQTT strings

Validation stopped at the first zero, hence the data after it was not checked
and got lost.
---
 src/lib/mqtt/mqtt_parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 5c779c4..8589e30 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -536,6 +536,12 @@ static int __rrr_mqtt_parse_utf8_validate (
 		return RRR_MQTT_SOFT_ERROR;
 	}
 
+	// The iterator below stops at the first \0
+	if (memchr(data, '\0', utf8_length) != NULL) {
+		RRR_MSG_0("Illegal character 0x0000 in UTF8-data\n");
+		return RRR_MQTT_SOFT_ERROR;
+	}
+
 	struct parse_utf8_validate_callback_data callback_data = {0, 0};
 	if (rrr_utf8_validate_and_iterate(data, utf8_length, __rrr_mqtt_parse_utf8_validate_callback, &callback_data) != 0) {
 		RRR_MSG_0 ("Malformed UTF-8 detected in UTF8-data\n");
-- 
2.43.0


From d36392a84698e439b9dd6848687a5c4ea23d1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 049/134] fix: HTTP header fields with empty values and
 separators do not make the message fail

Values like 'abc=', '=abc' and 'abc; ' caused the whole message to be refused
---
 src/lib/http/http_header_fields.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_header_fields.c b/src/lib/http/http_header_fields.c
index e70c9b6..5521ef8 100644
--- a/src/lib/http/http_header_fields.c
+++ b/src/lib/http/http_header_fields.c
@@ -844,12 +844,15 @@ static int __rrr_http_header_field_parse_subvalue (
 	const char *equal = NULL;
 	const char *semicolon = NULL;
 
-	while (*start == ' ' && start < end) {
+	while (start < line_end && (*start == ' ' || *start == '\t' ||
+		(*start == ';' && (field_flags & RRR_HTTP_HEADER_FIELD_NO_PAIRS) == 0))
+	) {
 		start++;
 	}
 
 	if (start == line_end) {
 		// Line ended with , or ; propably, assume we are done
+		*parsed_bytes = rrr_length_from_ptr_sub_bug_const (start, start_orig);
 		ret = RRR_HTTP_PARSE_OK;
 		goto out;
 	}
@@ -866,6 +869,10 @@ static int __rrr_http_header_field_parse_subvalue (
 
 	if ((field_flags & RRR_HTTP_HEADER_FIELD_NO_PAIRS) == 0) {
 		equal = rrr_http_util_strchr(separator_search_start, line_end, '=');
+		if (equal == start) {
+			// Not a name=value pair
+			equal = NULL;
+		}
 		semicolon = rrr_http_util_strchr(separator_search_start, line_end, ';');
 	}
 
@@ -908,12 +915,14 @@ static int __rrr_http_header_field_parse_subvalue (
 		start = name_end + 1 + rrr_http_util_count_whsp(name_end, line_end);
 	}
 
-	if (start >= line_end) {
+	if (start > line_end) {
 		RRR_MSG_0("Could not find value after = while parsing subvalues of HTTP header field\n");
 		ret = RRR_HTTP_PARSE_SOFT_ERR;
 		goto out;
 	}
 
+	// Note : Value may be empty
+
 	// TODO : This method to find value end is naive, need to parse quoted values correctly
 
 	const char *value_end = __rrr_http_header_field_parse_get_first_position(comma, semicolon, NULL, line_end);
-- 
2.43.0


From 879e73d4f4da06e8e4574ac8721df50e16cca2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 050/134] fix: Length of merged HTTP chunks does not include
 the header

---
 src/lib/http/http_part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index 5f1b972..5cf647c 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -759,7 +759,7 @@ int rrr_http_part_chunks_merge (
 	RRR_LL_ITERATE_END_CHECK_DESTROY(&part->chunks, 0; rrr_free(node));
 
 	part->is_chunked = 0;
-	part->data_length = wpos;
+	part->data_length = wpos - top_length;
 
 	*result_data = data_new;
 	data_new = NULL;
-- 
2.43.0


From 9d001570ce2ba2ec25e41a30f8feb5fd5077b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 051/134] fix: Whitespace after values in HTTP header fields is
 not part of the value

---
 src/lib/http/http_header_fields.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_header_fields.c b/src/lib/http/http_header_fields.c
index 5521ef8..ae91c87 100644
--- a/src/lib/http/http_header_fields.c
+++ b/src/lib/http/http_header_fields.c
@@ -765,6 +765,16 @@ static const char *__rrr_http_header_field_parse_get_first_position (
 	return first;
 }
 
+static rrr_length __rrr_http_header_field_length_without_trailing_whsp (
+		const char *start,
+		const char *end
+) {
+	while (end > start && (*(end - 1) == ' ' || *(end - 1) == '\t')) {
+		end--;
+	}
+	return rrr_length_from_ptr_sub_bug_const(end, start);
+}
+
 enum rrr_http_header_field_parse_line_end_mode {
 	RRR_HTTP_HEADER_FIELD_PARSE_LINE_END_MODE_END,
 	RRR_HTTP_HEADER_FIELD_PARSE_LINE_END_MODE_CRLF
@@ -884,7 +894,7 @@ static int __rrr_http_header_field_parse_subvalue (
 		name_end =  __rrr_http_header_field_parse_get_first_position(comma, semicolon, equal, line_end);
 	}
 
-	rrr_length name_length = rrr_length_from_ptr_sub_bug_const(name_end, start);
+	rrr_length name_length = __rrr_http_header_field_length_without_trailing_whsp(start, name_end);
 	if (name_length <= 0) {
 		RRR_MSG_0("No name found while parsing subvalues of HTTP header field\n");
 		rrr_http_util_print_where_message(start, end);
@@ -928,7 +938,11 @@ static int __rrr_http_header_field_parse_subvalue (
 	const char *value_end = __rrr_http_header_field_parse_get_first_position(comma, semicolon, NULL, line_end);
 	rrr_length value_length = rrr_length_from_ptr_sub_bug_const (value_end, start);
 
-	if (rrr_http_field_value_set(subvalue, start, value_length) != 0) {
+	if (rrr_http_field_value_set (
+			subvalue,
+			start,
+			__rrr_http_header_field_length_without_trailing_whsp(start, value_end)
+	) != 0) {
 		RRR_MSG_0("Could not allocate memory for value in __rrr_http_header_field_subvalue_parse\n");
 		ret = RRR_HTTP_PARSE_HARD_ERR;
 		goto out;
-- 
2.43.0


From 19e4a492a1a25a92a15b529b5e3ab7aab06ff1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 052/134] fix: HTTP lengths and chunk sizes out of range are
 refused

Sizes near the maximum wrapped around which made the parser read outside
the receive buffer or finish too early, and data which was not a CRLF after the
last chunk was taken as one.
---
 src/lib/http/http_part_parse.c | 20 +++++++++++++++++++-
 src/lib/http/http_util.c       |  7 +++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index dd6f580..edd4d6f 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -299,6 +299,18 @@ static int __rrr_http_part_parse_chunk_header (
 
 //		printf ("First character in chunk: %i\n", *(buf + chunk_start));
 
+	if (chunk_length > RRR_BIGLENGTH_MAX - chunk_start) {
+		RRR_MSG_0("Chunk length %llu out of range while parsing HTTP chunk header\n", chunk_length);
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
+	if (chunk_length == 0 && (*pos != '\r' || *(pos + 1) != '\n')) {
+		RRR_MSG_0("Last HTTP chunk was not followed by CRLF\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	if ((new_chunk = rrr_http_part_chunk_new(chunk_start, chunk_length)) == NULL) {
 		ret = RRR_HTTP_PARSE_HARD_ERR;
 		goto out;
@@ -378,7 +390,7 @@ static int __rrr_http_part_parse_chunk (
 	rrr_biglength parsed_bytes_previous_chunk = 0;
 
 	if (last_chunk != NULL) {
-		if (buf + last_chunk->start + last_chunk->length > end) {
+		if (last_chunk->start + last_chunk->length > rrr_biglength_from_ptr_sub_bug_const (end, buf)) {
 			// Need to read more
 			ret = RRR_HTTP_PARSE_INCOMPLETE;
 			goto out;
@@ -703,6 +715,12 @@ int rrr_http_part_parse (
 	const struct rrr_http_header_field *transfer_encoding = rrr_http_part_header_field_get(part, "transfer-encoding");
 
 	if (content_length != NULL) {
+		if (content_length->value_unsigned > RRR_BIGLENGTH_MAX - part->headroom_length - part->header_length) {
+			RRR_MSG_0("HTTP 'Content-Length' %llu out of range\n", content_length->value_unsigned);
+			ret = RRR_HTTP_PARSE_SOFT_ERR;
+			goto out;
+		}
+
 		part->data_length = content_length->value_unsigned;
 		*target_size = part->headroom_length + part->header_length + content_length->value_unsigned;
 
diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 0904eca..db9968c 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -22,6 +22,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 #include <strings.h>
 #include <ctype.h>
 #include <stdarg.h>
@@ -658,8 +659,14 @@ int rrr_http_util_strtoull_raw (
 	buf[numbers_end - start] = '\0';
 
 	char *endptr;
+	errno = 0;
 	unsigned long long int number = strtoull(buf, &endptr, base);
 
+	if (errno == ERANGE) {
+		RRR_DBG_3("Number was too big in %s\n", __func__);
+		return 1;
+	}
+
 	if (endptr == NULL) {
 		RRR_BUG("Endpointer was NULL in %s\n", __func__);
 	}
-- 
2.43.0


From e107d6fedf11700e5791d7d4bf4cf7eafb5ab014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 053/134] fix: HTTP messages with ambiguous length are refused

Messages with both Content-Length and Transfer-Encoding or with different
Content-Length fields may be understood differently by other parties
---
 src/lib/http/http_part_parse.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index edd4d6f..dca7a1b 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -548,6 +548,28 @@ static int __rrr_http_part_parse_chunked (
 	return ret;
 }
 
+static int __rrr_http_part_framing_validate (
+		const struct rrr_http_part *part,
+		const struct rrr_http_header_field *content_length,
+		const struct rrr_http_header_field *transfer_encoding
+) {
+	if (content_length != NULL && transfer_encoding != NULL) {
+		RRR_MSG_0("Both 'Content-Length' and 'Transfer-Encoding' found in HTTP header\n");
+		return RRR_HTTP_PARSE_SOFT_ERR;
+	}
+
+	RRR_LL_ITERATE_BEGIN(&part->headers, const struct rrr_http_header_field);
+		if ( rrr_nullsafe_str_cmpto(node->name, "content-length") == 0 &&
+		     node->value_unsigned != content_length->value_unsigned
+		) {
+			RRR_MSG_0("Conflicting values for 'Content-Length' found in HTTP header\n");
+			return RRR_HTTP_PARSE_SOFT_ERR;
+		}
+	RRR_LL_ITERATE_END();
+
+	return RRR_HTTP_PARSE_OK;
+}
+
 int rrr_http_part_parse (
 		struct rrr_http_part *part,
 		rrr_biglength *target_size,
@@ -714,6 +736,10 @@ int rrr_http_part_parse (
 	const struct rrr_http_header_field *content_length = rrr_http_part_header_field_get(part, "content-length");
 	const struct rrr_http_header_field *transfer_encoding = rrr_http_part_header_field_get(part, "transfer-encoding");
 
+	if ((ret = __rrr_http_part_framing_validate (part, content_length, transfer_encoding)) != 0) {
+		goto out;
+	}
+
 	if (content_length != NULL) {
 		if (content_length->value_unsigned > RRR_BIGLENGTH_MAX - part->headroom_length - part->header_length) {
 			RRR_MSG_0("HTTP 'Content-Length' %llu out of range\n", content_length->value_unsigned);
-- 
2.43.0


From 89442df9ab91c477fbbc2a2ed6a72293abe31f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 054/134] fix: Too short HTTP response lines are refused
 instead of waiting for more data

---
 src/lib/http/http_part_parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index dca7a1b..f4786c0 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -55,7 +55,8 @@ static int __rrr_http_part_parse_response_code (
 	}
 
 	if (crlf - start < (ssize_t) strlen("HTTP/1.x 200")) {
-		ret = RRR_HTTP_PARSE_INCOMPLETE;
+		RRR_MSG_0("HTTP response line was too short\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
 		goto out;
 	}
 
-- 
2.43.0


From 98732ee7f1431cd4278e9386b405f6cd275eec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 055/134] fix: HTTP response codes followed by other characters
 are refused

---
 src/lib/http/http_part_parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index f4786c0..8ae355f 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -80,7 +80,10 @@ static int __rrr_http_part_parse_response_code (
 	start += rrr_http_util_count_whsp(start, end);
 
 	unsigned long long int response_code = 0;
-	if (rrr_http_util_strtoull_raw(&response_code, &tmp_len, start, crlf, 10) != 0 || response_code > 999) {
+	if (rrr_http_util_strtoull_raw(&response_code, &tmp_len, start, crlf, 10) != 0 ||
+	    response_code > 999 ||
+	    (start + tmp_len < crlf && *(start + tmp_len) != ' ' && *(start + tmp_len) != '\t')
+	) {
 		RRR_MSG_0("Could not understand HTTP response code in __rrr_http_parse_response_code\n");
 		ret = RRR_HTTP_PARSE_SOFT_ERR;
 		goto out;
-- 
2.43.0


From 9fdc7c44c3ab030410f0b4b1f736dcfc5b25a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 056/134] fix: Percent sequences with only one hexadecimal
 digit are refused

---
 src/lib/http/http_part.c | 2 +-
 src/lib/http/http_util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index 5cf647c..d2099e3 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -428,7 +428,7 @@ static int __rrr_http_part_query_string_parse (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, start + 1, start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, start + 1, start + 3, 16) != 0 || result_len != 2) {
 				RRR_MSG_0("Invalid %%-sequence in HTTP query string\n");
 				rrr_http_util_print_where_message(start, end);
 				ret = RRR_HTTP_PARSE_SOFT_ERR;
diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index db9968c..36a086b 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -271,7 +271,7 @@ static int __rrr_http_util_decode_urlencoded_string (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0 || result_len != 2) {
 				if (RRR_DEBUGLEVEL_3) {
 					RRR_MSG_3("Invalid %%-sequence in urlencoded string\n");
 					rrr_http_util_print_where_message((const char *) start, (const char *) end);
-- 
2.43.0


From fe1c223d64162e5efcf592a175da928d90e2a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 057/134] fix: Protocols of URIs are compared completely and a
 separator in the endpoint is not a protocol

---
 src/lib/http/http_util.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 36a086b..f6c04b7 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1127,6 +1127,20 @@ int rrr_http_util_uri_endpoint_clean (
     goto out;                                                            \
   }}while(0) 
 
+// A protocol separator located after any of these is part of the
+// endpoint or query string
+static int __rrr_http_util_has_endpoint_char (
+		const char *pos,
+		const char *end
+) {
+	for (; pos < end; pos++) {
+		if (*pos == '/' || *pos == '?') {
+			return 1;
+		}
+	}
+	return 0;
+}
+
 static int __rrr_http_util_uri_parse_callback (
 		const void *str,
 		rrr_nullsafe_len len,
@@ -1150,18 +1164,18 @@ static int __rrr_http_util_uri_parse_callback (
 		if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "//") == 0 && new_pos == pos) {
 			// OK, empty protocol
 		}
-		else if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "://") == 0) {
+		else if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "://") == 0 && !__rrr_http_util_has_endpoint_char(pos, new_pos)) {
 			ssize_t protocol_name_length = new_pos - pos;
-			if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
+			if (protocol_name_length == 5 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
 				uri_new->protocol = rrr_strdup("https");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "http", 4) == 0) {
+			else if (protocol_name_length == 4 && rrr_posix_strncasecmp(pos, "http", 4) == 0) {
 				uri_new->protocol = rrr_strdup("http");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
+			else if (protocol_name_length == 2 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
 				uri_new->protocol = rrr_strdup("ws");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "wss", 3) == 0) {
+			else if (protocol_name_length == 3 && rrr_posix_strncasecmp(pos, "wss", 3) == 0) {
 				uri_new->protocol = rrr_strdup("wss");
 			}
 			else {
-- 
2.43.0


From 67121bf1fc8aff02e44a4938aaedee2e5011f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 058/134] fix: URIs are not read past the end and characters
 after the port are refused

---
 src/lib/http/http_util.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index f6c04b7..5c03283 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1027,7 +1027,7 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		uri_new->host[result_len_tmp] = '\0';
 	}
 
-	if (**pos == ':') {
+	if (*pos < end && **pos == ':') {
 		(*pos)++;
 		unsigned long long port = 0;
 		if (rrr_http_util_strtoull_raw(&port, &result_len_tmp, *pos, end, 10) != 0 || port < 1 || port > 65535) {
@@ -1039,9 +1039,15 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		uri_new->port = (uint16_t) port;
 
 		*pos += result_len_tmp;
+
+		if (*pos < end && !(allow_slash && **pos == '/')) {
+			RRR_MSG_0("Invalid character x%02x after port in host:port URI\n", (unsigned char) **pos);
+			ret = 1;
+			goto out;
+		}
 	}
 	else if (force_port) {
-		RRR_MSG_0("Invalid character x%02x after hostname in host:port URI\n", **pos);
+		RRR_MSG_0("Port missing after hostname in host:port URI\n");
 		ret = 1;
 		goto out;
 	}
-- 
2.43.0


From 16117cc76cdfe9a2de5fab3e7c650d4cfd666c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 059/134] fix: Escaped backslashes in quoted strings are
 unescaped

---
 src/lib/http/http_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 5c03283..9e458b3 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -411,8 +411,8 @@ static int __rrr_http_util_unquote_string_callback (
 				if (*start == '\\') {
 					if (start + 1 < end) {
 						unsigned char next = *(start + 1);
-						if (next == endquote) {
-							// Write only the quote character
+						if (next == endquote || next == '\\') {
+							// Write only the escaped character
 							start++;
 						}
 						else {
-- 
2.43.0


From 79447107f82da23a3c5e3c0136338cbec52b9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 060/134] fix: The endpoint is included when a URI is
 duplicated

---
 src/lib/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 9e458b3..c2147ba 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -821,7 +821,7 @@ int rrr_http_util_uri_dup (
 		goto out_free;
 	}
 
-	if (uri_result->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
+	if (uri->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for endpoint in %s\n", __func__);
 		ret = 1;
 		goto out_free;
-- 
2.43.0


From 73688ab1225a883803eca31b111c0cd53f8c6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 061/134] fix: Backslashes are escaped in quoted values of
 queries

---
 src/lib/http/http_query_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_query_builder.c b/src/lib/http/http_query_builder.c
index 53602e4..3eebdab 100644
--- a/src/lib/http/http_query_builder.c
+++ b/src/lib/http/http_query_builder.c
@@ -86,7 +86,7 @@ static int __rrr_http_query_builder_escape_field (
 
 	for (rrr_biglength i = 0; i < length; i++) {
 		char c = *(source + i);
-		if (c == '"' || (add_double_quotes == 0 && (c == ',' || c == '=' || c == ' ' || c == '\t' || c == '\r' || c == '\n'))) {
+		if (c == '"' || (add_double_quotes != 0 && c == '\\') || (add_double_quotes == 0 && (c == ',' || c == '=' || c == ' ' || c == '\t' || c == '\r' || c == '\n'))) {
 			*(wpos++) = '\\';
 		}
 		*(wpos++) = c;
-- 
2.43.0


From 4cafffea49c09bdd385184266e4a8b327b35d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 062/134] fix: White space after a query string is not part of
 the last value

---
 src/lib/http/http_part.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index d2099e3..a5c91a1 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -411,7 +411,20 @@ static int __rrr_http_part_query_string_parse (
 
 		unsigned char c = (unsigned char) *start;
 
-		if (start + 1 >= end || c == ' ' || c == '\t' || c == '\r' || c == '\n') {
+		if (c == ' ' || c == '\t' || c == '\r' || c == '\n') {
+			// White space ends the string and is not part of any name or value
+			if (value_target == NULL) {
+				if (buf_pos > 0) {
+					end_is_near = 1;
+					goto push_new_field_no_value;
+				}
+				break;
+			}
+			end_is_near = 1;
+			goto store_value;
+		}
+
+		if (start + 1 >= end) {
 			end_is_near = 1;
 		}
 
@@ -442,7 +455,7 @@ static int __rrr_http_part_query_string_parse (
 			c = (unsigned char) result;
 			start += 2; // One more ++ at the end of the loop
 
-			if (start + 1 >= end || *(start+1) == ' ' || *(start+1) == '\t' || *(start+1) == '\r' || *(start+1) == '\n') {
+			if (start + 1 >= end) {
 				end_is_near = 1;
 			}
 		}
-- 
2.43.0


From e85a50f3e55f9998063b34f91ffe130d4491a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 063/134] fix: Quoted values of HTTP header fields may contain
 separators

---
 src/lib/http/http_header_fields.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_header_fields.c b/src/lib/http/http_header_fields.c
index ae91c87..ee0a224 100644
--- a/src/lib/http/http_header_fields.c
+++ b/src/lib/http/http_header_fields.c
@@ -933,7 +933,21 @@ static int __rrr_http_header_field_parse_subvalue (
 
 	// Note : Value may be empty
 
-	// TODO : This method to find value end is naive, need to parse quoted values correctly
+	// Separators inside quoted values are not separators
+	if (start < line_end && *start == '"') {
+		const char *pos = start + 1;
+		while (pos < line_end && *pos != '"') {
+			pos += (*pos == '\\' ? 2 : 1);
+		}
+		if (pos < line_end) {
+			if (semicolon != NULL) {
+				semicolon = rrr_http_util_strchr(pos + 1, line_end, ';');
+			}
+			if (comma != NULL) {
+				comma = rrr_http_util_strchr(pos + 1, line_end, ',');
+			}
+		}
+	}
 
 	const char *value_end = __rrr_http_header_field_parse_get_first_position(comma, semicolon, NULL, line_end);
 	rrr_length value_length = rrr_length_from_ptr_sub_bug_const (value_end, start);
-- 
2.43.0


From e9d293a387f334f409a499b6ce344d9487e8a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 064/134] fix: Too short parts of multipart forms are refused

---
 src/lib/http/http_part_multipart.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/http/http_part_multipart.c b/src/lib/http/http_part_multipart.c
index 3e06466..b6f787a 100644
--- a/src/lib/http/http_part_multipart.c
+++ b/src/lib/http/http_part_multipart.c
@@ -171,6 +171,13 @@ static int __rrr_http_part_multipart_process_part_callback (
 	}
 
 	new_part->headroom_length = rrr_nullsafe_str_len(haystack_orig) - rrr_nullsafe_str_len(pos_after_needle);
+
+	if (new_part->header_complete != 1 || find_end_callback_data.part_length < new_part->header_length + 2) {
+		RRR_DBG_3("Part without header or too short part in HTTP multipart request\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	new_part->data_length = find_end_callback_data.part_length - new_part->header_length - 2; // Subtract one CRLF
 
 	if (RRR_DEBUGLEVEL_3) {
-- 
2.43.0


From 3e23ea1548831d6bb208c9630b247ead2f7a3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 065/134] fix: Levels of parts inside parts in multipart forms
 are limited

---
 src/lib/http/http_part_multipart.c | 39 +++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/lib/http/http_part_multipart.c b/src/lib/http/http_part_multipart.c
index b6f787a..755caa8 100644
--- a/src/lib/http/http_part_multipart.c
+++ b/src/lib/http/http_part_multipart.c
@@ -33,6 +33,15 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include "../util/gnu.h"
 #include "../helpers/nullsafe_str.h"
 
+// Parts inside parts are processed recursively
+#define RRR_HTTP_PART_MULTIPART_MAX_DEPTH 16
+
+static int __rrr_http_part_multipart_process (
+		struct rrr_http_part *part,
+		const char *data_ptr,
+		int depth
+);
+
 struct rrr_http_part_multipart_process_part_find_end_callback_data {
 	rrr_length part_length;
 };
@@ -68,6 +77,7 @@ struct rrr_http_part_multipart_process_part_callback_data {
 	rrr_biglength *parsed_bytes;
 	const struct rrr_nullsafe_str *boundary_with_dashes_end;
 	const char *data_ptr;
+	int depth;
 };
 
 static int __rrr_http_part_multipart_process_part_callback (
@@ -184,7 +194,7 @@ static int __rrr_http_part_multipart_process_part_callback (
 		rrr_http_part_header_dump(new_part);
 	}
 
-	if ((ret = rrr_http_part_multipart_process(new_part, callback_data->data_ptr)) != 0) {
+	if ((ret = __rrr_http_part_multipart_process(new_part, callback_data->data_ptr, callback_data->depth + 1)) != 0) {
 		if (ret == RRR_HTTP_PARSE_HARD_ERR) {
 			RRR_MSG_0("Error while processing sub-multipart in HTTP multipart request\n");
 		}
@@ -214,7 +224,8 @@ static int __rrr_http_part_multipart_process_parts (
 		rrr_biglength *parsed_bytes,
 		const char * const start,
 		const char * const end,
-		const struct rrr_nullsafe_str *boundary
+		const struct rrr_nullsafe_str *boundary,
+		int depth
 ) {
 	int ret = RRR_HTTP_PARSE_INCOMPLETE;
 
@@ -263,7 +274,8 @@ static int __rrr_http_part_multipart_process_parts (
 			max_parts,
 			parsed_bytes,
 			boundary_with_dashes_end,
-			start
+			start,
+			depth
 	};
 
 	if ((ret = rrr_nullsafe_str_str_raw (
@@ -285,9 +297,10 @@ static int __rrr_http_part_multipart_process_parts (
 		return ret;
 }
 
-int rrr_http_part_multipart_process (
+static int __rrr_http_part_multipart_process (
 		struct rrr_http_part *part,
-		const char *data_ptr
+		const char *data_ptr,
+		int depth
 ) {
 	int ret = RRR_HTTP_PARSE_OK;
 
@@ -295,6 +308,12 @@ int rrr_http_part_multipart_process (
 		goto out;
 	}
 
+	if (depth >= RRR_HTTP_PART_MULTIPART_MAX_DEPTH) {
+		RRR_DBG_3("Too many levels of parts inside parts in HTTP multipart request, max is %i\n", RRR_HTTP_PART_MULTIPART_MAX_DEPTH);
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	if (part->request_method == RRR_HTTP_METHOD_GET) {
 		RRR_DBG_3("Received multipart message in GET request which is not a valid combination\n");
 		ret = RRR_HTTP_PARSE_SOFT_ERR;
@@ -322,7 +341,8 @@ int rrr_http_part_multipart_process (
 			&parsed_bytes_tmp,
 			data_ptr,
 			data_end,
-			boundary->value
+			boundary->value,
+			depth
 	) & ~(RRR_HTTP_PARSE_EOF))) != 0) {
 		// It's possible that return is EOF, INCOMPLETE, SOFT and HARD
 		// INCOMPLETE is also invalid since we only process multipart after all
@@ -341,6 +361,13 @@ int rrr_http_part_multipart_process (
 	return ret;
 }
 
+int rrr_http_part_multipart_process (
+		struct rrr_http_part *part,
+		const char *data_ptr
+) {
+	return __rrr_http_part_multipart_process(part, data_ptr, 0);
+}
+
 struct rrr_http_part_multipart_form_data_make_field_callback_data {
 		int is_first;
 		const char *boundary;
-- 
2.43.0


From 04912896c041957f8d0c4538d8870651c077c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 066/134] fix: Parentheses are allowed in the endpoint of URIs

---
 src/lib/http/http_util.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index c2147ba..9859b80 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1231,6 +1231,9 @@ static int __rrr_http_util_uri_parse_callback (
 			else if (__rrr_http_util_is_uri_reserved((unsigned char) *pos)) {
 				result_len_tmp++;
 			}
+			else if (__rrr_http_util_is_uri_unreserved_rfc2396((unsigned char) *pos)) {
+				result_len_tmp++;
+			}
 			else {
 				RRR_HTTP_UTIL_SET_TMP_NAME_FROM_STR_AND_LENGTH(name,str,len);
 				RRR_MSG_0("Invalid character %c in URI endpoint '%s'\n", *pos, name);
-- 
2.43.0


From afcc9769992437833c643a450bc0cbf363916b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 067/134] fix: Selected values without a new name keep their
 tags in queries

---
 src/lib/http/http_query_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_query_builder.c b/src/lib/http/http_query_builder.c
index 3eebdab..c399f25 100644
--- a/src/lib/http/http_query_builder.c
+++ b/src/lib/http/http_query_builder.c
@@ -261,7 +261,7 @@ int rrr_http_query_builder_append_values_from_array (
 			}
 
 			// If value is set, translation is to be used
-			const char *tag_to_use = node_value != NULL ? node_value : node_tag;
+			const char *tag_to_use = node_value != NULL && *node_value != '\0' ? node_value : node_tag;
 
 			if ((ret = __rrr_http_query_builder_append_type_value (
 				query_builder,
-- 
2.43.0


From 3d56b5b78ef35e6e681e6d36783a24a2ea0a0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 068/134] fix: Field values beginning with a zero byte are not
 dropped

---
 src/lib/http/http_fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_fields.c b/src/lib/http/http_fields.c
index 09793ee..4c873b5 100644
--- a/src/lib/http/http_fields.c
+++ b/src/lib/http/http_fields.c
@@ -129,7 +129,7 @@ int rrr_http_field_value_set (
 ) {
 	int ret = 0;
 
-	if (value != NULL && *value != '\0' && value_length != 0) {
+	if (value != NULL && value_length != 0) {
 		if (rrr_nullsafe_str_new_or_replace_raw(&target->value, value, value_length) != 0) {
 			RRR_MSG_0("Could not allocate memory in rrr_http_field_set_value\n");
 			ret = 1;
-- 
2.43.0


From 3524e90f49783f842a1c9cb413106dc94bcf82b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 069/134] fix: The string is terminated when the last character
 is removed by the string builder

---
 src/lib/helpers/string_builder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/helpers/string_builder.c b/src/lib/helpers/string_builder.c
index c6774ad..2ce02f8 100644
--- a/src/lib/helpers/string_builder.c
+++ b/src/lib/helpers/string_builder.c
@@ -255,5 +255,6 @@ void rrr_string_builder_chop (
 ) {
 	if (string_builder->wpos > 0) {
 		string_builder->wpos -= 1;
+		string_builder->buf[string_builder->wpos] = '\0';
 	}
 }
-- 
2.43.0


From db0d0255b022a506852a03df7eb8cac3273ea41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 070/134] fix: Length of websocket frame which overflows is
 refused

---
 src/lib/websocket/websocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 3a99193..9e7f4b2 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -360,9 +360,9 @@ int __rrr_websocket_get_target_size (
 
 	rrr_biglength target_len = header_new.header_len + header_new.payload_len;
 
-	if (target_len > (rrr_biglength) SSIZE_MAX) {
+	if (target_len > (rrr_biglength) SSIZE_MAX || target_len < header_new.payload_len) {
 		RRR_MSG_0("Total specified length og websocket frame was too big (%" PRIrrrbl ">%lli)\n",
-				target_len, (long long int) SSIZE_MAX);
+				header_new.payload_len, (long long int) SSIZE_MAX);
 		ret = RRR_READ_SOFT_ERROR;
 		goto out;
 	}
-- 
2.43.0


From b576696eb6e1fc6dfcfe04b11b74ac2b87eeafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 071/134] fix: Control frames in between websocket fragments do
 not destroy the message

---
 src/lib/websocket/websocket.c | 38 ++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 9e7f4b2..85908b0 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -277,6 +277,7 @@ static int __rrr_websocket_transport_ctx_frame_send (
 
 struct rrr_websocket_callback_data {
 	struct rrr_websocket_state *ws_state;
+	uint8_t opcode;
 	int (*callback)(RRR_WEBSOCKET_FRAME_CALLBACK_ARGS);
 	void *callback_arg;
 };
@@ -378,6 +379,7 @@ int __rrr_websocket_get_target_size (
 
 int __rrr_websocket_receive_callback_final_step (
 		struct rrr_websocket_state *ws_state,
+		uint8_t opcode,
 		const struct rrr_nullsafe_str *payload,
 		int (*final_callback)(RRR_WEBSOCKET_FRAME_CALLBACK_ARGS),
 		void *final_callback_arg
@@ -385,11 +387,11 @@ int __rrr_websocket_receive_callback_final_step (
 	int ret = 0;
 
 	RRR_DBG_3("Websocket receive frame type %u size %" PRIrrr_nullsafe_len "\n",
-			ws_state->last_receive_opcode, rrr_nullsafe_str_len(payload));
+			opcode, rrr_nullsafe_str_len(payload));
 
 	// last_receive time is updated in get_target_size function
 
-	switch (ws_state->last_receive_opcode) {
+	switch (opcode) {
 		case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
 			ret = RRR_READ_EOF;
 			goto out;
@@ -406,7 +408,7 @@ int __rrr_websocket_receive_callback_final_step (
 			break;
 		default:
 			ret = final_callback (
-					ws_state->last_receive_opcode,
+					opcode,
 					payload,
 					final_callback_arg
 			);
@@ -424,6 +426,7 @@ static int __rrr_websocket_receive_callback_fragmentation_step_nullsafe_callback
 	struct rrr_websocket_callback_data *callback_data = arg;
 	return __rrr_websocket_receive_callback_final_step (
 			callback_data->ws_state,
+			callback_data->opcode,
 			payload,
 			callback_data->callback,
 			callback_data->callback_arg
@@ -440,11 +443,7 @@ static int __rrr_websocket_receive_callback_fragmentation_step (
 
 	int ret = 0;
 
-	if (!ws_state->last_receive_opcode) {
-		RRR_MSG_0("Missing opcode in first websocket frame fragment\n");
-		ret = RRR_READ_SOFT_ERROR;
-		goto out;
-	}
+	callback_data->opcode = ws_state->last_receive_opcode;
 
 	// Shortcut for single frames
 	if (ws_state->receive_state.fragment_buffer_nullsafe == NULL && fin) {
@@ -507,9 +506,6 @@ int __rrr_websocket_receive_callback_interpret_step (
 
 	// Zero opcode means CONTINUATION frame
 	if (opcode) {
-		// First non-fin frame has opcode, start new fragmented frame and reset header
-		rrr_websocket_state_clear_receive(ws_state);
-
 		switch (opcode) {
 			case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
 			case RRR_WEBSOCKET_OPCODE_PING:
@@ -524,9 +520,20 @@ int __rrr_websocket_receive_callback_interpret_step (
 					ret = RRR_READ_SOFT_ERROR;
 					goto out;
 				}
-				break;
+				// Control frames may arrive in between the fragments of another
+				// frame, the state of which must not be changed.
+				callback_data->opcode = opcode;
+				ret = rrr_nullsafe_str_with_tmp_str_do (
+						(char *) payload,
+						rrr_length_from_biglength_bug_const(payload_len),
+						__rrr_websocket_receive_callback_fragmentation_step_nullsafe_callback,
+						callback_data
+				);
+				goto out;
 			case RRR_WEBSOCKET_OPCODE_TEXT:
 			case RRR_WEBSOCKET_OPCODE_BINARY:
+				// First non-fin frame has opcode, start new fragmented frame and reset header
+				rrr_websocket_state_clear_receive(ws_state);
 				break;
 			default:
 				RRR_MSG_0("Received unknown websocket packet of type %u\n", opcode);
@@ -534,12 +541,6 @@ int __rrr_websocket_receive_callback_interpret_step (
 				goto out;
 		};
 
-		if (!fin && opcode != RRR_WEBSOCKET_OPCODE_TEXT && opcode != RRR_WEBSOCKET_OPCODE_BINARY) {
-			RRR_MSG_0("Received fragmented websocket frame of type %i which is not allowed, only TEXT and BINARY may be fragmented\n", opcode);
-			ret = RRR_READ_SOFT_ERROR;
-			goto out;
-		}
-
 		ws_state->last_receive_opcode = opcode;
 	}
 
@@ -581,6 +582,7 @@ int rrr_websocket_transport_ctx_read_frames (
 ) {
 	struct rrr_websocket_callback_data callback_data = {
 			ws_state,
+			0,
 			callback,
 			callback_arg
 	};
-- 
2.43.0


From adb16ef999f7f6ff31684635086a69f71abbaec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 072/134] fix: Websocket frames which do not continue a message
 correctly are refused

---
 src/lib/websocket/websocket.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 85908b0..6a8cbda 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -532,6 +532,11 @@ int __rrr_websocket_receive_callback_interpret_step (
 				goto out;
 			case RRR_WEBSOCKET_OPCODE_TEXT:
 			case RRR_WEBSOCKET_OPCODE_BINARY:
+				if (ws_state->receive_state.fragment_buffer_nullsafe != NULL) {
+					RRR_MSG_0("Received websocket packet of type %u before the previous fragmented packet was complete\n", opcode);
+					ret = RRR_READ_SOFT_ERROR;
+					goto out;
+				}
 				// First non-fin frame has opcode, start new fragmented frame and reset header
 				rrr_websocket_state_clear_receive(ws_state);
 				break;
@@ -543,6 +548,11 @@ int __rrr_websocket_receive_callback_interpret_step (
 
 		ws_state->last_receive_opcode = opcode;
 	}
+	else if (ws_state->receive_state.fragment_buffer_nullsafe == NULL) {
+		RRR_MSG_0("Received websocket continuation frame without any preceding fragment\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
 
 	if (payload_len > RRR_LENGTH_MAX) {
 		RRR_MSG_0("Received websocket frame exceeds maximum size (%llu>%llu)\n",
-- 
2.43.0


From c587cce7d9c417ae23058028b18c1dbd0256653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 073/134] fix: Websocket frames with reserved bits set are
 refused

---
 src/lib/websocket/websocket.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 6a8cbda..a1baf62 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -504,6 +504,13 @@ int __rrr_websocket_receive_callback_interpret_step (
 	const uint8_t fin = ws_state->receive_state.header.fin;
 	const uint8_t opcode = ws_state->receive_state.header.opcode;
 
+	// No extensions are supported
+	if (ws_state->receive_state.header.rsv1 || ws_state->receive_state.header.rsv2 || ws_state->receive_state.header.rsv3) {
+		RRR_MSG_0("Received websocket frame with reserved bits set\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
 	// Zero opcode means CONTINUATION frame
 	if (opcode) {
 		switch (opcode) {
-- 
2.43.0


From 361419a53a2f9613e0796105e5ac558d683c7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 074/134] fix: Payload of websocket ping is returned in the
 pong

---
 src/lib/websocket/websocket.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index a1baf62..6ab4485 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -396,12 +396,27 @@ int __rrr_websocket_receive_callback_final_step (
 			ret = RRR_READ_EOF;
 			goto out;
 		case RRR_WEBSOCKET_OPCODE_PING:
-			ret = rrr_websocket_frame_enqueue (
-					ws_state,
-					RRR_WEBSOCKET_OPCODE_PONG,
-					NULL,
-					0
-			);
+			{
+				// PONG must have the same payload as the PING
+				char *pong_payload = NULL;
+				if (rrr_nullsafe_str_isset(payload)) {
+					const rrr_nullsafe_len pong_payload_len = rrr_nullsafe_str_len(payload);
+					if ((pong_payload = rrr_allocate(pong_payload_len)) == NULL) {
+						RRR_MSG_0("Could not allocate memory for pong payload in %s\n", __func__);
+						ret = RRR_READ_HARD_ERROR;
+						goto out;
+					}
+					rrr_nullsafe_len written_dummy;
+					rrr_nullsafe_str_copyto(&written_dummy, pong_payload, pong_payload_len, payload);
+				}
+				ret = rrr_websocket_frame_enqueue (
+						ws_state,
+						RRR_WEBSOCKET_OPCODE_PONG,
+						&pong_payload,
+						rrr_nullsafe_str_len(payload)
+				);
+				RRR_FREE_IF_NOT_NULL(pong_payload);
+			}
 			break;
 		case RRR_WEBSOCKET_OPCODE_PONG:
 			ws_state->waiting_for_pong = 0;
-- 
2.43.0


From 68631ed02cbcffbe7723ae3f98d31021cd845144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 075/134] fix: All bytes of the websocket key are random

---
 src/lib/websocket/websocket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/websocket/websocket.h b/src/lib/websocket/websocket.h
index 8b8b979..fe17a28 100644
--- a/src/lib/websocket/websocket.h
+++ b/src/lib/websocket/websocket.h
@@ -83,7 +83,7 @@ struct rrr_websocket_state {
 	// Used when client creates request
 	union {
 		uint8_t websocket_key_8[16];
-		uint64_t websocket_key_32[4];
+		uint32_t websocket_key_32[4];
 		uint64_t websocket_key_64[2];
 	};
 };
-- 
2.43.0


From 778ec7c944b5376103a7ebc9cba9786c3ff635a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 076/134] fix: Long websocket timeouts and ping intervals do
 not overflow

---
 src/lib/websocket/websocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 6ab4485..c450a7b 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -147,7 +147,7 @@ int rrr_websocket_check_timeout (
 		ws_state->last_receive_time = rrr_time_get_64();
 	}
 
-	uint64_t timeout_limit = rrr_time_get_64() - timeout_s * 1000 * 1000;
+	uint64_t timeout_limit = rrr_time_get_64() - (uint64_t) timeout_s * 1000 * 1000;
 
 	if (ws_state->last_receive_time > timeout_limit) {
 		return 0;
@@ -169,7 +169,7 @@ int rrr_websocket_enqueue_ping_if_needed (
 		return 0;
 	}
 
-	uint64_t ping_limit = rrr_time_get_64() - ping_interval_s * 1000 * 1000;
+	uint64_t ping_limit = rrr_time_get_64() - (uint64_t) ping_interval_s * 1000 * 1000;
 
 	if (ws_state->last_ping_time > ping_limit || ws_state->waiting_for_pong) {
 		return 0;
-- 
2.43.0


From a3517969899440222cc141c274893546153b9bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 077/134] fix: Modbus transactions are released also when the
 response is refused

---
 src/lib/modbus/rrr_modbus.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/modbus/rrr_modbus.c b/src/lib/modbus/rrr_modbus.c
index 7a853c9..7b4a15c 100644
--- a/src/lib/modbus/rrr_modbus.c
+++ b/src/lib/modbus/rrr_modbus.c
@@ -425,14 +425,16 @@ static int __rrr_modbus_client_receive_16_write_multiple_registers (
     do {if (frame_size > sizeof(frame->mbap) + sizeof(frame->res.type) + sizeof(frame->res.function_code)) {  \
         RRR_MSG_0("Max frame size exceeded for received frame %" PRIrrrl ">%llu\n",                           \
 	    frame_size, (unsigned long long) (sizeof(frame->mbap) + sizeof(frame->res.type)));                \
-        return RRR_MODBUS_SOFT_ERROR;                                                                         \
+        ret = RRR_MODBUS_SOFT_ERROR;                                                                          \
+        goto out;                                                                                             \
     }} while(0)
 
 #define VALIDATE_TRANSACTION_FUNCTION_CODE(code)                                       \
     do {if (code != transaction.req.function_code) {                                   \
         RRR_MSG_0("Function code mismatch for received frame %d<>%d\n",                \
             frame->res.function_code - 0x80, transaction.req.function_code);           \
-        return RRR_MODBUS_SOFT_ERROR;                                                  \
+        ret = RRR_MODBUS_SOFT_ERROR;                                                   \
+        goto out;                                                                      \
     }} while(0)
 
 static int __rrr_modbus_client_receive (
-- 
2.43.0


From fb662ea575a26e57c0e595a53f41201dfbeafbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 078/134] fix: Modbus error responses without exception code
 are refused

---
 src/lib/modbus/rrr_modbus.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/modbus/rrr_modbus.c b/src/lib/modbus/rrr_modbus.c
index 7b4a15c..4227dbb 100644
--- a/src/lib/modbus/rrr_modbus.c
+++ b/src/lib/modbus/rrr_modbus.c
@@ -459,6 +459,11 @@ static int __rrr_modbus_client_receive (
 
 	if (frame->res.function_code > 0x80) {
 		VALIDATE_FRAME_SIZE(error);
+		if (frame_size < sizeof(frame->mbap) + sizeof(frame->res.error) + sizeof(frame->res.function_code)) {
+			RRR_MSG_0("Exception code missing in received error frame\n");
+			ret = RRR_MODBUS_SOFT_ERROR;
+			goto out;
+		}
 		VALIDATE_TRANSACTION_FUNCTION_CODE(frame->res.function_code - 0x80);
 		if (client->callbacks.cb_res_error == NULL) {
 			RRR_BUG("Error callback not set in %s\n", __func__);
-- 
2.43.0


From b95ead5133b8b2845c8968d8972bc7f198d7360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 079/134] fix: All elements of array values are written to JSON

---
 src/lib/json/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/json/json.c b/src/lib/json/json.c
index 9f7d3ca..d192efb 100644
--- a/src/lib/json/json.c
+++ b/src/lib/json/json.c
@@ -449,7 +449,7 @@ static int __rrr_json_from_array_callback (
 		}
 
 		RRR_LL_ITERATE_BEGIN(node_values, const struct rrr_type_value);
-			if ((ret = __rrr_json_type_to_object(&object_new, RRR_LL_FIRST(node_values))) != 0) {
+			if ((ret = __rrr_json_type_to_object(&object_new, node)) != 0) {
 				goto out;
 			}
 			if ((ret = __rrr_json_array_add(array, &object_new)) != 0) {
-- 
2.43.0


From 843546d68ab70a51c5e3ce8c127ec71ea1fee0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 080/134] fix: JSON strings which contain zero characters are
 not truncated

---
 src/lib/json/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/json/json.c b/src/lib/json/json.c
index d192efb..6ade943 100644
--- a/src/lib/json/json.c
+++ b/src/lib/json/json.c
@@ -81,7 +81,7 @@ static int __rrr_json_to_array_recurse_object (
 
 			RRR_DBG_3("        => STRING %s\n", value);
 
-			if ((ret = rrr_array_push_value_str_with_tag(&array_tmp, key, value)) != 0) {
+			if ((ret = rrr_array_push_value_str_with_tag_with_size(&array_tmp, key, value, rrr_length_from_slength_bug_const(json_object_get_string_len(object)))) != 0) {
 				goto out;
 			}
 		}
-- 
2.43.0


From a80729f65074ce6d92334c83ca699d679f6eba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 081/134] fix: Large unsigned integers in JSON are not capped

---
 src/lib/json/json.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib/json/json.c b/src/lib/json/json.c
index 6ade943..6d6e606 100644
--- a/src/lib/json/json.c
+++ b/src/lib/json/json.c
@@ -90,6 +90,20 @@ static int __rrr_json_to_array_recurse_object (
 
 			RRR_DBG_3("        => INT %" PRIi64 "\n", value);
 
+#ifdef RRR_HAVE_JSONC_NEW_UINT64
+			if (value == INT64_MAX) {
+				// Values only an unsigned integer can hold have been capped
+				const uint64_t value_unsigned = json_object_get_uint64(object);
+				if (value_unsigned > INT64_MAX) {
+					if ((ret = rrr_array_push_value_u64_with_tag(&array_tmp, key, value_unsigned)) != 0) {
+						goto out;
+					}
+					json_object_iter_next(&iterator);
+					continue;
+				}
+			}
+#endif
+
 			if ((ret = rrr_array_push_value_i64_with_tag(&array_tmp, key, value)) != 0) {
 				goto out;
 			}
-- 
2.43.0


From 178cf5d5ad0e333ffc0593209b45c3d4a3570275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 082/134] fix: Fixed point values are written to JSON as
 numbers

---
 src/lib/json/json.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lib/json/json.c b/src/lib/json/json.c
index 6d6e606..6ea215f 100644
--- a/src/lib/json/json.c
+++ b/src/lib/json/json.c
@@ -322,6 +322,26 @@ static int __rrr_json_type_to_object (
 #endif
 			}
 		}
+		else if (RRR_TYPE_IS_FIXP(value->definition->type)) {
+			long double value_ldouble = 0;
+			rrr_fixp value_fixp;
+
+			if (value->total_stored_length != sizeof(value_fixp)) {
+				RRR_MSG_0("Size of fixed point value was not %llu in %s\n",
+					(unsigned long long) sizeof(value_fixp), __func__);
+				ret = 1;
+				goto out;
+			}
+
+			memcpy(&value_fixp, value->data, sizeof(value_fixp));
+
+			if ((ret = rrr_fixp_to_ldouble(&value_ldouble, value_fixp)) != 0) {
+				RRR_MSG_0("Conversion of fixed point to double failed in %s\n", __func__);
+				goto out;
+			}
+
+			object_new = json_object_new_double((double) value_ldouble);
+		}
 		else {
 			if (value->total_stored_length > INT_MAX) {
 				RRR_MSG_0("Cannot convery array value to JSON string, data too long (%llu>%llu)\n",
-- 
2.43.0


From 4f8c1008a8d6c4fd756220ce4f533fddfab57dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 083/134] fix: report failed decompression of corrupt data,
 release memory in rrr_zlib.c

---
 src/lib/zlib/rrr_zlib.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/zlib/rrr_zlib.c b/src/lib/zlib/rrr_zlib.c
index 79e0231..373cbec 100644
--- a/src/lib/zlib/rrr_zlib.c
+++ b/src/lib/zlib/rrr_zlib.c
@@ -86,7 +86,8 @@ static int __rrr_zlib_loop (
 	while (1) {
 		if (stream->avail_out > outsize_max) {
 			RRR_MSG_0("Too many allocation attempts in %s. Possibly corrupt input.\n", __func__);
-			return RRR_ZLIB_INCOMPLETE;
+			ret = RRR_ZLIB_ERR;
+			goto out;
 		}
 
 		buf_size_old = buf_size;
@@ -129,6 +130,7 @@ static int __rrr_zlib_loop (
 			case RRR_ZLIB_INCOMPLETE:
 				continue;
 			default:
+				ret = RRR_ZLIB_ERR;
 				goto out;
 		}
 	}
@@ -185,6 +187,7 @@ int rrr_zlib_gzip_decompress_with_outsize (
 
 	if (inflateInit2(&stream, 32 /* Enable auto gzip decompress */) != Z_OK) {
 		RRR_MSG_0("Failed to initialize stream in %s\n", __func__);
+		ret = RRR_ZLIB_ERR;
 		goto out;
 	}
 
@@ -299,6 +302,7 @@ int rrr_zlib_gzip_compress_with_outsize (
 			Z_DEFAULT_STRATEGY
 	) != Z_OK) {
 		RRR_MSG_0("Failed to initialize stream in %s\n", __func__);
+		ret = RRR_ZLIB_ERR;
 		goto out;
 	}
 
-- 
2.43.0


From 611f0f176fc53e5410d6657016bd8108422334a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 084/134] fix: validate UTF-8 after zero characters in
 rrr_utf8_validate

---
 src/lib/util/utf8.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/util/utf8.c b/src/lib/util/utf8.c
index 450aa70..847407d 100644
--- a/src/lib/util/utf8.c
+++ b/src/lib/util/utf8.c
@@ -109,9 +109,9 @@ int rrr_utf8_validate (const char *buf, rrr_length len) {
 	const char *end = buf + len;
 
 	uint32_t result = 0;
-	do {
+	while (ret == 0 && pos < end) {
 		ret = rrr_utf8_get_character (&result, &pos, end);
-	} while (ret == 0 && !(ret == 0 && result == 0));
+	}
 
 	return ret;
 }
-- 
2.43.0


From 6b4fd84381683be387eb0c762ab5c5f828db5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 085/134] fix: decode data of any length in
 rrr_base64url_decode

---
 src/lib/util/base64.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/util/base64.c b/src/lib/util/base64.c
index 0759cb5..4691d9b 100644
--- a/src/lib/util/base64.c
+++ b/src/lib/util/base64.c
@@ -229,10 +229,10 @@ unsigned char *rrr_base64url_decode(const unsigned char *src, rrr_biglength len,
 			count++;
 	}
 
-	if (count == 0 || count % 4)
+	if (count == 0 || count % 4 == 1)
 		return NULL;
 
-	olen = count / 4 * 3;
+	olen = count / 4 * 3 + 3;
 	pos = out = rrr_allocate(olen);
 	if (out == NULL)
 		return NULL;
@@ -253,6 +253,12 @@ unsigned char *rrr_base64url_decode(const unsigned char *src, rrr_biglength len,
 		}
 	}
 
+	/* No padding is used, the last block may be incomplete */
+	if (count >= 2)
+		*pos++ = (unsigned char) ((block[0] << 2) | (block[1] >> 4));
+	if (count == 3)
+		*pos++ = (unsigned char) ((block[1] << 4) | (block[2] >> 2));
+
 	*out_len = (rrr_biglength) (pos - out);
 	return out;
 }
-- 
2.43.0


From bd9836703c01ef6635ef040e3d4c010347c768e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 086/134] fix: accept empty results in
 rrr_string_builder_append_format

---
 src/lib/helpers/string_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/helpers/string_builder.c b/src/lib/helpers/string_builder.c
index 2ce02f8..77adcfc 100644
--- a/src/lib/helpers/string_builder.c
+++ b/src/lib/helpers/string_builder.c
@@ -230,7 +230,7 @@ int rrr_string_builder_append_format (
 
 	char *tmp = NULL;
 
-	if (rrr_vasprintf(&tmp, format, args) <= 0) {
+	if (rrr_vasprintf(&tmp, format, args) < 0) {
 		ret = 1;
 		goto out;
 	}
-- 
2.43.0


From 3c00f6967be6062a033d006ebd02f3777e42a44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 087/134] fix: message database verifies the data checksum of
 files

---
 src/lib/msgdb/msgdb_server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index e039a21..b386d53 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -539,6 +539,12 @@ static int __rrr_msgdb_server_open_and_read_file (
 		goto out;
 	}
 
+	if (!do_head_only && rrr_msg_check_data_checksum_and_length(msg_tmp, (rrr_length) file_size) != 0) {
+		RRR_MSG_0("Data verification of '%s' failed in message db server (checksum error)\n", str);
+		ret = RRR_MSGDB_SOFT_ERROR;
+		goto out;
+	}
+
 	if (!RRR_MSG_IS_RRR_MESSAGE(msg_tmp)) {
 		RRR_MSG_0("Message type of '%u' was not RRR message in message db server\n", msg_tmp->msg_type);
 		ret = RRR_MSGDB_SOFT_ERROR;
-- 
2.43.0


From 627b6c1e98762e652e8f0784da92ce974572bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 088/134] fix: message database does not restart within a
 directory during IDX and TIDY

---
 src/lib/msgdb/msgdb_server.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index b386d53..7df226a 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -660,7 +660,6 @@ static int __rrr_msgdb_server_get (
 
 struct rrr_msgdb_server_client_iteration_session_process_file_callback_data {
 	struct rrr_msgdb_server_client *client;
-	uint64_t time_end;
 };
 
 static int __rrr_msgdb_server_client_iteration_session_process_file_callback (
@@ -727,9 +726,6 @@ static int __rrr_msgdb_server_client_iteration_session_process_file_callback (
 			RRR_MSG_0("Warning: msgdb deletion failed for '%s'\n", orig_path);
 		}
 	out:
-		if (ret == 0 && rrr_time_get_64() > callback_data->time_end) {
-			ret = RRR_MSGDB_INCOMPLETE;
-		}
 		RRR_FREE_IF_NOT_NULL(msg_tmp);
 		return ret;
 }
@@ -747,8 +743,7 @@ static int __rrr_msgdb_server_client_iteration_session_process (
 	uint64_t time_end = rrr_time_get_64() + RRR_MSGDB_SERVER_ITERATION_MAX_MS * 1000;
 
 	struct rrr_msgdb_server_client_iteration_session_process_file_callback_data file_callback_data = {
-		client,
-		time_end
+		client
 	};
 
 	RRR_LL_ITERATE_BEGIN(&session->dirs, struct rrr_type_value);
-- 
2.43.0


From b9584a920192e3633ecd20bf496ef3c9c75f0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 089/134] fix: message database skips unreadable files during
 IDX

---
 src/lib/msgdb/msgdb_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index 7df226a..f2f84d0 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -877,6 +877,10 @@ static int __rrr_msgdb_server_idx_callback (RRR_MSGDB_SERVER_ITERATION_FILE_CALL
 			NULL,
 			client->fd
 	)) != 0) {
+		if (ret == RRR_MSGDB_SOFT_ERROR) {
+			RRR_MSG_0("Warning: Skipping unreadable file '%s' in message db server\n", path);
+			ret = 0;
+		}
 		goto out;
 	}
 
-- 
2.43.0


From 76dd0c95364e2e5a72ad09600159e834618b145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 090/134] fix: refuse unsigned settings which are out of range

---
 src/lib/settings.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/settings.c b/src/lib/settings.c
index 14977f9..305a234 100644
--- a/src/lib/settings.c
+++ b/src/lib/settings.c
@@ -19,6 +19,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 */
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -676,9 +677,10 @@ int rrr_settings_setting_to_uint (
 		}
 
 		char *end;
+		errno = 0;
 		rrr_setting_uint tmp = strtoull(tmp_string, &end, 10);
 
-		if (*end != '\0') {
+		if (*end != '\0' || errno == ERANGE) {
 			ret = RRR_SETTING_PARSE_ERROR;
 			RRR_MSG_0("Syntax error while converting setting '%s' with value '%s' to unsigned integer\n", setting->name, tmp_string);
 			goto out;
-- 
2.43.0


From 847ed9a9f1e4aba22aa2f4973c0daa4ea518bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 091/134] fix: release the previous value when a setting is
 replaced

---
 src/lib/settings.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/settings.c b/src/lib/settings.c
index 305a234..8ca0f83 100644
--- a/src/lib/settings.c
+++ b/src/lib/settings.c
@@ -53,7 +53,7 @@ static int __rrr_settings_init (
 
 	memset(target, '\0', sizeof(*target));
 
-	target->settings = rrr_allocate(sizeof(*(target->settings)) * count);
+	target->settings = rrr_allocate_zero(sizeof(*(target->settings)) * count);
 	if (target->settings == NULL) {
 		RRR_MSG_0("Could not allocate memory in __rrr_settings_init\n");
 		ret = 1;
@@ -294,6 +294,11 @@ static int __rrr_settings_add_raw (
 		goto out_free;
 	}
 
+	// Any existing value is replaced
+	if (setting->data != NULL) {
+		__rrr_settings_destroy_setting(setting);
+	}
+
 	memset (setting, '\0', sizeof(*setting));
 
 	if ((ret = __rrr_settings_set_setting_name(setting, name)) != 0) {
-- 
2.43.0


From bccaa0d849ec7820681435fbc4c059ebe18b72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 092/134] fix: refuse empty block names in configuration files

---
 src/lib/parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/parse.c b/src/lib/parse.c
index 77d6c8d..74b71a9 100644
--- a/src/lib/parse.c
+++ b/src/lib/parse.c
@@ -553,6 +553,12 @@ static int __rrr_parse_str_extract_name_with_subscript (
 
 	rrr_parse_match_letters(pos, &start, &end, RRR_PARSE_MATCH_NAME);
 
+	if (end < start) {
+		RRR_MSG_0("Name missing before end character %c\n", end_char);
+		ret = 1;
+		goto out;
+	}
+
 	rrr_parse_ignore_spaces_and_increment_line(pos);
 
 	const char cur_char = *(pos->data + pos->pos);
-- 
2.43.0


From 5a9778b8d983e69fe0ba216d5b8fcfc9d8b909e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 093/134] fix: do not read past the end of configuration files

---
 src/lib/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parse.c b/src/lib/parse.c
index 74b71a9..4499dbd 100644
--- a/src/lib/parse.c
+++ b/src/lib/parse.c
@@ -561,7 +561,7 @@ static int __rrr_parse_str_extract_name_with_subscript (
 
 	rrr_parse_ignore_spaces_and_increment_line(pos);
 
-	const char cur_char = *(pos->data + pos->pos);
+	const char cur_char = RRR_PARSE_CHECK_EOF(pos) ? '\0' : *(pos->data + pos->pos);
 	if (RRR_PARSE_CHECK_EOF(pos) || (cur_char != end_char && cur_char != subscript_char)) {
 		goto out_missing_end_char;
 	}
-- 
2.43.0


From 175caa5e727facfc0bfa655d44691ef19a9aa523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 094/134] fix: refuse numbers on the command line which are
 empty, negative or out of range

---
 src/lib/cmdlineparser/cmdline.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/cmdlineparser/cmdline.c b/src/lib/cmdlineparser/cmdline.c
index 16ba6ed..1372955 100644
--- a/src/lib/cmdlineparser/cmdline.c
+++ b/src/lib/cmdlineparser/cmdline.c
@@ -22,6 +22,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include <string.h>
 #include <stdio.h>
 #include <stddef.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <inttypes.h>
 
@@ -151,7 +152,7 @@ int cmd_convert_hex_byte(const char *value, char *result) {
 	char *err;
 	long int intermediate = strtol(value, &err, 16);
 
-	if (err[0] != '\0' || intermediate < 0 || intermediate > 0xff) {
+	if (err == value || err[0] != '\0' || intermediate < 0 || intermediate > 0xff) {
 		return 1;
 	}
 
@@ -162,9 +163,10 @@ int cmd_convert_hex_byte(const char *value, char *result) {
 
 int cmd_convert_hex_64(const char *value, uint64_t *result) {
 	char *err;
+	errno = 0;
 	uint64_t intermediate = strtoull(value, &err, 16);
 
-	if (err[0] != '\0') {
+	if (err == value || err[0] != '\0' || errno == ERANGE || strchr(value, '-') != NULL) {
 		return 1;
 	}
 
@@ -175,9 +177,10 @@ int cmd_convert_hex_64(const char *value, uint64_t *result) {
 
 int cmd_convert_uint64_10(const char *value, uint64_t *result) {
 	char *err;
+	errno = 0;
 	*result = strtoull(value, &err, 10);
 
-	if (err[0] != '\0') {
+	if (err == value || err[0] != '\0' || errno == ERANGE || strchr(value, '-') != NULL) {
 		return 1;
 	}
 
@@ -186,9 +189,10 @@ int cmd_convert_uint64_10(const char *value, uint64_t *result) {
 
 int cmd_convert_integer_10(const char *value, long int *result) {
 	char *err;
+	errno = 0;
 	*result = strtol(value, &err, 10);
 
-	if (err[0] != '\0') {
+	if (err == value || err[0] != '\0' || errno == ERANGE) {
 		return 1;
 	}
 
-- 
2.43.0


From 4c03525ecc68efc5769bb59dadd1cd360eee14c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 095/134] fix: refuse values for short options which take none

---
 src/lib/cmdlineparser/cmdline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/cmdlineparser/cmdline.c b/src/lib/cmdlineparser/cmdline.c
index 1372955..234ef9a 100644
--- a/src/lib/cmdlineparser/cmdline.c
+++ b/src/lib/cmdlineparser/cmdline.c
@@ -507,6 +507,10 @@ int cmd_parse (struct cmd_data *data, cmd_conf config) {
 					return 1;
 				}
 				else if ((rule->flags & CMD_ARG_FLAG_HAS_ARGUMENT) == 0) {
+					if (pos_equal != NULL) {
+						fprintf (stderr, "Error: Argument given to '%s' which takes no arguments\n", rule->longname);
+						return 1;
+					}
 					struct cmd_arg_pair *pair = NULL;
 					if (__cmd_arg_pair_new(&pair, rule) != 0) {
 						return 1;
-- 
2.43.0


From ea412399b627faa8695828886bc5e26e0e59e369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 096/134] fix: compare the whole password for passwords stored
 as base64

---
 src/lib/passwd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index 1169b79..68585bf 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -165,7 +165,10 @@ static int __rrr_passwd_check_base64 (
 		goto out;
 	}
 
-	if (memcmp(hash, base64_tmp, strlen(hash)) == 0) {
+	// The encoder adds newlines, they are not stored
+	rrr_parse_str_strip_newlines((char *) base64_tmp);
+
+	if (strcmp(hash, (const char *) base64_tmp) == 0) {
 		ret = 0; // Authenticated
 	}
 	else {
-- 
2.43.0


From f88d53e7246697b606ac62e0ba931d14acbf5caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 097/134] fix: refuse stored passwords with salt or hash of
 wrong length

---
 src/lib/passwd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index 68585bf..2e4c74a 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -215,7 +215,9 @@ static int __rrr_passwd_openssl_encrypt (
 	}
 
 	if (salt_bin_length < RRR_PASSWD_SALT_BYTES) {
-		RRR_BUG("BUG:Salt too short in __rrr_passwd_openssl_encrypt\n");
+		RRR_MSG_0("Salt too short in __rrr_passwd_openssl_encrypt\n");
+		ret = 1;
+		goto out;
 	}
 
 	size_t password_plain_length = strlen(password_plain);
@@ -267,6 +269,11 @@ static int __rrr_passwd_check_openssl (
 		goto out;
 	}
 
+	if (hash_raw_length != RRR_PASSWD_HASH_KEY_LENGTH) {
+		RRR_MSG_0("Wrong length of hash in __rrr_passwd_check_openssl\n");
+		goto out;
+	}
+
 	if (__rrr_passwd_openssl_encrypt(tmp, password, (const unsigned char *) salt) != 0) {
 		goto out;
 	}
-- 
2.43.0


From 7ce4a20adb2d832ca76521b7cfcfd78f8badc99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 098/134] fix: mangler keeps values when only clear tags are
 configured

---
 src/modules/p_mangler.c | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/modules/p_mangler.c b/src/modules/p_mangler.c
index 08ead28..36357e8 100644
--- a/src/modules/p_mangler.c
+++ b/src/modules/p_mangler.c
@@ -168,26 +168,25 @@ static int mangler_poll_callback (RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 			(data->do_convert_tolerant_blobs ? 0 : RRR_TYPE_CONVERT_F_STRICT_BLOBS) |
 			(data->do_convert_tolerant_strings ? 0 : RRR_TYPE_CONVERT_F_STRICT_STRINGS);
 
-	if (RRR_LL_COUNT(&data->conversions_map) > 0) {
-		int i = 0;
-		RRR_LL_ITERATE_BEGIN(&array_from_message, const struct rrr_type_value);
-			RRR_DBG_3("mangler instance %s CONVERT idx %i type %s\n",
-					INSTANCE_D_NAME(data->thread_data), i, node->definition->identifier);
-			if ((ret = mangler_process_value (
-					&array_new,
-					data,
-					node,
-					convert_flags
-			)) != 0) {
-				RRR_MSG_0("mangler instance %s dropping message following error %i\n",
-						INSTANCE_D_NAME(thread_data), ret);
-				// Let only hard error propagate
-				ret &= ~(1);
-				goto out_drop;
-			}
-			i++;
-		RRR_LL_ITERATE_END();
-	}
+	// Values are cloned as they are if there are no conversions
+	int i = 0;
+	RRR_LL_ITERATE_BEGIN(&array_from_message, const struct rrr_type_value);
+		RRR_DBG_3("mangler instance %s CONVERT idx %i type %s\n",
+				INSTANCE_D_NAME(data->thread_data), i, node->definition->identifier);
+		if ((ret = mangler_process_value (
+				&array_new,
+				data,
+				node,
+				convert_flags
+		)) != 0) {
+			RRR_MSG_0("mangler instance %s dropping message following error %i\n",
+					INSTANCE_D_NAME(thread_data), ret);
+			// Let only hard error propagate
+			ret &= ~(1);
+			goto out_drop;
+		}
+		i++;
+	RRR_LL_ITERATE_END();
 
 	if ((ret = rrr_array_new_message_from_array (
 			&message_new,
-- 
2.43.0


From 4ec292f583531da63f99d6cdcca77a20ffe090f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 099/134] fix: check result of shmat correctly in mmap channel

---
 src/lib/mmap_channel.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/mmap_channel.c b/src/lib/mmap_channel.c
index 3b689b7..3127e2e 100644
--- a/src/lib/mmap_channel.c
+++ b/src/lib/mmap_channel.c
@@ -245,8 +245,14 @@ static int __rrr_mmap_channel_allocate (
 		block->shmid = shmid;
 		block->size_capacity = data_size;
 
-		if ((block->ptr_shm_or_mmap_writer = shmat(shmid, NULL, 0)) == NULL) {
+		if ((block->ptr_shm_or_mmap_writer = shmat(shmid, NULL, 0)) == (void *) -1) {
 			RRR_MSG_0("shmat failed in %s: %s\n", __func__, rrr_strerror(errno));
+			if (shmctl(shmid, IPC_RMID, NULL) != 0) {
+				RRR_MSG_0("shmctl IPC_RMID failed in %s: %s\n", __func__, rrr_strerror(errno));
+			}
+			block->ptr_shm_or_mmap_writer = NULL;
+			block->size_capacity = 0;
+			block->shmid = 0;
 			ret = 1;
 			goto out;
 		}
@@ -458,7 +464,7 @@ int rrr_mmap_channel_read_with_callback (
 	if (block->shmid != 0) {
 		const char *data_pointer = NULL;
 
-		if ((data_pointer = shmat(block->shmid, NULL, 0)) == NULL) {
+		if ((data_pointer = shmat(block->shmid, NULL, 0)) == (void *) -1) {
 			RRR_MSG_0("Could not get shm pointer in %s: %s\n", __func__, rrr_strerror(errno));
 			ret = 1;
 			goto out_unlock;
-- 
2.43.0


From 4ae422a3b1277bd148dca5d466c280786ba41901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 100/134] fix: make room for padding of large allocations in
 new memory maps

---
 src/lib/rrr_mmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index 7b6864e..6abc928 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -429,7 +429,8 @@ static int __rrr_mmap_init (
 
 	memset(result, '\0', sizeof(*result));
 
-	heap_size += sizeof(struct rrr_mmap_heap_block_index);
+	// The requested size is padded when it is allocated
+	heap_size += sizeof(struct rrr_mmap_heap_block_index) + RRR_MMAP_HEAP_CHUNK_MIN_SIZE;
 #ifdef RRR_MMAP_SENTINEL_DEBUG
 	heap_size += sizeof(rrr_mmap_sentinel_template);
 #endif
-- 
2.43.0


From 4225c1001db92d17202119ea88a9d76174aa630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 101/134] fix: release mutex when its holder has died and
 trylock fails

---
 src/lib/util/posix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/util/posix.c b/src/lib/util/posix.c
index cc9d202..baf20f1 100644
--- a/src/lib/util/posix.c
+++ b/src/lib/util/posix.c
@@ -303,6 +303,7 @@ int rrr_posix_mutex_robust_trylock (pthread_mutex_t *mutex) {
 	if ((ret = pthread_mutex_trylock (mutex)) != 0) {
 		if (ret == EOWNERDEAD) {
 			__rrr_posix_mutex_robust_consistent(mutex);
+			pthread_mutex_unlock(mutex);
 			ret = RRR_POSIX_MUTEX_ROBUST_ERROR;
 		}
 		else if (ret == EBUSY) {
-- 
2.43.0


From 1dde1336f9dfdcc79589143eed98cf27b48d748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 102/134] fix: lua: send messages with the timestamp, type and
 IP address set in the script

---
 src/lib/lua/lua_message.c | 41 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index 6c5b0fd..a1381ba 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -1011,6 +1011,9 @@ static int __rrr_lua_message_f_send(lua_State *L) {
 	size_t data_len;
 	const char *ip_so_type;
 	size_t ip_so_type_len;
+	rrr_u64 timestamp;
+	lua_Integer type;
+	int isnum;
 
 	rrr_msg_addr_init(&msg_addr);
 
@@ -1056,11 +1059,42 @@ static int __rrr_lua_message_f_send(lua_State *L) {
 			luaL_error(L, "IP socket type must be either empty, set to 'tcp' or 'udp')\n");
 		}
 
+		if (message->ip_addr_len > 0) {
+			memcpy(msg_addr.addr, &message->ip_addr, message->ip_addr_len);
+			RRR_MSG_ADDR_SET_ADDR_LEN(&msg_addr, message->ip_addr_len);
+		}
+
+		// Timestamp
+		if (sizeof(lua_Integer) >= 8) {
+			lua_pushstring(L, "timestamp");
+			lua_gettable(L, -2);
+			const lua_Integer timestamp_tmp = lua_tointegerx(L, -1, &isnum);
+			if (!isnum || timestamp_tmp < 0) {
+				luaL_error(L, "Failed to get message timestamp in %s, value was not a non-negative integer (type is %s)\n",
+					__func__, luaL_typename(L, -1));
+			}
+			timestamp = (rrr_u64) timestamp_tmp;
+			lua_pop(L, 1);
+		}
+		else {
+			timestamp = rrr_time_get_64();
+		}
+
+		// Type
+		lua_pushstring(L, "type");
+		lua_gettable(L, -2);
+		type = lua_tointegerx(L, -1, &isnum);
+		if (!isnum || type < MSG_TYPE_MSG || type > MSG_TYPE_DEL) {
+			luaL_error(L, "Failed to get message type in %s, value was not a valid message type (type is %s)\n",
+				__func__, luaL_typename(L, -1));
+		}
+		lua_pop(L, 1);
+
 		if (RRR_LL_COUNT(&message->array) > 0) {
 			if (rrr_array_new_message_from_array (
 					&msg,
 					&message->array,
-					rrr_time_get_i64(),
+					timestamp,
 					topic,
 					rrr_length_from_size_t_bug_const(topic_len)
 			) != 0) {
@@ -1085,7 +1119,7 @@ static int __rrr_lua_message_f_send(lua_State *L) {
 					&msg,
 					MSG_TYPE_MSG,
 					MSG_CLASS_DATA,
-					rrr_time_get_64(),
+					timestamp,
 					topic,
 					rrr_length_from_size_t_bug_const(topic_len),
 					data,
@@ -1094,6 +1128,9 @@ static int __rrr_lua_message_f_send(lua_State *L) {
 				luaL_error(L, "Failed to create data message in %s\n", __func__);
 			}
 		}
+
+		MSG_SET_TYPE(msg, type);
+
 		RRR_LUA_WITH_CMODULE (
 			if (rrr_cmodule_worker_send_message_and_address_to_parent (
 					cmodule_worker,
-- 
2.43.0


From 5894dc6f28e30c284408c84bf2be82550cc1dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 103/134] fix: lua: release the message when sending fails

---
 src/lib/lua/lua_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index a1381ba..867672d 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -1137,6 +1137,7 @@ static int __rrr_lua_message_f_send(lua_State *L) {
 					msg,
 					&msg_addr
 			) != 0) {
+				RRR_FREE_IF_NOT_NULL(msg);
 				luaL_error(L, "Failed to send message in %s\n", __func__);
 			}
 		);
-- 
2.43.0


From 6a9202e4b295eb160ec52c226aa8b0e890deefee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 104/134] fix: lua: refuse non-string IP in ip_set instead of
 crashing

---
 src/lib/lua/lua_message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index 867672d..1f81826 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -180,7 +180,7 @@ static int __rrr_lua_message_f_finalize(lua_State *L) {
 
 static int __rrr_lua_message_f_ip_set(lua_State *L) {
 	WITH_MSG (2,ip_set,
-		const char *ip = lua_tostring(L, -2);
+		RRR_LUA_SET_STR(ip,2);
 		rrr_lua_int port = lua_tointeger(L, -1);
 		__rrr_lua_message_set_ip_from_str(message, ip, port, __rrr_lua_message_error_callback, L);
 	);
-- 
2.43.0


From bb977dd7fde95da46c3626889866b6244de94f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 105/134] fix: lua: do not crash when a value which cannot be
 pushed is given to push_tag

---
 src/lib/lua/lua_message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index 1f81826..5975dd0 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -725,7 +725,7 @@ static int __rrr_lua_message_f_push_tag(lua_State *L) {
 			case LUA_TTHREAD:
 			case LUA_TLIGHTUSERDATA:
 			default:
-				luaL_error(L, "Cannot push value of type %s to array\n", lua_type(L, -1));
+				luaL_error(L, "Cannot push value of type %s to array\n", luaL_typename(L, -1));
 				return 1;
 		};
 	);
-- 
2.43.0


From fe55d0b76e1eadd8ffadef4482699b3174ce9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 106/134] fix: lua: do not free message twice when the
 timestamp of a received message is out of range

---
 src/lib/lua/lua_message.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index 5975dd0..b4a496e 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -1325,7 +1325,7 @@ static int __rrr_lua_message_push_new_populated (
 			topic_len,
 			protocol
 	)) != 0) {
-		goto out_decref;
+		goto out_pop;
 	}
 
 	if (array_victim != NULL) {
@@ -1337,8 +1337,9 @@ static int __rrr_lua_message_push_new_populated (
 	}
 
 	goto out;
-	out_decref:
-		__rrr_lua_message_decref(message);
+	out_pop:
+		// Message is released by Lua upon garbage collection
+		lua_pop(target->L, 1);
 	out:
 		return ret;
 }
-- 
2.43.0


From 07e304c4474781f26ffead69af1e6e2cd0c99aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 107/134] fix: lua: remove arguments from the stack when the
 function to call does not exist

---
 src/lib/lua/lua.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/lua/lua.c b/src/lib/lua/lua.c
index 7df0544..c3f738b 100644
--- a/src/lib/lua/lua.c
+++ b/src/lib/lua/lua.c
@@ -200,7 +200,7 @@ int rrr_lua_call (
 			RRR_MSG_0("Could not find Lua function '%s'\n",
 				function);
 			ret = 1;
-			goto out;
+			goto out_args;
 		case LUA_TNUMBER:
 		case LUA_TBOOLEAN:
 		case LUA_TSTRING:
@@ -212,7 +212,7 @@ int rrr_lua_call (
 			RRR_MSG_0("Lua global '%s' is not a function but '%s'\n",
 				function, lua_typename(lua->L, type));
 			ret = 1;
-			goto out;
+			goto out_args;
 	};
 
 	// Function must be before arguments, rotate the stack
@@ -246,9 +246,12 @@ int rrr_lua_call (
 		goto out;
 	}
 
+	goto out;
+	out_args:
+		lua_pop(lua->L, nargs);
 	out:
-	lua_pop(lua->L, 1);
-	return ret;
+		lua_pop(lua->L, 1);
+		return ret;
 }
 
 void rrr_lua_assert_empty_stack (
-- 
2.43.0


From 13c56ce8ca593a263d274dbc6619f746bb258b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 108/134] fix: lua: do not leak value when pushing to message
 fails

---
 src/lib/lua/lua_message.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index b4a496e..687e709 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -50,8 +50,20 @@ struct rrr_lua_message {
 	struct rrr_array array;
 	struct sockaddr_storage ip_addr;
 	socklen_t ip_addr_len;
+
+	// Value which has not yet been added to the array. The value remains
+	// here if Lua performs longjmp due to an error while data is being
+	// converted, and it is destroyed upon the next push or with the message.
+	struct rrr_type_value *value_pending;
 };
 
+static void __rrr_lua_message_value_pending_clear (struct rrr_lua_message *message) {
+	if (message->value_pending != NULL) {
+		rrr_type_value_destroy(message->value_pending);
+		message->value_pending = NULL;
+	}
+}
+
 static int __rrr_lua_message_new (
 		struct rrr_lua_message **result,
 		const struct rrr_lua *lua
@@ -79,6 +91,7 @@ static void __rrr_lua_message_decref (struct rrr_lua_message *message) {
 	if (--message->usercount > 0)
 		return;
 	assert(message->usercount == 0);
+	__rrr_lua_message_value_pending_clear(message);
 	rrr_array_clear(&message->array);
 	rrr_free(message);
 }
@@ -426,14 +439,17 @@ static void __rrr_lua_message_push_tag_64_get_stored_length_and_count (
 // Function for creating value for 64 types, used by push_tag_h and push_tag_fixp
 static void __rrr_lua_message_push_tag_64_create_value (
 		struct rrr_type_value **result,
+		struct rrr_lua_message *message,
 		lua_State *L,
 		const char *k,
 		rrr_length stored_length,
 		rrr_length element_count,
 		const struct rrr_type_definition *definition
 ) {
+	__rrr_lua_message_value_pending_clear(message);
+
 	if (rrr_type_value_new (
-			result,
+			&message->value_pending,
 			definition,
 			0,
 			rrr_length_from_size_t_bug_const(strlen(k)),
@@ -446,6 +462,8 @@ static void __rrr_lua_message_push_tag_64_create_value (
 	) != 0) {
 		luaL_error(L, "Failed to push value in %s, failed to create type value\n", __func__);
 	}
+
+	*result = message->value_pending;
 }
 
 static void __rrr_lua_message_push_tag_h(lua_State *L) {
@@ -456,7 +474,7 @@ static void __rrr_lua_message_push_tag_h(lua_State *L) {
 		SET_KEY(k);
 
 		__rrr_lua_message_push_tag_64_get_stored_length_and_count(L, &stored_length, &element_count);
-		__rrr_lua_message_push_tag_64_create_value(&value, L, k, stored_length, element_count, &rrr_type_definition_h);
+		__rrr_lua_message_push_tag_64_create_value(&value, message, L, k, stored_length, element_count, &rrr_type_definition_h);
 
 		if (element_count == 1) {
 			__rrr_lua_message_push_tag_h_convert (
@@ -502,6 +520,7 @@ static void __rrr_lua_message_push_tag_h(lua_State *L) {
 		}
 
 		RRR_LL_APPEND(&message->array, value);
+		message->value_pending = NULL;
 	);
 }
 
@@ -587,7 +606,7 @@ static int __rrr_lua_message_push_tag_fixp(lua_State *L) {
 		SET_KEY(k);
 
 		__rrr_lua_message_push_tag_64_get_stored_length_and_count(L, &stored_length, &element_count);
-		__rrr_lua_message_push_tag_64_create_value(&value, L, k, stored_length, element_count, &rrr_type_definition_fixp);
+		__rrr_lua_message_push_tag_64_create_value(&value, message, L, k, stored_length, element_count, &rrr_type_definition_fixp);
 
 		if (element_count == 1) {
 			__rrr_lua_message_push_tag_fixp_convert (
@@ -611,6 +630,7 @@ static int __rrr_lua_message_push_tag_fixp(lua_State *L) {
 		}
 
 		RRR_LL_APPEND(&message->array, value);
+		message->value_pending = NULL;
 	);
 	
 	return 0;
@@ -626,7 +646,7 @@ static void __rrr_lua_message_push_tag_boolean(lua_State *L) {
 		// Use h type for storage but convert using toboolean
 
 		__rrr_lua_message_push_tag_64_get_stored_length_and_count(L, &stored_length, &element_count);
-		__rrr_lua_message_push_tag_64_create_value(&value, L, k, stored_length, element_count, &rrr_type_definition_h);
+		__rrr_lua_message_push_tag_64_create_value(&value, message, L, k, stored_length, element_count, &rrr_type_definition_h);
 
 		if (element_count == 1) {
 			*((int64_t *) value->data) = lua_toboolean(L, -1);
@@ -640,6 +660,7 @@ static void __rrr_lua_message_push_tag_boolean(lua_State *L) {
 		}
 
 		RRR_LL_APPEND(&message->array, value);
+		message->value_pending = NULL;
 	);
 }
 
-- 
2.43.0


From 79786931cad0163192378a3bbf9cf8c000690178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 109/134] fix: lua: convert the element when pushing a table
 with a single value

---
 src/lib/lua/lua_message.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index 687e709..73fb345 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -476,7 +476,7 @@ static void __rrr_lua_message_push_tag_h(lua_State *L) {
 		__rrr_lua_message_push_tag_64_get_stored_length_and_count(L, &stored_length, &element_count);
 		__rrr_lua_message_push_tag_64_create_value(&value, message, L, k, stored_length, element_count, &rrr_type_definition_h);
 
-		if (element_count == 1) {
+		if (lua_type(L, -1) != LUA_TTABLE) {
 			__rrr_lua_message_push_tag_h_convert (
 					(int64_t *) value->data,
 					&value->flags,
@@ -608,7 +608,7 @@ static int __rrr_lua_message_push_tag_fixp(lua_State *L) {
 		__rrr_lua_message_push_tag_64_get_stored_length_and_count(L, &stored_length, &element_count);
 		__rrr_lua_message_push_tag_64_create_value(&value, message, L, k, stored_length, element_count, &rrr_type_definition_fixp);
 
-		if (element_count == 1) {
+		if (lua_type(L, -1) != LUA_TTABLE) {
 			__rrr_lua_message_push_tag_fixp_convert (
 					(rrr_fixp *) value->data,
 					L,
@@ -648,7 +648,7 @@ static void __rrr_lua_message_push_tag_boolean(lua_State *L) {
 		__rrr_lua_message_push_tag_64_get_stored_length_and_count(L, &stored_length, &element_count);
 		__rrr_lua_message_push_tag_64_create_value(&value, message, L, k, stored_length, element_count, &rrr_type_definition_h);
 
-		if (element_count == 1) {
+		if (lua_type(L, -1) != LUA_TTABLE) {
 			*((int64_t *) value->data) = lua_toboolean(L, -1);
 		}
 		else {
-- 
2.43.0


From a941e1d56b963664628c42b2173ec37887894aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 110/134] fix: lua: do not pass integers through floating point
 when reading them from messages

---
 src/lib/lua/lua_message.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index 73fb345..5342eb2 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -823,14 +823,10 @@ static void __rrr_lua_message_array_value_to_lua (
 		} break;
 		case RRR_TYPE_H: {
 			assert(len == sizeof(int64_t));
-			RRR_ASSERT(LDBL_MANT_DIG >= 64,long_double_can_hold_64_bits);
-			RRR_ASSERT(sizeof(lua_Number) >= sizeof(double),double_fits_in_lua_number);
-			RRR_ASSERT(sizeof(uint64_t) >= sizeof(strtoull),uint64_t_can_hold_strtoull_result);
 			if (RRR_TYPE_FLAG_IS_SIGNED(value->flags)) {
 				for (rrr_length i = 0; i < value->total_stored_length; i += len) {
-					int64_t    x = *((int64_t *) (value->data + i));
-					lua_Number n = (lua_Number) x;
-					if ((int64_t) n != x) {
+					int64_t x = *((int64_t *) (value->data + i));
+					if (x < LUA_MININTEGER || x > LUA_MAXINTEGER) {
 						if (precision_loss_warnings) {
 							RRR_MSG_0("Warning: Precision loss while converting signed value '%" PRIi64 "' to Lua number. Passing as string instead.\n",
 								x);
@@ -840,20 +836,15 @@ static void __rrr_lua_message_array_value_to_lua (
 						lua_seti(L, -2, (*wpos)++);
 					}
 					else {
-						lua_pushinteger(L, (lua_Number) x);
+						lua_pushinteger(L, (lua_Integer) x);
 						lua_seti(L, -2, (*wpos)++);
 					}
 				}
 			}
 			else {
 				for (rrr_length i = 0; i < value->total_stored_length; i += len) {
-					uint64_t   x = *((uint64_t *) (value->data + i));
-					lua_Number n = (lua_Number) x;
-					char *end;
-					sprintf(buf, "%Lf", (long double) n);
-					errno = 0;
-					strtoull(buf, &end, 10);
-					if (errno || (uint64_t) n != x) {
+					uint64_t x = *((uint64_t *) (value->data + i));
+					if (x > (uint64_t) LUA_MAXINTEGER) {
 						if (precision_loss_warnings) {
 							RRR_MSG_0("Warning: Precision loss while converting unsigned value '%" PRIu64 "' to Lua number. Passing as string instead.\n",
 								x);
@@ -863,7 +854,7 @@ static void __rrr_lua_message_array_value_to_lua (
 						lua_seti(L, -2, (*wpos)++);
 					}
 					else {
-						lua_pushinteger(L, (lua_Number) x);
+						lua_pushinteger(L, (lua_Integer) x);
 						lua_seti(L, -2, (*wpos)++);
 					}
 				}
-- 
2.43.0


From 91f58e58abfe5412866c09591bafb0ada16bcc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 111/134] fix: lua: pass fixed point numbers which do not fit
 in a Lua number as exact string

---
 src/lib/lua/lua_message.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index 5342eb2..dcfd2f7 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -868,14 +868,12 @@ static void __rrr_lua_message_array_value_to_lua (
 				if (rrr_fixp_to_ldouble(&number, fixp) != 0) {
 					luaL_error(L, "Failed to convert fixed point number to Lua number while pushing value to array\n");
 				}
-				if (rrr_fixp_from_ldouble(&fixp_test, number) != 0) {
-					luaL_error(L, "Failed to convert Lua number to fixed point number while pushing value to array\n");
-				}
-				if (fixp_test != fixp) {
+				if (rrr_fixp_from_ldouble(&fixp_test, (lua_Number) number) != 0 || fixp_test != fixp) {
 					if (precision_loss_warnings) {
 						RRR_MSG_0("Warning: Precision loss while converting fixed point value to Lua number. Passing as string instead.\n");
 					}
-					buf_len = sprintf(buf, "%Lf", (long double) number);
+					// All fixed point numbers have a maximum of 24 decimals
+					buf_len = sprintf(buf, "%.24Lf", (long double) number);
 					lua_pushlstring(L, buf, (size_t) buf_len);
 					lua_seti(L, -2, (*wpos)++);
 				}
-- 
2.43.0


From 606ff813812f9f22237c16bd4f56627238ef40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 112/134] fix: lua: refuse or convert correctly numbers outside
 the integer range and malformed strings in push_tag_h

---
 src/lib/lua/lua_message.c | 65 +++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index dcfd2f7..c59c3cd 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -362,16 +362,34 @@ static void __rrr_lua_message_push_tag_h_convert (
 ) {
 	int isnum;
 	lua_Integer i;
+	lua_Number n;
 	long long int lli;
 	long long unsigned int llu;
 	const char *str;
-	size_t str_len;
-	const char *endptr;
+	size_t str_len, digits;
+	const char *pos;
+
+	if (lua_type(L, -1) == LUA_TNUMBER) {
+		i = lua_tointegerx(L, -1, &isnum);
+		if (isnum) {
+			*result = i;
+			*result_flags = (i < 0 ? RRR_TYPE_FLAG_SIGNED : 0);
+			return;
+		}
 
-	i = lua_tointegerx(L, -1, &isnum);
-	if (isnum) {
-		*result = i;
-		*result_flags = (i < 0 ? RRR_TYPE_FLAG_SIGNED : 0);
+		// Float is either with decimals or outside the range of Lua integers
+		n = lua_tonumber(L, -1);
+		if (!(n >= -9223372036854775808.0 && n < 18446744073709551616.0)) {
+			luaL_error(L, "Failed to convert number to integer while pushing value with key %s to array, value out of range\n", debug_k);
+		}
+		if (n <= -1.0) {
+			*result = (int64_t) n;
+			*result_flags = RRR_TYPE_FLAG_SIGNED;
+		}
+		else {
+			*result = n < 0.0 ? 0 : (int64_t) (uint64_t) n;
+			*result_flags = 0;
+		}
 		return;
 	}
 
@@ -383,31 +401,40 @@ static void __rrr_lua_message_push_tag_h_convert (
 		luaL_error(L, "Failed to push value with key %s to array, string was empty\n", debug_k);
 	}
 
+	// Strings must contain a number with optional decimals which are
+	// discarded. Other notations, like hexadecimal, are left to Lua.
+	pos = str + (*str == '-' ? 1 : 0);
+	digits = strspn(pos, "0123456789");
+	pos += digits;
+	if (*pos == '.') {
+		pos++;
+		pos += strspn(pos, "0123456789");
+	}
+	if (digits == 0 || pos != str + str_len) {
+		i = lua_tointegerx(L, -1, &isnum);
+		if (!isnum) {
+			luaL_error(L, "Failed to convert string to integer while pushing value with key %s to array, string was not fully converted\n", debug_k);
+		}
+		*result = i;
+		*result_flags = (i < 0 ? RRR_TYPE_FLAG_SIGNED : 0);
+		return;
+	}
+
 	errno = 0;
 
 	if (*str == '-') {
-		lli = strtoll(str, (char **) &endptr, 10);
+		lli = strtoll(str, NULL, 10);
 		if (errno == ERANGE) {
 			luaL_error(L, "Failed to convert string to integer while pushing value with key %s to array, value out of range\n", debug_k);
 		}
-		if (str + str_len != endptr) {
-			if (*endptr != '.') {
-				luaL_error(L, "Failed to convert string to integer while pushing value with key %s to array, string was not fully converted\n", debug_k);
-			}
-		}
 		*result = lli;
-		*result_flags = RRR_TYPE_FLAG_SIGNED;
+		*result_flags = (lli < 0 ? RRR_TYPE_FLAG_SIGNED : 0);
 	}
 	else {
-		llu = strtoull(str, (char **) &endptr, 10);
+		llu = strtoull(str, NULL, 10);
 		if (errno == ERANGE) {
 			luaL_error(L, "Failed to convert string to integer while pushing value with key %s to array, value out of range\n", debug_k);
 		}
-		if (str + str_len != endptr) {
-			if (*endptr != '.') {
-				luaL_error(L, "Failed to convert string to integer while pushing value with key %s to array, string was not fully converted\n", debug_k);
-			}
-		}
 		*result = (int64_t) llu;
 		*result_flags = 0;
 	}
-- 
2.43.0


From a93bbd2c9c9e898fa2b28150c73bf83fb94cb8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 113/134] fix: lua: convert strings to fixed point numbers
 without loss of precision

---
 src/lib/lua/lua_message.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index c59c3cd..e2a1b21 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -607,6 +607,19 @@ static void __rrr_lua_message_push_tag_fixp_convert_str (
 	*result = fixp;
 }
 
+static int __rrr_lua_message_push_tag_fixp_try_str (
+		rrr_fixp *result,
+		lua_State *L
+) {
+	size_t str_len;
+	const char *str = lua_tolstring(L, -1, &str_len);
+	const char *endptr;
+
+	return str_len == 0 ||
+	       rrr_fixp_str_to_fixp(result, str, rrr_length_from_size_t_bug_const(str_len), &endptr) != 0 ||
+	       endptr != str + str_len;
+}
+
 static void __rrr_lua_message_push_tag_fixp_convert (
 		rrr_fixp *result,
 		lua_State *L,
@@ -616,6 +629,11 @@ static void __rrr_lua_message_push_tag_fixp_convert (
 	lua_Number n;
 	int isnum;
 
+	// Strings which RRR understands are not passed through Lua numbers to avoid loss of precision
+	if (lua_type(L, -1) == LUA_TSTRING && __rrr_lua_message_push_tag_fixp_try_str (result, L) == 0) {
+		return;
+	}
+
 	n = lua_tonumberx(L, -1, &isnum);
 	if (isnum) {
 		__rrr_lua_message_push_tag_fixp_convert_ld (result, L, n, debug_k, precision_loss_warnings);
-- 
2.43.0


From 0a098863d51c71b97b5c9aa6bd8f9e3beecdce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 114/134] fix: lua: send messages with automatic protocol when
 ip_so_type is empty

---
 src/lib/lua/lua_message.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index e2a1b21..eb6cfdd 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -1104,13 +1104,16 @@ static int __rrr_lua_message_f_send(lua_State *L) {
 
 		msg_addr.protocol = RRR_IP_AUTO;
 
-		if (rrr_posix_strncasecmp("udp", ip_so_type, ip_so_type_len) == 0) {
+		if (ip_so_type_len == 0) {
+			// Leave as auto
+		}
+		else if (rrr_posix_strncasecmp("udp", ip_so_type, ip_so_type_len) == 0) {
 			msg_addr.protocol = RRR_IP_UDP;
 		}
 		else if (rrr_posix_strncasecmp("tcp", ip_so_type, ip_so_type_len) == 0) {
 			msg_addr.protocol = RRR_IP_TCP;
 		}
-		else if (ip_so_type_len != 0) {
+		else {
 			luaL_error(L, "IP socket type must be either empty, set to 'tcp' or 'udp')\n");
 		}
 
-- 
2.43.0


From 47d613e68b89bf2f2f7ee0a7890d013e2ff9be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 115/134] fix: lua: call process function with the method name
 when direct dispatch is not used

---
 src/modules/p_lua.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/p_lua.c b/src/modules/p_lua.c
index 7901c9d..2ba4a09 100644
--- a/src/modules/p_lua.c
+++ b/src/modules/p_lua.c
@@ -248,7 +248,8 @@ static int lua_process_callback(RRR_CMODULE_PROCESS_CALLBACK_ARGS) {
 		}
 	}
 	else if (method != NULL) {
-		functions[1] = method;
+		// Method name is passed as second argument to the process function
+		functions[1] = data->cmodule_config_data->process_method;
 	}
 	else {
 		functions[0] = data->cmodule_config_data->process_method;
-- 
2.43.0


From ab1788172c6b7472454708e5fce68e8587978210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 116/134] fix: obey receive maximum exactly when sending
 PUBLISH packets, a maximum of 1 caused no packets to be sent

---
 src/lib/mqtt/mqtt_session_ram.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index ade8871..70d6ead 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2441,19 +2441,19 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 
 	if (	publish->is_outbound &&
 		RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) > 0 &&
-		publish->qos_packets.pubcomp == NULL &&
-		publish->qos_packets.pubrec == NULL &&
 		publish->planned_expiry_time == 0
 	) {
+		// QoS2 handshakes are in flight until PUBCOMP is received
 		counters->incomplete_qos_publish_counter++;
 	}
 
 	if (	publish->last_attempt == 0 &&
-		publish->is_outbound != 0 && (
-			counters->incomplete_qos_publish_counter >= iterate_callback_data->ram_session->max_in_flight ||
+		publish->is_outbound != 0 &&
+		RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) > 0 && (
+			counters->incomplete_qos_publish_counter > iterate_callback_data->ram_session->max_in_flight ||
 			(
 				iterate_callback_data->ram_session->session_properties.numbers.receive_maximum != 0 &&
-				counters->incomplete_qos_publish_counter >= iterate_callback_data->ram_session->session_properties.numbers.receive_maximum
+				counters->incomplete_qos_publish_counter > iterate_callback_data->ram_session->session_properties.numbers.receive_maximum
 			)
 		)
 	) {
-- 
2.43.0


From 2a7d0424e845ca26568601d930785fbe13aa88cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 117/134] fix: will messages with long delay intervals were
 published early due to overflow

---
 src/lib/mqtt/mqtt_session_ram.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 70d6ead..6d1e446 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1015,7 +1015,7 @@ static int __rrr_mqtt_session_ram_will_publish_notify_disconnect (
 	}
 
 	// Initialize. Delay interval is stored in seconds, multiply by 10^6.
-	ram_session->will_publish->planned_expiry_time = rrr_time_get_64() + (ram_session->will_publish->will_delay_interval * 1000 * 1000);
+	ram_session->will_publish->planned_expiry_time = rrr_time_get_64() + ((uint64_t) ram_session->will_publish->will_delay_interval * 1000 * 1000);
 
 	// Clear any WILL message unless explicitly told by client to publish it.
 	// In version 3.1, the will PUBLISH is always cleared (reason_v5 will
-- 
2.43.0


From 076f9ed09c8d4ef17d45856209d7280e02cfff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 118/134] fix: broker: discard queued packets when a client
 connects with clean start

---
 src/lib/mqtt/mqtt_session_ram.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 6d1e446..6abcf90 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1289,11 +1289,20 @@ static int __rrr_mqtt_session_ram_clean_final (struct rrr_mqtt_session_ram *ram_
 		0
 	};
 
-	// We preserve the outbound PUBLISH packets
+	// The broker discards all state, including retain packets not yet queued
+	rrr_fifo_clear_with_callback (
+			&ram_session->to_remote_delayed_buffer.buffer,
+			__rrr_mqtt_session_ram_packet_id_release_callback,
+			NULL
+	);
+
+	// When we are client, we preserve the outbound PUBLISH packets
 	// by re-queing them after the list is emptied (QOS0 are deleted, QOS1-2 are preserved).
 	rrr_fifo_clear_with_callback (
 			&ram_session->to_remote_buffer.buffer,
-			__rrr_mqtt_session_ram_clean_preserve_publish_and_release_id_callback,
+			ram_session->ram_data->delivery_method == __rrr_mqtt_session_ram_delivery_forward
+				? __rrr_mqtt_session_ram_packet_id_release_callback
+				: __rrr_mqtt_session_ram_clean_preserve_publish_and_release_id_callback,
 			&callback_data
 	);
 
-- 
2.43.0


From 744308cbb19a84bbf0dfc5629fd1f0e3eb7ff172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 119/134] fix: broker: end V3.1 sessions with clean session set
 when the connection closes

---
 src/lib/mqtt/mqtt_broker.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index f558227..ef91b19 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -576,9 +576,9 @@ static int _rrr_mqtt_broker_handle_connect_session_init (
 	struct rrr_mqtt_session_properties session_properties = rrr_mqtt_common_default_session_properties;
 
 	if (!RRR_MQTT_P_IS_V5(connect)) {
-		// Default for version 3.1 is that sessions do not expire,
-		// only use clean session to control this
-		session_properties.numbers.session_expiry = 0xffffffff;
+		// Version 3.1 sessions do not expire unless clean session is
+		// set, in which case the session lasts as long as the connection.
+		session_properties.numbers.session_expiry = RRR_MQTT_P_CONNECT_GET_FLAG_CLEAN_START(connect) ? 0 : 0xffffffff;
 	}
 
 	struct rrr_mqtt_common_parse_properties_data_connect callback_data = {
-- 
2.43.0


From f267b695a934501154e29b0ec49f2f43f4f2c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 120/134] fix: mqtt: do not send retained messages and will
 messages which exceed the maximum packet size of the receiver

---
 src/lib/mqtt/mqtt_session_ram.c | 58 +++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 6abcf90..a93e1a0 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2419,6 +2419,47 @@ static int __rrr_mqtt_session_ram_packet_identifier_ensure (
 	return ret;
 }
 
+static int __rrr_mqtt_session_ram_publish_exceeds_maximum_packet_size (
+		int *exceeds,
+		const struct rrr_mqtt_session_ram *ram_session,
+		const struct rrr_mqtt_p_publish *publish
+) {
+	const uint32_t maximum_packet_size = ram_session->session_properties.numbers.maximum_packet_size;
+
+	*exceeds = 0;
+
+	if (maximum_packet_size == 0 || !publish->is_outbound) {
+		return 0;
+	}
+
+	rrr_length properties_size = 0;
+	rrr_length properties_count = 0;
+
+	if (rrr_mqtt_property_collection_calculate_size(&properties_size, &properties_count, &publish->properties) != 0) {
+		RRR_MSG_0("Failed to calculate size of properties in %s\n", __func__);
+		return 1;
+	}
+
+	uint64_t size = (uint64_t) properties_size + properties_count;
+	for (uint64_t i = size; i > 0x7f; i >>= 7) {
+		size++;
+	}
+
+	size += 1 + 2 + strlen(publish->topic);
+	size += RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) > 0 ? 2 : 0;
+	size += publish->payload != NULL ? publish->payload->size : 0;
+
+	for (uint64_t i = size; i > 0x7f; i >>= 7) {
+		size++;
+	}
+
+	size += 1 + 1;
+
+	*exceeds = size > maximum_packet_size;
+
+	return 0;
+}
+
 static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 		struct rrr_mqtt_p **packet_to_transmit,
 		int *delete_now,
@@ -2442,6 +2483,23 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 		}
 	}
 
+	if (publish->qos_packets.puback == NULL && publish->qos_packets.pubrec == NULL) {
+		int exceeds = 0;
+		if ((ret = __rrr_mqtt_session_ram_publish_exceeds_maximum_packet_size (
+				&exceeds,
+				iterate_callback_data->ram_session,
+				publish
+		)) != 0) {
+			goto out;
+		}
+		if (exceeds) {
+			RRR_MSG_0("Not sending PUBLISH with topic '%s' to client, packet size exceeds set maximum packet size %" PRIu32 "\n",
+					publish->topic, iterate_callback_data->ram_session->session_properties.numbers.maximum_packet_size);
+			*delete_now = 1;
+			goto out;
+		}
+	}
+
 	if (publish->qos_packets.puback != NULL ||
 		publish->qos_packets.pubcomp != NULL) {
 		// Nothing more to do for this QoS handshake
-- 
2.43.0


From 1755b5004fb7de59e8b88d5b511ab3385b8b44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 121/134] fix: broker: publish will message when a session is
 taken over or ends due to clean start

---
 src/lib/mqtt/mqtt_broker.c      | 21 +++++++++++----------
 src/lib/mqtt/mqtt_session_ram.c | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index ef91b19..be83522 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -731,6 +731,17 @@ static int __rrr_mqtt_broker_handle_connect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 		}
 	}
 
+	// Remove session from any old connections not yet destroyed. The session is notified
+	// about the disconnection, and this must happen before it is initialized again.
+	if (rrr_mqtt_common_clear_session_from_connections (
+			&data->mqtt_data,
+			session,
+			RRR_NET_TRANSPORT_CTX_HANDLE(handle)
+	) != 0) {
+		RRR_MSG_0("Could not clear session from other connections in %s\n", __func__);
+		goto out;
+	}
+
 	if ((ret = _rrr_mqtt_broker_handle_connect_session_init (
 			&reason_v5,
 			&session,
@@ -743,16 +754,6 @@ static int __rrr_mqtt_broker_handle_connect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 		goto out_send_connack;
 	}
 
-	// Remove session from any old connections not yet destroyed
-	if (rrr_mqtt_common_clear_session_from_connections (
-			&data->mqtt_data,
-			session,
-			RRR_NET_TRANSPORT_CTX_HANDLE(handle)
-	) != 0) {
-		RRR_MSG_0("Could not clear session from other connections in %s\n", __func__);
-		goto out;
-	}
-
 	// Handle will from connect
 	if ((ret = __rrr_mqtt_broker_handle_connect_will(&reason_v5, mqtt_data, connection->client_id, connect, &session)) != 0) {
 		if (ret == RRR_MQTT_SOFT_ERROR) {
diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index a93e1a0..25e5fbf 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1358,6 +1358,15 @@ static int __rrr_mqtt_session_ram_init (
 
 	SESSION_RAM_INCREF_OR_RETURN();
 
+	// With clean session, the old session ends now and any will message not yet published is due
+	if (clean_session && (ret = __rrr_mqtt_session_ram_will_publish_maintain (
+			ram_data,
+			ram_session,
+			1 /* Ignore delay interval */
+	)) != 0) {
+		goto out;
+	}
+
 	// The clone function clears the target first
 	if ((ret = rrr_mqtt_session_properties_clone (
 			&ram_session->session_properties,
@@ -2858,6 +2867,15 @@ static int __rrr_mqtt_session_ram_notify_disconnect (
 	if (reason_v5 == RRR_MQTT_P_5_REASON_SESSION_TAKEN_OVER) {
 		RRR_DBG_1("Session notify disconnect no deletion due to session take-over\n");
 		ram_session->expire_time = 0; // Never
+
+		// Any will message with zero delay interval must still be published
+		ret = __rrr_mqtt_session_ram_will_publish_notify_disconnect (
+				ram_data,
+				ram_session,
+				reason_v5,
+				ram_session->session_properties.numbers.session_expiry == 0
+		);
+
 		goto out;
 	}
 	else {
-- 
2.43.0


From 758011f57126c8dc27284f049e025be88544ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 122/134] fix: broker: refuse client identifiers with the
 prefix reserved for generated identifiers

---
 src/lib/mqtt/mqtt_broker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index be83522..0dad564 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -478,7 +478,7 @@ static int __rrr_mqtt_broker_handle_connect_check_client_identifier (
 				ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
 				goto out;
 			}
-			if (session == NULL) {
+			if (*session == NULL) {
 				RRR_DBG_2("Client ID cannot begin with '" RRR_MQTT_BROKER_CLIENT_PREFIX "' unless a session with such name already exists\n");
 				*reason_v5 = RRR_MQTT_P_5_REASON_CLIENT_ID_REJECTED;
 				goto out;
-- 
2.43.0


From 1c5c1f8e60ff25d4517bd05a6596c77d5be6b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 123/134] fix: mqtt: send unacknowledged PUBLISH and PUBREL
 packets again when a session is resumed, not only after the retry interval

---
 src/lib/mqtt/mqtt_session_ram.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 25e5fbf..8fe9b0d 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1345,6 +1345,23 @@ static int __rrr_mqtt_session_ram_clean_final (struct rrr_mqtt_session_ram *ram_
 	return ret;
 }
 
+static int __rrr_mqtt_session_ram_retransmit_now_callback (RRR_FIFO_READ_CALLBACK_ARGS) {
+	struct rrr_mqtt_p *packet = (struct rrr_mqtt_p *) data;
+
+	(void)(size);
+	(void)(arg);
+
+	if ( RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
+	     RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(packet) > 0 &&
+	     packet->last_attempt != 0
+	) {
+		packet->last_attempt = 0;
+		RRR_MQTT_P_PUBLISH_SET_FLAG_DUP(packet, 1);
+	}
+
+	return RRR_FIFO_OK;
+}
+
 static int __rrr_mqtt_session_ram_init (
 		struct rrr_mqtt_session_collection *collection,
 		struct rrr_mqtt_session **session_to_find,
@@ -1384,6 +1401,16 @@ static int __rrr_mqtt_session_ram_init (
 	if (clean_session) {
 		__rrr_mqtt_session_ram_clean_final(ram_session);
 	}
+	else if (rrr_fifo_search (
+			&ram_session->to_remote_buffer.buffer,
+			__rrr_mqtt_session_ram_retransmit_now_callback,
+			NULL
+	) != 0) {
+		// Unacknowledged packets must be sent again when a session is resumed
+		RRR_MSG_0("Error while preparing retransmission in %s\n", __func__);
+		ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
+		goto out;
+	}
 
 	RRR_DBG_2("Initialize ram session, expiry interval is %" PRIu32 " have will publish %p clean session %i to remote buffer count %" PRIrrrl "\n",
 			ram_session->session_properties.numbers.session_expiry,
-- 
2.43.0


From 5b06268538a561105e04386455f8953fd84da8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 124/134] fix: mqtt: handle packet identifiers which are used
 again by remote right after the previous handshake has completed

---
 src/lib/mqtt/mqtt_session_ram.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 8fe9b0d..e1cf19b 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1572,6 +1572,16 @@ struct ram_process_ack_callback_data {
 	struct rrr_mqtt_session_ram *ram_session;
 };
 
+static int __rrr_mqtt_session_ram_inbound_publish_is_complete (
+		const struct rrr_mqtt_p *packet
+) {
+	const struct rrr_mqtt_p_publish *publish = (const struct rrr_mqtt_p_publish *) packet;
+
+	return	RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
+		!publish->is_outbound &&
+		(publish->qos_packets.puback != NULL || publish->qos_packets.pubcomp != NULL);
+}
+
 static int __rrr_mqtt_session_ram_process_ack_callback (RRR_FIFO_READ_CALLBACK_ARGS) {
 	int ret = RRR_FIFO_OK;
 
@@ -1606,6 +1616,11 @@ static int __rrr_mqtt_session_ram_process_ack_callback (RRR_FIFO_READ_CALLBACK_A
 		goto out;
 	}
 
+	if (__rrr_mqtt_session_ram_inbound_publish_is_complete(packet)) {
+		// The identifier is free to be used by remote for another PUBLISH
+		goto out;
+	}
+
 	if (ack_callback_data->is_outbound == packet->is_outbound) {
 		if (( RRR_MQTT_P_GET_TYPE(ack_packet) == RRR_MQTT_P_TYPE_PUBACK ||
 		      RRR_MQTT_P_GET_TYPE(ack_packet) == RRR_MQTT_P_TYPE_PUBREC ||
@@ -1691,8 +1706,9 @@ static int __rrr_mqtt_session_ram_process_ack_callback (RRR_FIFO_READ_CALLBACK_A
 				publish->qos_packets.puback = NULL;
 			}
 			else if (publish->is_outbound == 0) {
-				if ((ret = ram_session->ram_data->delivery_method(ram_session, publish)) != RRR_MQTT_SESSION_OK) {
-					RRR_MSG_0("Error while delivering PUBLISH in %s return was %i\n", __func__, ret);
+				int ret_tmp;
+				if ((ret_tmp = ram_session->ram_data->delivery_method(ram_session, publish)) != RRR_MQTT_SESSION_OK) {
+					RRR_MSG_0("Error while delivering PUBLISH in %s return was %i\n", __func__, ret_tmp);
 					ret = RRR_FIFO_GLOBAL_ERR;
 					goto out;
 				}
@@ -2155,6 +2171,14 @@ static int __rrr_mqtt_session_ram_find_qos2_publish_callback (RRR_FIFO_READ_CALL
 	struct rrr_mqtt_p_publish *publish_in_buffer = (struct rrr_mqtt_p_publish *) data;
 	struct rrr_mqtt_p_publish *publish_received = qos2_publish_data->publish;
 
+	if ( RRR_MQTT_P_GET_TYPE(publish_in_buffer) == RRR_MQTT_P_TYPE_PUBLISH && (
+			RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish_in_buffer) != 2 ||
+			__rrr_mqtt_session_ram_inbound_publish_is_complete((struct rrr_mqtt_p *) publish_in_buffer)
+	)) {
+		// Another PUBLISH may use the same identifier
+		goto out;
+	}
+
 	if (qos2_publish_data->prev_packet_id == publish_in_buffer->packet_identifier) {
 		RRR_BUG("Two equal packet IDs in buffer __rrr_mqtt_session_ram_find_qos2_publish_callback\n");
 	}
-- 
2.43.0


From 9d12d071c77315b6d5fb240f33d47211f6126114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 125/134] fix: averager: pass on array messages which are not
 point measurements instead of dropping them

---
 src/modules/p_averager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/p_averager.c b/src/modules/p_averager.c
index 582f2f6..9004f16 100644
--- a/src/modules/p_averager.c
+++ b/src/modules/p_averager.c
@@ -84,7 +84,7 @@ static int averager_poll_callback(RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 	struct rrr_msg_holder *dup_entry = NULL;
 	struct rrr_msg_msg *dup_message = NULL;
 
-	if (MSG_IS_MSG(message) && MSG_IS_ARRAY(message)) {
+	if (MSG_IS_MSG(message) && MSG_IS_ARRAY(message) && rrr_array_message_has_tag(message, "measurement")) {
 		rrr_msg_holder_incref_while_locked(entry);
 		RRR_LL_APPEND(&averager_data->input_list, entry);
 
-- 
2.43.0


From 41df4deb3a784c411b180163dafe4cd6de111ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 126/134] fix: averager: use all measurements within the
 timespan, and survive malformed array messages

---
 src/modules/p_averager.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/modules/p_averager.c b/src/modules/p_averager.c
index 9004f16..030697d 100644
--- a/src/modules/p_averager.c
+++ b/src/modules/p_averager.c
@@ -230,12 +230,15 @@ static int averager_process_message (
 	uint64_t timestamp_to;
 
 	if (__averager_get_64_from_array(&data_numeric, averager_data, &array_tmp, "measurement") != 0) {
+		ret = 1;
 		goto out;
 	}
 	if (__averager_get_64_from_array(&timestamp_from, averager_data, &array_tmp, "timestamp_from") != 0) {
+		ret = 1;
 		goto out;
 	}
 	if (__averager_get_64_from_array(&timestamp_to, averager_data, &array_tmp, "timestamp_to") != 0) {
+		ret = 1;
 		goto out;
 	}
 
@@ -369,17 +372,16 @@ static int averager_calculate_average(struct averager_data *data) {
 
 	RRR_LL_ITERATE_BEGIN(&data->input_list, struct rrr_msg_holder);
 		rrr_msg_holder_lock(node);
-		if ((ret = averager_process_message(data, &calculation, node)) != 0) {
+		if (averager_process_message(data, &calculation, node) != 0) {
+			// Message is not valid, other measurements are not affected
+			RRR_LL_ITERATE_SET_DESTROY();
+		}
+		else {
+			// Message may be used again in the next interval, it is removed when older than the timespan
 			rrr_msg_holder_unlock(node);
-			RRR_LL_ITERATE_LAST();
 		}
-		RRR_LL_ITERATE_SET_DESTROY();
 	RRR_LL_ITERATE_END_CHECK_DESTROY(&data->input_list, 0; rrr_msg_holder_decref_while_locked_and_unlock(node));
 
-	if (ret != 0) {
-		goto out;
-	}
-
 	if (calculation.entries == 0) {
 		RRR_DBG_2 ("Averager: No entries, not averaging\n");
 		return ret;
@@ -405,7 +407,6 @@ static int averager_calculate_average(struct averager_data *data) {
 		return ret;
 	}
 
-	out:
 	return ret;
 }
 
-- 
2.43.0


From 4db6b85ab39bac2b896f1aefb790d37057677ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 127/134] fix: averager: do not remove all measurements when
 the timespan is longer than the time since the epoch

---
 src/modules/p_averager.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modules/p_averager.c b/src/modules/p_averager.c
index 030697d..36a3c8c 100644
--- a/src/modules/p_averager.c
+++ b/src/modules/p_averager.c
@@ -141,9 +141,8 @@ static int averager_poll_callback(RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 }
 
 static void averager_maintain_buffer(struct averager_data *data) {
-	uint64_t timespan_useconds = data->timespan_s * 1000000;
 	uint64_t time_now = rrr_time_get_64();
-	uint64_t min_time = time_now - timespan_useconds;
+	uint64_t min_time = data->timespan_s < time_now / 1000000 ? time_now - data->timespan_s * 1000000 : 0;
 
 	RRR_LL_ITERATE_BEGIN(&data->input_list, struct rrr_msg_holder);
 		rrr_msg_holder_lock(node);
-- 
2.43.0


From ed2bd5de7926bebe093ea499b54dca34368d2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 128/134] fix: do not use streams of UDP-stream after they have
 been destroyed by a reset

---
 src/lib/udpstream/udpstream.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/udpstream/udpstream.c b/src/lib/udpstream/udpstream.c
index bf19330..e7fca5b 100644
--- a/src/lib/udpstream/udpstream.c
+++ b/src/lib/udpstream/udpstream.c
@@ -1200,6 +1200,10 @@ static int __rrr_udpstream_handle_received_frame (
 				stream->connect_handle, stream->stream_id);
 			__rrr_udpstream_find_and_destroy_stream (data, new_frame->connect_handle, new_frame->stream_id);
 		}
+
+		// Stream is possibly destroyed
+		stream = NULL;
+
 		goto out;
 	}
 
@@ -1255,6 +1259,7 @@ static int __rrr_udpstream_handle_received_frame (
 		}
 
 		__rrr_udpstream_find_and_destroy_stream_by_stream_id (data, new_frame->stream_id);
+		stream = NULL;
 
 		goto out;
 	}
-- 
2.43.0


From 4de248667dc9ac4736d6ea323b62bfa6ec54eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 129/134] fix: do not abort ipclient upon invalid messages from
 remote

---
 src/modules/p_ipclient.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/modules/p_ipclient.c b/src/modules/p_ipclient.c
index 6acbd35..f2aca1b 100644
--- a/src/modules/p_ipclient.c
+++ b/src/modules/p_ipclient.c
@@ -332,9 +332,8 @@ static int ipclient_udpstream_allocator_intermediate (void *arg1, void *arg2) {
 		goto out_err;
 	}
 
-	if (joined_data != NULL) {
-		RRR_BUG("Callback returned non-error but still did not set joined_data to NULL in ipclient_udpstream_allocator_intermediate\n");
-	}
+	// If joined_data has not been set to NULL, the message was invalid
+	// and it is freed with the entry.
 
 	goto out;
 	out_err:
@@ -344,9 +343,6 @@ static int ipclient_udpstream_allocator_intermediate (void *arg1, void *arg2) {
 		ret = 1;
 	out:
 		pthread_cleanup_pop(1);
-		if (joined_data != NULL && ret == 0) {
-			RRR_BUG("Callback returned non-error but still did not set joined_data to NULL in ipclient_udpstream_allocator_intermediate\n");
-		}
 	out_no_unlock:
 		return ret;
 }
-- 
2.43.0


From 3e5de1e73c78cf43fe91c15639af8f5deb631a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 130/134] fix: do not reply to ACKs with ACKs in UDP-stream

---
 src/lib/udpstream/udpstream.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/udpstream/udpstream.c b/src/lib/udpstream/udpstream.c
index e7fca5b..b075fcf 100644
--- a/src/lib/udpstream/udpstream.c
+++ b/src/lib/udpstream/udpstream.c
@@ -1281,7 +1281,7 @@ static int __rrr_udpstream_handle_received_frame (
 		if (new_frame->frame_id < node->frame_id) {
 			RRR_LL_ITERATE_INSERT(&stream->receive_buffer, new_frame);
 			new_frame = NULL;
-			goto out;
+			goto out_activate;
 		}
 		if (node->frame_id < frame_id_max) {
 			RRR_LL_ITERATE_BEGIN(&stream->receive_buffer, struct rrr_udpstream_frame);
@@ -1297,11 +1297,15 @@ static int __rrr_udpstream_handle_received_frame (
 		RRR_LL_APPEND(&stream->receive_buffer, new_frame);
 		new_frame = NULL;
 
+	out_activate:
+		// Only new data frames cause immediate delivery and ACKs. If all frames
+		// did, ACKs would cause new ACKs when both ends have holes in their buffers.
+		EVENT_ACTIVATE(data->event_deliver);
+
 	out:
 		if (stream != NULL && RRR_LL_COUNT(&stream->receive_buffer) > 0 && !EVENT_PENDING(data->event_deliver)) {
 			EVENT_ADD(data->event_deliver);
 		}
-		EVENT_ACTIVATE(data->event_deliver);
 		if (new_frame != NULL) {
 			__rrr_udpstream_frame_destroy(new_frame);
 		}
-- 
2.43.0


From 4e8bab80ce4d7b006130975709e6434a95950a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 131/134] fix: do not fail in UDP-stream ASD when the
 connection is lost while a message awaits completion

---
 src/lib/udpstream/udpstream_asd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/udpstream/udpstream_asd.c b/src/lib/udpstream/udpstream_asd.c
index 483fd0e..b1ff0ae 100644
--- a/src/lib/udpstream/udpstream_asd.c
+++ b/src/lib/udpstream/udpstream_asd.c
@@ -432,7 +432,9 @@ static int __rrr_udpstream_asd_send_control_message (
 
 	int ret = rrr_udpstream_send_control_frame(&session->udpstream, connect_handle, application_data);
 
-	ret &= ~(RRR_UDPSTREAM_NOT_READY);
+	// Soft error is returned if there currently is no connection. Messages
+	// which are not sent are repeated after the connection is up again.
+	ret &= ~(RRR_UDPSTREAM_NOT_READY|RRR_UDPSTREAM_SOFT_ERR);
 
 	return ret;
 }
-- 
2.43.0


From 9a5fa3fec9fa69895b0cdb9726ba55c3437cbaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 132/134] fix: mqtt broker: refuse connections with wills which
 the ACL does not allow the client to publish

---
 src/lib/mqtt/mqtt_broker.c | 43 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index 0dad564..de6d02c 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -447,6 +447,42 @@ static int __rrr_mqtt_broker_handle_connect_auth (
 	return ret;
 }
 
+static int __rrr_mqtt_broker_handle_connect_will_acl (
+		uint8_t *reason_v5,
+		struct rrr_mqtt_broker_data *data,
+		const struct rrr_mqtt_p_connect *connect
+) {
+	int ret = RRR_MQTT_OK;
+
+	struct rrr_mqtt_topic_token *token_tree = NULL;
+
+	if (RRR_MQTT_P_CONNECT_GET_FLAG_WILL(connect) == 0) {
+		goto out;
+	}
+
+	if (rrr_mqtt_topic_tokenize(&token_tree, connect->will_topic) != 0) {
+		RRR_MSG_0("Failed to create topic token tree in %s\n", __func__);
+		ret = RRR_MQTT_INTERNAL_ERROR;
+		goto out;
+	}
+
+	if (rrr_mqtt_acl_check_access (
+			data->acl,
+			token_tree,
+			RRR_MQTT_ACL_ACTION_RW,
+			connect->username,
+			rrr_mqtt_topic_match_tokens_recursively
+	) != RRR_MQTT_ACL_RESULT_ALLOW) {
+		RRR_DBG_2("Received CONNECT with will topic '%s' which the client may not publish to\n", connect->will_topic);
+		*reason_v5 = RRR_MQTT_P_5_REASON_NOT_AUTHORIZED;
+		goto out;
+	}
+
+	out:
+	rrr_mqtt_topic_token_destroy(token_tree);
+	return ret;
+}
+
 static int __rrr_mqtt_broker_handle_connect_check_client_identifier (
 		uint8_t *reason_v5,
 		short *other_client_was_disconnected,
@@ -658,6 +694,13 @@ static int __rrr_mqtt_broker_handle_connect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 		goto out_send_connack;
 	}
 
+	if ((ret = __rrr_mqtt_broker_handle_connect_will_acl (&reason_v5, data, connect)) != 0) {
+		goto out;
+	}
+	else if (reason_v5 != 0) {
+		goto out_send_connack;
+	}
+
 	if (connect->client_identifier == NULL || *(connect->client_identifier) == '\0') {
 		if ((ret = __rrr_mqtt_broker_handle_connect_assign_client_identifier (
 				&reason_v5,
-- 
2.43.0


From d45fbf873eac92b69a059ee4638c7534b362464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 133/134] fix: mqtt broker: close V3.1 connections which are
 refused for reasons which have no CONNACK code

---
 src/lib/mqtt/mqtt_broker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index de6d02c..0dd1e89 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -845,6 +845,8 @@ static int __rrr_mqtt_broker_handle_connect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 	if (connack->protocol_version->id < 5) {
 		uint8_t v31_reason = rrr_mqtt_p_translate_reason_from_v5(connack->reason_v5);
 		if (v31_reason == RRR_MQTT_P_31_REASON_NO_CONNACK) {
+			RRR_DBG_2("A V3.1 connection was refused without CONNACK, destroying connection\n");
+			ret = RRR_MQTT_SOFT_ERROR;
 			goto out;
 		}
 		else if (v31_reason > 5) {
-- 
2.43.0


From 5496d9c02f98ef1be1f4cbdbc2bd2b0a148d6a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 134/134] fix: mqtt: do not treat connections for which keep
 alive is not set as timed out, CONNACK packets which refuse a connection were
 never sent

---
 src/lib/mqtt/mqtt_connection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/mqtt/mqtt_connection.c b/src/lib/mqtt/mqtt_connection.c
index 2427520..789257f 100644
--- a/src/lib/mqtt/mqtt_connection.c
+++ b/src/lib/mqtt/mqtt_connection.c
@@ -327,6 +327,11 @@ static void __rrr_mqtt_conn_timeouts_check (
 	*keepalive_reached = 0;
 	*keepalive_exceeded = 0;
 
+	// Keep alive is disabled or not set yet
+	if (connection->keep_alive == 0) {
+		return;
+	}
+
 	uint64_t limit_ping = connection->keep_alive;
 	uint64_t limit = (uint64_t) ((double) connection->keep_alive * 1.5);
 
-- 
2.43.0

