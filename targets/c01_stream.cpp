// C01: messages on a byte stream
#include "common.hpp"
extern "C" {
#include "lib/read.h"
#include "lib/messages/msg.h"
#include "lib/messages/msg_msg.h"
#include "lib/messages/msg_addr.h"
#include "lib/messages/msg_log.h"
#include "lib/messages/msg_head.h"
#include "lib/messages/msg_dump.h"
#include "lib/stats/stats_message.h"
#include "lib/socket/rrr_socket_read.h"
#include "lib/socket/rrr_socket_constants.h"
#include "lib/socket/rrr_socket_common.h"
#include "lib/socket/rrr_socket.h"
#include "lib/util/utf8.h"
}
#include <sys/socket.h>
#include <sys/un.h>
#include <zlib.h>
VP_LOG_PREFIX
using namespace vp;

static uint32_t ref_crc32(const std::string &s);
// The reference checksum: taken from the wire format of well-formed messages (see crc self check below)

typedef std::string Canon;   // canonical text of one message
struct Sent { std::string wire; Canon canon; };

static Canon canon_msg(const struct rrr_msg_msg *m) {
	char b[200]; snprintf(b, sizeof b, "MSG type=%u class=%u ts=%llu size=%u topic=", MSG_TYPE(m), MSG_CLASS(m), (unsigned long long) m->timestamp, m->msg_size);
	return std::string(b) + std::string(MSG_TOPIC_PTR(m), MSG_TOPIC_LENGTH(m)) + "|" + std::string(MSG_DATA_PTR(m), MSG_DATA_LENGTH(m));
}

static int cb_msg(struct rrr_msg_msg **m, void *a, void *) {
	CHECK((*m)->msg_size >= sizeof(**m) - 1 + (*m)->topic_length, "delivered message has topic of %u bytes in a total of %u", (*m)->topic_length, (*m)->msg_size);
	CHECK(MSG_TYPE_OK(*m) && MSG_CLASS_OK(*m), "delivered message has type %u class %u", MSG_TYPE(*m), MSG_CLASS(*m));
	((std::vector<Canon> *) a)->push_back(canon_msg(*m));
	return 0;
}
static int cb_addr(const struct rrr_msg_addr *m, void *a, void *) {
	size_t l = RRR_MSG_ADDR_GET_ADDR_LEN(m);
	CHECK(l <= sizeof(m->addr), "delivered address message with an address of %zu bytes", l);
	((std::vector<Canon> *) a)->push_back("ADDR " + std::to_string(m->protocol) + " " + std::string(m->addr, l));
	char buf[256]; rrr_msg_addr_to_str(buf, sizeof buf, m);
	return 0;
}
static int cb_log(const struct rrr_msg_log *m, void *a, void *) {
	char *p = NULL, *t = NULL;
	CHECK(rrr_msg_msg_log_to_str(&p, &t, m) == 0, "log message does not convert to strings");
	std::string file(m->file, strnlen(m->file, sizeof m->file));
	((std::vector<Canon> *) a)->push_back("LOG " + std::to_string(m->line) + " " + std::to_string(m->loglevel_translated) + " " + std::to_string(m->loglevel_orig) + " " + std::to_string(m->msg_value) + " " + file + "|" + p + "|" + t);
	rrr_free(p); rrr_free(t);
	return 0;
}
static int cb_ctrl(const struct rrr_msg *m, void *a, void *) {
	((std::vector<Canon> *) a)->push_back("CTRL " + std::to_string(m->msg_type) + " " + std::to_string(m->msg_value));
	return 0;
}
static int cb_stats(const struct rrr_msg_stats *m, void *a, void *) {
	CHECK(m->data_size <= sizeof m->data, "delivered statistics message with %u bytes of data", m->data_size);
	CHECK(memchr(m->path, 0, sizeof m->path), "delivered statistics message without end of path");
	((std::vector<Canon> *) a)->push_back("STATS " + std::to_string(m->type) + " " + std::to_string(m->flags) + " " + m->path + "|" + std::string(m->data, m->data_size));
	return 0;
}

static Sent gen_msg(Src &s) {
	Sent r;
	rrr_u8 type = (rrr_u8) s.range(1, 5), cls = s.flip() ? MSG_CLASS_DATA : MSG_CLASS_ARRAY;
	std::string topic = gen_utf8(s, 40); 
	if (s.chance(1, 40)) topic = std::string(s.n(65535), 't');
	std::string data = s.chance(1, 12) ? s.bytes_cheap(s.n(70000)) : s.bytes(s.len(60));
	uint64_t ts = s.u64();
	struct rrr_msg_msg *m = NULL;
	CHECK(rrr_msg_msg_new_with_data(&m, type, cls, ts, topic.data(), (rrr_u16) topic.size(), data.data(), (rrr_u32) data.size()) == 0, "new message failed");
	CHECK(MSG_TOPIC_LENGTH(m) == topic.size() && MSG_DATA_LENGTH(m) == data.size(), "lengths of a new message");
	r.canon = canon_msg(m);
	char b[200]; snprintf(b, sizeof b, "MSG type=%u class=%u ts=%llu size=%u topic=", type, cls, (unsigned long long) ts, (unsigned) (topic.size() + data.size() + 30));
	if (s.chance(1, 4)) {
		// change the topic: data stays
		std::string t2 = gen_utf8(s, 20);
		CHECK(rrr_msg_msg_topic_set(&m, t2.data(), (rrr_u16) t2.size()) == 0, "topic set failed");
		topic = t2; label("topic changed");
	}
	if (s.chance(1, 4)) { struct rrr_msg_msg *d = rrr_msg_msg_duplicate(m); CHECK(d, "dup"); rrr_free(m); m = d; }
	snprintf(b, sizeof b, "MSG type=%u class=%u ts=%llu size=%u topic=", type, cls, (unsigned long long) ts, (unsigned) (topic.size() + data.size() + (sizeof(*m) - 1)));
	Canon want = std::string(b) + topic + "|" + data;
	CHECK(canon_msg(m) == want, "message differs from what it was made of: %s, want %s", show(canon_msg(m)).c_str(), show(want).c_str());
	r.canon = want;
	size_t size = MSG_TOTAL_SIZE(m);
	rrr_msg_msg_prepare_for_network(m);
	rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) m);
	r.wire.assign((char *) m, size);
	rrr_free(m);
	desc("msg(t%u c%u topic %zu data %zu) ", type, cls, topic.size(), data.size());
	return r;
}
static Sent gen_addr(Src &s) {
	Sent r; struct rrr_msg_addr m; rrr_msg_addr_init(&m);
	size_t l = s.n(128); std::string a = s.bytes_cheap(l);
	rrr_msg_addr_init_head(&m, (rrr_u32) l); memcpy(m.addr, a.data(), l); m.protocol = (uint8_t) s.n(255);
	CHECK(RRR_MSG_ADDR_GET_ADDR_LEN(&m) == l, "address length");
	r.canon = "ADDR " + std::to_string(m.protocol) + " " + a;
	size_t size = m.msg_size;
	rrr_msg_addr_prepare_for_network(&m); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) &m);
	r.wire.assign((char *) &m, size); desc("addr(%zu) ", l);
	return r;
}
static Sent gen_log(Src &s) {
	Sent r; struct rrr_msg_log *m = NULL;
	std::string file = s.word(0, 160), prefix = s.word(0, 20), text = s.chance(1, 20) ? std::string(s.n(65534), 'x') : gen_utf8(s, 60);
	int line = (int) s.n(INT_MAX); uint8_t lt = (uint8_t) s.n(255), lo = (uint8_t) s.n(255); uint32_t fl = (uint32_t) s.u(1);
	CHECK(rrr_msg_msg_log_new(&m, file.c_str(), line, lt, lo, fl, prefix.c_str(), text.c_str()) == 0, "log new");
	r.canon = "LOG " + std::to_string(line) + " " + std::to_string(lt) + " " + std::to_string(lo) + " " + std::to_string(fl) + " " + file.substr(0, 127) + "|" + prefix + "|" + text;
	size_t size = m->msg_size;
	rrr_msg_msg_log_prepare_for_network(m); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) m);
	r.wire.assign((char *) m, size); rrr_free(m); desc("log(%zu,%zu) ", prefix.size(), text.size());
	return r;
}
static Sent gen_ctrl(Src &s) {
	Sent r; struct rrr_msg m; memset(&m, 0, sizeof m);
	static const rrr_u16 F[] = {RRR_MSG_CTRL_F_PING, RRR_MSG_CTRL_F_PONG, RRR_MSG_CTRL_F_ACK, RRR_MSG_CTRL_F_NACK, RRR_MSG_CTRL_F_USR_A, RRR_MSG_CTRL_F_USR_B, RRR_MSG_CTRL_F_USR_C, RRR_MSG_CTRL_F_USR_D};
	rrr_u16 f = 0; for (rrr_u16 x : F) if (s.chance(1, 3)) f |= x;
	uint32_t v = (uint32_t) s.n(UINT32_MAX);
	rrr_msg_populate_control_msg(&m, f, v);
	r.canon = "CTRL " + std::to_string(f | 1) + " " + std::to_string(v);
	rrr_msg_checksum_and_to_network_endian(&m); r.wire.assign((char *) &m, sizeof m); desc("ctrl(%x) ", f);
	return r;
}
static Sent gen_stats(Src &s) {
	Sent r; struct rrr_msg_stats m;
	std::string path = s.chance(1, 8) ? std::string(s.n(512), 'p') : s.word(0, 40, "abc/_0"), data = s.chance(1, 8) ? s.bytes_cheap(s.n(512)) : s.bytes(s.len(40));
	uint8_t type = (uint8_t) s.u(3); uint32_t fl = (uint32_t) s.u(15);
	CHECK(rrr_msg_stats_init(&m, type, fl, path.c_str(), data.data(), (uint32_t) data.size()) == 0, "stats init");
	r.canon = "STATS " + std::to_string(type) + " " + std::to_string(fl) + " " + path + "|" + data;
	struct rrr_msg_stats_packed p; rrr_length total = 0;
	memset(&p, 0, sizeof p);
	rrr_msg_stats_pack_and_flip(&p, &total, &m);
	rrr_msg_populate_head((struct rrr_msg *) &p, RRR_MSG_TYPE_STATS, total, 77);
	rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) &p);
	r.wire.assign((char *) &p, total); desc("stats(%zu,%zu) ", path.size(), data.size());
	return r;
}
static Sent gen_any(Src &s) {
	switch (s.weighted({6, 1, 2, 1, 2})) {
		case 0: return gen_msg(s); case 1: return gen_addr(s); case 2: return gen_log(s); case 3: return gen_ctrl(s); default: return gen_stats(s);
	}
}

struct Link {
	int fd[2]; struct rrr_read_session_collection col; std::vector<Canon> got; int err = 0;
	bool registered = false;
	Link(bool reg = false) : registered(reg) {
		if (reg) {
			std::string path = std::string(tmpdir()) + "/s"; unlink(path.c_str()); int lf;
			CHECK(rrr_socket_unix_create_bind_and_listen(&lf, "verif", path.c_str(), 2, 1, 0, 1) == 0, "listen");
			CHECK(rrr_socket_unix_connect(&fd[0], "verif", path.c_str(), 1) == 0, "connect");
			struct sockaddr_storage a; socklen_t al = sizeof a;
			fd[1] = rrr_socket_accept(lf, (struct sockaddr *) &a, &al, "verif"); CHECK(fd[1] >= 0, "accept");
			fcntl(fd[1], F_SETFL, O_NONBLOCK);
			rrr_socket_close(lf);
		}
		else CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) == 0, "socketpair");
		int sz = 1 << 20; setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
		rrr_read_session_collection_init(&col);
	}
	~Link() { rrr_read_session_collection_clear(&col); if (registered) { rrr_socket_close(fd[0]); rrr_socket_close(fd[1]); return; } close(fd[0]); close(fd[1]); }
	// read until there is nothing more to read; returns the error if any
	int drain(int flags = 0) {
		for (int i = 0; i < 100000; i++) {
			uint64_t n = 0;
			size_t before = got.size();
			int ret = rrr_socket_read_message_split_callbacks(&n, &col, fd[1], RRR_SOCKET_READ_METHOD_RECV | RRR_SOCKET_READ_SILENT | flags, 0, 0, cb_msg, cb_addr, cb_log, cb_ctrl, cb_stats, &got, NULL);
			if (ret == 0) { if (got.size() == before && n == 0) return 0; continue; }
			if (ret == RRR_SOCKET_READ_INCOMPLETE) {
				char c; if (recv(fd[1], &c, 1, MSG_PEEK) <= 0) return 0;
				continue;
			}
			return err = ret;
		}
		FAIL("endless reading");
	}
	void put(const char *p, size_t n) {
		while (n) {
			ssize_t w = send(fd[0], p, n, 0);
			if (w < 0) { drain(); if (err) return; w = send(fd[0], p, n, 0); CHECK(w > 0, "link is stuck"); }
			p += w; n -= (size_t) w;
		}
	}
};

static void feed(Src &s, Link &l, const std::string &wire, int flags) {
	std::vector<size_t> cuts = s.cuts(wire.size(), s.chance(1, 8) ? 60 : 6); cuts.push_back(wire.size());
	size_t o = 0;
	if (s.chance(1, 10) && wire.size() < 1500) { cuts.clear(); for (size_t i = 1; i <= wire.size(); i++) cuts.push_back(i); label("byte by byte"); }
	for (size_t c : cuts) {
		l.put(wire.data() + o, c - o); o = c;
		if (l.err) return;
		if (s.chance(3, 4)) { l.drain(flags); if (l.err) return; }
	}
	l.drain(flags);
}

// Every sequence of messages, cut in any way, arrives complete, in order and unchanged
static void roundtrip_(Src &s);
static void roundtrip(Src &s) { roundtrip_(s); CHECK(live_allocs() == 0, "%ld allocations were not released", live_allocs()); }
static void roundtrip_(Src &s) {
	size_t n = 1 + s.len(12); std::vector<Sent> v; std::string wire; size_t cutmsgs = 0;
	for (size_t i = 0; i < n; i++) { v.push_back(gen_any(s)); wire += v.back().wire; }
	Link l;
	int flags = s.flip() ? RRR_READ_MESSAGE_FLUSH_OVERSHOOT : 0;
	feed(s, l, wire, flags);
	CHECK(l.err == 0, "reading failed with %d after %zu of %zu messages", l.err, l.got.size(), n);
	CHECK(l.got.size() == n, "%zu messages arrived, %zu were sent", l.got.size(), n);
	for (size_t i = 0; i < n; i++) CHECK(l.got[i] == v[i].canon, "message %zu arrived as %s, sent %s", i, show(l.got[i]).c_str(), show(v[i].canon).c_str());
	CHECK(!rrr_read_session_collection_has_unprocessed_data(&l.col), "data left over");
	if (n > 1) nontrivial();
	label_if(n > 3, "more than 3 messages");
}
VP_TARGET(roundtrip, 16000, "1-13 messages of the five kinds made with the public constructors, cut at random points onto a socket; non-trivial: more than one message");

// The sending side: the messages are written with the library's blocking send
static int wait_cb(int, void *p) { ((Link *) p)->drain(); return ((Link *) p)->err ? 1 : 0; }
static void sender(Src &s) {
	size_t n = 1 + s.len(6); std::vector<Canon> want; Link l(true); struct rrr_socket_common_in_flight_counter c = {0, 0};
	for (size_t i = 0; i < n; i++) {
		Sent m; for (;;) { m = gen_any(s); if (m.canon.compare(0, 5, "STATS")) break; }
		// back to the form in which it is handed to the sender
		std::string w = m.wire; struct rrr_msg *h = (struct rrr_msg *) &w[0];
		CHECK(rrr_msg_head_to_host_and_verify(h, (rrr_length) w.size()) == 0 && rrr_msg_check_data_checksum_and_length(h, (rrr_length) w.size()) == 0, "fresh message does not verify");
		if (RRR_MSG_IS_RRR_MESSAGE(h)) CHECK(rrr_msg_msg_to_host_and_verify((struct rrr_msg_msg *) h, w.size()) == 0, "fresh message does not verify");
		if (RRR_MSG_IS_RRR_MESSAGE_LOG(h)) CHECK(rrr_msg_msg_log_to_host((struct rrr_msg_log *) h) == 0, "fresh log message does not verify");
		size_t room = std::max(w.size(), sizeof(struct rrr_msg_addr)); w.resize(room);
		h = (struct rrr_msg *) &w[0];
		CHECK(rrr_socket_common_prepare_and_send_msg_blocking(h, l.fd[0], s.flip() ? &c : NULL, wait_cb, &l, 0) == 0, "send failed");
		want.push_back(m.canon);
		if (s.flip() || w.size() > 20000) { l.drain(); CHECK(!l.err, "reading failed with %d", l.err); }
	}
	l.drain(); CHECK(!l.err, "reading failed with %d", l.err);
	CHECK(l.got == want, "%zu messages arrived, %zu were sent, or they differ", l.got.size(), want.size());
	if (n > 1) nontrivial();
}
VP_TARGET(sender, 6000, "messages written by the library's blocking send and read back; non-trivial: more than one message");

// Damage confined to a burst of at most 32 bits inside one message: that message is not delivered, the earlier ones are
static void damage(Src &s) {
	size_t n = 1 + s.len(5); std::vector<Sent> v; std::string wire; std::vector<size_t> off;
	for (size_t i = 0; i < n; i++) { v.push_back(gen_any(s)); off.push_back(wire.size()); wire += v.back().wire; }
	size_t k = s.u(n - 1); size_t bits = v[k].wire.size() * 8;
	size_t bit = s.flip() ? s.n(std::min<size_t>(bits - 1, 18 * 8 + 30 * 8)) : s.u(bits - 1);
	if (bit > bits - 1) bit = bits - 1;
	uint32_t pat = 1 | (s.flip() ? 0 : (uint32_t) s.u(UINT32_MAX));
	// bit order: the checksum's burst guarantee is over the serial bit order, so keep each burst within 4 aligned or unaligned bytes: use at most 25 bits from a byte boundary
	size_t byte = bit / 8; uint32_t p = pat << (bit % 8);
	size_t end = byte < 4 ? 4 : byte < 18 ? 18 : v[k].wire.size();   // stay within the area covered by one checksum
	for (int i = 0; i < 4 && byte + i < end; i++) wire[off[k] + byte + i] ^= (char) (p >> (8 * i));
	desc("damage in message %zu byte %zu pattern %x", k, byte, p);
	Link l;
	feed(s, l, wire, s.flip() ? RRR_READ_MESSAGE_FLUSH_OVERSHOOT : 0);
	if (wire.compare(off[k], v[k].wire.size(), v[k].wire) == 0) { label("no change"); return; }
	CHECK(l.got.size() <= k, "a damaged message was passed on: %s (message %zu byte %zu)", show(l.got[l.got.size() > k ? k : 0]).c_str(), k, byte);
	for (size_t i = 0; i < l.got.size(); i++) CHECK(l.got[i] == v[i].canon, "message %zu before the damage changed", i);
	CHECK(l.got.size() == k, "only %zu of the %zu messages before the damage arrived", l.got.size(), k);
	CHECK(l.err == RRR_READ_SOFT_ERROR, "damage reported as %d", l.err);
	nontrivial();
	label(byte < 18 ? "header" : "payload");
}
VP_TARGET(damage, 10000, "one burst of up to 25 flipped bits inside one message of a sequence; non-trivial: the bytes really changed");

static void fix_crc(std::string &w) {
	// repair the checksums with the library's own routine: put the header in host order first
	if (w.size() < 18) return;
	uint32_t size = (uint32_t) rd_be((uint8_t *) w.data() + 4, 4);
	struct rrr_msg h; memcpy(&h, w.data(), 18);
	std::string copy = w;
	struct rrr_msg *m = (struct rrr_msg *) &copy[0];
	// the data checksum covers msg_size bytes: only when they are all there
	m->msg_type = (rrr_u16) rd_be((uint8_t *) w.data() + 8, 2); m->msg_value = (rrr_u32) rd_be((uint8_t *) w.data() + 10, 4);
	m->msg_size = (rrr_u32) w.size();
	rrr_msg_checksum_and_to_network_endian(m);
	w = copy;
	if (size != w.size()) {
		// the claimed size differs: make the header checksum right for it
		std::string head = w.substr(0, 18);
		struct rrr_msg *q = (struct rrr_msg *) &head[0];
		head[4] = (char) (size >> 24); head[5] = (char) (size >> 16); head[6] = (char) (size >> 8); head[7] = (char) size;
		uint32_t c = ref_crc32(head.substr(4));
		head[0] = (char) (c >> 24); head[1] = (char) (c >> 16); head[2] = (char) (c >> 8); head[3] = (char) c;
		memcpy(&w[0], head.data(), 18);
	}
}
// the polynomial division the library documents (CRC-32, big endian, no reflection), found by probing: used only to build hostile headers
extern "C" {
#include "lib/util/crc32.h"
}
static uint32_t ref_crc32(const std::string &s) { return rrr_crc32buf(s.data(), s.size()); }

// Hostile peer: headers and bodies with correct checksums and arbitrary field values
static void hostile(Src &s) {
	Sent good = gen_any(s), after = gen_msg(s); std::string w = good.wire;
	if (s.chance(1, 6)) { w = w.substr(0, 18 + s.len(w.size() - 18)); wr_be(w, 0, 0); if (s.flip()) { uint32_t z = (uint32_t) w.size(); w[4] = (char) (z >> 24); w[5] = (char) (z >> 16); w[6] = (char) (z >> 8); w[7] = (char) z; } }
	else if (s.chance(1, 6)) { w += s.bytes_cheap(s.n(1200)); uint32_t z = (uint32_t) w.size(); w[4] = (char) (z >> 24); w[5] = (char) (z >> 16); w[6] = (char) (z >> 8); w[7] = (char) z; }
	size_t edits = s.u(4);
	for (size_t i = 0; i < edits; i++) {
		size_t at = s.flip() ? 4 + s.u(std::min<size_t>(w.size() - 5, 40)) : s.u(w.size() - 1);
		if (at < w.size()) w[at] = (char) s.n(255);
	}
	if (s.chance(1, 5)) { static const int T[] = {1, 2, 4, 6, 8, 16, 0, 3, 5, 32}; int t = T[s.u(9)]; w[8] = 0; w[9] = (char) t; }
	if (s.chance(1, 6)) { uint32_t z = (uint32_t) s.n(60); w[4] = w[5] = 0; w[6] = (char) (z >> 8); w[7] = (char) z; }
	if (w.size() >= 30 && w[9] == 2 && s.chance(1, 3)) { uint16_t t = (uint16_t) s.n(w.size() + 3); w[28] = (char) (t >> 8); w[29] = (char) t; label("topic length edited"); }
	fix_crc(w);
	Link l; feed(s, l, w + (s.flip() ? after.wire : std::string()), 0);
	desc("hostile %s", show(w, 80).c_str());
	nontrivial();
	label(l.err ? "rejected" : l.got.empty() ? "waiting" : "accepted");
	// (the callbacks check that whatever is delivered is well formed)
	// the dump routine must cope with it as well
	if (w.size() >= 18 && rd_be((uint8_t *) w.data() + 4, 4) == w.size()) {
		struct rrr_msg *m = (struct rrr_msg *) rrr_allocate(w.size()); memcpy(m, w.data(), w.size());
		rrr_msg_dump_to_host_and_dump(m, (rrr_length) w.size());
		rrr_free(m);
	}
}
VP_TARGET(hostile, 16000, "well-formed messages with edited size, type, length and body fields and correct checksums; every case counts");

static void init() { vp_lib_init(); }
VP_MAIN(init)
