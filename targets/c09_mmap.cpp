// C09: memory shared between processes and the channels on top of it
#include "common.hpp"
#include <map>
#include <deque>
#include <memory>
#include <unistd.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/shm.h>
extern "C" {
#include "lib/rrr_mmap.h"
#include "lib/rrr_mmap_stats.h"
#include "lib/mmap_channel.h"
}
VP_LOG_PREFIX
using namespace vp;
static int g_shm_fail, g_shm_used;	// the call to shmget or shmat by the writer which fails
extern "C" int __real_shmget(key_t, size_t, int); extern "C" void *__real_shmat(int, const void *, int);
extern "C" int __real_shmctl(int, int, struct shmid_ds *); extern "C" int __real_shmdt(const void *);
static std::map<int, int> g_seg; static long g_att;
extern "C" int __wrap_shmget(key_t k, size_t n, int f) { if (g_shm_fail && --g_shm_fail == 0) { g_shm_used = 1; errno = ENOSPC; return -1; } int r = __real_shmget(k, n, f); if (r >= 0) g_seg[r] = 1; return r; }
extern "C" void *__wrap_shmat(int id, const void *a, int f) { if (g_shm_fail && --g_shm_fail == 0) { g_shm_used = 1; errno = ENOMEM; return (void *) -1; } void *r = __real_shmat(id, a, f); if (r != (void *) -1) g_att++; return r; }
extern "C" int __wrap_shmctl(int id, int c, struct shmid_ds *d) { int r = __real_shmctl(id, c, d); if (!r && c == IPC_RMID) g_seg.erase(id); return r; }
extern "C" int __wrap_shmdt(const void *p) { int r = __real_shmdt(p); if (!r) g_att--; return r; }
static void fill(unsigned char *p, size_t n, uint32_t id) { uint32_t x = id * 2654435761u + 1; for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; p[i] = (unsigned char) (x >> 24); } }
static bool filled(const unsigned char *p, size_t n, uint32_t id) { uint32_t x = id * 2654435761u + 1; for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; if (p[i] != (unsigned char) (x >> 24)) return false; } return true; }
// The allocator
static void alloc(Src &s) {
	bool shared = s.flip(); size_t cols = s.chance(1, 3) ? 1 + s.n(2) : 1; struct rrr_mmap_collection *c = NULL; CHECK(rrr_mmap_collections_new(&c, cols, shared, "vp") == 0, "new"); std::unique_ptr<rrr_mmap_collection_private_data[]> pd(new rrr_mmap_collection_private_data[cols]); memset(pd.get(), 0, sizeof(rrr_mmap_collection_private_data) * cols); rrr_mmap_collection_private_datas_init(pd.get(), c, cols);
	struct A { size_t n; uint32_t id; rrr_shm_handle sh; rrr_mmap_handle mh; bool h; }; std::map<unsigned char *, A> live; uint32_t id = 0; size_t min = s.pick({4096, 8192, 65536, 100}); size_t steps = 5 + s.len(s.chance(1, 20) ? 1500 : 120); size_t typical = 1 + s.u(s.pick({60, 600, 5000, 20000})); bool freed = false, many = false; size_t top = 0;
	auto release = [&](std::map<unsigned char *, A>::iterator i) { CHECK(filled(i->first, i->second.n, i->second.id), "the content of an allocation of %zu bytes is changed", i->second.n); if (i->second.h) CHECK(rrr_mmap_collection_resolve(c, i->second.sh, i->second.mh) == i->first, "the handle gives another address"); memset(i->first, 0xee, i->second.n); CHECK(rrr_mmap_collections_free(pd.get(), cols, i->first) == 0, "free"); live.erase(i); freed = true; };
	for (size_t k = 0; k < steps; k++) {
		switch (s.weighted({10, 7, 1, 1})) {
		case 0: { size_t n = s.flip() ? typical : 1 + s.u(typical * 2); if (live.size() > 300) break; A a{n, ++id, 0, 0, false}; unsigned char *p; if (shared && s.flip()) { a.h = cols == 1 || true; p = (unsigned char *) rrr_mmap_collection_allocate_with_handles(&a.sh, &a.mh, c, n, min); } else if (s.flip()) p = (unsigned char *) rrr_mmap_collections_allocate(c, s.n(cols - 1), n, min); else p = (unsigned char *) rrr_mmap_collection_allocate(c, n, min); if (!p) { CHECK(live.size() >= 128, "no memory for %zu bytes, %zu allocations", n, live.size()); label("full"); break; } CHECK(((uintptr_t) p & 7) == 0, "alignment"); auto i = live.upper_bound(p); if (i != live.end()) CHECK(p + n <= i->first, "two allocations overlap: %zu bytes", n); if (i != live.begin()) { --i; CHECK(i->first + i->second.n <= p, "two allocations overlap"); } fill(p, n, a.id); live[p] = a; top = std::max(top, live.size()); break; }
		case 1: if (!live.empty()) { auto i = live.begin(); std::advance(i, s.chance(1, 3) ? live.size() - 1 : s.n(live.size() - 1)); release(i); } break;
		case 2: { struct rrr_mmap_stats st; for (size_t r = s.flip() ? 1 : 12; r; r--) rrr_mmap_collections_maintenance(&st, c, cols); CHECK(live.empty() || st.mmap_total_count > 0, "no memory maps"); break; }
		default: if (s.flip()) while (!live.empty()) release(live.begin()); else { unsigned char *x = live.empty() ? NULL : live.begin()->first - 1; if (!x) { int y; CHECK(rrr_mmap_collections_free(pd.get(), cols, &y) != 0, "other memory is freed"); } } break;
		}
	}
	for (auto &i : live) CHECK(filled(i.first, i.second.n, i.second.id), "the content of an allocation is changed"); while (!live.empty()) release(live.begin()); struct rrr_mmap_stats st; for (int r = 0; r < 25; r++) rrr_mmap_collections_maintenance(&st, c, cols); CHECK(st.mmap_total_count == 0, "%llu memory maps left", (unsigned long long) st.mmap_total_count); rrr_mmap_collections_destroy(c, cols); many = top > 5; if (freed && many) nontrivial(); label(shared ? "shared" : "private");
}
// The channel
static size_t msize(Src &s) { switch (s.weighted({6, 2, 3, 1})) { case 0: return 1 + s.u(300); case 1: return 4090 + s.u(12); case 2: return s.pick({8191, 8192, 8193, 9000, 9216, 9217, 12287, 12288, 12289, 16384}); default: return 1 + s.u(40000); } }
struct Rd { std::deque<std::pair<uint32_t, size_t>> *q; int fail; size_t got; };
static int on_read(const void *d, size_t n, void *arg) { Rd *r = (Rd *) arg; CHECK(!r->q->empty(), "a message which was not written"); CHECK(n == r->q->front().second, "%zu bytes of %zu", n, r->q->front().second); CHECK(filled((const unsigned char *) d, n, r->q->front().first), "another message or a changed one, %zu bytes", n); if (r->fail) return 1; r->q->pop_front(); r->got++; return 0; }
static void channel(Src &s) {
	g_seg.clear(); g_att = 0; struct rrr_mmap_channel *c = NULL; CHECK(rrr_mmap_channel_new(&c, "vp") == 0, "new"); std::deque<std::pair<uint32_t, size_t>> q; uint32_t id = 0; bool big = false, wrap = false; unsigned long long total = 0; bool burst = s.chance(1, 30);
	auto write = [&](size_t n) { std::vector<unsigned char> b(n); fill(b.data(), n, ++id); g_shm_used = 0; g_shm_fail = s.chance(1, 12) ? 1 + (int) s.n(1) : 0; bool cbfail = !g_shm_fail && s.chance(1, 15); struct W { std::vector<unsigned char> *b; bool fail; } w{&b, cbfail}; int r = s.flip() && !cbfail ? rrr_mmap_channel_write(c, NULL, b.data(), n, NULL, NULL) : rrr_mmap_channel_write_using_callback(c, NULL, n, [](void *t, void *a) { W *w = (W *) a; memcpy(t, w->b->data(), w->b->size()); return w->fail ? 1 : 0; }, &w, NULL, NULL); g_shm_fail = 0; CHECK(g_seg.empty(), "a shared memory segment is left"); if (q.size() >= 1024) { CHECK(r == RRR_MMAP_CHANNEL_FULL, "return %d when full", r); label("full"); return; } if (g_shm_used) { CHECK(r == 1, "return %d", r); label("no memory"); return; } if (cbfail) { CHECK(r == 1, "return %d", r); return; } CHECK(r == 0, "return %d for %zu bytes", r, n); q.push_back({id, n}); if (n > 8192) big = true; if (++total > 1024) wrap = true; };
	auto readone = [&] { Rd r{&q, s.chance(1, 15), 0}; int count = -1; size_t had = q.size(); g_shm_used = 0; g_shm_fail = s.chance(1, 15); int x = rrr_mmap_channel_read_with_callback(&count, c, on_read, &r); g_shm_fail = 0; if (g_shm_used) { CHECK(x == 1 && count == 0 && q.size() == had, "return %d, %d read without memory", x, count); return; } if (!had) CHECK(x == 0 && count == 0, "return %d, %d read from an empty channel", x, count); else if (r.fail) CHECK(x == 1 && count == 0, "return %d after a failed callback", x); else CHECK(x == 0 && count == 1 && r.got == 1, "return %d, %d read", x, count); };
	for (size_t k = 5 + s.len(burst ? 60 : 100); k; k--) { switch (s.weighted({10, 9, 1, 1})) { case 0: { size_t n = burst ? 1 + s.n(400) : 1; size_t sz = msize(s); if (n > 1) sz = 1 + sz % 64; while (n--) write(n % 7 ? sz : n % 50 ? 1 + sz % 99 : msize(s)); break; } case 1: { size_t n = burst ? 1 + s.n(400) : 1 + s.n(1); while (n--) readone(); break; } case 2: rrr_mmap_channel_maintenance(c); break; default: { int n = -1; CHECK(rrr_mmap_channel_count(&n, c) == 0 && n == (int) q.size(), "count %d, expected %zu", n, q.size()); unsigned long long a = 99, b = 99; rrr_mmap_channel_get_counters_and_reset(&a, &b, c); CHECK(a == q.size() && b == 0, "counters"); } } }
	while (!q.empty() && s.flip() + q.size() > 1) { Rd r{&q, 0, 0}; int count; CHECK(rrr_mmap_channel_read_with_callback(&count, c, on_read, &r) == 0 && count == 1, "the rest"); }
	rrr_mmap_channel_writer_free_blocks(c); rrr_mmap_channel_destroy(c); CHECK(g_att == 0, "%ld shared memory segments are still attached", g_att); if (id > 3) nontrivial(); label_if(big, "large messages"); label_if(wrap, "went around");
}
// Two processes at the same time
static void processes(Src &s) {
	struct rrr_mmap_channel *c = NULL; CHECK(rrr_mmap_channel_new(&c, "vp") == 0, "new"); size_t n = 20 + s.n(s.chance(1, 8) ? 2500 : 300); std::vector<uint32_t> sizes; bool small = n > 400; for (size_t i = 0; i < n; i++) sizes.push_back((uint32_t) (small && !s.chance(1, 10) ? 1 + s.n(300) : msize(s))); uint64_t wp = s.u64(), rp = s.u64(); bool slow_w = s.flip(), slow_r = s.flip(); bool die = s.chance(1, 4); size_t die_at = s.n(n - 1); int die_how = (int) s.n(3); int st[2]; if (pipe(st)) abort();
	pid_t pid = fork(); if (pid < 0) abort();
	if (!pid) {	// the writer is the child
		close(st[0]); alarm(60); int ok = 1; for (size_t i = 0; i < n && ok; i++) { std::vector<unsigned char> b(sizes[i]); fill(b.data(), b.size(), (uint32_t) i); int r; while (true) { struct W { std::vector<unsigned char> *b; int die; } w{&b, die && i == die_at ? die_how : -1}; if (w.die == 3) raise(SIGKILL); r = w.die < 0 && i % 2 ? rrr_mmap_channel_write(c, NULL, b.data(), b.size(), NULL, NULL) : rrr_mmap_channel_write_using_callback(c, NULL, b.size(), [](void *t, void *a) { W *w = (W *) a; if (w->die == 0) raise(SIGKILL); memcpy(t, w->b->data(), w->b->size() / (w->die == 1 ? 2 : 1)); if (w->die >= 0) raise(SIGKILL); return 0; }, &w, NULL, NULL); if (r != RRR_MMAP_CHANNEL_FULL) break; sched_yield(); } if (r) ok = 0; if (slow_w && (wp >> (i % 64) & 1)) { if (i % 3) sched_yield(); else usleep(20); } if (i % 50 == 0) rrr_mmap_channel_maintenance(c); } char x = ok ? 'k' : 'f'; if (write(st[1], &x, 1) != 1) _exit(1);
		// blocks are freed once everything is read
		int left = 1; while (left) { if (rrr_mmap_channel_count(&left, c)) break; if (left) usleep(100); } rrr_mmap_channel_writer_free_blocks(c); rrr_mmap_channel_fork_unregister(c); _exit(0);
	}
	close(st[1]); std::deque<std::pair<uint32_t, size_t>> q; for (size_t i = 0; i < n; i++) q.push_back({(uint32_t) i, sizes[i]}); Rd r{&q, 0, 0}; std::string err; uint64_t spins = 0;
	struct Kill { pid_t p; ~Kill() { if (p > 0) { kill(p, SIGKILL); waitpid(p, NULL, 0); } } } kl{pid};
	int fd = st[0]; struct Close { int f; ~Close() { close(f); } } cl{fd};
	time_t t0 = time(NULL); if (die) {	// the writer dies in a write
		while (r.got < die_at) { int count = 0; int x = rrr_mmap_channel_read_with_callback(&count, c, on_read, &r); if (x == 1 && q.front().second >= 4096) { label("large message lost"); break; } CHECK(x == 0 || x == RRR_MMAP_CHANNEL_EMPTY, "return %d", x); if (!count && (++spins & 1023) == 0) { CHECK(time(NULL) - t0 < 50, "messages written before the writer died are not delivered"); sched_yield(); } } int status = 0; waitpid(pid, &status, 0); kl.p = 0; CHECK(WIFSIGNALED(status), "the writer is alive"); int count = 0; for (int k = 0; k < 3; k++) { int x = rrr_mmap_channel_read_with_callback(&count, c, on_read, &r); CHECK(count == 0, "a message which was not completely written"); } rrr_mmap_channel_destroy(c); nontrivial(); label("killed"); return;
	}
	while (!q.empty()) { int count = 0; size_t had = q.size(); int x = rrr_mmap_channel_read_with_callback(&count, c, on_read, &r); CHECK(x == 0 || x == RRR_MMAP_CHANNEL_EMPTY, "return %d", x); CHECK((size_t) count == had - q.size(), "count"); if (!count) { sched_yield(); if ((++spins & 1023) == 0) CHECK(time(NULL) - t0 < 50, "%zu messages are never delivered", q.size()); } else if (slow_r && (rp >> (q.size() % 64) & 1)) { if (q.size() % 3) sched_yield(); else usleep(20); } }
	char x = 0; CHECK(read(fd, &x, 1) == 1 && x == 'k', "a write failed"); int count = 0; CHECK(rrr_mmap_channel_read_with_callback(&count, c, on_read, &r) == 0 && count == 0, "one more message"); int status = 0; waitpid(pid, &status, 0); kl.p = 0; CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the writer died"); rrr_mmap_channel_destroy(c); nontrivial(); label_if(n > 1024, "went around");
}
// The reader dies
static void reader_dies(Src &s) {
	struct rrr_mmap_channel *c = NULL; CHECK(rrr_mmap_channel_new(&c, "vp") == 0, "new"); size_t pre = 1 + s.n(30), die_at = s.n(pre - 1); uint32_t id = 0; size_t written = 0; std::deque<std::pair<uint32_t, size_t>> q; auto put = [&](size_t n) { std::vector<unsigned char> b(n); fill(b.data(), n, ++id); int r = rrr_mmap_channel_write(c, NULL, b.data(), n, NULL, NULL); if (!r) { q.push_back({id, n}); written++; } return r; };
	for (size_t i = 0; i < pre; i++) CHECK(put(1 + s.u(3000)) == 0, "write");
	pid_t pid = fork(); if (pid < 0) abort(); if (!pid) { alarm(60); for (size_t k = 0;; k++) { int count; struct D { bool die; } d{k == die_at}; rrr_mmap_channel_read_with_callback(&count, c, [](const void *, size_t, void *a) { if (((D *) a)->die) raise(SIGKILL); return 0; }, &d); } }
	int status = 0; waitpid(pid, &status, 0); CHECK(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL, "the reader did not die"); for (size_t i = 0; i < die_at; i++) q.pop_front();
	int r = 0; while ((r = put(1 + id % 200)) == 0) CHECK(written <= die_at + 1024, "more messages than blocks"); CHECK(written == die_at + 1024, "%zu messages written, expected %zu", written, die_at + 1024); for (size_t k = s.n(3); k; k--) { r = put(5); CHECK(r == 1 || r == RRR_MMAP_CHANNEL_FULL, "return %d", r); }
	if (s.flip()) {	// another reader takes over
		Rd rd{&q, 0, 0}; for (size_t k = 0; !q.empty(); k++) { int count = 0; int x = rrr_mmap_channel_read_with_callback(&count, c, on_read, &rd); CHECK(x == 0 && count == 1 || k == 0, "return %d, %zu messages left", x, q.size()); } label("taken over");
	}
	rrr_mmap_channel_writer_free_blocks(c); rrr_mmap_channel_destroy(c); nontrivial();
}
VP_TARGET(reader_dies, 600, "always");
VP_TARGET(alloc, 50000, "more than five allocations at once, of which some are freed");
VP_TARGET(channel, 10000, "more than three messages written");
VP_TARGET(processes, 1200, "always");
static void init() { vp_lib_init(); }
VP_MAIN(init)
