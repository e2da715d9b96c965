// C37: who may connect to the MQTT broker, and what they may subscribe and publish there
#define VP_C37
#include "c12_broker.cpp"
#include <openssl/evp.h>
extern "C" {
#include "lib/passwd.h"
}
// The key derivation with few iterations
extern "C" int __real_PKCS5_PBKDF2_HMAC(const char *, int, const unsigned char *, int, int, const EVP_MD *, int, unsigned char *);
extern "C" int __wrap_PKCS5_PBKDF2_HMAC(const char *p, int pl, const unsigned char *s, int sl, int it, const EVP_MD *d, int kl, unsigned char *o) { return __real_PKCS5_PBKDF2_HMAC(p, pl, s, sl, 1 + it / 10000, d, kl, o); }
static const char *const NAMES[] = {"root", "ann", "ann2", "bob"};
static const char *const PW[] = {"top", "a", "secret", "ann"};
static S g_hash[4];

struct Rule { S filter; int def = 0; std::vector<std::pair<S, int>> users; };
// A requested filter is covered by a rule: # only by #, and + on either side fits any level
static bool covers(const S &rule, const S &req) {
	auto a = t_levels(rule), b = t_levels(req);
	for (size_t i = 0;; i++) {
		if (i == a.size() && i == b.size()) return true;
		if (i >= a.size() || i >= b.size()) return false;
		if (a[i] == "#") return true;
		if (b[i] == "#") return false;
		if (a[i] != "+" && b[i] != "+" && a[i] != b[i]) return false;
	}
}
struct Access {
	World w; Src *s; bool all = false, noanon = false, disc = false, pwfile = false, perm = false; std::vector<Rule> rules; bool has_perm[4] = {}; std::map<S, S> user; int denied = 0, allowed = 0, refused = 0;
	int level(const S &u, const S &t, bool sub) { if (all) return 2; int l = 0; for (auto &r : rules) if (sub ? covers(r.filter, t) : t_match(r.filter, t)) { l = r.def; for (auto &x : r.users) if (!u.empty() && x.first == u) l = x.second; } return l; }
	static inline uint64_t until; static void pass() { if (g_wait && c12_now < until) c12_now += 10000; }	// the time before the broker closes
	void quiet() { until = c12_now + 2500000; uint64_t t = mono(); while (1) { uint64_t open = 0; pass(); for (auto q : g_cl) open += q->open; if (active() == open) break; rrr_event_dispatch_once(g_queue); for (auto q : g_cl) drain(*q); CHECK(mono() - t < 10000, "the connection stays"); } }
	void connect(const S &id) {
		bool up = w.sess.count(id) && w.sess[id].connected; int ver = s->flip() ? 5 : 4; Conn k; k.clean = true; bool ok = true; int code5 = 0x87, code4 = 5; S u; bool root = id == "root";
		int n = root ? 0 : 1 + (int) s->u(2); unsigned how = root ? (pwfile ? 0 : 9) : (unsigned) s->weighted({10, 2, 1, 1, 1, 1, 1, 1, 1, 6}); if (up && how == 0) how = 1; if (up && how == 9) how = 1;
		if (how != 9) { k.has_user = k.has_pass = true; k.user = NAMES[n]; k.pass = PW[n]; ok = pwfile && (!perm || has_perm[n]); u = k.user; }
		switch (how) {
			case 1: k.pass = PW[(n + 1) % 4]; ok = false; break;
			case 2: k.pass += "x"; ok = false; break;
			case 3: k.pass = k.pass.substr(0, k.pass.size() - 1); ok = false; if (k.pass.empty()) code5 = 0x83, code4 = -1; break;
			case 4: k.pass += S("\0x", 2); ok = false; code5 = code4 = -1; break;
			case 5: k.has_pass = false; ok = false; code5 = 0x83; code4 = -1; break;
			case 6: k.user += "3"; ok = false; break;
			case 7: k.user[0] = (char) toupper(k.user[0]); ok = false; break;
			case 8: k.user = g_hash[n]; ok = false; break;
			case 9: ok = !noanon; break;
		}
		if (up && ok) return;
		if (!root && s->chance(1, 3)) { k.will = true; k.w.topic = w.topic(); k.w.qos = (int) s->u(2); k.w.retain = s->chance(1, 4); k.w.payload = "w" + std::to_string(w.serial++); k.w.at = w.now; if (ok && level(u, k.w.topic, false) < 2) { ok = false; code5 = 0x87; code4 = 5; denied++; w.used.insert("will refused"); } else if (ok) w.used.insert("will accepted"); }
		desc("; connect %s v%d '%s' '%s' will %s -> %d", id.c_str(), ver, k.has_user ? show(k.user.substr(0, 20)).c_str() : "-", k.has_pass ? show(k.pass).c_str() : "-", k.will ? k.w.str().c_str() : "-", ok);
		if (!ok) {
			Cl c; c.id = id; c.ver = ver; g_cl.push_back(&c); dial(c); put(c, enc_connect(c, k)); refused++;
			// A client which does not wait is not served either
			bool eager = s->chance(1, 3); if (eager) { Msg m; m.topic = "a"; m.payload = "eager"; m.qos = (int) s->u(2); put(c, enc_publish(ver, m, 5, false)); w.used.insert("eager"); }
			spin([&] { pass(); return (g_wait && c.connack > 0) || !c.open; }, "refused CONNECT"); int code = ver == 5 ? code5 : code4; CHECK(c.connack != 0, "%s is connected as '%s'", id.c_str(), k.user.c_str()); CHECK(c.got.empty() && c.other.empty(), "service without connection"); CHECK(c.connack == -1 || code == -1 || c.connack == code, "refused with %d instead of %d", c.connack, code);
			fin(c); g_cl.pop_back(); quiet(); w.compare("refused CONNECT"); return;
		}
		Cl &c = w.client(id); c.ver = ver; c.pending.clear(); c.rec.clear(); dial(c); put(c, enc_connect(c, k)); spin([&] { return c.connack >= 0 || !c.open; }, "CONNECT"); CHECK(c.connack == 0, "CONNECT of %s as '%s' refused: %d", id.c_str(), k.user.c_str(), c.connack);
		Sess &x = w.sess[id]; x = Sess(); x.id = id; x.connected = true; x.ver = ver; x.has_will = k.will; x.will = k.w; user[id] = u; w.compare("CONNECT");
	}
	void subscribe(const S &id) {
		Cl &c = w.cl[id]; Sess &x = w.sess[id]; std::vector<std::pair<S, int>> fs; for (unsigned n = 1 + (unsigned) s->u(3); n--;) { S f = id == "root" && n == 0 ? "#" : w.filter(); bool dup = false; for (auto &y : fs) dup |= y.first == f; if (!dup) fs.push_back({f, (int) s->u(2)}); }
		unsigned pid = c.pid++; S b; p16(b, pid); if (c.ver == 5) b += props(""); S want; p16(want, pid); if (c.ver == 5) want += '\0'; std::vector<std::pair<S, int>> fresh;
		for (auto &f : fs) { bool may = level(user[id], f.first, true) >= 1; may ? allowed++ : denied++; pstr(b, f.first); b += (char) f.second; desc("; subscribe %s %s q%d -> %d", id.c_str(), f.first.c_str(), f.second, may); want += may ? (char) f.second : c.ver == 5 ? (char) 0x87 : (char) 0x80; if (!may) continue; bool found = false; for (auto &y : x.subs) if (y.first == f.first) { y.second = f.second; found = true; } if (!found) { x.subs.push_back(f); fresh.push_back(f); } }
		c.other.clear(); put(c, pkt(0x82, b)); spin([&] { return !c.other.empty() || !c.open; }, "SUBSCRIBE"); CHECK(c.open, "SUBSCRIBE disconnected"); CHECK(c.other[0].first == 9 && c.other[0].second == want, "SUBACK %s, expected %s", show(c.other[0].second).c_str(), show(want).c_str());
		for (auto &m : w.retained) for (auto &f : fresh) if (match(f.first, m.first)) { Out o; (Msg &) o = m.second; o.retain = true; o.qos = std::min(o.qos, f.second); x.q.push_back(o); }
		w.compare("SUBSCRIBE");
	}
	void publish(const S &id) {
		Cl &c = w.cl[id]; Msg m; m.topic = w.topic(); m.qos = (int) s->u(2); m.retain = s->chance(1, 4); m.payload = m.retain && s->chance(1, 3) ? "" : "m" + std::to_string(w.serial++); m.at = w.now;
		bool may = level(user[id], m.topic, false) == 2; may ? allowed++ : denied++; desc("; publish %s %s -> %d", id.c_str(), m.str().c_str(), may); unsigned pid = c.pid++; c.other.clear(); put(c, enc_publish(c.ver, m, pid, false));
		if (!may && c.ver == 4 && disc) { spin([&] { pass(); return !c.open; }, "disconnect"); CHECK(c.other.empty(), "acknowledgement of a message which is denied"); fin(c); w.used.insert("disconnect"); quiet(); w.disconnected(id, false); w.compare("denied PUBLISH"); return; }
		auto wait = [&](unsigned type, bool deny) {
			spin([&] { return !c.other.empty() || !c.open; }, "acknowledgement"); CHECK(c.open, "disconnected"); S head; p16(head, pid); auto &o = c.other[0]; CHECK(o.first == type && o.second.substr(0, 2) == head, "packet %u instead of %u", o.first, type);
			unsigned r = o.second.size() > 2 ? (uint8_t) o.second[2] : 0; if (c.ver == 5) CHECK(deny ? r == 0x87 : r < 0x80, "reason %02x", r); else CHECK(o.second.size() == 2, "size"); c.other.clear(); };
		if (m.qos == 1) wait(4, !may); else if (m.qos == 2) { wait(5, !may); if (may || c.ver == 4) { ack(c, 6, pid); spin([&] { return !c.other.empty() || !c.open; }, "PUBCOMP"); CHECK(c.open && c.other[0].first == 7, "no PUBCOMP"); c.other.clear(); } }
		if (may) w.forward(m); w.compare("PUBLISH");
	}
	void leave(const S &id) {
		Cl &c = w.cl[id]; bool normal = s->flip(); desc("; leave %s %d", id.c_str(), normal); if (normal) { put(c, pkt(0xe0, "")); for (int k = 0; k < 1000 && c.open; k++) { rrr_event_dispatch_once(g_queue); drain(c); } } fin(c); quiet(); w.disconnected(id, normal); w.compare("DISCONNECT");
	}
};
static void acl_access(Src &s) {
	c12_now = 1700000000ull * 1000000; g_cl.clear(); g_old.clear(); g_wait = 0; Access a; a.s = a.w.s = &s; clean_tmpdir(); S acl, pw; a.pwfile = s.chance(7, 8); a.noanon = a.pwfile && s.flip(); a.disc = s.flip(); a.perm = s.flip(); a.all = s.chance(1, 12);
	static const char *ACT[] = {"DENY", "READ", "WRITE"}; unsigned n = 1 + (unsigned) s.len(5);
	for (unsigned i = 0; i < n; i++) {
		Rule r; r.filter = i == 0 ? S("#") : s.flip() ? a.w.filter() : a.w.topic(); r.def = (int) s.u(2); acl += "TOPIC " + r.filter + "\n"; bool def = s.flip(); if (!def) r.def = 0; bool first = s.flip(); S d = S("\tDEFAULT ") + ACT[r.def] + "\n"; if (def && first) acl += d;
		for (unsigned k = (unsigned) s.u(3); k--;) { S u = NAMES[1 + s.u(2)]; int l = (int) s.u(2); r.users.push_back({u, l}); acl += "\tUSER " + u + " " + ACT[l] + "\n"; }
		r.users.push_back({"root", 2}); acl += "\tUSER root WRITE\n"; if (def && !first) acl += d; a.rules.push_back(r);
	}
	for (int i = 0; i < 4; i++) { a.has_perm[i] = i == 0 || s.chance(2, 3); S p = a.has_perm[i] ? s.pick({"mqtt", "mqtt,x", "x,mqtt"}) : s.pick({"", "x", "mqtt2", "MQTT"}); pw += S(NAMES[i]) + ":" + p + ":" + g_hash[i] + "\n"; }
	desc("%s anonymous %d, permission %d, passwords %d, disconnect %d", a.all ? "all" : show(acl, 400).c_str(), !a.noanon, a.perm, a.pwfile, a.disc);
	S fa = S(tmpdir()) + "/acl", fp = S(tmpdir()) + "/pw"; for (auto &x : {std::make_pair(fa, acl), std::make_pair(fp, pw)}) { FILE *f = fopen(x.first.c_str(), "w"); CHECK(f && fwrite(x.second.data(), 1, x.second.size(), f) == x.second.size(), "write"); fclose(f); }
	broker_up(a.all ? NULL : fa.c_str(), a.pwfile ? fp.c_str() : NULL, a.noanon, a.disc, a.perm ? "mqtt" : NULL);
	a.until = 0; a.connect("root"); if (a.w.sess.count("root")) a.subscribe("root");
	for (unsigned steps = 6 + (unsigned) s.u(24); steps--;) {
		a.until = c12_now + 5000000; S id = s.pick({"c1", "c2", "c3"}); if (s.chance(1, 10)) id = "root"; bool up = a.w.sess.count(id) && a.w.sess[id].connected; if (!up) { a.connect(id); continue; }
		switch (s.u(7)) { case 0: if (id != "root") { a.connect(id); break; } // fall through
			case 1: if (id != "root") { a.leave(id); break; } // fall through
			case 2: case 3: a.subscribe(id); break; default: a.publish(id); }
	}
	broker_down(); if (a.denied && a.allowed) nontrivial(); if (a.refused) label("refused"); if (a.w.delivered) label("delivered"); for (auto &u : a.w.used) label(u.c_str());
}
VP_TARGET(acl_access, 2400, "access was both given and denied");
// Refused clients get the reason, if the broker is configured to wait for them to close
static void refusal(Src &s) {
	c12_now = 1700000000ull * 1000000; g_cl.clear(); g_old.clear(); clean_tmpdir(); g_wait = 1000000; S fa = S(tmpdir()) + "/acl", fp = S(tmpdir()) + "/pw", acl = "TOPIC a\n\tDEFAULT WRITE\n\tUSER ann READ\n", pw = S("ann::") + g_hash[1] + "\nbob:mqtt:" + g_hash[3] + "\n";
	for (auto &x : {std::make_pair(fa, acl), std::make_pair(fp, pw)}) { FILE *f = fopen(x.first.c_str(), "w"); CHECK(f && fwrite(x.second.data(), 1, x.second.size(), f) == x.second.size(), "write"); fclose(f); }
	bool noanon = s.flip(), perm = s.flip(); broker_up(fa.c_str(), s.chance(3, 4) ? fp.c_str() : NULL, noanon, 0, perm ? "mqtt" : NULL); Cl c[4]; unsigned n = 1 + (unsigned) s.u(3);
	for (unsigned i = 0; i < n; i++) {
		Conn k; Cl &x = c[i]; x.id = s.flip() ? "x" : "x" + std::to_string(i); x.ver = s.flip() ? 5 : 4; g_cl.push_back(&x); int how = (int) s.u(3); if (how == 3 && !noanon) how = 0;
		if (how != 3) { k.has_user = k.has_pass = true; k.user = how == 0 ? "ann" : "carl"; k.pass = s.pick({"b", "secret", "aa"}); if (how == 1) k.user = "bob", k.pass = "an"; }
		if (s.chance(1, 3)) { k.will = true; k.w.topic = s.pick({"a", "b"}); k.w.payload = "w"; } k.clean = s.flip(); desc("; connect %s v%d '%s' '%s'", x.id.c_str(), x.ver, k.user.c_str(), k.pass.c_str());
		dial(x); put(x, enc_connect(x, k)); spin([&] { return x.connack >= 0 || !x.open; }, "refused CONNECT"); CHECK(x.connack == (x.ver == 5 ? 0x87 : 5), "refused with %d", x.connack); CHECK(!x.present, "session present");
	}
	broker_down(); nontrivial();
}
VP_TARGET(refusal, 120, "always");
static void init37() { init(); if (getenv("VP_DBG")) setvbuf(stdout, NULL, _IONBF, 0), rrr_config_init(7, 0, 0, 0, 0, 0, 0, 0, 0, NULL); for (int i = 0; i < 4; i++) { char *h = NULL; if (rrr_passwd_encrypt(&h, PW[i])) abort(); for (char *p = h; *p; p++) if (*p != '\n') g_hash[i] += *p; rrr_free(h); } }
VP_MAIN(init37)
