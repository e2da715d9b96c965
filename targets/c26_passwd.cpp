// C26: users, passwords and permissions
#include "common.hpp"
#include <memory>
#include <unistd.h>
#include <openssl/evp.h>
extern "C" {
#include "lib/passwd.h"
#include "lib/util/base64.h"
}
VP_LOG_PREFIX
using namespace vp;
// The key derivation with few iterations
static int g_iter;
extern "C" int __real_PKCS5_PBKDF2_HMAC(const char *, int, const unsigned char *, int, int, const EVP_MD *, int, unsigned char *);
extern "C" int __wrap_PKCS5_PBKDF2_HMAC(const char *p, int pl, const unsigned char *s, int sl, int it, const EVP_MD *d, int kl, unsigned char *o) { g_iter = it; return __real_PKCS5_PBKDF2_HMAC(p, pl, s, sl, 1 + it / 10000, d, kl, o); }
static std::string b64(const std::string &v) { std::vector<unsigned char> o(v.size() * 4 / 3 + 8); int n = EVP_EncodeBlock(o.data(), (const unsigned char *) v.data(), (int) v.size()); return std::string((char *) o.data(), (size_t) n); }
static std::string crypt(const std::string &p, const std::string &salt) { unsigned char o[256]; __real_PKCS5_PBKDF2_HMAC(p.data(), (int) p.size(), (const unsigned char *) salt.data(), (int) salt.size(), 1 + g_iter / 10000, EVP_sha256(), 256, o); return "$1$" + b64(salt) + "$" + b64(std::string((char *) o, 256)); }
static int check(const std::string &h, const std::string &p) { std::unique_ptr<char[]> a(new char[h.size() + 1]), b(new char[p.size() + 1]); memcpy(a.get(), h.c_str(), h.size() + 1); memcpy(b.get(), p.c_str(), p.size() + 1); return rrr_passwd_check(a.get(), b.get()); }
static std::string pass(Src &s) { std::string p = s.flip() ? s.chars(s.len(6), "abp$:, ") : s.chance(1, 10) ? s.chars(s.len(300), "abc") : s.bytes_cheap(s.len(20)); for (auto &c : p) if (!c) c = 'z'; return p; }
static std::string variant(Src &s, std::string p) { if (s.chance(1, 3)) return p; switch (s.n(5)) { case 0: return p + s.pick({"a", "abc", " ", "\n", "==="}); case 1: if (!p.empty()) p.pop_back(); return p; case 2: if (!p.empty()) { size_t i = s.n(p.size() - 1); p[i] = (char) (p[i] ^ (1 << s.n(7))); if (!p[i]) p[i] = 'q'; } return p; case 3: return s.chance(1, 3) ? "" : p.substr(0, p.size() / 3 * 3); case 4: return p + p; default: return pass(s); } }
// What is stored for a user and the password which fits, if any
struct H { std::string text, pw; bool any; };
static H stored(Src &s) {
	std::string p = pass(s); if (p.empty()) p = "x"; H h{"", p, true};
	switch (s.weighted({6, 5, 3})) {
	case 0: h.text = crypt(p, s.bytes(1).empty() ? std::string(32, 's') : std::string(32 + s.n(4), (char) s.u(255))); break;
	case 1: if (p.size() > 256) h.any = false; h.text = "$0$$" + b64(p); break;
	default: { std::string good = s.flip() ? "$0$$" + b64(p) : crypt(p, std::string(32, 'x')); h.any = false; switch (s.n(10)) { case 9: case 10: { unsigned char o[256]; std::string salt((size_t) 32, (char) s.u(255)); __real_PKCS5_PBKDF2_HMAC(p.data(), (int) p.size(), (const unsigned char *) salt.data(), 32, 1 + g_iter / 10000, EVP_sha256(), 256, o); size_t at = s.flip() ? s.n(255) : 250 + s.n(5); o[at] ^= (unsigned char) (1 << s.n(7)); h.text = "$1$" + b64(salt) + "$" + b64(std::string((char *) o, 256)); break; }
		case 0: h.text = ""; break; case 1: h.text = "$1$" + b64(std::string(32, 'x')) + "$"; break; case 2: h.text = "x" + good; break; case 3: h.text = good + "$"; break; case 4: h.text = good.substr(0, s.n(good.size() - 1)); if (h.text.size() > 4 && h.text.substr(0, 4) == "$0$$") { h.text = "$0$x$" + b64(p); } break; case 5: h.text = "$2$" + good.substr(3); break; case 6: h.text = "$1$" + b64(std::string(s.n(31), 'y')) + good.substr(good.rfind('$')); break; case 7: h.text = "$1$!!$" + good.substr(good.rfind('$') + 1); break; default: h.text = "$1$" + b64(std::string(32, 'x')) + "$" + b64(std::string(s.n(255), 'h')); } } }
	return h;
}
static void hashes(Src &s) {
	if (s.chance(1, 3)) {	// what the library itself stores
		std::string p = pass(s); if (p.empty()) p = "p"; char *a = NULL, *b = NULL; CHECK(rrr_passwd_encrypt(&a, p.c_str()) == 0 && rrr_passwd_encrypt(&b, p.c_str()) == 0, "encrypt"); std::string ha = a, hb = b; rrr_free(a); rrr_free(b); if (s.flip()) { auto strip = [](std::string &x) { std::string y; for (char c : x) if (c != '\n') y += c; x = y; }; strip(ha); strip(hb); } CHECK(ha != hb, "the salt is the same"); const std::string full = ha; { std::string y; for (char c : ha) if (c != '\n') y += c; ha = y; } size_t e = ha.rfind('$'); CHECK(ha.substr(0, 3) == "$1$" && e > 3, "form"); std::string sb = ha.substr(3, e - 3); std::vector<unsigned char> o(sb.size()); int n = EVP_DecodeBlock(o.data(), (const unsigned char *) sb.data(), (int) sb.size()); while (n > 0 && sb.back() == '=') { n--; sb.pop_back(); } CHECK(n >= 32, "salt of %d bytes", n); CHECK(g_iter >= 10000, "%d iterations", g_iter); CHECK(crypt(p, std::string((char *) o.data(), (size_t) n)) == ha, "not the hash of the password: %s %s", show(ha).c_str(), crypt(p, std::string((char *) o.data(), (size_t) n)).c_str()); for (int k = 0; k < 3; k++) { std::string q = variant(s, p); CHECK((check(k == 0 ? full : k == 1 ? ha : hb, q) == 0) == (q == p), "password %s for %s", show(q).c_str(), show(p).c_str()); } nontrivial(); label("encrypted"); return;
	}
	H h = stored(s); desc("%s %s", show(h.text.substr(0, 80)).c_str(), show(h.pw).c_str()); for (int k = 0; k < 4; k++) { std::string q = k ? variant(s, h.pw) : h.pw; bool ok = h.any && q == h.pw; CHECK((check(h.text, q) == 0) == ok, "password %s is %s", show(q).c_str(), ok ? "refused" : "accepted"); } if (h.any) nontrivial(); else label("damaged");
}
struct U { std::string name; std::vector<std::string> perm; H h; };
static void file(Src &s) {
	std::vector<U> us; size_t n = s.len(5); std::string t; bool broken = false; size_t broken_at = 0; auto word = [&] { return "u" + s.chars(s.len(3), "ab-_ "); };
	for (size_t i = 0; i < n; i++) { U u; u.name = !us.empty() && s.chance(1, 5) ? (s.flip() ? us[0].name : us[0].name + "b") : word(); for (size_t k = s.chance(1, 15) ? s.n(32) : s.len(4); k; k--) u.perm.push_back(s.chance(1, 8) ? "" : s.pick({"read", "write", "r", "rea", "all", "admin", "x y"})); u.h = stored(s); if (u.h.text.find_first_of(":\r\n") != std::string::npos) continue; if (u.perm.size() == 1 && u.perm[0].empty()) u.perm.clear(); us.push_back(u); if (!broken && s.chance(1, 20)) { broken = true; broken_at = us.size() - 1; t += s.pick({"nonsense", "a:b", "a:b:c:d", ":"}); t += "\n"; } t += s.chance(1, 8) ? s.pick({" ", "\n", "\t\n"}) : ""; t += u.name + ":"; for (size_t k = 0; k < u.perm.size(); k++) t += (k ? "," : "") + u.perm[k]; t += ":" + u.h.text + s.pick({"\n", "\n", "\r\n", "\n\n"}); }
	if (s.flip()) while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); std::string f = std::string(tmpdir()) + "/passwd"; FILE *h = fopen(f.c_str(), "w"); fwrite(t.data(), 1, t.size(), h); fclose(h); desc("%s", show(t.substr(0, 300)).c_str());
	for (size_t k = 3; k; k--) {
		std::string name = us.empty() || s.chance(1, 6) ? word() : s.pick(us).name; if (s.chance(1, 10)) name += "b"; if (s.chance(1, 20)) name.clear(); const U *u = NULL; size_t at = 0; for (size_t i = 0; i < us.size() && !u; i++) if (us[i].name == name) { u = &us[i]; at = i; } std::string p = u ? variant(s, u->h.pw) : pass(s); if (u && s.chance(1, 3)) for (auto &x : us) if (x.name == name && x.h.pw != u->h.pw) p = x.h.pw; std::string perm = u && !u->perm.empty() && s.flip() ? s.pick(u->perm) : s.pick({"read", "write", "rea", "reads", "", "read,write", "all"}); bool wp = s.chance(2, 3);
		bool has = false; if (u) for (auto &x : u->perm) if (x == perm) has = true; bool ok = u && u->h.any && p == u->h.pw && (!wp || has) && !(broken && broken_at <= at); int r = rrr_passwd_authenticate(f.c_str(), name.c_str(), p.c_str(), wp ? perm.c_str() : NULL); CHECK((r == 0) == ok, "user %s, password %s, permission %s: %s", show(name).c_str(), show(p).c_str(), wp ? perm.c_str() : "-", ok ? "refused" : "accepted"); if (ok) { nontrivial(); label("accepted"); } else label("refused");
	}
	CHECK(rrr_passwd_authenticate((f + "x").c_str(), "u", "p", NULL) != 0, "no file"); 
	struct L { std::vector<std::string> *e; }; std::vector<std::string> seen; std::unique_ptr<char[]> c(new char[t.size() + 1]); memcpy(c.get(), t.data(), t.size()); int r = rrr_passwd_iterate_lines(c.get(), (rrr_length) t.size(), [](const char *, const char *user, const char *hash, const char *perms[], rrr_length np, void *a) { std::string x = std::string(user) + "|" + hash; for (rrr_length i = 0; i < np; i++) x += std::string("|") + perms[i]; ((std::vector<std::string> *) a)->push_back(x); return RRR_PASSWD_ITERATE_OK; }, &seen); CHECK((r != 0) == broken, "iteration returned %d", r); size_t m = broken ? broken_at : us.size(); CHECK(seen.size() == m, "%zu users, expected %zu", seen.size(), m); for (size_t i = 0; i < m; i++) { std::string x = us[i].name + "|" + us[i].h.text; for (auto &y : us[i].perm) x += "|" + y; CHECK(seen[i] == x, "line %s, expected %s", show(seen[i]).c_str(), show(x).c_str()); }
	clean_tmpdir();
}
// No byte of the salts is the same for all hashes
static void salts(Src &s) {
	std::vector<std::string> salt; for (int k = 0; k < 8; k++) { char *a = NULL; CHECK(rrr_passwd_encrypt(&a, k & 1 ? "x" : s.pick({"y", "a longer one", "x"})) == 0, "encrypt"); std::string h = a; rrr_free(a); std::string c; for (char x : h) if (x != '\n') c += x; size_t e = c.rfind('$'); CHECK(c.substr(0, 3) == "$1$" && e > 3, "form"); std::string sb = c.substr(3, e - 3); std::vector<unsigned char> o(sb.size() + 4); int n = EVP_DecodeBlock(o.data(), (const unsigned char *) sb.data(), (int) sb.size()); CHECK(n >= 32, "salt"); salt.push_back(std::string((char *) o.data(), 32)); }
	for (size_t i = 0; i < 32; i++) { bool same = true; for (auto &x : salt) same &= x[i] == salt[0][i]; CHECK(!same, "byte %zu of the salt is always %d", i, salt[0][i]); } nontrivial();
}
VP_TARGET(salts, 30, "all");
VP_TARGET(hashes, 60000, "a hash some password fits");
VP_TARGET(file, 40000, "a user is accepted");
static void init() { vp_lib_init(); char *a = NULL; rrr_passwd_encrypt(&a, "x"); rrr_free(a); }
VP_MAIN(init)
