// Shared by the harnesses: initialisation of the library and small helpers.
#pragma once
#include "vp.hpp"
extern "C" {
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_strerror.h"
#include "lib/rrr_config.h"
#include "lib/version.h"
#include "lib/rrr_types.h"
#include "lib/read_constants.h"
}
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <inttypes.h>

#define VP_LOG_PREFIX \
	extern "C" { RRR_CONFIG_DEFINE_DEFAULT_LOG_PREFIX("verif"); }

static inline void vp_lib_init() {
	rrr_allocator_init();
	rrr_log_init();
	rrr_strerror_init();
}

#define VP_MAIN(init) int main(int argc, char **argv) { return vp::engine_main(argc, argv, init); }

// A string of valid UTF-8 without NUL
static inline std::string gen_utf8(vp::Src &s, size_t max) {
	std::string r; size_t n = s.len(max);
	while (r.size() < n) {
		uint32_t c;
		switch (s.u(7)) {
			case 0: c = 0x80 + s.n(0x7ff - 0x80); break;
			case 1: c = 0x800 + s.n(0xffff - 0x800); if (c >= 0xd800 && c <= 0xdfff) c = 0xe000; break;
			case 2: c = 0x10000 + s.n(0x10ffff - 0x10000); break;
			default: c = (uint32_t) "abcdefxyz/019_-. "[s.u(16)];
		}
		if (c < 0x80) r += (char) c;
		else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
		else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
		else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
	}
	return r;
}

static inline uint64_t rd_be(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static inline void wr_be(std::string &o, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) o += (char) (v >> (8 * i)); }

// As VP_TARGET, and the code under test must have released all it allocated
#define VP_TARGET_NOLEAK(fn, quick, rule) \
	static void fn##_noleak(vp::Src &s) { fn(s); CHECK(vp::live_allocs() == 0, "%ld allocations were not released", vp::live_allocs()); } \
	static int vp_reg_##fn = ::vp::add_target(#fn, quick, fn##_noleak, rule)
