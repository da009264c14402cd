// LINK: vos wire
// Trouble code text against an independent formatter; all 256 codes of one high byte per case (65536 covered per run).
#include "wire.hpp"
#include <cstring>
extern "C" {
#include "diag_dtc.h"
}
using namespace pbt;
const char *pbt::prop_id = "C03";
const char *pbt::prop_rule = "per case: either all 256 codes sharing a random first byte in a random buffer size 1..40, or a random length 0..8, "
	"encoding and buffer size; non-trivial = a two-byte J2012 block";
unsigned pbt::quick_cases = 25000, pbt::thorough_cases = 250000;

static std::string expect(uint8_t a, uint8_t b) {
	static const char L[] = "PCBU", H[] = "0123456789ABCDEF";
	std::string s;
	s += L[a >> 6]; s += H[(a >> 4) & 3]; s += H[a & 15]; s += H[b >> 4]; s += H[b & 15];
	return s;
}
static bool looks_decoded(const std::string &s) {
	if (s.size() < 5 || !strchr("PCBU", s[0])) return false;
	for (int i = 1; i < 5; i++) if (!strchr("0123456789ABCDEF", s[i])) return false;
	return true;
}
void pbt::property(Ctx &c) {
	size_t bs = c.chance(1, 3) ? c.range(1, 8) : c.range(6, 40);
	char *buf = (char *)malloc(bs);
	if (!c.chance(1, 3)) {
		uint8_t a = c.byte();
		uint8_t *d = (uint8_t *)malloc(2);
		c.note("codes %02x00..%02xff buffer %zu", a, a, bs);
		c.nontrivial();
		for (int b = 0; b < 256; b++) {
			d[0] = a; d[1] = b;
			memset(buf, 'Z', bs);
			char *r = diag_dtc_decode(d, 2, c.chance(1, 500) ? "volvo" : NULL, NULL, dtc_proto_j2012, buf, bs);
			PBT_CHECK(c, r == buf, "did not return the buffer");
			size_t n = strnlen(buf, bs);
			PBT_CHECK(c, n < bs, "not terminated in %zu bytes", bs);
			std::string got(buf, n), e = expect(a, b);
			while (!got.empty() && got.back() == ' ' && got.size() > 5) got.pop_back();
			PBT_CHECK(c, got == e.substr(0, std::min(e.size(), bs - 1)), "code %02x%02x: \"%s\" expected \"%s\"", a, b, got.c_str(), e.c_str());
			PBT_CHECK(c, d[0] == a && d[1] == b, "input modified");
		}
	} else {
		int len = c.chance(1, 4) ? 2 : c.range(0, 8);
		Bytes src = c.bytes(len);
		uint8_t *d = (uint8_t *)malloc(len ? len : 1);
		if (len) memcpy(d, src.data(), len);
		int proto = c.pick({ 1, 1, 2, 3, 4, 5, 0, 6, 77 });
		memset(buf, 'Z', bs);
		char *r = diag_dtc_decode(d, len, NULL, NULL, (enum diag_dtc_protocol)proto, buf, bs);
		c.note("proto %d len %d buffer %zu", proto, len, bs);
		PBT_CHECK(c, r == buf, "did not return the buffer");
		size_t n = strnlen(buf, bs);
		PBT_CHECK(c, n < bs, "proto %d len %d: not terminated in %zu bytes", proto, len, bs);
		if (bs >= 8) {
			bool dec = looks_decoded(std::string(buf, n));
			PBT_CHECK(c, dec == (proto == 1 && len == 2), "proto %d len %d shown as \"%.*s\"", proto, len, (int)n, buf);
			PBT_CHECK(c, n > 0, "no text at all");
		}
		c.label("proto %d len %s", proto, len == 2 ? "2" : "other");
	}
}
