// LINK: vos wire
// Histories over message chains, against a model of every live chain; live heap must return to the start.
#include "wire.hpp"
using namespace pbt;
const char *pbt::prop_id = "C01";
const char *pbt::prop_rule = "histories of 1..30 operations (alloc, link, fill, set fields, advance data pointer, dup chain, dup single, checksum, free) "
	"over up to 6 chains, sizes 0..4200 and above the limit; non-trivial = at least one duplication of a non-empty chain followed by a modification or free";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

struct MMsg { uint8_t fmt, type, dest, src; unsigned long rxtime; Bytes data; };
typedef std::vector<MMsg> MChain;
struct Chain { struct diag_msg *p; MChain m; };

static void verify(Ctx &c, const Chain &ch, const char *when) {
	struct diag_msg *p = ch.p;
	size_t i = 0;
	for (; p; p = p->next, i++) {
		PBT_CHECK(c, i < ch.m.size(), "%s: chain longer than the model (%zu)", when, ch.m.size());
		const MMsg &m = ch.m[i];
		PBT_CHECK(c, p->len == m.data.size(), "%s: msg %zu length %u, expected %zu", when, i, p->len, m.data.size());
		PBT_CHECK(c, !p->len || !memcmp(p->data, m.data.data(), p->len), "%s: msg %zu data %s expected %s", when, i,
			hex(p->data, p->len).c_str(), hex(m.data).c_str());
		PBT_CHECK(c, p->fmt == m.fmt && p->type == m.type && p->dest == m.dest && p->src == m.src && p->rxtime == m.rxtime,
			"%s: msg %zu fields fmt=%02x/%02x type=%02x/%02x dest=%02x/%02x src=%02x/%02x rxtime=%lu/%lu", when, i,
			p->fmt, m.fmt, p->type, m.type, p->dest, m.dest, p->src, m.src, p->rxtime, m.rxtime);
	}
	PBT_CHECK(c, i == ch.m.size(), "%s: chain has %zu messages, expected %zu", when, i, ch.m.size());
}

void pbt::property(Ctx &c) {
	wire::init_lib();
	fflush(stdout); fflush(stderr);
	diag_errlookup(-1);
	std::vector<Chain> chains;
	chains.reserve(8);
	size_t h0 = lib_bytes(), model_overhead = 0;
	{
		unsigned nops = c.range(1, c.thorough() ? 60 : 30);
		bool dup = false;
		for (unsigned k = 0; k < nops; k++) {
			size_t op = chains.empty() ? 0 : c.weighted({ 5, 3, 3, 2, 3, 3, 2, 3, 1 });
			size_t ci = chains.empty() ? 0 : c.draw(chains.size());
			switch (op) {
			case 0: { // new message, appended to a chain or a new one
				size_t n = c.chance(1, 8) ? c.pick<size_t>({ 4199, 4200, 4201, 4202, 10000, 70000 }) : c.size(300);
				struct diag_msg *m = diag_allocmsg(n);
				c.note("alloc %zu", n);
				if (n > DIAG_MAX_MSGLEN) {
					PBT_CHECK(c, m == NULL, "message of %zu bytes not refused", n);
					PBT_CHECK(c, diag_geterr() == DIAG_ERR_BADLEN, "wrong error for an oversize message");
					break;
				}
				PBT_CHECK(c, m != NULL, "allocation of %zu failed", n);
				PBT_CHECK(c, m->len == n && m->next == NULL, "len %u next %p", m->len, (void *)m->next);
				PBT_CHECK(c, n == 0 || m->data != NULL, "no data buffer");
				PBT_CHECK(c, !m->fmt && !m->type && !m->dest && !m->src && !m->rxtime, "fields of a new message not zero");
				MMsg mm = { 0, 0, 0, 0, 0, {} };
				mm.data = c.chance(1, 3) ? Bytes(n, c.byte()) : c.bytes(std::min<size_t>(n, 24));
				mm.data.resize(n, 0x5a);
				for (size_t i = 0; i < n; i++) m->data[i] = mm.data[i];  // the whole length is writable
				mm.fmt = m->fmt = c.byte(); mm.type = m->type = c.byte(); mm.dest = m->dest = c.byte(); mm.src = m->src = c.byte();
				mm.rxtime = m->rxtime = c.draw(1ull << 40);
				if (!chains.empty() && (chains.size() >= 6 || c.chance(2, 3))) {
					struct diag_msg *t = chains[ci].p;
					while (t->next) t = t->next;
					t->next = m;
					chains[ci].m.push_back(mm);
				} else chains.push_back({ m, { mm } });
				break;
			}
			case 1: case 2: { // dup whole chain / single message
				if (chains.size() >= 6) break;
				Chain n;
				if (op == 1) {
					n.p = diag_dupmsg(chains[ci].p); n.m = chains[ci].m;
					c.note("dup chain of %zu", n.m.size());
					c.label("dup chain len %zu", std::min<size_t>(n.m.size(), 5));
				} else {
					size_t at = c.draw(chains[ci].m.size());
					struct diag_msg *t = chains[ci].p;
					for (size_t i = 0; i < at; i++) t = t->next;
					n.p = diag_dupsinglemsg(t); n.m = { chains[ci].m[at] };
					c.note("dup single %zu", at);
				}
				PBT_CHECK(c, n.p != NULL, "duplication failed");
				verify(c, n, "after dup");
				// shares nothing
				for (struct diag_msg *a = n.p; a; a = a->next)
					for (struct diag_msg *b = chains[ci].p; b; b = b->next)
						PBT_CHECK(c, a != b && (!a->len || a->data != b->data), "copy shares storage with the original");
				for (auto &m : n.m) if (!m.data.empty()) dup = true;
				chains.push_back(n);
				break;
			}
			case 3: { // free a chain
				c.note("free chain %zu", ci);
				if (dup) c.nontrivial();
				diag_freemsg(chains[ci].p);
				chains.erase(chains.begin() + ci);
				break;
			}
			case 4: case 5: { // modify one message
				size_t at = c.draw(chains[ci].m.size());
				struct diag_msg *t = chains[ci].p;
				for (size_t i = 0; i < at; i++) t = t->next;
				MMsg &m = chains[ci].m[at];
				if (op == 4 && t->len) {
					size_t o = c.draw(t->len);
					t->data[o] = m.data[o] = c.byte();
					c.note("poke");
				} else {
					t->src = m.src = c.byte(); t->rxtime = m.rxtime = c.draw(100000);
				}
				if (dup) c.nontrivial();
				break;
			}
			case 6: { // advance data inside a message (layers strip headers this way)
				size_t at = c.draw(chains[ci].m.size());
				struct diag_msg *t = chains[ci].p;
				for (size_t i = 0; i < at; i++) t = t->next;
				if (!t->len) break;
				size_t n = c.range(1, t->len);
				t->data += n; t->len -= n;
				chains[ci].m[at].data.erase(chains[ci].m[at].data.begin(), chains[ci].m[at].data.begin() + n);
				c.note("advance %zu", n);
				c.label("advanced");
				break;
			}
			case 7: { // checksum of an exact-size buffer
				size_t n = c.chance(1, 4) ? c.range(200, 3000) : c.size(60);
				uint8_t *b = (uint8_t *)malloc(n ? n : 1);
				unsigned sum = 0;
				uint8_t x = c.byte(), y = c.byte();
				for (size_t i = 0; i < n; i++) { b[i] = i < 40 ? c.byte() : (uint8_t)(x + i * y); sum += b[i]; }
				uint8_t r = diag_cks1(b, n);
				PBT_CHECK(c, r == (uint8_t)sum, "checksum %02x, sum of bytes is %02x (n=%zu)", r, sum & 255, n);
				free(b);
				break;
			}
			case 8:
				diag_freemsg(NULL);
				break;
			}
			for (auto &ch : chains) verify(c, ch, "after operation");
		}
		for (auto &ch : chains) diag_freemsg(ch.p);
		for (auto &ch : chains) ch.m = MChain();
		chains.clear();
	}
	std::vector<Chain>().swap(chains);
	size_t h1 = lib_bytes();
	PBT_CHECK(c, h1 <= h0, "heap grew by %ld bytes after everything was freed", (long)(h1 - h0));
	(void)model_overhead;
}
