// LINK: vos wire
// Error latch, error texts, hex dump, bounded concatenation, string lists, message print, against a model.
#include "wire.hpp"
#include <set>
using namespace pbt;
const char *pbt::prop_id = "C04";
const char *pbt::prop_rule = "histories of 1..40 operations (report/forward/read errors, look up texts, hex dump, message print, concatenation, string list, allocation helpers); "
	"non-trivial = an error reported and read, or a buffer dumped";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;
static const int CODES[] = { DIAG_ERR_GENERAL, DIAG_ERR_BADFD, DIAG_ERR_NOMEM, DIAG_ERR_INIT_NOTSUPP, DIAG_ERR_PROTO_NOTSUPP,
	DIAG_ERR_IOCTL_NOTSUPP, DIAG_ERR_BADIFADAPTER, DIAG_ERR_TIMEOUT, DIAG_ERR_BUSERROR, DIAG_ERR_BADLEN, DIAG_ERR_BADDATA,
	DIAG_ERR_BADCSUM, DIAG_ERR_INCDATA, DIAG_ERR_WRONGKB, DIAG_ERR_BADRATE, DIAG_ERR_ECUSAIDNO, DIAG_ERR_RCFILE, DIAG_ERR_CMDFILE,
	DIAG_ERR_BADVAL, DIAG_ERR_BADCFG };
static const size_t NC = sizeof CODES / sizeof *CODES;

static std::string dumptext(const Bytes &b) {
	std::string s; char t[8];
	for (uint8_t x : b) { snprintf(t, sizeof t, "0x%02X ", x); s += t; }
	return s;
}
void pbt::property(Ctx &c) {
	wire::init_lib();
	diag_geterr();
	int latched = 0;
	std::vector<std::string> list;
	char **sl = NULL;
	unsigned nops = c.range(1, 40);
	for (unsigned k = 0; k < nops; k++) {
		switch (c.weighted({ 4, 3, 3, 3, 2, 2, 2, 1 })) {
		case 0: {
			int code = CODES[c.draw(NC)];
			int kind = c.draw(4);
			c.note("report %d kind %d", code, kind);
			if (kind == 0) PBT_CHECK(c, diag_iseterr(code) == code, "report did not return the code");
			else if (kind == 1) PBT_CHECK(c, diag_pseterr(code) == NULL, "pointer report not NULL");
			else if (kind == 2) PBT_CHECK(c, diag_ifwderr(code) == code, "forward did not return the code");
			else PBT_CHECK(c, diag_pfwderr(code) == NULL, "pointer forward not NULL");
			if (kind < 2 && !latched) latched = code;
			break;
		}
		case 1: {
			int r = diag_geterr();
			PBT_CHECK(c, r == latched, "pending error %d, expected %d", r, latched);
			if (latched) c.nontrivial();
			latched = 0;
			break;
		}
		case 2: {
			size_t i = c.draw(NC), j = c.draw(NC);
			std::string a = diag_errlookup(CODES[i]), b = diag_errlookup(CODES[j]);
			PBT_CHECK(c, !a.empty(), "code %d has no text", CODES[i]);
			PBT_CHECK(c, (i == j) == (a == b), "codes %d and %d: \"%s\" / \"%s\"", CODES[i], CODES[j], a.c_str(), b.c_str());
			int u = c.chance(1, 2) ? (int)c.range(-60, 10) : (int)(uint32_t)c.draw(1ull << 32);
			bool def = false;
			for (int x : CODES) def |= x == u;
			std::string t = diag_errlookup(u);
			PBT_CHECK(c, !t.empty(), "no text for %d", u);
			char h[32]; snprintf(h, sizeof h, "0x%.2X", u);
			PBT_CHECK(c, (t.find(h) == std::string::npos) == def, "code %d described as \"%s\"", u, t.c_str());
			break;
		}
		case 3: {
			size_t n = c.size(80);
			Bytes b = c.bytes(n);
			uint8_t *p = (uint8_t *)malloc(n ? n : 1);
			if (n) memcpy(p, b.data(), n);
			c.reset_captured();
			diag_data_dump(c.chance(1, 2) ? stdout : stderr, p, n);
			std::string t = c.captured();
			PBT_CHECK(c, t == dumptext(b), "dump of %s is \"%s\"", hex(b).c_str(), t.c_str());
			free(p);
			if (n) c.nontrivial();
			break;
		}
		case 4: { // message chain print
			unsigned n = c.range(1, 4);
			struct diag_msg *head = NULL, *last = NULL;
			std::string e;
			bool ts = c.chance(1, 2);
			for (unsigned i = 0; i < n; i++) {
				Bytes b = c.bytes(c.size(12));
				struct diag_msg *m = diag_allocmsg(b.size());
				if (b.size()) memcpy(m->data, b.data(), b.size());
				m->src = c.byte(); m->dest = c.byte(); m->rxtime = c.draw(100000000);
				bool bad = c.chance(1, 4);
				m->fmt = bad ? DIAG_FMT_BADCS : c.pick<uint8_t>({ 0, DIAG_FMT_FRAMED, DIAG_FMT_CKSUMMED, DIAG_FMT_ISO_FUNCADDR });
				char t[120];
				if (ts) { snprintf(t, sizeof t, "%lu.%03lu: ", m->rxtime / 1000, m->rxtime % 1000); e += t; }
				snprintf(t, sizeof t, "msg %02u src=0x%02X dest=0x%02X\nmsg %02u data: ", i, m->src, m->dest, i);
				e += t; e += dumptext(b); e += bad ? " [BAD CKS]\n" : "\n";
				if (last) last->next = m; else head = m;
				last = m;
			}
			c.reset_captured();
			diag_printmsg(stdout, head, ts);
			std::string t = c.captured();
			PBT_CHECK(c, t == e, "message print:\n%s\nexpected:\n%s", t.c_str(), e.c_str());
			diag_freemsg(head);
			c.label("printmsg");
			break;
		}
		case 5: { // concatenation that fits (the documented domain), exact-size buffer
			size_t la = c.size(20), lb = c.size(20), room = la + lb + 2 + c.draw(4);
			std::string a, b;
			for (size_t i = 0; i < la; i++) a += (char)c.range(33, 126);
			for (size_t i = 0; i < lb; i++) b += (char)c.range(33, 126);
			char *p = (char *)malloc(room);
			strcpy(p, a.c_str());
			char *q = strdup(b.c_str());
			smartcat(p, room, q);
			PBT_CHECK(c, a + b == p && b == q, "\"%s\"+\"%s\" gave \"%s\"", a.c_str(), b.c_str(), p);
			free(p); free(q);
			break;
		}
		case 6: {
			std::string s;
			size_t n = c.size(30);
			for (size_t i = 0; i < n; i++) s += (char)c.range(1, 255);
			char *t = strdup(s.c_str());
			sl = strlist_add(sl, t, list.size());
			memset(t, '#', s.size()); // the list must hold its own copy
			free(t);
			PBT_CHECK(c, sl != NULL, "list add failed");
			list.push_back(s);
			for (size_t i = 0; i < list.size(); i++)
				PBT_CHECK(c, list[i] == sl[i], "list entry %zu is \"%s\" expected \"%s\"", i, sl[i], list[i].c_str());
			c.label("strlist %zu", std::min<size_t>(list.size(), 5));
			break;
		}
		case 7: {
			uint16_t *p = (uint16_t *)1;
			size_t n = c.size(50);
			int rv = c.chance(1, 2) ? diag_calloc(&p, n) : diag_malloc(&p, n);
			if (!n) {
				PBT_CHECK(c, rv == DIAG_ERR_BADVAL && p == NULL, "empty allocation: rv %d", rv);
				if (!latched) latched = DIAG_ERR_BADVAL;
			} else {
				PBT_CHECK(c, rv == 0 && p, "allocation failed");
				p[n - 1] = 1;
				free(p);
				rv = diag_calloc(&p, n);
				for (size_t i = 0; i < n; i++) PBT_CHECK(c, p[i] == 0, "calloc not zeroed");
				free(p);
			}
			break;
		}
		}
	}
	strlist_free(sl, list.size());
}
