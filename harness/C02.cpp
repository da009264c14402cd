// LINK: vos wire vtty_stub
// Configuration items: typed set / set-by-choice / text / reset against a model.
#include "wire.hpp"
extern "C" {
#include "diag_cfg.h"
}
using namespace pbt;
const char *pbt::prop_id = "C02";
const char *pbt::prop_rule = "histories of 1..25 operations over 1..6 items (all types, with and without choices, plus the items of every interface driver): "
	"typed set with right and wrong type, set by choice id (in and out of range), read as text, refresh, reset; non-trivial = a successful set followed by a reset or a read";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;
extern std::vector<std::string> stub_ports;

static long libheap;
template <class F> static auto L(F f) { struct G { size_t a = lib_bytes(); ~G() { libheap += (long)lib_bytes() - (long)a; } } g; return f(); }

struct Model { int type; long v, d; std::string s, sd; std::vector<std::string> opts; bool tty; };

static std::string text(Ctx &c) {
	size_t n = c.size(40);
	std::string s;
	for (size_t i = 0; i < n; i++) s += (char)(c.chance(1, 3) ? c.range(1, 255) : c.range(32, 126));
	return s;
}
static int pickint(Ctx &c) {
	switch (c.draw(4)) {
	case 0: return (int)c.range(-20, 20);
	case 1: return (int)c.range(-9999999, 99999999);
	case 2: return (int)(uint32_t)c.draw(1ull << 32);
	default: return c.pick({ 9999999, 10000000, -999999, -1000000, INT32_MAX, INT32_MIN, 115200 });
	}
}
static void check_item(Ctx &c, struct cfgi *p, const Model &m, size_t i) {
	switch (m.type) {
	case CFGT_U8: PBT_CHECK(c, p->val.u8 == (uint8_t)m.v, "item %zu: value %u expected %ld", i, p->val.u8, m.v); break;
	case CFGT_INT: PBT_CHECK(c, p->val.i == (int)m.v, "item %zu: value %d expected %ld", i, p->val.i, m.v); break;
	case CFGT_BOOL: PBT_CHECK(c, p->val.b == (bool)m.v, "item %zu: value %d expected %ld", i, p->val.b, m.v); break;
	case CFGT_STR: PBT_CHECK(c, p->val.str && m.s == p->val.str, "item %zu: value \"%s\" expected \"%s\"", i, p->val.str ? p->val.str : "(null)", m.s.c_str()); break;
	}
}

void pbt::property(Ctx &c) {
	wire::init_lib();
	std::vector<struct cfgi *> items;
	std::vector<Model> mods;
	std::vector<struct diag_l0_device *> devs;
	stub_ports.clear();
	bool real = c.chance(1, 4);
	char **optarr = NULL;
	std::vector<char *> optstr;
	fprintf(stderr, "x\n"); fflush(stderr);
	// build everything once so lazily allocated things do not count
	std::string touch;
	if (real) {
		for (int i = 0; l0dev_list[i]; i++) {
			struct diag_l0_device *d = L([&] { return diag_l0_new(l0dev_list[i]->shortname); });
			PBT_CHECK(c, d != NULL, "driver %s cannot be created", l0dev_list[i]->shortname);
			devs.push_back(d);
			for (struct cfgi *p = diag_l0_getcfg(d); p; p = p->next) {
				Model m = {};
				m.type = p->type;
				switch (p->type) {
				case CFGT_U8: m.v = p->val.u8; m.d = p->dval.u8; break;
				case CFGT_INT: m.v = p->val.i; m.d = p->dval.i; break;
				case CFGT_BOOL: m.v = p->val.b; m.d = p->dval.b; break;
				case CFGT_STR: m.s = p->val.str; m.sd = p->dval.str ? p->dval.str : p->val.str; m.tty = !strcmp(p->shortname, "port"); break;
				}
				for (int k = 0; k < p->numopts; k++) m.opts.push_back(p->opt[k]);
				items.push_back(p); mods.push_back(m);
			}
		}
	} else {
		unsigned n = c.range(1, 6);
		for (unsigned i = 0; i < n; i++) {
			struct cfgi *p = (struct cfgi *)calloc(1, sizeof *p);
			Model m = {};
			int rv = 0;
			switch (c.draw(5)) {
			case 0: m.type = CFGT_INT; m.v = pickint(c); m.d = pickint(c); rv = L([&] { return diag_cfgn_int(p, m.v, m.d); }); break;
			case 1: m.type = CFGT_U8; m.v = c.byte(); m.d = c.byte(); rv = L([&] { return diag_cfgn_u8(p, m.v, m.d); }); break;
			case 2: m.type = CFGT_BOOL; m.v = c.draw(2); m.d = c.draw(2); rv = L([&] { return diag_cfgn_bool(p, m.v, m.d); }); break;
			case 3: m.type = CFGT_STR; m.sd = m.s = text(c); rv = L([&] { return diag_cfgn_str(p, m.s.c_str(), "descr", "sn"); }); break;
			case 4: m.type = CFGT_STR; m.sd = m.s = "/dev/null"; m.tty = true; rv = L([&] { return diag_cfgn_tty(p); }); break;
			}
			PBT_CHECK(c, rv == 0, "item creation failed");
			if ((m.type == CFGT_INT || m.type == CFGT_STR) && !m.tty && c.chance(1, 2)) {
				unsigned k = c.range(1, 4);
				optarr = NULL;
				for (unsigned q = 0; q < k; q++) { m.opts.push_back(text(c)); optarr = L([&] { return strlist_add(optarr, m.opts.back().c_str(), q); }); }
				p->opt = optarr; p->numopts = k; p->dyn_opt = 1;
			}
			items.push_back(p); mods.push_back(m);
		}
	}
	for (size_t i = 0; i < items.size(); i++) check_item(c, items[i], mods[i], i);
	bool set = false;
	unsigned nops = c.range(1, 25);
	for (unsigned k = 0; k < nops; k++) {
		if (items.empty()) break;
		size_t i = c.draw(items.size());
		struct cfgi *p = items[i];
		Model &m = mods[i];
		switch (c.weighted({ 5, 2, 3, 3, 1 })) {
		case 0: { // typed set, possibly of another type
			int t = c.chance(1, 4) ? c.pick({ CFGT_U8, CFGT_INT, CFGT_STR, CFGT_BOOL }) : m.type;
			int rv = 0;
			std::string s; int v = 0;
			switch (t) {
			case CFGT_U8: v = c.byte(); rv = L([&] { return diag_cfg_setu8(p, v); }); break;
			case CFGT_INT: v = pickint(c); rv = L([&] { return diag_cfg_setint(p, v); }); break;
			case CFGT_BOOL: v = c.draw(2); rv = L([&] { return diag_cfg_setbool(p, v); }); break;
			case CFGT_STR: s = text(c); rv = L([&] { return diag_cfg_setstr(p, s.c_str()); }); break;
			}
			c.note("item %zu type %d: set type %d value %d \"%s\" -> %d", i, m.type, t, v, s.c_str(), rv);
			if (t == m.type) {
				PBT_CHECK(c, rv == 0, "legal set refused (%d)", rv);
				m.v = v; m.s = s; set = true;
			} else PBT_CHECK(c, rv == DIAG_ERR_BADCFG, "set of the wrong type returned %d", rv);
			break;
		}
		case 1: { // by choice
			int id = c.chance(1, 3) ? (int)c.range(-3, 8) : (int)c.draw(m.opts.size() + 1);
			int rv = L([&] { return diag_cfg_setopt(p, id); });
			c.note("item %zu: choice %d of %zu -> %d", i, id, m.opts.size(), rv);
			if (id < 0 || id >= (int)m.opts.size()) {
				PBT_CHECK(c, rv == DIAG_ERR_BADCFG, "choice %d of %zu accepted (%d)", id, m.opts.size(), rv);
			} else {
				PBT_CHECK(c, rv == 0, "legal choice refused");
				if (m.type == CFGT_INT) { m.v = id; set = true; }
				if (m.type == CFGT_STR) { m.s = m.opts[id]; set = true; }
				c.label("choice");
			}
			break;
		}
		case 2: { // text form, and back
			char *s = L([&] { return diag_cfg_getstr(p); });
			PBT_CHECK(c, s != NULL, "no text for item of type %d", m.type);
			c.note("item %zu: text \"%s\"", i, s);
			char *e = NULL;
			if (m.type == CFGT_STR) PBT_CHECK(c, m.s == s, "text \"%s\" expected \"%s\"", s, m.s.c_str());
			else {
				long r = strtol(s, &e, 0);
				PBT_CHECK(c, e && !*e && r == (m.type == CFGT_BOOL ? (m.v ? 1 : 0) : m.type == CFGT_U8 ? (long)(uint8_t)m.v : (long)(int)m.v),
					"text \"%s\" does not denote the value %ld", s, m.v);
			}
			L([&] { free(s); return 0; });
			if (set) c.nontrivial();
			break;
		}
		case 3: // reset
			L([&] { diag_cfg_reset(p); return 0; });
			m.v = m.d; m.s = m.sd;
			c.note("item %zu: reset", i);
			if (set) c.nontrivial();
			c.label("reset type %d", m.type);
			break;
		case 4: { // refresh of the list of choices keeps the value; the first port becomes the default
			unsigned n = c.draw(4);
			stub_ports.clear();
			for (unsigned q = 0; q < n; q++) stub_ports.push_back("/dev/ttyX" + std::to_string(c.draw(20)));
			L([&] { diag_cfg_refresh(p); return 0; });
			c.note("item %zu: refresh, %u ports", i, n);
			if (m.tty) {
				m.opts = stub_ports;
				if (n) m.sd = stub_ports[0];
				PBT_CHECK(c, p->numopts == (int)n, "%d choices for %u ports", p->numopts, n);
				c.label("tty refresh");
			}
			break;
		}
		}
		for (size_t q = 0; q < items.size(); q++) {
			check_item(c, items[q], mods[q], q);
			PBT_CHECK(c, items[q]->numopts == (int)mods[q].opts.size(), "item %zu: number of choices changed", q);
			for (size_t z = 0; z < mods[q].opts.size(); z++)
				PBT_CHECK(c, mods[q].opts[z] == items[q]->opt[z], "item %zu: choice %zu changed", q, z);
		}
	}
	L([&] {
		if (!real) {
			for (size_t i = 0; i < items.size(); i++) {
				diag_cfg_clear(items[i]);
				// choices of non-string items belong to whoever attached them
				if (mods[i].type == CFGT_INT && items[i]->opt) strlist_free(items[i]->opt, items[i]->numopts);
			}
		} else for (auto d : devs) diag_l0_del(d);
		return 0;
	});
	if (!real) for (auto p : items) free(p);
	PBT_CHECK(c, libheap <= 0, "released items keep %ld bytes", libheap);
}
