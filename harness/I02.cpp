// LINK: vos vtty_stub
// LIBS: app
// Numbers as typed by the user against their notation.
#include "pbt.hpp"
#include <cstring>
#include <memory>
#include <strings.h>
extern "C" {
#include "diag.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "libcli.h"
#include "scantool_cli.h"
}
using namespace pbt;
const char *pbt::prop_id = "I02";
const char *pbt::prop_rule = "numbers of any magnitude written in decimal, octal, 0x and $ hexadecimal in either case with sign and leading zeros, and texts that are none (foreign digits, text around the number, empty, over 32 bits), read directly and through the set commands; non-trivial = more than one digit";
unsigned pbt::quick_cases = 60000, pbt::thorough_cases = 1000000;

void pbt::property(Ctx &c) {
	bool neg = c.chance(1, 4), ok = true;
	unsigned base = c.pick({ 10u, 8u, 16u, 17u });
	unsigned long long v = c.chance(1, 2) ? c.draw(256) : c.chance(1, 2) ? c.draw(1ull << c.range(1, 31)) : c.pick({ 0ull, 255ull, 256ull, 65535ull, 65536ull, 0x7fffffffull, 0x7ffffffeull });
	std::string t;
	auto digits = [](unsigned long long x, unsigned b) { std::string s; do { s.insert(s.begin(), "0123456789abcdef"[x % b]); x /= b; } while (x); return s; };
	std::string d = digits(v, base == 17 ? 16 : base);
	for (auto &ch : d) if (c.chance(1, 2)) ch = (char)toupper(ch);
	if (base != 10 && c.chance(1, 6)) d.insert(0, c.range(1, 12), '0');
	size_t prefix = 0;
	if (base == 16) { t = c.chance(1, 2) ? "0x" : "0X"; prefix = 2; }
	else if (base == 17) { t = "$"; prefix = 1; }
	else if (base == 8) { t = "0"; prefix = 1; }
	t += d;
	unsigned kind = c.weighted({ 8, 1, 1, 1, 1 });
	auto digit = [&](char ch) { ch = (char)tolower(ch); unsigned x = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : 99; return x < (base == 17 ? 16 : base); };
	if (kind == 1) {                       // a character that is no digit of this base
		char ch;
		do ch = (char)c.range(1, 255); while (digit(ch));
		size_t at = prefix + c.range(1, t.size() - prefix);      // not first: that may change the notation
		t.insert(at, 1, ch);
		ok = false;
		if (base == 10 && v == 0 && at == 1 && (ch == 'x' || ch == 'X')) { ok = true; v = 0; }
	} else if (kind == 2) {                // more than 32 bits
		unsigned b = base == 17 ? 16 : base;
		t = t.substr(0, prefix) + std::string(1, (char)('1' + c.draw(b == 8 ? 7 : 9)));
		for (unsigned n = c.range(b == 8 ? 11 : b == 10 ? 10 : 8, 40); n; n--) t += "0123456789abcdef"[c.draw(b)];
		ok = false;
	} else if (kind == 3) { t = c.pick({ "", "-", "--1", "+1", "on", "ECU", "?", "-$", "g", "f", "0x", "$", "10h", " 1", "1 ", "1,2", "0-5", "1e3", "1.5" }); if (neg && t == "--1") t = "-1-"; ok = false; if (t[0] == '-') neg = false; }
	if (neg) t.insert(0, "-");
	if (t.size() > 1) c.nontrivial();
	c.label("%s", ok ? base == 10 ? "decimal" : base == 8 ? "octal" : "hexadecimal" : "not a number");
	long long want = ok ? neg ? -(long long)v : (long long)v : 0;
	c.note("'%s' means %lld", t.c_str(), want);
	bool wide = v > 0x7fffffff;
	std::unique_ptr<char, void (*)(void *)> text(strdup(t.c_str()), free);
	int got = htoi(text.get());
	PBT_CHECK(c, text.get() == t, "the text was changed to '%s'", text.get());
	if (!wide) PBT_CHECK(c, got == want, "'%s' reads as %d, not %lld", t.c_str(), got, want);
	PBT_CHECK(c, htoi(text.get()) == got, "'%s' reads differently each time", t.c_str());
	// through the commands that take numbers
	if (t.empty() || t[0] == '?' || wide) return;
	const struct cmd_tbl_entry *e = set_cmd_table;
	const char *name = c.pick({ "speed", "testerid", "destaddr" });
	while (strcasecmp(e->command, name)) e++;
	global_cfg.speed = 12345; global_cfg.src = 0x5a; global_cfg.tgt = 0xa5;
	std::string nm = name;
	char *av[] = { &nm[0], text.get(), nullptr };
	e->routine(2, av);
	bool in = want >= 0 && want <= 255;
	if (*name == 's') PBT_CHECK(c, want < 0 || global_cfg.speed == (unsigned)want, "set speed %s makes %u", t.c_str(), global_cfg.speed);
	else if (*name == 't') PBT_CHECK(c, global_cfg.src == (in ? want : 0x5a), "set testerid %s makes 0x%02x", t.c_str(), global_cfg.src);
	else PBT_CHECK(c, global_cfg.tgt == (in ? want : 0xa5), "set destaddr %s makes 0x%02x", t.c_str(), global_cfg.tgt);
}
