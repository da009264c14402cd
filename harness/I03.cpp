// LINK: vos vtty_stub
// LIBS: app
// Histories of settings commands against a model of the settings.
#include "pbt.hpp"
#include <cstring>
#include <map>
#include <strings.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "diag.h"
#include "diag_cfg.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
#include "libcli.h"
#include "scantool_cli.h"
}
using namespace pbt;
const char *pbt::prop_id = "I03";
const char *pbt::prop_rule = "histories of 1-25 set commands (in the set menu or from the root) and debug level commands for units, speed, addresses, address type, both protocols, initialisation mode, interface and each interface's own options, with legal values in any case and notation, "
	"illegal, missing, extra and '?' arguments, unknown names; non-trivial = at least three settings changed";
unsigned pbt::quick_cases = 12000, pbt::thorough_cases = 150000;

namespace {
typedef std::map<std::string, std::string> Model;           // everything that can be set
const char *const dbgname[] = { "l0", "l1", "l2", "l3", "cli" };
int *const dbgval[] = { &diag_l0_debug, &diag_l1_debug, &diag_l2_debug, &diag_l3_debug, &diag_cli_debug };
Model read() {
	Model m;
	m["units"] = global_cfg.units ? "english" : "metric";
	m["speed"] = std::to_string(global_cfg.speed);
	m["src"] = std::to_string(global_cfg.src);
	m["tgt"] = std::to_string(global_cfg.tgt);
	m["addrtype"] = global_cfg.addrtype ? "functional" : "physical";
	m["l1"] = std::to_string(global_cfg.L1proto);
	m["l2"] = std::to_string(global_cfg.L2proto);
	m["l2name"] = l2proto_list[global_cfg.L2idx]->shortname;
	m["init"] = std::to_string(global_cfg.initmode);
	m["iface"] = global_cfg.l0name;
	m["iface2"] = global_dl0d ? global_dl0d->dl0->shortname : "none";
	for (int i = 0; i < 5; i++) m[std::string("debug ") + dbgname[i]] = std::to_string(*dbgval[i]);
	if (global_dl0d) for (struct cfgi *g = diag_l0_getcfg(global_dl0d); g; g = g->next)
		m[std::string("option ") + g->shortname] = g->type == CFGT_STR ? g->val.str : std::to_string(g->type == CFGT_INT ? g->val.i : g->type == CFGT_U8 ? g->val.u8 : g->val.b);
	return m;
}
std::string show(const Model &m) { std::string s; for (auto &p : m) s += p.first + "=" + p.second + " "; return s; }
std::vector<Model> seen;
std::vector<std::string> outs;
Ctx *ctx;
size_t mark;
enum cli_retval probe(int, char **) { fflush(stdout); std::string o = ctx->captured(); outs.push_back(o.substr(mark)); mark = o.size(); seen.push_back(read()); return CMD_OK; }
}

void pbt::property(Ctx &c) {
	ctx = &c;
	PBT_CHECK(c, diag_init() == 0, "diag_init failed");
	set_init();
	// the interfaces' options and their defaults, from fresh devices
	std::map<std::string, std::vector<struct cfgi>> opts;
	std::map<std::string, Model> defs;
	std::vector<std::string> ifaces;
	for (int i = 0; l0dev_list[i]; i++) {
		std::string nm = l0dev_list[i]->shortname;
		ifaces.push_back(nm);
		struct diag_l0_device *d = diag_l0_new(nm.c_str());
		PBT_CHECK(c, d, "no %s interface", nm.c_str());
		for (struct cfgi *g = diag_l0_getcfg(d); g; g = g->next) {
			opts[nm].push_back(*g);
			defs[nm][std::string("option ") + g->shortname] = g->type == CFGT_STR ? g->val.str : std::to_string(g->type == CFGT_INT ? g->val.i : g->type == CFGT_U8 ? g->val.u8 : g->val.b);
		}
		diag_l0_del(d);
	}
	Model m = read();
	PBT_CHECK(c, m["iface"] == m["iface2"] && m["units"] == "metric" && m["speed"] == "10400" && m["src"] == "241" && m["tgt"] == "51" && m["addrtype"] == "functional" && m["init"] == std::to_string(DIAG_L2_TYPE_FASTINIT) && m["l1"] == std::to_string(DIAG_L1_ISO9141), "initial settings %s", show(m).c_str());
	std::vector<std::string> lines;
	std::vector<Model> want;
	std::vector<int> told;                 // 1 = some message must appear
	unsigned changes = 0;
	auto mix = [&](std::string s) { for (auto &ch : s) if (c.chance(1, 4)) ch = (char)(isupper(ch) ? tolower(ch) : toupper(ch)); return s; };
	auto number = [&](long v) { char b[40]; const char *f = c.pick({ "%ld", "0x%lx", "0X%lX", "$%lx", "0%lo" }); bool neg = v < 0; snprintf(b, sizeof b, f, labs(v)); return (neg ? "-" : "") + std::string(b); };
	auto junk = [&]() { std::string s; for (unsigned n = c.range(1, 6); n; n--) s += "abcdefghijklmnopqrstuvwxyz"[c.draw(26)]; return s; };
	bool in_menu = false;
	for (unsigned n = c.range(1, 25); n; n--) {
		std::string l;
		Model w = m;
		bool illegal = false, bare_says = false;
		unsigned kind = c.draw(14);
		bool root = kind == 13;
		bool bare = c.chance(1, 12), ask = !bare && c.chance(1, 20);
		std::string arg;
		auto set = [&](const char *k, const std::string &v) { if (!bare && !ask) w[k] = v; };
		bool bad = c.chance(1, 4);
		switch (kind) {
		case 0: {
			l = "display";
			bool e = c.chance(1, 2);
			arg = mix(e ? "english" : "metric");
			if (bad) { arg = c.pick({ "inches", "1", "metrics", "engl", "m", "en" }); illegal = true; } else set("units", e ? "english" : "metric");
			break;
		}
		case 1: { l = "speed"; long v = c.pick({ 10400L, 9600L, 0L, 1L, 38400L, 500000L, (long)c.draw(1 << 20) }); arg = number(v); set("speed", std::to_string(v)); break; }
		case 2: case 3: {
			l = kind == 2 ? "testerid" : "destaddr";
			long v = c.draw(256);
			if (bad) { v = c.chance(1, 2) ? -(long)c.range(1, 300) : c.pick({ 256L, 257L, 300L, 511L, 65536L, 65536L + 0x33, 0x7fffffffL }); illegal = true; }
			arg = number(v);
			if (!bad) set(kind == 2 ? "src" : "tgt", std::to_string(v));
			break;
		}
		case 4: {
			l = "addrtype";
			bool f = c.chance(1, 2);
			arg = f ? c.pick({ "func", "functional" }) : c.pick({ "phys", "physical" });
			if (bad) { arg = c.pick({ "fun", "ph", "x", "1", "0", "both" }); illegal = true; } else set("addrtype", f ? "functional" : "physical");
			break;
		}
		case 5: {
			static const struct { const char *n; int v; } L1[] = { { "ISO9141", DIAG_L1_ISO9141 }, { "ISO14230", DIAG_L1_ISO14230 }, { "J1850-VPW", DIAG_L1_J1850_VPW }, { "J1850-PWM", DIAG_L1_J1850_PWM }, { "CAN", DIAG_L1_CAN }, { "RAW", DIAG_L1_RAW } };
			l = "l1protocol";
			auto &p = L1[c.draw(6)];
			arg = mix(p.n);
			if (bad) { arg = c.pick({ "ISO914", "ISO91411", "J1850", "C", "1", "VPW", "DUMB" }); illegal = true; } else set("l1", std::to_string(p.v));
			break;
		}
		case 6: {
			l = "l2protocol";
			int np = 0;
			while (l2proto_list[np]) np++;
			auto *p = l2proto_list[c.draw(np)];
			arg = mix(p->shortname);
			if (bad) { arg = std::string(p->shortname) + "x"; if (c.chance(1, 2)) arg = junk(); for (int i = 0; i < np; i++) if (!strcasecmp(l2proto_list[i]->shortname, arg.c_str())) arg += "zz"; illegal = true; } else { set("l2", std::to_string(p->diag_l2_protocol)); set("l2name", p->shortname); }
			break;
		}
		case 7: {
			l = "initmode";
			int i = c.draw(3);
			arg = mix(i == 0 ? "5BAUD" : i == 1 ? "FAST" : "CARB");
			if (bad) { arg = c.pick({ "SLOW", "5", "FASTINIT", "CAR", "MONITOR", "0" }); illegal = true; } else set("init", std::to_string(i == 0 ? DIAG_L2_TYPE_SLOWINIT : i == 1 ? DIAG_L2_TYPE_FASTINIT : 2));
			break;
		}
		case 8: {
			l = "interface";
			std::string i = c.pick(ifaces);
			arg = mix(i);
			if (bad) { arg = c.chance(1, 2) ? i + "9" : i.substr(0, i.size() - 1); for (auto &x : ifaces) if (!strcasecmp(x.c_str(), arg.c_str())) arg += "_"; illegal = true; if (c.chance(1, 3)) { arg = i + " " + c.pick(ifaces); } }
			else if (!bare && !ask) { for (auto it = w.begin(); it != w.end();) if (it->first.compare(0, 7, "option ") == 0) it = w.erase(it); else ++it; for (auto &p : defs[i]) w[p.first] = p.second; w["iface"] = w["iface2"] = i; }
			break;
		}
		case 9: case 10: case 11: {
			auto &o = opts[m["iface"]];
			if (o.empty()) continue;
			auto &g = o[c.draw(o.size())];
			l = mix(g.shortname);
			std::string key = std::string("option ") + g.shortname;
			if (g.type == CFGT_STR) { arg = c.chance(1, 2) ? "/dev/" + junk() : junk() + std::string(c.size(300), '/'); set(key.c_str(), arg); }
			else {
				long v = g.type == CFGT_BOOL ? (c.chance(1, 4) ? (long)c.range(2, 300) : (long)c.draw(2)) : g.type == CFGT_U8 ? c.draw(256) : c.chance(1, 4) ? -(long)c.draw(10000) : c.draw(100000);
				if (g.type == CFGT_U8 && bad) { v = c.chance(1, 2) ? -(long)c.range(1, 300) : c.range(256, 70000); illegal = true; }
				arg = number(v);
				if (!illegal) set(key.c_str(), std::to_string(g.type == CFGT_BOOL ? v != 0 : v));
			}
			break;
		}
		case 12: l = c.pick({ "sped", "baud", "portx", "disp", "show2", "por" }); { bool clash = false; for (auto &g : opts[m["iface"]]) clash |= !strcasecmp(g.shortname, l.c_str()); if (clash) continue; } arg = c.pick({ "1", "0x33", "metric" }); illegal = true; break;
		}
		if (kind == 13) {
			bool all = c.chance(1, 4), show = !all && c.chance(1, 6);
			int i = (int)c.draw(5);
			l = show ? "debug show" : all ? "debug all" : std::string("debug ") + dbgname[i];
			long v = c.pick({ 0L, 1L, -1L, 0x80L, 0x8000L, 0x7fffffffL, (long)c.draw(0x10000) });
			if (show) bare = true, ask = false;
			arg = number(v);
			for (int k = 0; k < 5; k++) if (all || k == i) set((std::string("debug ") + dbgname[k]).c_str(), std::to_string(v));
			bare_says = true;
		}
		if (kind < 9 || kind == 12) l = mix(l);
		if (ask && kind != 12) { arg = "?"; illegal = false; }
		if (!bare) l += " " + arg; else { if (kind != 12) illegal = false; }
		if (!bare && !illegal && kind < 8 && !ask && c.chance(1, 10)) l += " extra";      // extra words are ignored by these
		bool legal_change = w != m;
		changes += legal_change;
		// how it is typed
		if (!in_menu && c.chance(1, 8)) { lines.push_back("set"); in_menu = true; }
		else if (in_menu && c.chance(1, 4)) { lines.push_back("up"); in_menu = false; }
		if (root && in_menu) { lines.push_back("up"); lines.push_back(l); lines.push_back("probe"); lines.push_back("set"); }
		else if (root) { lines.push_back(l); lines.push_back("probe"); }
		else if (in_menu) { lines.push_back(l); lines.push_back("up"); lines.push_back("probe"); lines.push_back("set"); }
		else { lines.push_back("set " + l); lines.push_back("probe"); }
		want.push_back(w);
		told.push_back(illegal ? 1 : bare || bare_says ? 2 : 0);
		m = w;
	}
	if (changes > 2) c.nontrivial();
	if (in_menu) lines.push_back("up");
	lines.push_back("probe");
	lines.push_back("set show");
	lines.push_back("probe");
	std::string text;
	for (auto &l : lines) { text += l + "\n"; c.note("> %s", l.c_str()); }
	int fd = memfd_create("script", 0);
	PBT_CHECK(c, write(fd, text.data(), text.size()) == (ssize_t)text.size(), "harness: write");
	struct cmd_tbl_entry root[] = { { "set", "set", "set", NULL, 0, set_cmd_table }, { "debug", "debug", "debug", NULL, 0, debug_cmd_table }, { "probe", "probe", "probe", probe, 0, NULL }, CLI_TBL_BUILTINS, CLI_TBL_END };
	int nul = memfd_create("empty", 0);
	dup2(nul, 0);
	fflush(stdout);
	mark = c.captured().size();
	cli_enter("t", ("/proc/self/fd/" + std::to_string(fd)).c_str(), root);
	PBT_CHECK(c, seen.size() == want.size() + 2, "harness: %zu probes", seen.size());
	for (size_t i = 0; i < want.size(); i++) {
		PBT_CHECK(c, seen[i] == want[i], "settings after command %zu: %s\ninstead of: %s", i + 1, show(seen[i]).c_str(), show(want[i]).c_str());
		if (told[i]) PBT_CHECK(c, !outs[i].empty(), "command %zu says nothing", i + 1);
	}
	PBT_CHECK(c, seen.back() == m && seen[want.size()] == m, "set show changed the settings");
	// what is shown
	std::string out = outs.back();
	auto has = [&](const std::string &s) { PBT_CHECK(c, out.find(s) != std::string::npos, "set show does not show '%s': %s", s.c_str(), out.c_str()); };
	char b[64];
	has(m["iface"]);
	has(m["speed"]);
	has(m["units"]);
	snprintf(b, sizeof b, "testerid: using 0x%02X\n", (unsigned)std::stoul(m["src"])); has(b);
	snprintf(b, sizeof b, "destaddr: using 0x%02X\n", (unsigned)std::stoul(m["tgt"])); has(b);
	has(m["addrtype"]);
	static const char *const l1n[] = { "ISO9141", "ISO14230", "J1850-VPW", "J1850-PWM", "CAN", "", "", "RAW" };
	has(std::string("use ") + l1n[__builtin_ctz(std::stoul(m["l1"]))] + "\n");
	has("use " + m["l2name"] + "\n");
	has(std::string("is ") + (m["init"] == "0" ? "5BAUD" : m["init"] == "1" ? "FAST" : "CARB") + "\n");
	for (auto &p : m) if (p.first.compare(0, 7, "option ") == 0) {
		size_t at = out.find(p.first.substr(7) + "=");
		PBT_CHECK(c, at != std::string::npos, "set show does not show %s", p.first.c_str());
		std::string v = out.substr(at + p.first.size() - 6);
		v = v.substr(0, v.find('\n'));
		size_t sp = v.find_first_not_of(' ');
		v = sp == std::string::npos ? "" : v.substr(sp);
		bool same = v == p.second;
		if (!same && v.size() > 1 && v.find_first_not_of("0123456789abcdefxABCDEFX") == std::string::npos) same = (int)strtoul(v.c_str(), nullptr, 0) == atoi(p.second.c_str());
		PBT_CHECK(c, same, "set show shows %s as '%s' instead of '%s'", p.first.c_str(), v.c_str(), p.second.c_str());
	}
	set_close();
}
