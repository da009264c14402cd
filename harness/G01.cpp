// LINK: vos wire vtty_stub
// LIBS: app
// Log files of generated sessions with generated cars against a model.
#include "car.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
using namespace pbt;
using namespace car;
using namespace wire;
const char *pbt::prop_id = "G01";
const char *pbt::prop_rule = "scripts of 4-18 commands (log with and without a name, stoplog, scan, monitor, settings, submenus, comments, unknown commands, waits, play) over a generated car, with up to 100 log files already there; non-trivial = a log of at least three entries was written";
unsigned pbt::quick_cases = 8000, pbt::thorough_cases = 150000;

namespace {
typedef std::vector<std::string> V;
Ctx *ctx;
Car *K;
size_t mark;
// what the commands below saw
struct Seen { char kind; uint64_t t; bool on; };
std::vector<Seen> seen;
enum cli_retval mark_cmd(int, char **) { seen.push_back({ 'm', vos::now_us, global_logfp != nullptr }); return CMD_OK; }
enum cli_retval wait_cmd(int argc, char **argv) { if (argc > 1) vos::advance((uint64_t)atoi(argv[1]) * 1000); return CMD_OK; }
enum cli_retval nop_cmd(int, char **) { return CMD_OK; }
const struct cmd_tbl_entry deep_table[] = { { "leaf", "leaf", "leaf", nop_cmd, 0, NULL }, CLI_TBL_BUILTINS, CLI_TBL_END };
const struct cmd_tbl_entry sub_table[] = { { "leaf", "leaf", "leaf", nop_cmd, 0, NULL }, { "deep", "deep", "deep", NULL, 0, deep_table }, CLI_TBL_BUILTINS, CLI_TBL_END };
std::string slurp(const std::string &f) { std::string s; FILE *p = fopen(f.c_str(), "r"); if (!p) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
std::string dump(const Bytes &b) { std::string s; for (uint8_t x : b) s += fmt("0x%02X ", x); return squeeze(s); }
V data(const Car &k) {
	V v;
	for (int m = 1; m <= 2; m++) {
		v.push_back(fmt("D MODE %d DATA", m));
		for (size_t i = 0; i < std::min<size_t>(8, k.ecus.size()); i++) {
			auto im = k.stored[i].find(m);
			if (im != k.stored[i].end()) for (auto &x : im->second) v.push_back(fmt("%zu: ", i) + dump(x.second));
		}
	}
	return v;
}
void clean(const std::string &d) { if (DIR *p = opendir(d.c_str())) { while (struct dirent *e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(p); } }
}

void pbt::property(Ctx &c) {
	ctx = &c;
	setvbuf(stdout, nullptr, _IOLBF, 0);
	init_lib();
	set_init();
	seen.clear();
	// a scratch directory of this worker
	std::string dir = fmt("w%d", (int)getppid());
	mkdir(dir.c_str(), 0700);
	clean(dir);
	PBT_CHECK(c, chdir(dir.c_str()) == 0, "harness: chdir");
	unsigned have = c.chance(1, 6) ? c.pick({ 99u, 100u, 50u }) : c.range(0, 3);
	std::map<std::string, V> files;           // name -> lines
	for (unsigned i = 0; i < have; i++) { std::string f = fmt("log.%02u", i); FILE *p = fopen(f.c_str(), "w"); fputs("kept\n", p); fclose(p); files[f] = { "kept" }; }
	P p = c.pick({ PJ1850, P9141, P14230 });
	iso::If itf = Sess::pick_itf(c, p);
	if (p == P9141) while (!itf.frame()) itf = Sess::pick_itf(c, p);
	Car k(c, p, itf);
	K = &k;
	if (global_dl0d) diag_l0_del(global_dl0d);
	global_dl0d = &k.s.dev;
	unsigned n = itf.nohdr() ? 1 : c.weighted({ 0, 6, 3, 1 });
	std::set<int> used = { 0 };
	for (unsigned i = 0; i < n; i++) { int a; do a = (int)c.range(1, 255); while (used.count(a)); used.insert(a); k.ecus.push_back(pick_ecu(c, (uint8_t)a)); }
	for (auto &e : k.ecus) for (int m = 1; m <= 2; m++) if (e.sup.count(m) && c.chance(1, 10)) { for (int b = 32; b < 256; b += 32) e.sup[m].insert(b); e.sup[m].insert(255); (m == 1 ? e.v1 : e.v2)[255] = c.bytes(2); }
	bool freeze_ok = false;
	for (auto &e : k.ecus) if (e.sup.count(2)) freeze_ok = true;
	unsigned left = 0;
	bool fresh = true;
	std::vector<V> tables;                    // data at each round of monitoring
	k.hook = [&](const Bytes &q) {
		if (q[0] == 2) fresh = true;
		if (q[0] != 7 || !fresh || !left) return;
		fresh = false;
		tables.push_back(data(k));
		if (--left == 0) vos::ipending_value = 1;
		else for (auto &e : k.ecus) drift(c, e);
	};
	// --- the script and what is to be in the files
	V script;
	struct Line { std::string text; int mark; size_t table; };   // expected log line without its time; or a place for tables
	std::map<std::string, std::vector<Line>> want;
	std::string cur;                           // file being written
	bool scanned = false;
	int menu = 0, marks = 0;
	V refused;
	std::vector<std::vector<std::string>> autos;
	auto add = [&](const std::string &l) { if (!cur.empty()) want[cur].push_back({ l, -1, 0 }); };
	std::vector<bool> mark_on;
	for (auto &f : files) want[f.first].push_back({ "kept", -1, 0 });
	auto arg = [&]() { std::string s; for (unsigned i = c.range(1, 8); i; i--) s += "abcXYZ0189_./%d-"[c.draw(16)]; return s; };
	unsigned rounds = 0, steps = c.range(4, 18), plays = 0;
	auto exists = [&](const std::string &f) { return want.count(f) > 0; };
	for (unsigned i = 0; i < steps; i++) {
		unsigned kind = menu ? c.weighted({ 0, 0, 0, 0, 0, 0, 4, 1, 2, 0, 0, 5, 0 }) : c.weighted({ 5, 3, 3, 3, 5, 3, 3, 2, 2, 2, 2, 0, 1 });
		if (i == 0 && c.chance(2, 3)) kind = 0;
		switch (kind) {
		case 0: {        // log
			std::string name;
			if (c.chance(1, 10)) name = "nodir/x";
			else if (c.chance(1, 2)) name = c.pick<std::string>({ "a.log", "b.log", "Session", "log.00" });
			std::string line = name.empty() ? "log" : "log " + name;
			script.push_back(line);
			if (!cur.empty()) { add("> " + line); break; }
			if (name.empty()) {
				unsigned j = 0;
				while (j < 100 && exists(fmt("log.%02u", j))) j++;
				if (j == 100) break;
				name = fmt("log.%02u", j);
				c.label("automatic name");
			} else if (name == "nodir/x") break;
			cur = name;
			want[cur].push_back({ "FREEDIAG", -1, 0 });
			want[cur].push_back({ "# started", -1, 0 });
			break; }
		case 1: script.push_back("stoplog"); add("> stoplog"); cur.clear(); break;
		case 2: script.push_back("mark"); add("> mark"); if (!cur.empty()) want[cur].back().mark = marks; mark_on.push_back(!cur.empty()); marks++; break;
		case 3: { std::string l = "wait " + std::to_string(c.chance(1, 4) ? c.range(1, 3000000) : c.range(1, 1500)); script.push_back(l); add("> " + l); break; }
		case 4: {        // monitor (scans first if needed)
			if (!scanned) { script.push_back("scan"); add("> scan"); scanned = true; }
			if (!freeze_ok) break;
			unsigned r = c.range(1, 3);
			script.push_back("rounds " + std::to_string(r)); add("> " + script.back());
			script.push_back("monitor"); add("> monitor");
			for (unsigned j = 0; j < r; j++) { if (!cur.empty()) want[cur].push_back({ "", -1, rounds + 1 }); rounds++; }
			break; }
		case 5: { std::string l = c.pick<std::string>({ "leaf", "LEAF", "date" }); for (unsigned j = l == "date" ? 0 : c.draw(4); j; j--) l += " " + arg(); script.push_back(c.chance(1, 4) ? "  " + l + " " : l); std::string w = l; add("> " + w); break; }
		case 6: { std::string l = "leaf"; if (c.chance(1, 2)) l += " " + arg(); script.push_back((menu ? "" : "sub ") + l); if (!menu) add("> sub"); add("> " + l); break; }
		case 7: script.push_back(c.pick<std::string>({ "# a comment", "", "   ", "@ rem" })); break;
		case 8: if (menu) break; script.push_back("?"); add("> ?"); break;
		case 9: script.push_back("sub deep leaf x"); add("> sub"); add("> deep"); add("> leaf x"); break;
		case 10: script.push_back("sub"); add("> sub"); menu = 1; break;
		case 11: script.push_back("up"); add("> up"); menu = 0; break;
		case 12: { std::string l = c.chance(1, 2) ? "play nofile" : "play " + std::string(cur.empty() && !files.empty() ? files.begin()->first : "nofile"); script.push_back(l); add("> " + l); if (l != "play nofile") plays++; break; }
		}
	}
	bool open_end = !cur.empty();
	std::string text;
	for (auto &l : script) { text += l + "\n"; c.note("> %s", l.c_str()); }
	if (menu) { text += "up\n"; add("> up"); }
	std::string in;
	for (unsigned i = 0; i < plays; i++) in += c.pick<std::string>({ "+q", "Q", "s-E\nq" });
		static unsigned *lf; lf = &left;
	struct R { static enum cli_retval rounds(int argc, char **argv) { *lf = argc > 1 ? (unsigned)atoi(argv[1]) : 1; vos::ipending_value = 0; return CMD_OK; } };
	auto find = [](const char *w) { const struct cmd_tbl_entry *t = scantool_cmd_table; while (strcmp(t->command, w)) t++; return *t; };
	struct cmd_tbl_entry extra[] = { { "mark", "mark", "mark", mark_cmd, 0, NULL }, { "wait", "wait", "wait", wait_cmd, 0, NULL }, { "rounds", "rounds", "rounds", R::rounds, 0, NULL }, { "leaf", "leaf", "leaf", nop_cmd, 0, NULL },
		{ "sub", "sub", "sub", NULL, 0, sub_table }, find("scan"), find("monitor"), { nullptr, nullptr, nullptr, nullptr, 0, nullptr } };
	int fd = memfd_create("script", 0);
	PBT_CHECK(c, write(fd, text.data(), text.size()) == (ssize_t)text.size(), "harness: write");
	set_stdin(in);
	c.reset_captured();
	scantool_cli("t", fmt("/proc/self/fd/%d", fd).c_str(), extra);
	fflush(stdout);
	std::string out = c.captured();
	PBT_CHECK(c, k.s.trouble().empty(), "%s", k.s.trouble().c_str());
	PBT_CHECK(c, seen.size() == (size_t)marks, "harness: %zu of %d marks", seen.size(), marks);
	for (int i = 0; i < marks; i++) PBT_CHECK(c, seen[(size_t)i].on == mark_on[(size_t)i], "logging is %s at mark %d", seen[(size_t)i].on ? "on" : "off", i);
	if (open_end && global_logfp) { fclose(global_logfp); global_logfp = nullptr; }
	PBT_CHECK(c, tables.size() == rounds, "harness: %zu rounds of %u", tables.size(), rounds);
	c.label("%u rounds of monitoring", std::min(rounds, 4u));
	// --- the files
	std::set<std::string> have_now;
	if (DIR *d = opendir(".")) { while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') have_now.insert(e->d_name); closedir(d); }
	for (auto &f : have_now) PBT_CHECK(c, want.count(f), "file %s appeared", f.c_str());
	unsigned most = 0;
	for (auto &w : want) {
		PBT_CHECK(c, have_now.count(w.first), "no log file %s", w.first.c_str());
		std::string raw = slurp(w.first);
		V got = lines(raw);
		PBT_CHECK(c, raw.empty() || raw.back() == '\n', "%s: the last line is not ended", w.first.c_str());
		std::vector<Line> lw;
		for (auto &l : w.second) {
			if (!l.table) { lw.push_back(l); continue; }
			for (auto &x : tables[l.table - 1]) lw.push_back({ x, -1, 0 });
		}
		most = std::max(most, (unsigned)lw.size());
		double last = 0;
		int lastmark = -1;
		double lastmt = 0;
		size_t i = 0;
		for (auto &l : lw) {
			PBT_CHECK(c, i < got.size(), "%s ends before '%s':\n%s", w.first.c_str(), l.text.c_str(), raw.c_str());
			std::string g = squeeze(got[i++]);
			if (l.text == "FREEDIAG") { PBT_CHECK(c, g.find("FREEDIAG log format") == 0, "%s: header '%s'", w.first.c_str(), g.c_str()); last = 0; lastmark = -1; continue; }
			char kind = l.text[0];
			if (kind == '>' || kind == 'D' || kind == '#') {
				char kk; double t; int used2 = 0;
				PBT_CHECK(c, sscanf(g.c_str(), "%c %lf%n", &kk, &t, &used2) == 2 && kk == kind, "%s: line '%s' instead of '%s'\n%s", w.first.c_str(), g.c_str(), l.text.c_str(), raw.c_str());
				PBT_CHECK(c, t >= last, "%s: time goes back at '%s'", w.first.c_str(), g.c_str());
				last = t;
				std::string rest = squeeze(g.substr((size_t)used2));
				if (kind == '#') { PBT_CHECK(c, rest.find("logging started at ") == 0 && t < 0.01, "%s: '%s'", w.first.c_str(), g.c_str()); continue; }
				PBT_CHECK(c, rest == squeeze(l.text.substr(2)), "%s: line '%s' instead of '%s'\n%s", w.first.c_str(), g.c_str(), l.text.c_str(), raw.c_str());
				if (l.mark >= 0) {
					if (lastmark >= 0) {
						double d = (double)(seen[(size_t)l.mark].t - seen[(size_t)lastmark].t) / 1e6;
						PBT_CHECK(c, std::abs(t - lastmt - d) < 0.0021, "%s: %.3f s apart instead of %.3f", w.first.c_str(), t - lastmt, d);
					}
					lastmark = l.mark; lastmt = t;
				}
			} else PBT_CHECK(c, g == l.text, "%s: line '%s' instead of '%s'\n%s", w.first.c_str(), g.c_str(), l.text.c_str(), raw.c_str());
		}
		PBT_CHECK(c, i == got.size(), "%s: unexpected line '%s'", w.first.c_str(), got[i].c_str());
	}
	if (most >= 5) c.nontrivial();
	global_dl0d = nullptr;
	clean(".");
	if (chdir("..") == 0) rmdir(dir.c_str());
}
