// Generated command menus and a reference interpreter for them.
#pragma once
#include "pbt.hpp"
#include <cstring>
#include <strings.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "libcli.h"
}
using namespace pbt;

namespace {
std::vector<std::string> did, logged;
std::vector<enum cli_retval> rets;
int exits;
std::string join(int argc, char **argv) { std::string s; for (int i = 0; i < argc; i++) s += std::string(i ? "|" : "") + argv[i]; return s; }
template <int N> enum cli_retval R(int argc, char **argv) { did.push_back(std::to_string(N) + ":" + join(argc, argv)); return rets[N]; }
typedef enum cli_retval (*Fn)(int, char **);
template <int N> void fill(std::vector<Fn> &v) { if constexpr (N > 0) fill<N - 1>(v); v.push_back(R<N>); }
void logcmd(int argc, char **argv) { logged.push_back(join(argc, argv)); }
void onexit() { exits++; }

struct Menu;
struct Entry { std::string name, usage, help; enum { FN, SUB, UP, EXIT, SOURCE } kind; int fn = -1; Menu *sub = nullptr; int flags = 0; };
struct Menu { std::vector<Entry> e; std::vector<struct cmd_tbl_entry> tbl; };
std::vector<Menu *> menus;
std::vector<Fn> fns;
int used;

Menu *gen(Ctx &c, int depth) {
	static const char *const pool[] = { "set", "se", "setx", "diag", "di", "show", "read", "re", "go", "a", "ab", "help", "x1" };
	Menu *m = new Menu;
	unsigned n = c.range(1, 5);
	for (unsigned i = 0; i < n; i++) {
		Entry e;
		e.name = pool[c.draw(13)];
		if (c.chance(1, 20)) e.name = std::string(c.range(20, 90), 'n');
		bool dup = false;
		for (auto &x : m->e) dup |= !strcasecmp(x.name.c_str(), e.name.c_str());
		if (dup) continue;
		for (auto &ch : e.name) if (c.chance(1, 10)) ch = (char)toupper(ch);
		e.usage = e.name + " [usage]"; e.help = "help of " + e.name;
		e.kind = depth < 3 && c.chance(1, 3) ? Entry::SUB : Entry::FN;
		if (c.chance(1, 6)) e.flags |= CLI_CMD_HIDDEN;
		if (c.chance(1, 10)) e.flags |= CLI_CMD_FILEARG;
		if (e.kind == Entry::SUB) e.sub = gen(c, depth + 1);
		else {
			if (used > 60) continue;
			e.fn = used++;
			rets.push_back(c.pick({ CMD_OK, CMD_OK, CMD_OK, CMD_USAGE, CMD_FAILED, CMD_OK }));
			if (c.chance(1, 25)) rets.back() = c.pick({ CMD_UP, CMD_EXIT });
		}
		m->e.push_back(e);
	}
	auto add = [&](const char *nm, int kind, int flags) { Entry e; e.name = nm; e.usage = nm; e.help = nm; e.kind = (decltype(e.kind))kind; e.flags = flags; m->e.insert(m->e.begin() + c.draw(m->e.size() + 1), e); };
	add("up", Entry::UP, 0); add("exit", Entry::EXIT, 0);
	if (c.chance(1, 2)) add("quit", Entry::EXIT, CLI_CMD_HIDDEN);
	if (depth == 1 || c.chance(1, 6)) add("source", Entry::SOURCE, CLI_CMD_FILEARG);
	if (c.chance(1, 6) && used <= 60) { add("custom", Entry::FN, CLI_CMD_CUSTOM | (c.chance(1, 2) ? CLI_CMD_HIDDEN : 0)); for (auto &e : m->e) if (e.name == "custom") { e.fn = used++; rets.push_back(CMD_OK); } }
	menus.push_back(m);
	return m;
}
void table(Menu *m) {
	m->tbl.reserve(m->e.size() + 1);
	for (auto &e : m->e) {
		if (e.sub) table(e.sub);
		m->tbl.push_back({ e.name.c_str(), e.usage.c_str(), e.help.c_str(), e.kind == Entry::FN ? fns[e.fn] : e.kind == Entry::UP ? cmd_up : e.kind == Entry::EXIT ? cmd_exit : e.kind == Entry::SOURCE ? cmd_source : nullptr, e.flags, e.sub ? e.sub->tbl.data() : nullptr });
	}
	m->tbl.push_back({ NULL, NULL, NULL, NULL, 0, NULL });
}

// ---- the reference interpreter
struct Stream { std::vector<std::string> lines; size_t pos = 0; bool file = true; };
struct Ref {
	bool abort_file;                    // an unknown command in a menu of a file stops the whole file
	Menu *root;
	std::vector<Stream> *files;
	std::vector<std::string> did, logged;
	std::vector<Menu *> prompts;        // the menu at each line read from standard input
	size_t steps = 0;
	typedef std::vector<std::string> Words;
	static std::string j(const Words &w) { std::string s; for (size_t i = 0; i < w.size(); i++) s += (i ? "|" : "") + w[i]; return s; }
	int source(const std::string &f) {
		for (size_t i = 0; i < files->size(); i++) if (f == "@" + std::to_string(i)) { Stream s = (*files)[i]; return run(root, s, {}) == CMD_EXIT ? CMD_EXIT : CMD_OK; }
		return CMD_FAILED;
	}
	int run(Menu *m, Stream &s, Words given) {
		int rv = CMD_FAILED;
		bool one = !given.empty();
		while (steps++ < 5000) {
			Words w = given;
			if (!one) {
				if (!s.file) prompts.push_back(m);
				if (s.pos >= s.lines.size()) break;
				std::string l = s.lines[s.pos++];
				l = l.substr(0, l.find('\r'));
				if (!l.empty() && (l[0] == '@' || l[0] == '#')) continue;
				for (size_t i = 0; i < l.size();) {
					size_t a = l.find_first_not_of(" \t", i);
					if (a == std::string::npos) break;
					size_t b = l.find_first_of(" \t", a);
					if (b == std::string::npos) b = l.size();
					w.push_back(l.substr(a, b - a));
					i = b;
				}
				if (w.size() > 299) w.resize(299);
			}
			if (w.empty()) continue;
			Entry *e = nullptr, *cust = nullptr;
			for (auto &x : m->e) { if (x.flags & CLI_CMD_CUSTOM) cust = &x; if (!strcasecmp(x.name.c_str(), w[0].c_str())) { e = &x; break; } }
			if (!e) e = cust;
			if (!e) {
				if (one) break;
				if (s.file) { if (abort_file) s.pos = s.lines.size(); break; }
				continue;
			}
			bool done = false;
			if (e->kind == Entry::SUB) {
				logged.push_back(w[0]);
				rv = run(e->sub, s, Words(w.begin() + 1, w.end()));
				done = rv == CMD_EXIT;
			} else {
				logged.push_back(j(w));
				if (e->kind == Entry::UP) rv = CMD_UP;
				else if (e->kind == Entry::EXIT) rv = CMD_EXIT;
				else if (e->kind == Entry::SOURCE) rv = w.size() < 2 ? CMD_USAGE : source(w[1]);
				else { did.push_back(std::to_string(e->fn) + ":" + j(w)); rv = rets[e->fn]; }
				done = rv == CMD_EXIT || (rv == CMD_UP && m != root);
			}
			if (one || done) break;
		}
		return rv == CMD_UP ? CMD_OK : rv;
	}
};
int mem(int fd, const std::string &t) {
	for (size_t o = 0; o < t.size();) { ssize_t k = write(fd, t.data() + o, t.size() - o); if (k <= 0) return -1; o += k; }
	lseek(fd, 0, SEEK_SET);
	return fd;
}
std::string show(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (x.size() > 80 ? x.substr(0, 80) + "..." : x) + "; "; return s; }
}
