// LINK: vos vtty_stub
// LIBS: cli diag
// Command menus and scripts against a reference interpreter.
#include "menus.hpp"
const char *pbt::prop_id = "I01";
const char *pbt::prop_rule = "a command tree of 1-3 levels with 1-7 entries each (names that share prefixes and recur in other levels, hidden and catch-all entries, all return codes) and 1-3 scripts of 0-12 lines (multi-level commands, menus entered and left, "
	"unknown words, comments, blank lines, sourcing, up to 4000 characters or 400 words), run as start script and on standard input; non-trivial = at least two commands executed, or a line beyond 1400 characters or 299 words";
unsigned pbt::quick_cases = 15000, pbt::thorough_cases = 300000;

void pbt::property(Ctx &c) {
	fill<63>(fns);
	Menu *root = gen(c, 1);
	table(root);
	for (auto *m : menus) { c.note("menu:"); for (auto &e : m->e) c.note("  %s %s%d%s", e.name.c_str(), e.kind == Entry::SUB ? "menu " : "fn ", e.fn, e.kind == Entry::FN ? (" returns " + std::to_string(rets[e.fn])).c_str() : ""); }
	unsigned nf = c.range(1, 3);
	std::vector<Stream> files(nf);          // the last one is standard input
	bool longish = false;
	for (unsigned f = 0; f < nf; f++) {
		bool tty = f == nf - 1;              // a directory cannot be read: nothing happens
		files[f].file = !tty;
		for (unsigned n = c.weighted({ 1, 2, 2, 2, 2, 2, 1 }) * 2; n; n--) {
			std::string l;
			auto sep = [&]() -> std::string { return tty || !c.chance(1, 6) ? std::string(c.chance(1, 8) ? 3 : 1, ' ') : c.chance(1, 2) ? "\t" : " \t "; };
			auto cmdpath = [&]() {
				std::string p;
				Menu *m = c.chance(2, 3) ? root : menus[c.draw(menus.size())];
				while (1) {
					auto &e = m->e[c.draw(m->e.size())];
					if ((e.kind == Entry::EXIT || (e.kind == Entry::UP && c.chance(1, 2))) && !c.chance(1, 6)) continue;
					std::string nm = e.name;
					if (c.chance(1, 6)) for (auto &ch : nm) ch = (char)(c.chance(1, 2) ? toupper(ch) : tolower(ch));
					if (!p.empty()) p += sep();
					p += nm;
					if (e.kind == Entry::SOURCE) { if (c.chance(1, 12)) p += " /"; else if (c.chance(5, 6)) p += " @" + std::to_string(c.chance(5, 6) && f + 1 < nf - 1 ? c.range(f + 1, nf - 2) : c.chance(1, 2) ? 77 : (tty && nf > 1 ? 0 : 77)); break; }
					if (e.kind != Entry::SUB || c.chance(1, 4)) break;
					m = e.sub;
				}
				return p;
			};
			unsigned kind = c.weighted({ 12, 1, 2, 1, 1, 1 });
			switch (kind) {
			case 0: case 5:
				l = cmdpath();
				if (l.find('@') != std::string::npos) break;
				for (unsigned k = c.weighted({ 4, 3, 2, 1 }); k; k--) {
					l += sep();
					if (c.chance(1, 4)) l += c.pick({ "up", "exit", "set", "diag", "#", "@x", "\"a", "b\"", "'", "0x10", "help" });
					else for (unsigned j = c.range(1, 6); j; j--) l += (char)c.range(33, 126);
				}
				if (kind == 5) {               // very long, with more commands in it
					longish = true;
					if (c.chance(1, 2)) { size_t at = c.pick({ 1397, 1398, 1399, 1400, 2797, 2798, 4000 }); if (l.size() < at) { bool w = c.chance(1, 2); if (w) l += ' '; while (l.size() < at) l += w && c.chance(1, 12) ? ' ' : 'y'; } }
					else for (unsigned j = c.range(280, 320); j; j--) l += " w";
					l += " " + cmdpath();
				}
				break;
			case 1: for (unsigned j = c.range(1, 8); j; j--) l += (char)c.range(33, 126); if (l[0] == '!') l[0] = '?'; break;
			case 2: l = "up"; break;
			case 3: l = c.chance(1, 2) ? "#" : "@"; l += " note "; if (c.chance(1, 3)) { size_t at = c.pick({ 1398, 1399, 1400, 2798 }); l.resize(at, '-'); longish = true; } l += cmdpath(); break;
			case 4: if (!tty && c.chance(1, 2)) l = " \t "; break;
			}
			if (c.chance(1, 4) && l[0] != '#' && l[0] != '@') l = " " + l;
			files[f].lines.push_back(l);
		}
	}
	// names of the files as the program sees them
	std::vector<int> fds;
	std::vector<std::string> path(nf), text(nf);
	for (unsigned f = 0; f < nf; f++) { fds.push_back(memfd_create("script", 0)); path[f] = "/proc/self/fd/" + std::to_string(fds[f]); }
	for (int f = (int)nf - 1; f >= 0; f--) {
		std::string eol = f + 1 < (int)nf && c.chance(1, 6) ? "\r\n" : "\n", t;
		for (size_t i = 0; i < files[f].lines.size(); i++) {
			std::string l = files[f].lines[i];
			c.note("%s%d> %s%s", f + 1 == (int)nf ? "stdin" : "file", f, l.substr(0, 60).c_str(), l.size() > 60 ? (" ... " + l.substr(l.size() - 20) + " (" + std::to_string(l.size()) + " characters)").c_str() : "");
			for (unsigned k = 0; k < nf; k++) { std::string key = " @" + std::to_string(k); size_t at = l.rfind(key); if (at != std::string::npos && at + key.size() == l.size()) l = l.substr(0, at) + " " + path[k]; }
			t += l;
			if (i + 1 < files[f].lines.size() || !c.chance(1, 4)) t += eol;
		}
		text[f] = t;
		mem(fds[f], t);
		if (f + 1 == (int)nf) dup2(fds[f], 0);
	}
	bool init = nf > 1, missing = c.chance(1, 30);
	// what should happen
	bool ok = false;
	Ref r[2];
	for (int k = 0; k < 2; k++) {
		r[k].abort_file = k;
		r[k].root = root;
		std::vector<Stream> srcs(files.begin(), files.end() - 1);
		r[k].files = &srcs;
		int rv = CMD_OK;
		if (missing) rv = CMD_FAILED; else if (init) rv = r[k].source("@0");
		if (rv == CMD_OK) { Stream s = files[nf - 1]; r[k].run(root, s, {}); }
		if (r[k].steps > 1000) c.discard();
	}
	if (r[0].did.size() > 1 || longish) c.nontrivial();
	c.label("%s commands", r[0].did.size() > 5 ? ">5" : r[0].did.size() > 1 ? "2-5" : "0-1");
	if (longish) c.label("long lines");
	struct cli_callbacks cb = { logcmd, onexit };
	cli_set_callbacks(&cb);
	cli_enter("test", missing ? "/nonexistent/script" : init ? path[0].c_str() : nullptr, root->tbl.data());
	// undo the file names
	auto plain = [&](std::string s) { for (unsigned k = 0; k < nf; k++) { size_t a; while ((a = s.find(path[k])) != std::string::npos) s.replace(a, path[k].size(), "@" + std::to_string(k)); } return s; };
	for (auto &s : logged) s = plain(s);
	for (auto &s : did) s = plain(s);
	for (int k = 0; k < 2; k++) ok |= r[k].did == did && r[k].logged == logged;
	PBT_CHECK(c, ok, "executed: %s\nlogged: %s\ninstead of: %s\nlogged: %s", show(did).c_str(), show(logged).c_str(), show(r[0].did).c_str(), show(r[0].logged).c_str());
	PBT_CHECK(c, exits == 1, "the exit handler ran %d times", exits);
	// help lists what can be typed
	Menu *m = menus[c.draw(menus.size())];
	did.clear();
	fflush(stdout);
	c.reset_captured();
	char h0[] = "help";
	char *av[] = { h0, nullptr, nullptr };
	cli_help_basic(1, av, m->tbl.data());
	fflush(stdout);
	std::string out = c.captured();
	for (auto &e : m->e) {
		bool listed = out.find("\t" + e.usage + "\n") != std::string::npos;
		PBT_CHECK(c, listed == !(e.flags & CLI_CMD_HIDDEN), "help %s %s", listed ? "lists" : "does not list", e.name.c_str());
	}
	auto &e = m->e[c.draw(m->e.size())];
	std::string nm = e.name;
	av[1] = &nm[0];
	c.reset_captured();
	cli_help_basic(2, av, m->tbl.data());
	fflush(stdout);
	out = c.captured();
	PBT_CHECK(c, out.find(e.help) != std::string::npos && out.find(e.usage) != std::string::npos, "help %s shows %s", nm.c_str(), out.c_str());
}
