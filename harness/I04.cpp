// LINK: vos vtty_stub
// LIBS: cli diag
// What completing a word on the command line offers, at every prompt of a session.
#include "menus.hpp"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/stat.h>
extern "C" {
#include <readline/readline.h>
}
const char *pbt::prop_id = "I04";
const char *pbt::prop_rule = "a command tree of 1-3 levels and a session of 0-10 lines (menus entered and left, scripts sourced at any level, words completed with TAB) on readline; at every prompt 1-4 lines of 0-4 words (commands, prefixes, unknown, hidden and differently "
	"cased words, files, several spaces, text after the cursor) are completed with the cursor anywhere; non-trivial = at least two prompts, one with completions in a menu below the one of the prompt or in a submenu";
unsigned pbt::quick_cases = 15000, pbt::thorough_cases = 300000;

namespace {
Ctx *ctx;
Ref *ref;
Menu *root_menu;
size_t prompts, deep;
std::vector<std::string> files;
enum Out { LEVEL, FILES, NOTHING, ANY };
struct Reached { Out out; Menu *m; };
// where the words before the one completed lead
Reached reach(Menu *m, const std::vector<std::string> &w) {
	bool sure = true;
	for (auto &x : w) {
		Entry *e = nullptr;
		for (auto &y : m->e) if (!strcasecmp(y.name.c_str(), x.c_str())) { e = &y; break; }
		if (!e) return { NOTHING, nullptr };
		if (e->name != x || (e->flags & CLI_CMD_HIDDEN)) sure = false;      // typed differently or not shown: completing may give up
		if (!e->sub) return { sure ? e->flags & CLI_CMD_FILEARG ? FILES : NOTHING : ANY, e->flags & CLI_CMD_FILEARG ? root_menu : nullptr };
		m = e->sub;
	}
	return { sure ? LEVEL : ANY, m };
}
std::string word(Ctx &c, Menu *m, Entry **e) {
	static const char *const odd[] = { "zz", "set", "q", "1", "-x", "no-such" };
	*e = nullptr;
	if (c.chance(1, 10)) return odd[c.draw(6)];
	*e = &m->e[c.draw(m->e.size())];
	std::string s = (*e)->name;
	if (c.chance(1, 12)) for (auto &ch : s) ch = (char)(c.chance(1, 2) ? toupper(ch) : tolower(ch));
	return s;
}
void query(Menu *at) {
	Ctx &c = *ctx;
	std::string line, text, after;
	std::vector<std::string> before;
	auto gap = [&]() { return std::string(c.chance(1, 5) ? 3 : 1, ' '); };
	if (c.chance(1, 6)) line = gap();
	Menu *m = at;
	for (unsigned n = c.weighted({ 3, 4, 3, 1 }); n; n--) {
		Entry *e;
		Menu *cur = m;
		unsigned tries = 0;
		do before.push_back(word(c, cur, &e)), tries++; while (e && !e->sub && n > 1 && tries < 4 && (before.pop_back(), true));
		line += before.back() + gap();
		if (e && e->sub) m = e->sub;
	}
	Entry *e;
	text = word(c, m, &e);
	if (files.size() && c.chance(1, 6)) text = c.pick(files);
	std::string whole = text;
	if (!c.chance(1, 5)) text.resize(c.draw(text.size() + 1));
	switch (c.weighted({ 4, 1, 2, 1 })) {
	case 0: break;
	case 1: after = whole.substr(text.size()); break;
	case 2: { Entry *x; after = gap() + word(c, m, &x); if (c.chance(1, 2)) after += gap() + word(c, root_menu, &x); break; }
	default: after = whole.substr(text.size()) + gap() + "x" + gap(); }
	size_t start = line.size(), point = start + text.size();
	line += text + after;
	rl_replace_line(line.c_str(), 1);
	rl_point = (int)point;
	rl_insert_completions(1, 0);
	std::string now = rl_line_buffer;
	rl_replace_line("", 1);
	rl_point = 0;
	Reached r = reach(at, before);
	std::set<std::string> want, got;
	if (r.m) for (auto &y : r.m->e) if (!(y.flags & CLI_CMD_HIDDEN) && y.name.compare(0, text.size(), text) == 0) want.insert(y.name);
	if (r.out == FILES || (r.out == ANY && r.m == root_menu)) { if (r.out == FILES) want.clear(); for (auto &f : files) if (f.compare(0, text.size(), text) == 0) want.insert(f); }
	if (r.out == NOTHING) want.clear();
	if (now != line) {
		PBT_CHECK(c, now.size() >= start + after.size() && now.compare(0, start, line, 0, start) == 0 && now.compare(now.size() - after.size(), after.size(), after) == 0, "completing \"%s\" at %zu makes it \"%s\"", line.c_str(), point, now.c_str());
		std::string mid = now.substr(start, now.size() - start - after.size());
		for (size_t i = 0; i < mid.size();) { size_t b = mid.find(' ', i); if (b == std::string::npos) b = mid.size(); if (b > i) got.insert(mid.substr(i, b - i)); i = b + 1; }
	}
	std::string g, w;
	for (auto &x : got) g += x + " ";
	for (auto &x : want) w += x + " ";
	std::string where = "at prompt " + std::to_string(prompts) + ", \"" + line.substr(0, point) + "|" + line.substr(point) + "\" offers ";
	if (r.out == ANY) { for (auto &x : got) PBT_CHECK(c, want.count(x) || (x.size() >= text.size() && r.m && std::any_of(r.m->e.begin(), r.m->e.end(), [&](Entry &y) { return !(y.flags & CLI_CMD_HIDDEN) && y.name == x && !strncasecmp(x.c_str(), text.c_str(), text.size()); })), "%s%s", where.c_str(), g.c_str()); return; }
	PBT_CHECK(c, got == want, "%s%sinstead of %s", where.c_str(), g.empty() ? "nothing " : g.c_str(), w.empty() ? "nothing" : w.c_str());
	if (r.out == LEVEL && !want.empty() && (r.m != at || at != root_menu)) deep++;
	c.label("offers %s%s%s", r.out == FILES ? "files" : want.empty() ? "nothing" : want.size() > 1 ? "several commands" : "one command", r.m && r.m != at ? " of a menu below" : "", after.empty() ? "" : ", text after");
}
int at_prompt(void) {
	PBT_CHECK(*ctx, prompts < ref->prompts.size(), "%zu prompts, only %zu expected", prompts + 1, ref->prompts.size());
	Menu *m = ref->prompts[prompts];
	unsigned n = ctx->range(1, 4);
	if (prompts < 12) while (n--) query(m);
	prompts++;
	return 0;
}
}

void pbt::property(Ctx &c) {
	ctx = &c;
	fill<63>(fns);
	Menu *root = root_menu = gen(c, 1);
	table(root);
	for (auto *m : menus) { c.note("menu:"); for (auto &e : m->e) c.note("  %s %s%d%s", e.name.c_str(), e.kind == Entry::SUB ? "menu " : "fn ", e.fn, e.flags & CLI_CMD_HIDDEN ? " hidden" : e.flags & CLI_CMD_FILEARG ? " file" : ""); }
	char dir[40];                           // one per worker, emptied by the next case after a failure
	snprintf(dir, sizeof(dir), "/tmp/i04-%d", (int)getppid());
	mkdir(dir, 0700);
	if (chdir(dir)) c.discard();
	for (const char *f : { "data", "diag.log", "a1", "x2.txt", "set" }) unlink(f);
	for (unsigned n = c.draw(4); n; n--) { std::string f = c.pick({ "data", "diag.log", "a1", "x2.txt", "set" }); if (std::find(files.begin(), files.end(), f) == files.end()) files.push_back(f); }
	// a session: the menus the lines lead to are known to the generator
	std::vector<Stream> fs(2);
	fs[1].file = false;
	for (unsigned f = 0; f < 2; f++) {
		for (unsigned n = c.draw(f ? 11 : 4); n; n--) {
			std::string l;
			Menu *m = c.chance(1, 2) ? root : menus[c.draw(menus.size())];
			if (c.chance(1, 5)) { fs[f].lines.push_back("up"); continue; }
			for (unsigned k = 0; k < 4; k++) {
				auto &e = m->e[c.draw(m->e.size())];
				if (e.kind == Entry::EXIT && !c.chance(1, 12)) continue;
				if (e.kind == Entry::FN && c.chance(1, 2)) continue;
				if (e.kind == Entry::FN && (rets[e.fn] == CMD_EXIT)) continue;
				l += (l.empty() ? "" : " ") + e.name;
				if (e.kind == Entry::SOURCE && f) l += " @0";
				if (e.kind != Entry::SUB || c.chance(1, 2)) break;
				m = e.sub;
			}
			if (!f && l.find("source") != std::string::npos) continue;
			if (!l.empty()) fs[f].lines.push_back(l);
		}
	}
	for (auto &l : fs[0].lines) c.note("file: %s", l.c_str());
	for (auto &l : fs[1].lines) c.note("> %s", l.c_str());
	static Ref r[2];
	for (int k = 0; k < 2; k++) {
		r[k].abort_file = k;
		r[k].root = root;
		std::vector<Stream> srcs(fs.begin(), fs.end() - 1);
		r[k].files = &srcs;
		Stream s = fs[1];
		r[k].run(root, s, {});
		if (r[k].steps > 1000) c.discard();
	}
	// words of the session completed with TAB: only where there is exactly one way to
	ref = &r[0];
	if (r[0].prompts != r[1].prompts) c.discard();
	// one prompt may read several lines only if they are read at this prompt: line i is read at prompt i
	std::string t;
	for (size_t i = 0; i < fs[1].lines.size(); i++) {
		std::string l = fs[1].lines[i], out;
		Menu *m = i < r[0].prompts.size() ? r[0].prompts[i] : nullptr;
		size_t a = 0;
		while (m && a < l.size()) {
			size_t b = std::min(l.find(' ', a), l.size());
			std::string w = l.substr(a, b - a);
			unsigned len = (unsigned)c.draw(w.size() + 1);
			unsigned fit = 0;
			Menu *next = nullptr;
			for (auto &y : m->e) { if (!(y.flags & CLI_CMD_HIDDEN) && y.name.compare(0, len, w, 0, len) == 0) fit++; if (y.name == w && !(y.flags & CLI_CMD_HIDDEN)) next = y.sub; }
			bool known = false;
			for (auto &y : m->e) known |= y.name == w && !(y.flags & CLI_CMD_HIDDEN);
			if (!known) break;
			if (fit == 1 && c.chance(1, 2)) { out += w.substr(0, len) + "\t"; c.label("TAB in the session"); }
			else out += w + " ";
			a = std::min(b + 1, l.size());
			m = next;
		}
		t += out + l.substr(std::min(a, l.size())) + "\n";
	}
	int f0 = memfd_create("script", 0), f1 = memfd_create("stdin", 0);
	std::string path = "/proc/self/fd/" + std::to_string(f0), t0;
	for (auto &l : fs[0].lines) t0 += l + "\n";
	mem(f0, t0);
	for (size_t p; (p = t.find("@0")) != std::string::npos;) t.replace(p, 2, path);
	mem(f1, t);
	dup2(f1, 0);
	for (auto &f : files) { int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); }
	rl_startup_hook = at_prompt;
	struct cli_callbacks cb = { logcmd, onexit };
	cli_set_callbacks(&cb);
	struct Clean { const char *d; ~Clean() { if (chdir("/") == 0) { for (auto &f : files) unlink((std::string(d) + "/" + f).c_str()); rmdir(d); } } };
	cli_enter("test", nullptr, root->tbl.data());
	{ Clean k = { dir }; }
	for (auto &s : did) { size_t p; while ((p = s.find(path)) != std::string::npos) s.replace(p, path.size(), "@0"); }
	PBT_CHECK(c, did == r[0].did || did == r[1].did, "executed: %s\ninstead of: %s", show(did).c_str(), show(r[0].did).c_str());
	PBT_CHECK(c, prompts == r[0].prompts.size(), "%zu prompts instead of %zu", prompts, r[0].prompts.size());
	if (prompts > 1 && deep) c.nontrivial();
	c.label("%s prompts", prompts > 5 ? ">5" : prompts > 1 ? "2-5" : "1");
}
