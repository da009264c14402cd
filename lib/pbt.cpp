#include "pbt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <string>
#include <sstream>
#include <fstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
extern "C" const char *__asan_default_options(void);
extern "C" const char *__asan_default_options(void) {
	return "detect_leaks=0:symbolize=0:exitcode=77:allocator_may_return_null=1:"
	       "detect_stack_use_after_return=0:handle_abort=0:abort_on_error=0:"
	       "quarantine_size_mb=4:malloc_context_size=4:print_summary=1:"
	       "max_malloc_fill_size=65536:malloc_fill_byte=190";
}
extern "C" const char *__ubsan_default_options(void);
extern "C" const char *__ubsan_default_options(void) {
	return "print_stacktrace=0:symbolize=0:halt_on_error=1:exitcode=78";
}

namespace pbt {

static const size_t MAXC = 1 << 15;
static const size_t MAPSZ = 1 << 16;
enum { ST_RUN, ST_OK, ST_FAIL, ST_DISCARD, ST_EXCL };
struct Shared {
	uint32_t status;
	uint32_t n;
	uint32_t nontrivial;
	uint32_t nlabels;
	char labels[64][48];
	uint32_t notelen;
	char note[16384];
	char msg[8192];
	uint64_t choice[MAXC];
	uint8_t map[MAPSZ];
};
static Shared *sh;
static int capfd = -1;
static bool is_thorough = false;

// current case source
static const std::vector<uint64_t> *src;
static uint64_t rngs;
static bool use_rng;

static uint64_t splitmix(uint64_t &s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

uint64_t Ctx::draw(uint64_t n) {
	if (n <= 1) return 0;
	uint64_t v;
	uint32_t i = sh->n;
	if (i < src->size()) {
		v = (*src)[i];
		if (v >= n) v %= n;
	} else if (use_rng) {
		v = splitmix(rngs) % n;
	} else v = 0;
	if (i >= MAXC) { sh->status = ST_DISCARD; _exit(0); }
	sh->choice[i] = v;
	sh->n = i + 1;
	return v;
}
long Ctx::range(long lo, long hi) { return lo + (long)draw((uint64_t)(hi - lo) + 1); }
bool Ctx::chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
size_t Ctx::weighted(std::initializer_list<unsigned> w) {
	uint64_t t = 0;
	for (unsigned x : w) t += x;
	uint64_t v = draw(t);
	size_t i = 0;
	for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
	return 0;
}
Bytes Ctx::bytes(size_t n) { Bytes b(n); for (auto &x : b) x = byte(); return b; }
size_t Ctx::size(size_t max) {
	switch (draw(4)) {
	case 0: return draw(std::min<size_t>(max, 4) + 1);
	case 1: return draw(std::min<size_t>(max, 16) + 1);
	case 2: return draw(max + 1);
	default: return max - draw(std::min<size_t>(max, 8) + 1);
	}
}
void Ctx::shuffle(std::vector<int> &v) {
	for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[i - 1 - draw(i)]);
}
void Ctx::label(const char *fmt, ...) {
	if (sh->nlabels >= 64) return;
	char b[48];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (uint32_t i = 0; i < sh->nlabels; i++) if (!strcmp(sh->labels[i], b)) return;
	strcpy(sh->labels[sh->nlabels++], b);
}
void Ctx::nontrivial() { sh->nontrivial = 1; }
void Ctx::note(const char *fmt, ...) {
	if (sh->notelen + 2 >= sizeof sh->note) return;
	va_list ap; va_start(ap, fmt);
	int r = vsnprintf(sh->note + sh->notelen, sizeof sh->note - sh->notelen - 1, fmt, ap);
	va_end(ap);
	if (r > 0) sh->notelen = std::min<size_t>(sh->notelen + r, sizeof sh->note - 2);
	sh->note[sh->notelen++] = '\n';
	sh->note[sh->notelen] = 0;
}
void Ctx::fail(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
	sh->status = ST_FAIL;
	fflush(stdout); fflush(stderr);
	_exit(0);
}
void Ctx::discard() { sh->status = ST_DISCARD; _exit(0); }
void Ctx::excluded(const char *id) {
	if (check_known) fail("known finding %s reproduced", id);
	snprintf(sh->msg, sizeof sh->msg, "%s", id); sh->status = ST_EXCL; _exit(0);
}
bool Ctx::thorough() const { return is_thorough; }
static std::string readcap() {
	fflush(stdout); fflush(stderr);
	std::string s;
	char b[4096];
	off_t o = 0;
	ssize_t r;
	while ((r = pread(capfd, b, sizeof b, o)) > 0) { s.append(b, r); o += r; if (s.size() > (1 << 20)) break; }
	return s;
}
std::string Ctx::captured() { return readcap(); }
void Ctx::reset_captured() {
	fflush(stdout); fflush(stderr);
	if (ftruncate(capfd, 0)) {}
	lseek(capfd, 0, SEEK_SET);
}

std::string hex(const void *p, size_t n) {
	std::string s;
	char b[4];
	const uint8_t *q = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, i ? " %02x" : "%02x", q[i]); s += b;
		if (i > 400) { s += "..."; break; } }
	return s;
}
size_t heap_bytes(void) { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

// ---- coverage feedback (code under test is built with -fsanitize-coverage=trace-pc)
extern "C" void __sanitizer_cov_trace_pc(void);
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
	if (!sh) return;
	uintptr_t pc = (uintptr_t)__builtin_return_address(0);
	pc ^= pc >> 16;
	uint8_t &m = sh->map[pc & (MAPSZ - 1)];
	if (m < 255) m++;
}

enum Outcome { OK, FAIL, CRASH, HANG, DISCARD, EXCL };
struct Result {
	Outcome out;
	std::string msg;
};

static Result run_case(const std::vector<uint64_t> &choices, bool rng, uint64_t seed, bool known) {
	memset(sh, 0, offsetof(Shared, choice));
	memset(sh->map, 0, MAPSZ);
	if (ftruncate(capfd, 0)) {}
	lseek(capfd, 0, SEEK_SET);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(2); }
	if (p == 0) {
		setpgid(0, 0);
		dup2(capfd, 1);
		dup2(capfd, 2);
		int nul = open("/dev/null", O_RDONLY);
		if (nul >= 0) { dup2(nul, 0); if (nul > 2) close(nul); }
		struct rlimit rl = { 10, 12 };
		setrlimit(RLIMIT_CPU, &rl);
		struct rlimit rc = { 0, 0 };
		setrlimit(RLIMIT_CORE, &rc);
		signal(SIGALRM, SIG_DFL);
		alarm(60);
		src = &choices; use_rng = rng; rngs = seed;
		Ctx c;
		c.check_known = known;
		property(c);
		sh->status = ST_OK;
		fflush(stdout); fflush(stderr);
		_exit(0);
	}
	int st;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
		return { HANG, "case blocked for more than 60 s (typical cases use milliseconds)" };
	if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
		return { HANG, "case used more than 10 s of CPU (typical cases use milliseconds): runaway loop" };
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
		switch (sh->status) {
		case ST_OK: return { OK, "" };
		case ST_FAIL: return { FAIL, sh->msg };
		case ST_DISCARD: return { DISCARD, "" };
		case ST_EXCL: return { EXCL, sh->msg };
		default: return { CRASH, "code under test called exit() in the middle of a case" };
		}
	}
	std::string cap = readcap(), m;
	if (WIFSIGNALED(st)) m = std::string("killed by signal ") + strsignal(WTERMSIG(st));
	else m = "exit status " + std::to_string(WEXITSTATUS(st));
	for (const char *k : { "ERROR: AddressSanitizer", "runtime error:", "Assertion" }) {
		size_t q = cap.find(k);
		if (q != std::string::npos) {
			size_t b = cap.rfind('\n', q), e = cap.find('\n', q);
			b = b == std::string::npos ? 0 : b + 1;
			m += ": " + cap.substr(b, (e == std::string::npos ? cap.size() : e) - b);
			// a few lines of context incl. first frames
			size_t f = cap.find("#0", e);
			for (int i = 0; i < 4 && f != std::string::npos; i++) {
				size_t g = cap.find('\n', f);
				m += "\n    " + cap.substr(f, g == std::string::npos ? g : g - f);
				if (g == std::string::npos) break;
				f = cap.find("#", g);
			}
			break;
		}
	}
	return { CRASH, m };
}

static std::string jesc(const std::string &s) {
	std::string o;
	char b[8];
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o;
}

struct Agg {
	uint64_t evals = 0, discards = 0;
	std::map<std::string, uint64_t> labels, excl;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
};

struct Stop { volatile uint64_t fail_idx; };
static Stop *stop;

static uint64_t fnv(const uint64_t *p, size_t n) {
	uint64_t h = 1469598103934665603ULL;
	for (size_t i = 0; i < n; i++) { h ^= p[i] + 0x9e37; h *= 1099511628211ULL; h ^= h >> 29; }
	return h;
}
static uint8_t bucket(uint8_t v) {
	return v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
}

static std::vector<uint64_t> mutate(const std::vector<std::vector<uint64_t>> &corpus, uint64_t &r) {
	// favour recent entries: they are the ones that reached something new
	size_t n = corpus.size();
	size_t k = (splitmix(r) & 1) ? n - 1 - (splitmix(r) % std::min<size_t>(n, 16)) : splitmix(r) % n;
	std::vector<uint64_t> c = corpus[k];
	unsigned ops = 1 + splitmix(r) % 4;
	while (ops--) {
		if (c.empty()) break;
		size_t i = splitmix(r) % c.size();
		switch (splitmix(r) % 8) {
		case 0: c[i] = splitmix(r); break;
		case 1: c[i] = c[i] + 1; break;
		case 2: c[i] = c[i] ? c[i] - 1 : 0; break;
		case 3: c[i] = 0; break;
		case 4: { size_t l = 1 + splitmix(r) % 8; l = std::min(l, c.size() - i); c.erase(c.begin() + i, c.begin() + i + l); break; }
		case 5: { size_t l = 1 + splitmix(r) % 8; std::vector<uint64_t> b; for (size_t j = i; j < c.size() && j < i + l; j++) b.push_back(c[j]);
			c.insert(c.begin() + i, b.begin(), b.end()); break; }
		case 6: { const auto &o = corpus[splitmix(r) % n]; if (o.empty()) break; size_t j = splitmix(r) % o.size();
			c.resize(i); c.insert(c.end(), o.begin() + j, o.end()); break; }
		case 7: c.resize(i); break; // the rng continues from here
		}
	}
	return c;
}

static void worker(unsigned w, unsigned nw, uint64_t seed, uint64_t cases, const std::string &dir) {
	sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	capfd = memfd_create("cap", 0);
	Agg a;
	std::vector<std::vector<uint64_t>> corpus;
	std::vector<uint8_t> seen(MAPSZ, 0);
	static const std::vector<uint64_t> none;
	uint64_t r = seed * 0x9e3779b97f4a7c15ULL + w * 77777 + 5;
	for (uint64_t i = w; i < cases; i += nw) {
		if (stop->fail_idx <= i) break;
		uint64_t cs = (seed << 32) ^ (i * 0x2545F4914F6CDD1DULL) ^ 0xABCDEF;
		splitmix(cs);
		bool mut = !corpus.empty() && (splitmix(r) % 3 == 0);
		std::vector<uint64_t> c = mut ? mutate(corpus, r) : none;
		Result res = run_case(c, true, cs, false);
		a.evals++;
		std::vector<uint64_t> got(sh->choice, sh->choice + sh->n);
		if (res.out == DISCARD) { a.discards++; continue; }
		for (uint32_t l = 0; l < sh->nlabels; l++) a.labels[sh->labels[l]]++;
		if (res.out == EXCL) { a.excl[res.msg]++; continue; }
		if (sh->nontrivial) {
			a.distinct.insert(fnv(sh->choice, sh->n));
			if (a.samples.size() < 2 && !mut && sh->notelen) a.samples.push_back(std::string(sh->note, std::min<size_t>(sh->notelen, 1500)));
		}
		if (res.out != OK) {
			// lowest failing index wins
			while (true) {
				uint64_t cur = stop->fail_idx;
				if (cur <= i) break;
				if (__sync_bool_compare_and_swap(&stop->fail_idx, cur, i)) break;
			}
			std::ofstream f(dir + "/fail." + std::to_string(i));
			for (uint64_t v : got) f << v << "\n";
			break;
		}
		bool fresh = false;
		for (size_t k = 0; k < MAPSZ; k += 8) {
			if (!*(uint64_t *)(sh->map + k)) continue;
			for (size_t q = k; q < k + 8; q++) {
				uint8_t b = bucket(sh->map[q]);
				if (b & ~seen[q]) { seen[q] |= b; fresh = true; }
			}
		}
		if (fresh) corpus.push_back(got);
	}
	std::ofstream o(dir + "/w." + std::to_string(w));
	o << "evals " << a.evals << "\ndiscards " << a.discards << "\ncorpus " << corpus.size() << "\n";
	size_t edges = 0;
	for (uint8_t s : seen) edges += s != 0;
	o << "edges " << edges << "\n";
	for (auto &l : a.labels) o << "label " << l.second << " " << l.first << "\n";
	for (auto &l : a.excl) o << "excl " << l.second << " " << l.first << "\n";
	for (uint64_t d : a.distinct) o << "d " << d << "\n";
	for (auto &s : a.samples) o << "sample " << jesc(s) << "\n";
	o.close();
	_exit(0);
}

static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static bool fails(const std::vector<uint64_t> &c, Result *out) {
	Result r = run_case(c, false, 0, false);
	if (r.out == FAIL || r.out == CRASH || r.out == HANG) { *out = r; return true; }
	return false;
}

static void shrink(std::vector<uint64_t> &best, Result &br, double budget, unsigned maxruns) {
	double t0 = mono();
	unsigned runs = 0;
	auto go = [&](const std::vector<uint64_t> &c) {
		if (runs >= maxruns || mono() - t0 > budget) return false;
		runs++;
		Result r;
		if (fails(c, &r)) {
			std::vector<uint64_t> got(sh->choice, sh->choice + sh->n);
			if (got.size() > c.size()) got = c;
			best = got; br = r; return true;
		}
		return false;
	};
	bool progress = true;
	while (progress && runs < maxruns && mono() - t0 < budget) {
		progress = false;
		for (size_t cut = best.size() / 2; cut >= 1; cut /= 2) {
			while (best.size() > cut) {
				std::vector<uint64_t> c(best.begin(), best.end() - cut);
				if (!go(c)) break;
				progress = true;
			}
		}
		for (size_t blk = 32; blk >= 1; blk /= 2)
			for (size_t i = 0; i + blk <= best.size();) {
				std::vector<uint64_t> c = best;
				c.erase(c.begin() + i, c.begin() + i + blk);
				if (go(c)) progress = true; else i += blk > 1 ? blk / 2 : 1;
				if (runs >= maxruns || mono() - t0 > budget) return;
			}
		for (size_t i = 0; i < best.size(); i++) {
			if (!best[i]) continue;
			std::vector<uint64_t> c = best;
			c[i] = 0;
			if (go(c)) { progress = true; continue; }
			uint64_t lo = 0, hi = best[i];
			while (hi - lo > 1) {
				uint64_t mid = lo + (hi - lo) / 2;
				c = best; if (i >= c.size()) break; c[i] = mid;
				if (go(c)) { hi = mid; progress = true; } else lo = mid;
				if (runs >= maxruns || mono() - t0 > budget) return;
			}
		}
	}
}

static void write_json(const std::string &path, const Agg &a, uint64_t corpus, uint64_t edges, double wall,
		const std::string &viol) {
	std::ofstream o(path);
	o << "{\"evaluations\":" << a.evals << ",\"discarded\":" << a.discards << ",\"distinct_nontrivial\":" << a.distinct.size()
	  << ",\"rule\":\"" << jesc(prop_rule) << "\",\"coverage_corpus\":" << corpus << ",\"edges_hit_max_worker\":" << edges
	  << ",\"classes\":{";
	bool first = true;
	for (auto &l : a.labels) { o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
	o << "},\"excluded_known\":{";
	first = true;
	for (auto &l : a.excl) { o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
	o << "},\"samples\":[";
	first = true;
	for (auto &s : a.samples) { o << (first ? "" : ",") << "\"" << s << "\""; first = false; }
	o << "],\"wall_s\":" << wall << ",\"violation\":\"" << jesc(viol) << "\"}\n";
}

static std::vector<uint64_t> read_choices(const char *path) {
	std::vector<uint64_t> c;
	std::ifstream f(path);
	std::string line;
	while (std::getline(f, line)) {
		if (line.empty() || line[0] == '#') continue;
		c.push_back(strtoull(line.c_str(), NULL, 10));
	}
	return c;
}
}

using namespace pbt;
int main(int argc, char **argv) {
	// usage: run SEED TIER CASES WORKERS OUTDIR | replay FILE [known]
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	if (argc >= 3 && !strcmp(argv[1], "replay")) {
		sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		capfd = memfd_create("cap", 0);
		is_thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
		std::vector<uint64_t> c = read_choices(argv[2]);
		Result r = run_case(c, false, 0, argc > 3);
		printf("%s\n--- outcome %d: %s\n", sh->note, r.out, r.msg.c_str());
		if (getenv("PBT_SHOW")) printf("--- captured\n%s\n", readcap().c_str());
		fflush(stdout);
		return r.out == FAIL || r.out == CRASH || r.out == HANG ? 1 : 0;
	}
	if (argc < 7 || strcmp(argv[1], "run")) { fprintf(stderr, "usage\n"); return 2; }
	uint64_t seed = strtoull(argv[2], NULL, 10);
	is_thorough = !strcmp(argv[3], "thorough");
	uint64_t cases = strtoull(argv[4], NULL, 10);
	if (!cases) cases = is_thorough ? thorough_cases : quick_cases;
	unsigned nw = atoi(argv[5]);
	std::string dir = argv[6];
	double t0 = mono();
	stop = (Stop *)mmap(NULL, sizeof(Stop), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	stop->fail_idx = UINT64_MAX;
	std::vector<pid_t> ps;
	for (unsigned w = 0; w < nw; w++) {
		pid_t p = fork();
		if (!p) worker(w, nw, seed, cases, dir);
		ps.push_back(p);
	}
	for (pid_t p : ps) {
		int st;
		waitpid(p, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker failed\n"); return 2; }
	}
	Agg a;
	uint64_t corpus = 0, edges = 0;
	for (unsigned w = 0; w < nw; w++) {
		std::ifstream f(dir + "/w." + std::to_string(w));
		std::string line;
		while (std::getline(f, line)) {
			std::istringstream is(line);
			std::string k;
			is >> k;
			uint64_t v = 0;
			if (k == "sample") { std::string rest = line.substr(7); if (a.samples.size() < 6) a.samples.push_back(rest); continue; }
			is >> v;
			std::string rest;
			std::getline(is, rest);
			if (!rest.empty()) rest = rest.substr(1);
			if (k == "evals") a.evals += v;
			else if (k == "discards") a.discards += v;
			else if (k == "corpus") corpus += v;
			else if (k == "edges") edges = std::max(edges, v);
			else if (k == "label") a.labels[rest] += v;
			else if (k == "excl") a.excl[rest] += v;
			else if (k == "d") a.distinct.insert(v);
		}
	}
	std::string viol;
	if (stop->fail_idx != UINT64_MAX) {
		sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		capfd = memfd_create("cap", 0);
		std::vector<uint64_t> best = read_choices((dir + "/fail." + std::to_string(stop->fail_idx)).c_str());
		std::vector<uint64_t> first = best;
		Result br;
		bool once = false;
		for (int i = 0; i < 10 && !once; i++) once = fails(best, &br);
		if (!once) {
			fprintf(stderr, "failure of case %llu did not reproduce\n", (unsigned long long)stop->fail_idx);
			write_json(dir + "/result.json", a, corpus, edges, mono() - t0, "");
			return 3;
		}
		if (br.out != HANG && !getenv("PBT_NOSHRINK")) shrink(best, br, 40, 4000);
		bool rep = true;
		Result x = br;
		for (int i = 0; i < 3; i++) rep = rep && fails(best, &x);
		if (!rep) {             // behaviour depends on something else than the input: keep the case as it was found
			best = first;
			once = false;
			for (int i = 0; i < 20 && !once; i++) once = fails(best, &x);
			if (!once) {
				fprintf(stderr, "failure did not replay\n");
				write_json(dir + "/result.json", a, corpus, edges, mono() - t0, "");
				return 3;
			}
			x.msg += " (does not fail on every execution)";
		}
		viol = x.msg;
		std::ofstream o(dir + "/replay.txt");
		o << "# property " << prop_id << " seed " << seed << " case " << stop->fail_idx << " tier " << argv[3] << "\n";
		std::istringstream ms(viol + "\n" + std::string(sh->note));
		std::string l;
		while (std::getline(ms, l)) o << "# " << l << "\n";
		for (uint64_t v : best) o << v << "\n";
		o.close();
	}
	write_json(dir + "/result.json", a, corpus, edges, mono() - t0, viol);
	return viol.empty() ? 0 : 1;
}

// ---- accounting of C allocations (linked with --wrap)
#include <unordered_map>
static std::unordered_map<void *, size_t> &live() { static auto *m = new std::unordered_map<void *, size_t>; return *m; }
static size_t live_bytes;
static void *reg(void *p, size_t n) { if (p) { live()[p] = n; live_bytes += n; } return p; }
static void unreg(void *p) {
	auto it = live().find(p);
	if (it != live().end()) { live_bytes -= it->second; live().erase(it); }
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n) { return reg(__real_malloc(n), n); }
void *__wrap_calloc(size_t a, size_t b) { return reg(__real_calloc(a, b), a * b); }
void *__wrap_realloc(void *p, size_t n) { void *q = __real_realloc(p, n); if (q || !n) { if (p) unreg(p); reg(q, n); } return q; }
void __wrap_free(void *p) { if (p) unreg(p); __real_free(p); }
char *__wrap_strdup(const char *s) { return (char *)reg(__real_strdup(s), strlen(s) + 1); }
char *__wrap_strndup(const char *s, size_t n) { char *r = __real_strndup(s, n); return (char *)reg(r, r ? strlen(r) + 1 : 0); }
}
size_t pbt::lib_bytes() { return live_bytes; }
size_t pbt::lib_blocks() { return live().size(); }
