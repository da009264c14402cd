// LINK: vos wire vtty_stub
// LIBS: app
// The Volvo 850 commands against model ECUs: every request and every line of output is predicted.
#include "car.hpp"
#include "v850tab.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <regex>
#include <optional>
#include <cmath>
#include <sys/stat.h>
using namespace pbt;
using namespace car;
using namespace wire;
const char *pbt::prop_id = "A02";
const char *pbt::prop_rule = "histories of 3-16 Volvo commands (connect by name or number, id, dtc, cleardtc, freeze, live data, memory and ADC reads, dumps, service light, tests, scan of all ECUs, raw requests; legal and illegal arguments, live and stream displays) "
	"with a D2 or KWP71 car whose ECUs hold any data, may be absent, and at any request may refuse, stay silent, or answer another service, another identifier, too short or too long; non-trivial = a connection was made and at least two commands were answered with data";
unsigned pbt::quick_cases = 8000, pbt::thorough_cases = 150000;

namespace {
typedef std::vector<std::string> V;
enum Fault { NONE, REFUSE, SILENT, OTHERSID, OTHERID, SHORT, LONG };
struct DEcu { int addr; std::map<int, Bytes> live, nv, freeze; Bytes dtc; uint8_t seed; int hole_lo, hole_hi; bool wrongkb; bool j1979; };
struct Line { std::string s; bool fuzzy; };
struct Exch { int to; Bytes req; std::vector<Bytes> resp; };
const v850::E *ecu_of(int a) { for (auto &e : v850::ecus) if (e.addr == a) return &e; return nullptr; }
std::string desc_of(int a) { auto e = ecu_of(a); return e ? e->desc : fmt("ECU %02X", a); }
std::string prefix_of(int a) { auto e = ecu_of(a); return e ? e->prefix : "???"; }
const v850::D *code_of(int a, int raw) { for (auto &d : v850::dtcs) if (d.addr == a && d.raw == raw) return &d; return nullptr; }
std::string name_of(int a, int raw) { auto d = code_of(a, raw); return prefix_of(a) + (d && d->suffix >= 0 ? fmt("-%03d", d->suffix > 999 ? 999 : d->suffix) : "-???"); }
bool close_to(const std::string &a, const std::string &b) {        // numbers may differ in the last shown digit
	static const std::regex num("[-+]?[0-9]+(\\.[0-9]+)?");
	auto strip = [&](const std::string &s, std::vector<std::string> &v) { for (auto i = std::sregex_iterator(s.begin(), s.end(), num); i != std::sregex_iterator(); ++i) v.push_back(i->str()); return std::regex_replace(s, num, "#"); };
	std::vector<std::string> x, y;
	if (strip(a, x) != strip(b, y) || x.size() != y.size()) return false;
	for (size_t i = 0; i < x.size(); i++) {
		size_t p = x[i].find('.'), q = y[i].find('.');
		if ((p == std::string::npos) != (q == std::string::npos)) return false;
		double u = atof(x[i].c_str()), w = atof(y[i].c_str());
		if (p == std::string::npos) {
			bool rough = a.find("ohms") != std::string::npos, f = i + 1 == x.size() && a.find("F)") != std::string::npos;
			if (std::abs(u - w) > (rough ? 1 + std::abs(w) / 1000 : f ? 1.001 : 0)) return false;
		} else {
			int dec = (int)(x[i].size() - p - 1);
			if (dec != (int)(y[i].size() - q - 1) || (x[i][0] == '+') != (y[i][0] == '+') || std::abs(u - w) > 1.001 * std::pow(10, -dec)) return false;
		}
	}
	return true;
}
}

struct A02 {
	Ctx &c;
	bool kwp;
	Sess s;
	std::vector<DEcu> ecus;
	// KWP71 car
	std::vector<Bytes> ident;
	Bytes kmem;
	std::map<int, Bytes> adc;
	Bytes kdtc;
	std::vector<Bytes> blocks;
	std::string kwpkb = "ok";
	bool ready = false, pend = false, clearable = true;
	// this command
	std::vector<Exch> log;
	std::vector<std::pair<int, int>> inits;    // address, tester
	Fault fault = NONE;
	unsigned fault_at = 0, busy = 0;
	bool fault_on = false;
	int cur = 0;                               // address being talked to
	// the program
	int conn = 0, addr = 0;                    // 0 no, 1 D2, 2 KWP71, 3 other
	bool read_dtcs = false, dead = false, l3 = false;
	bool have_id = false;
	std::vector<Bytes> id;
	// prediction
	size_t at = 0;
	std::vector<Line> want;
	std::string wrong;
	int fd1;
	unsigned answered = 0;
	std::vector<unsigned> ups, rounds;
	unsigned stop_at = 0;
	std::string hist;

	A02(Ctx &c_, bool k, iso::If i) : c(c_), kwp(k), s(k ? PVAG : PD2, i) {}
	void setup() {
		s.src = 0x13;
		s.w.on_ioctl = [this](unsigned cmd, void *arg) -> int {
			if (cmd == DIAG_IOCTL_IFLUSH) { s.w.rx.clear(); return 0; }
			if (cmd != DIAG_IOCTL_INITBUS) return 0;
			auto *in = (struct diag_l1_initbus_args *)arg;
			vos::advance(2000000);
			inits.push_back({ in->addr, in->testerid });
			if (in->type != DIAG_L1_INITBUS_5BAUD) return DIAG_ERR_INIT_NOTSUPP;
			cur = kwp ? in->addr : in->addr & 0x7f;
			s.tgt = (uint8_t)cur;
			if (!kwp) {
				if (__builtin_popcount(in->addr) % 2 == 0) s.viol(fmt("address %02x sent without odd parity", in->addr));
				DEcu *e = find(cur);
				if (!e) return DIAG_ERR_TIMEOUT;
				in->kb1 = 0xd3; in->kb2 = e->wrongkb ? 0xb1 : 0xb0;
				return 0;
			}
			if (kwpkb == "absent") return DIAG_ERR_TIMEOUT;
			in->kb1 = 0xab; in->kb2 = kwpkb == "wrong" ? 0x03 : 0x02;
			ready = false;
			pend = true;
			uint64_t t = 10000;
			for (uint8_t x : { in->kb1, in->kb2 }) { if (s.itf.frame()) s.w.ecu_frame(t, { x }); else s.w.ecu_bytes(t, { x }); t += 10000; }
			return 0;
		};
		s.ve.on_block = [this](uint8_t t, const Bytes &b) {
			Bytes x = { t };
			x.insert(x.end(), b.begin(), b.end());
			if (!ready) {
				if (t != 9 || !b.empty()) s.viol("identification acknowledged with " + hex(x));
				if (blocks.empty()) { ready = true; s.ve.send(9, {}); return; }
			} else if (blocks.empty()) {
				std::vector<Bytes> r = kreply(x);
				log.push_back({ cur, x, r });
				if (r.empty()) return;
				blocks = r;
				if (r.back()[0] != 9 && r.back()[0] != 0x0a) blocks.push_back({ 9 });
			} else if (t != 9 || !b.empty()) s.viol("block acknowledged with " + hex(x));
			Bytes r = blocks[0];
			blocks.erase(blocks.begin());
			if (r[0] == 0x0a) r = { 0x0a, (uint8_t)(s.ve.tseq + 3) };
			s.ve.send(r[0], Bytes(r.begin() + 1, r.end()));
		};
		s.answer = [this](const Heard &h) {
			std::vector<Say> out;
			if (!kwp && (h.src != 0x13 || h.dest != cur)) s.viol(fmt("request addressed %02x from %02x", h.dest, h.src));
			std::vector<Bytes> r = dreply(h.data);
			log.push_back({ cur, h.data, r });
			uint64_t t = 30000;
			for (auto &m : r) { out.push_back({ t, m, 0 }); t += 60000; }
			return out;
		};
		s.w.on_send = [this](const Bytes &b) {
			if (kwp && pend) {
				pend = false;
				if (b != Bytes{ (uint8_t)~(kwpkb == "wrong" ? 3 : 2) }) s.viol("key byte 2 confirmed with " + hex(b));
				s.ve.tseq = 0;
				blocks = ident;
				Bytes r = blocks[0];
				blocks.erase(blocks.begin());
				s.ve.send(r[0], Bytes(r.begin() + 1, r.end()));
				return 0;
			}
			if (kwp) s.ve.rx(b); else s.feed(b);
			return 0;
		};
	}
	DEcu *find(int a) { for (auto &e : ecus) if (e.addr == a) return &e; return nullptr; }
	uint8_t memat(const DEcu &e, int a) { return (uint8_t)(e.seed * 7 + a * 31 + (a >> 8) * 13); }
	Fault now() { return log.size() == fault_at || (fault_on && log.size() > fault_at) ? fault : NONE; }
	// what a D2 ECU answers
	std::vector<Bytes> dreply(const Bytes &q) {
		std::vector<Bytes> out;
		DEcu *e = find(cur);
		Fault f = now();
		if (!e || f == SILENT) return out;
		Bytes no = { 0x7f, q[0], 0x11 }, r = { (uint8_t)(q[0] ^ 0x40) };
		for (unsigned i = 0; i < busy; i++) out.push_back({ 0x7e, q[0], 0x23 });
		auto add = [&](const Bytes &b) { r.insert(r.end(), b.begin(), b.end()); };
		auto look = [&](std::map<int, Bytes> &m) { auto i = q.size() > 1 ? m.find(q[1]) : m.end(); if (i == m.end()) { r = no; return; } r.push_back(q[1]); add(i->second); };
		std::vector<Bytes> more;
		switch (q[0]) {
		case 0xa0: case 0xa1: break;
		case 0xa5: look(e->live); break;
		case 0xb9: look(e->nv); break;
		case 0xad: look(e->freeze); break;
		case 0xa7: {
			if (q.size() < 6) { r = no; break; }
			int a = q[2] << 8 | q[3];
			if (q[5] > 58 || a + q[5] - 1 >= e->hole_lo && a <= e->hole_hi) { r = no; break; }
			r.insert(r.end(), { 0, q[2], q[3] });
			for (int i = 0; i < q[5]; i++) r.push_back(memat(*e, a + i));
			break; }
		case 0xae: {
			r.push_back(1);
			size_t n = e->dtc.size() > 12 && e->dtc.size() < 30 ? 12 : e->dtc.size();
			add(Bytes(e->dtc.begin(), e->dtc.begin() + n));
			for (size_t i = n; i < e->dtc.size(); i += 12) { Bytes m = { 0xee, 1 }; m.insert(m.end(), e->dtc.begin() + i, e->dtc.begin() + std::min(e->dtc.size(), i + 12)); more.push_back(m); }
			break; }
		case 0xaf: if (clearable) { r.push_back(1); e->dtc.clear(); } else r = no; break;
		case 0xb0: case 0xb2: if (q.size() > 1) r.push_back(q[1]); break;
		case 0x01: if (e->j1979) { r.push_back(q.size() > 1 ? q[1] : 0); add({ 0, 0, 0, 1 }); } else r = no; break;
		default: if (q[0] & 1) { r.insert(r.end(), q.begin() + 1, q.end()); add({ 0x55, e->seed }); } else r = no;
		}
		if (f) more.clear();
		switch (f) {
		case REFUSE: r = no; break;
		case OTHERSID: r[0] ^= 0x81; break;
		case OTHERID: if (r.size() > 2) r[1] ^= 0x20; else r[0] ^= 0x10; break;
		case SHORT: if (r.size() > 1) r.pop_back(); else r[0] ^= 1; more.clear(); break;
		case LONG: if (r.size() < 60) r.push_back(0x33); break;
		default:;
		}
		out.push_back(r);
		for (auto &m : more) out.push_back(m);
		return out;
	}
	// what the KWP71 ECU answers
	std::vector<Bytes> kreply(const Bytes &q) {
		Fault f = now();
		if (f == SILENT) return {};
		Bytes r = { 0x0a }, no = r;
		std::vector<Bytes> more;
		switch (q[0]) {
		case 9: r = { 9 }; break;
		case 1: if (q.size() == 4) { int a = q[2] << 8 | q[3]; if (a + q[1] <= (int)kmem.size()) { r = { 0xfe }; r.insert(r.end(), kmem.begin() + a, kmem.begin() + a + q[1]); } } break;
		case 8: { auto i = adc.find(q.size() > 1 ? q[1] : -1); if (i != adc.end()) { r = { 0xfb }; r.insert(r.end(), i->second.begin(), i->second.end()); } break; }
		case 7: {
			r = { 0xfc };
			if (kdtc.empty()) r.push_back(0);
			size_t n = kdtc.size() > 60 ? kdtc.size() : std::min<size_t>(10, kdtc.size());
			r.insert(r.end(), kdtc.begin(), kdtc.begin() + n);
			for (size_t i = n; i < kdtc.size(); i += 10) { Bytes m = { 0xfc }; m.insert(m.end(), kdtc.begin() + i, kdtc.begin() + std::min(kdtc.size(), i + 10)); more.push_back(m); }
			break; }
		case 5: if (clearable) { r = { 9 }; kdtc.clear(); } break;
		default: if (q[0] & 1) { r = q; r[0] = 0xe7; }
		}
		switch (f) {
		case REFUSE: r = no; more.clear(); break;
		case OTHERSID: case OTHERID: if (r[0] != 0x0a) r[0] = r[0] == 0xf6 ? 0xe5 : 0xf6; break;
		case SHORT: if (r.size() > 1) r.pop_back(); more.clear(); break;
		case LONG: if (r.size() < 200 && r[0] != 0x0a && r[0] != 9) r.push_back(0x33); break;
		default:;
		}
		more.insert(more.begin(), r);
		if (r[0] == 0x0a) more.resize(1);
		return more;
	}
	// --- prediction
	void say(const std::string &x, bool fuzzy = false) { for (auto &l : lines(x)) want.push_back({ l, fuzzy }); }
	std::optional<Bytes> ask(const Bytes &q) {
		if (!wrong.empty()) return {};
		if (at >= log.size()) { wrong = "no request " + hex(q); return {}; }
		Exch &x = log[at++];
		if (x.req != q) { wrong = "request " + hex(x.req) + " instead of " + hex(q); return {}; }
		if (conn == 1 || !kwp) {
			for (auto &r : x.resp) if (!(r.size() == 3 && r[0] == 0x7e && r[2] == 0x23)) return r;
			return {};
		}
		if (x.resp.empty()) return {};
		return x.resp[0];
	}
	bool good(const Bytes &q, const std::optional<Bytes> &r) { return r && r->size() >= 1 && (*r)[0] == (q[0] ^ 0x40) && !(r->size() > 2 && q.size() > 1 && (*r)[1] != q[1]); }
	// data, or nothing when it could not be read
	std::optional<Bytes> dread(int ns, int a, int n) {           // 0 memory, 1 live, 2 nv, 3 freeze
		uint8_t hi = (uint8_t)(a >> 8), lo = (uint8_t)a;
		Bytes q = ns == 0 ? Bytes{ 0xa7, 0, hi, lo, 1, (uint8_t)n } : ns == 1 ? Bytes{ 0xa5, lo, 1 } : ns == 2 ? Bytes{ 0xb9, lo } : Bytes{ 0xad, lo, 0 };
		auto r = ask(q);
		if (!good(q, r) || r->size() < 2) return {};
		if (ns) { if (r->size() > 2) answered++; return Bytes(r->begin() + 2, r->end()); }
		if (r->size() != (size_t)n + 4 || (*r)[1] != 0 || (*r)[2] != hi || (*r)[3] != lo) return {};
		answered++;
		return Bytes(r->begin() + 4, r->end());
	}
	std::optional<Bytes> kread(int ns, int a, int n) {           // 0 memory, 4 adc
		Bytes q = ns == 0 ? Bytes{ 1, (uint8_t)n, (uint8_t)(a >> 8), (uint8_t)a } : Bytes{ 8, (uint8_t)a };
		auto r = ask(q);
		if (!r || (*r)[0] != (ns ? 0xfb : 0xfe) || r->size() != (ns ? 3 : (size_t)n + 1)) return {};
		answered++;
		return Bytes(r->begin() + 1, r->end());
	}
	std::optional<Bytes> dtclist() {
		if (conn == 1) {
			Bytes q = { 0xae, 1 };
			auto r = ask(q);
			if (!good(q, r) || r->size() < 2) return {};
			return Bytes(r->begin() + 2, r->end());
		}
		auto r = ask({ 7 });
		if (!r || (*r)[0] != 0xfc) return {};
		Bytes b(r->begin() + 1, r->end());
		if (b == Bytes{ 0 }) b.clear();
		return b;
	}
	void interpret(int ns, int a, const Bytes &b) {
		auto bat = [&](int x) { say(fmt("Battery voltage: %.1f V", x * 29750.0 / 8250 * 5 / 255), true); };
		if (ns == 0) { if (addr == 0x10 && a <= 0x36 && a + (int)b.size() > 0x36) bat(b[0x36 - a]); return; }
		if (ns != 1) return;
		size_t n = b.size();
		if (addr == 0x7a) switch (a) {
		case 2: if (n >= 2) say(fmt("Engine Coolant Temperature: %dC (%dF)", b[1] - 80, (b[1] - 80) * 9 / 5 + 32), true); break;
		case 3: if (n) bat(b[0]); break;
		case 0x0a: if (n) { static const char *const st[] = { "in progress or engine off", "completed", "not possible", "status unknown" }; say(std::string("Warm-up ") + st[b[0] >> 2 & 3]); say(std::string("MIL ") + (b[0] & 16 ? "" : "not ") + "requested by TCM"); } break;
		case 0x10: if (n) say(fmt("MAF sensor signal: %.2f V", b[0] * 9460.0 / 8250 * 5 / 255), true); break;
		case 0x18: if (n) say(fmt("Short term fuel trim: %+.1f%%", b[0] * 100.0 / 128 - 100), true); break;
		case 0x19: if (n) say(fmt("Long term fuel trim, additive (unscaled): %+d", b[0] - 128)); break;
		case 0x1a: if (n) say(fmt("Long term fuel trim, multiplicative: %+.1f%%", b[0] * 100.0 / 128 - 100), true); break;
		}
		if (addr == 0x6e && a == 5 && n >= 2) {
			static const char *const pos[] = { "Open", "S", "E", "W", "Unknown" }, *const dm[] = { "Economy", "Sport", "Winter", "Unknown" };
			say(fmt("Mode selector: MS1 %s, MS2 %s, switch position %s", b[0] & 1 ? "low" : "high", b[0] & 2 ? "low" : "high", pos[std::min<int>(b[0], 4)]));
			say(fmt("Driving mode: %s", dm[std::min<int>(b[1], 3)]));
		}
		if (addr == 0x6e && a == 0x0c && n >= 4) {
			int raw = b[0] * 256 + b[1], t = (int16_t)(b[2] * 256 + b[3] - 11);
			say(fmt("ATF temperature sensor voltage: %.2f V", raw * 5.0 / 1023), true);
			if (raw < 1023) say(fmt("ATF temperature sensor resistance: %u ohms", (unsigned)(1000.0 * raw / (1023 - raw))), true);
			else want.push_back({ "\x01" "ATF temperature sensor resistance", false });
			say(fmt("ATF temperature: %dC (%dF)", t, t * 9 / 5 + 32), true);
		}
	}
	std::string dump(int digits, int a, const Bytes &b) { std::string r = fmt("%0*X:", digits, a); for (uint8_t x : b) r += fmt(" %02X", x); return r; }
	struct Item { int ns, lo, hi; };
	void show(const std::vector<Item> &items, bool cont, int ns) {
		do {
			size_t first = want.size();
			for (auto &it : items) {
				if (it.ns) {
					auto b = it.ns == 4 ? kread(4, it.lo, 0) : dread(it.ns, it.lo, 0);
					if (!wrong.empty()) return;
					if (!b) { say(fmt("Error reading %02X", it.lo)); return; }
					std::string p = it.ns == 3 ? name_of(addr, it.lo) + "  " : "";
					if (b->empty()) { say(p + fmt("%02X: no data", it.lo)); continue; }
					Bytes shown(b->begin(), b->begin() + std::min<size_t>(20, b->size()));
					say(p + dump(2, it.lo, shown));
					if (b->size() > 20) say(fmt(" (%zu bytes received, only first 20 shown)", b->size()));
					interpret(it.ns, it.lo, shown);
					continue;
				}
				for (int a = it.lo; a <= it.hi; a += 8) {
					int n = std::min(8, it.hi - a + 1);
					auto b = conn == 1 ? dread(0, a, n) : kread(0, a, n);
					if (!wrong.empty()) return;
					if (!b) { say(fmt("Error reading %s%04X", ns == 1 ? "*" : "", a)); return; }
					say(dump(4, a, *b));
					interpret(0, a, *b);
				}
			}
			if (cont && at < stop_at) { unsigned n = 0, opt = 0; for (size_t i = first; i < want.size(); i++) { n++; if (want[i].s[0] == 1) opt = 1000; } rounds.push_back(n + opt); }
		} while (cont && at < stop_at);
	}
	void id_lines() {
		if (conn == 1) {
			auto b = dread(2, 0xf0, 0);
			if (!b) { say("Couldn't read identification."); return; }
			if (b->size() != 15) { say(fmt("Identification response was %zu bytes, expected 15", b->size())); return; }
			const Bytes &x = *b;
			if (x[0]) { say(fmt("First identification response byte was %02X, expected 0", x[0])); return; }
			for (int i : { 5, 6, 7, 12, 13, 14 }) if (x[i] < 32 || x[i] > 126) { say("Unexpected characters in version response"); return; }
			say(fmt("Hardware ID: P%02X%02X%02X%02X revision %c%c%c", x[1], x[2], x[3], x[4], x[5], x[6], x[7]));
			say(fmt("Software ID:  %02X%02X%02X%02X revision %c%c%c", x[8], x[9], x[10], x[11], x[12], x[13], x[14]));
			if (addr != 0x7a) return;
			auto o = dread(2, 1, 0);
			if (o) order(*o, true);
			return;
		}
		if (!have_id) { say("No stored ECU identification!"); return; }
		if (!order(id[0], true) || id.size() < 3) return;
		if (id[2].size() != 10) { say(fmt("Identification block was %zu bytes, expected 10", id[2].size())); return; }
		for (int i = 0; i < 7; i++) if (!isdigit(id[2][i])) { say("Unexpected characters in identification block"); return; }
		say("Hardware ID: P0" + std::string(id[2].begin(), id[2].begin() + 7));
	}
	bool order(const Bytes &b, bool) {
		if (b.size() != 10) { say(fmt(conn == 1 ? "Identification response was %zu bytes, expected 10" : "Identification block was %zu bytes, expected 10", b.size())); return false; }
		for (uint8_t x : b) if (!isdigit(x)) { say("Unexpected characters in identification block"); return false; }
		std::string t(b.begin(), b.end());
		say("Order number: " + t.substr(0, 1) + " " + t.substr(1, 3) + " " + t.substr(4, 3) + " " + t.substr(7, 3));
		return true;
	}
	void dtc_lines(bool tips) {
		auto b = dtclist();
		if (!wrong.empty()) return;
		if (!b) { say("Couldn't retrieve DTCs."); return; }
		read_dtcs = true;
		if (b->empty()) { say("No stored DTCs."); return; }
		answered++;
		say("Stored DTCs:");
		bool unc = false, have = false;
		size_t span = conn == 1 ? 1 : 5;
		for (size_t i = 0; i < b->size(); i += span) {
			auto d = code_of(addr, (*b)[i]);
			std::string t = d ? d->desc : "";
			say(name_of(addr, (*b)[i]) + fmt(" (%02X) ", (*b)[i]) + t);
			if (!t.empty() && t.back() == '?') unc = true;
			if (d && d->tips) { have = true; if (tips) say(d->tips); }
		}
		if (unc) say("Warning: descriptions and DTC suffixes for lines ending in ? are unconfirmed");
		if (have && !tips) say(fmt("Tips are available for %s. Use \"dtc tips\" to show them.", b->size() > span ? "some of these DTCs" : "this DTC"));
		if (tips && !have) say(fmt("No tips are available for %s.", b->size() > span ? "these DTCs" : "this DTC"));
	}
	// whether it should succeed
	bool connect_lines(int a) {
		bool k = a == 0x10;
		if (k != kwp) {
			// D2 needs an interface that initialises by itself; a KWP71 ECU is not there on such a car
			if (kwp) { if (inits.size() > ninit) wrong = "bus initialised for a protocol the interface cannot do"; return false; }
			ninit++;
			return false;
		}
		if (inits.size() <= ninit) { wrong = "bus not initialised"; return false; }
		int x = inits[ninit].first, tid = inits[ninit].second;
		ninit++;
		if ((kwp ? x : x & 0x7f) != a) { wrong = fmt("address %02x initialised instead of %02x", x, a); return false; }
		if (!kwp && tid != 0x13) { wrong = fmt("tester address %02x", tid); return false; }
		if (kwp ? kwpkb != "ok" : !find(a) || find(a)->wrongkb) return false;
		conn = kwp ? 2 : 1;
		addr = a;
		read_dtcs = false;
		say("Connected to " + desc_of(a) + ".");
		if (kwp) {
			say("Warning: KWP71 communication is not entirely reliable yet.");
			have_id = true;
			id.clear();
			for (auto &b : ident) id.push_back(Bytes(b.begin() + 1, b.end()));
		} else for (int i = 0; i < 3; i++) ask({ 0xa1 });
		return true;
	}
	size_t ninit = 0;
	void disconnect_lines() {
		say("Disconnected from " + desc_of(addr) + ".");
		if (conn == 1) ask({ 0xa0 });
		conn = 0;
		read_dtcs = false;
		l3 = false;
	}
	bool available(int need) {          // 1 D2, 2 KWP71, 12 either; says why not
		if (conn == 0) { say("Not connected."); return false; }
		if (conn == 3) { say("Connected with non-Volvo protocol."); return false; }
		if (need == 12 || need == conn) return true;
		say("This function is not available with this protocol.");
		return false;
	}
	std::string out() {
		fflush(stdout);
		struct stat st;
		fstat(fd1, &st);
		std::string r((size_t)st.st_size, 0);
		if (pread(fd1, &r[0], r.size(), 0) < 0) {}
		return r;
	}
	static std::string tidy(std::string o) {     // drop prompts
		static const std::regex p("[^\n]*\\(y/n\\) \\? ?");
		return std::regex_replace(o, p, "");
	}
	void check_out(const std::string &o0) {
		std::string o = tidy(o0);
		auto got = lines(o);
		size_t i = 0;
		for (auto &w : want) {
			if (w.s[0] == 1) { if (i < got.size() && got[i].compare(0, w.s.size() - 1, w.s.substr(1)) == 0) i++; continue; }
			std::string g = i < got.size() ? got[i] : "(end)", x = w.s;
			while (!x.empty() && x.back() == ' ') x.pop_back();
			while (!g.empty() && g.back() == ' ') g.pop_back();
			PBT_CHECK(c, g == x || (w.fuzzy && close_to(g, x)), "showed \"%s\" instead of \"%s\" after %s\n%s", g.c_str(), x.c_str(), hist.c_str(), o0.c_str());
			i++;
		}
		PBT_CHECK(c, i == got.size(), "also showed \"%s\" after %s\n%s", got[i].c_str(), hist.c_str(), o0.c_str());
	}
	void run();
	void dumpram(const V &w, bool fast);
};

static int count_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

void A02::run() {
	setup();
	if (global_dl0d) diag_l0_del(global_dl0d);
	global_dl0d = &s.dev;
	fd1 = memfd_create("out", 0);
	fflush(stdout);
	dup2(fd1, 1);
	fcntl(1, F_SETFL, fcntl(1, F_GETFL) | O_APPEND);
	vos::on_ipending = [this]() { return stop_at && log.size() >= stop_at ? 1 : 0; };
	vos::on_cursor_up = [this](unsigned n) { ups.push_back(n); };
	c.label(kwp ? "KWP71" : "D2");
	auto mix = [&](std::string x) { for (auto &ch : x) if (c.chance(1, 6)) ch = (char)(isupper(ch) ? tolower(ch) : toupper(ch)); return x; };
	auto num = [&](unsigned b) { return fmt(c.pick({ "0x%x", "%u", "0%o", "0x%02X" }), b); };
	size_t base = lib_bytes();
	unsigned n = c.range(3, 16);
	for (unsigned step = 0; step < n && !dead; step++) {
		if (ftruncate(fd1, 0)) {}
		c.reset_captured();
		log.clear(); inits.clear(); want.clear(); ups.clear(); rounds.clear();
		s.got.clear(); s.w.tx.clear(); s.w.rx.clear(); s.w.frames.clear();
		at = ninit = 0; wrong.clear(); stop_at = 0; blocks.clear();
		fault = c.chance(1, 4) ? (Fault)c.range(REFUSE, LONG) : NONE;
		fault_at = fault ? c.draw(c.chance(1, 3) ? 12 : 2) : 0;
		fault_on = fault && c.chance(1, 3);
		busy = !kwp && c.chance(1, 8) ? c.range(1, 3) : 0;
		clearable = !c.chance(1, 8);
		bool legal = true;                 // false: refused for its arguments
		int before = conn, oldaddr = addr;
		std::string in;
		bool silent_out = false;           // output not predicted
		enum { CONNECT, DISC, SCAN, REQ, PING, PEEK, DUMP, READ, ADC, NV, ID, DTC, CLEAR, FREEZE, SRL, TEST, FOREIGN, NW };
		unsigned what = conn == 0 ? c.weighted({ 30, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 2 }) : conn == 3 ? c.weighted({ 3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1, 6 })
			: kwp ? c.weighted({ 2, 2, 1, 3, 3, 8, 1, 1, 8, 1, 5, 8, 5, 1, 1, 1, 1 }) : c.weighted({ 2, 3, 1, 3, 3, 8, 1, 8, 1, 5, 5, 7, 5, 8, 3, 4, 1 });
		if (step == 0 && !c.chance(1, 6)) what = CONNECT;
		V w;
		enum cli_retval rv = CMD_OK;
		auto go = [&]() {
			std::string t;
			for (auto &x : w) t += x.substr(0, 30) + " ";
			hist += t + "; ";
			c.note("%sfault %d at %u%s busy %u", t.c_str(), fault, fault_at, fault_on ? "+" : "", busy);
			rv = command(what == FOREIGN ? diag_cmd_table : v850_cmd_table, w);
		};
		auto arity = [&](size_t min, size_t max) {
			if (w.size() < min) { say("Too few arguments"); legal = false; }
			if (w.size() > max) { say("Too many arguments"); legal = false; }
			return legal;
		};
		bool extra = c.chance(1, 40);       // one argument too many for a command without any
		std::string answer1, answer2;
		auto consent = [&]() { return c.pick<std::string>({ "y", "yes", "Y", "YES", "Yes", "y", "yes", "n", "no", "", "yess", "yes " }); };
		auto agrees = [](std::string a) { for (auto &ch : a) ch = (char)tolower(ch); return a == "y" || a == "yes"; };
		std::vector<Item> items;
		bool cont = false, live = false;
		// --- compose, run, predict
		switch (what) {
		case CONNECT: {
			int a = kwp && c.chance(4, 5) ? 0x10 : (int)ecus[c.draw((unsigned)ecus.size())].addr;
			if (c.chance(1, 6)) a = (int)c.range(0, 127);
			auto e = ecu_of(a);
			std::string name = e && c.chance(1, 2) ? mix(e->name) : num((unsigned)a);
			unsigned odd = c.chance(1, 12) ? c.range(1, 5) : 0;
			if (odd == 1) name = c.pick<std::string>({ "m43", "128", "0x80", "1x", "-1", "xyz", "4294967297", "99999999999999999999", "0x" });
			w = { "connect", name };
			if (odd == 2) w[1] = "?";
			if (odd == 3) w.pop_back();
			if (odd == 4) w.push_back("x");
			go();
			if (!arity(2, 2)) break;
			if (odd == 2) { silent_out = true; legal = false; for (auto &x : v850::ecus) PBT_CHECK(c, out().find(std::string(" ") + x.name + "\t") != std::string::npos, "ECU %s isn't listed\n%s", x.name, out().c_str()); break; }
			if (conn == 3) { say("Already connected with non-Volvo protocol. Please use 'diag disconnect'."); break; }
			if (conn) { say("Already connected to " + desc_of(addr) + ". Please disconnect first."); break; }
			if (odd == 1) { say("Unknown ECU '" + name + "'"); break; }
			bool ok = connect_lines(a);
			PBT_CHECK(c, (rv == CMD_OK) == ok, "connect to %02x should %s, returned %d after %s\n%s", a, ok ? "succeed" : "fail", rv, hist.c_str(), out().c_str());
			break; }
		case DISC:
			w = { "disconnect" };
			if (extra) w.push_back("x");
			go();
			if (!arity(1, 1) || !available(12)) break;
			disconnect_lines();
			break;
		case SCAN:
			w = { "scan-all" };
			if (extra) w.push_back("x");
			if (conn == 0) { fault_on = false; if (fault == SILENT) fault = REFUSE; }
			go();
			if (!arity(1, 1)) break;
			if (conn == 3) { say("Already connected with non-Volvo protocol. Please use 'diag disconnect'."); break; }
			if (conn) { say("Already connected to " + desc_of(addr) + ". Please disconnect first."); break; }
			say("Scanning all ECUs.");
			for (auto &e : v850::ecus) {
				if (e.addr == 0x10) continue;
				if (!connect_lines(e.addr)) { say(std::string("Couldn't connect to ") + e.desc + "."); continue; }
				id_lines();
				dtc_lines(false);
				disconnect_lines();
			}
			say("Scan-all done.");
			break;
		case REQ: {
			w = { "sendreq" };
			Bytes q = c.bytes(c.range(1, c.chance(1, 6) ? 50 : 8));
			if (kwp && (q[0] == 6 || q[0] == 9 || q[0] == 10)) q[0] = 1;
			if (!kwp && q[0] == 0xae) q[0] = 0xa1;
			for (uint8_t b : q) w.push_back(fmt(c.pick({ "0x%x", "%u", "$%X" }), b));
			bool bad = c.chance(1, 12), none = c.chance(1, 20);
			if (bad) w[1 + c.draw((unsigned)q.size())] = c.pick<std::string>({ "256", "0x100", "65536", "$fff" });
			if (none) w.resize(1);
			busy = 0;
			go();
			if (none) { arity(2, 1025); break; }
			if (!available(12)) break;
			silent_out = true;
			if (bad) { PBT_CHECK(c, log.empty(), "a byte that is none was sent as %s", hex(log[0].req).c_str()); legal = false; break; }
			auto r = ask(q);
			(void)r;
			if (!wrong.empty()) break;
			std::vector<Bytes> shown = log[0].resp, got;
			std::string o = out() + c.captured();
			static const std::regex d("^msg [0-9]+ data: ?(.*)$"), x("0x([0-9A-Fa-f]{1,2})");
			for (auto &l : lines(o)) {
				std::smatch m;
				if (!std::regex_search(l, m, d)) continue;
				Bytes b;
				std::string t = m[1];
				for (auto it = std::sregex_iterator(t.begin(), t.end(), x); it != std::sregex_iterator(); ++it) b.push_back((uint8_t)strtol((*it)[1].str().c_str(), nullptr, 16));
				got.push_back(b);
			}
			if (kwp) for (auto &b : shown) b.erase(b.begin());
			if (!kwp && shown.size() > 1) shown.resize(1);
			if (shown.empty()) PBT_CHECK(c, got.empty() && (o.find("No data received") != std::string::npos || o.find("failed") != std::string::npos), "an unanswered request was not reported\n%s", o.c_str());
			else if (!(kwp && log[0].resp[0][0] == 0x0a)) {
				std::string a, b;
				for (auto &y : got) a += "[" + hex(y) + "]";
				for (auto &y : shown) b += "[" + hex(y) + "]";
				PBT_CHECK(c, a == b, "answer shown as %s instead of %s\n%s", a.c_str(), b.c_str(), o.c_str());
			}
			break; }
		case PING: {
			w = { "ping" };
			if (extra) w.push_back("x");
			go();
			if (!arity(1, 1) || !available(12)) break;
			Bytes q = { (uint8_t)(conn == 1 ? 0xa1 : 9) };
			auto r = ask(q);
			say((conn == 1 ? good(q, r) : r && (*r)[0] == 9) ? "Pong!" : "Ping failed.");
			break; }
		case PEEK: case READ: case ADC: case NV: {
			int ns = what == PEEK ? 0 : what == READ ? 1 : what == NV ? 2 : 4;
			w = { what == PEEK ? "peek" : what == READ ? "read" : what == ADC ? "adc" : "readnv" };
			unsigned k = c.chance(1, 5) ? c.range(0, 6) : c.range(1, 2);
			std::string err;
			DEcu *e = find(addr);
			for (unsigned i = 0; i < k; i++) {
				bool mem = what == PEEK || (what == READ && c.chance(1, 4));
				bool bad = err.empty() && c.chance(1, 15);
				std::string t;
				if (mem) {
					int lo = c.chance(1, 3) ? (int)c.draw(65536) : kwp ? (int)c.draw(c.chance(1, 2) ? 64 : 256) : (int)c.draw(4096), hi = lo;
					if (c.chance(1, 12)) lo = hi = (int)c.range(0xfff0, 0xffff);
					t = fmt(c.pick({ "0x%x", "%u", "0x%04X", "0%o" }), (unsigned)lo);
					unsigned form = c.weighted({ 4, 2, 2, 4 });
					if (form == 1 && lo < 0xffff) { hi = lo + 1; t += c.pick<std::string>({ "w", "W" }); }
					if (form == 2 && lo < 0xfffd) { hi = lo + 3; t += c.pick<std::string>({ "l", "L" }); }
					if (form == 3) { if (c.chance(1, 60)) { lo = 0; hi = 0xffff; t = c.pick<std::string>({ "0", "0x0", "00" }); } else hi = std::min(0xffff, lo + (int)c.draw(c.chance(1, 30) ? 65536 : 40)); t += c.pick<std::string>({ ".", "-" }) + fmt(c.pick({ "0x%x", "%u" }), (unsigned)hi); }
					std::string star = what == READ ? "*" : "";
					if (bad) {
						t = c.pick<std::string>({ "0x10000", "65536", "70000w", "0xffffw", "0xfffdl", "0xfffel", "-1", "w", "l", ".5", "x", "0x", "5x", "5ww", "5.", "5.4", "100.0x10000", "5.65536", "5.-1", "0x10000.0x10010", "4294967296", "18446744073709551616", "5.x" });
						if (what == READ && t.empty()) t = "x";
						err = star + t;
					}
					items.push_back({ 0, lo, hi });
					t = star + t;
				} else {
					int x = c.draw(256);
					if (what == READ && e && !e->live.empty() && !c.chance(1, 5)) { auto it = e->live.begin(); std::advance(it, c.draw((unsigned)e->live.size())); x = it->first; }
					if (what == NV && e && !e->nv.empty() && !c.chance(1, 5)) { auto it = e->nv.begin(); std::advance(it, c.draw((unsigned)e->nv.size())); x = it->first; }
					if (what == ADC && !c.chance(1, 5)) { auto it = adc.begin(); std::advance(it, c.draw((unsigned)adc.size())); x = it->first; }
					t = num((unsigned)x);
					items.push_back({ ns, x, x });
					if (bad) { t = c.pick<std::string>({ "256", "0x100", "65536", "65541", "-1", "-65535", "x", "5x", "0x", "4294967296", "18446744073709551617" }); if (what == READ && c.chance(1, 4)) t = "*"; err = t; }
				}
				w.push_back(t);
			}
			if (what != NV && c.chance(1, 4)) { cont = true; live = c.chance(1, 2); w.push_back(mix(live ? "live" : "stream")); }
			if (cont) stop_at = c.range(1, 30);
			go();
			int need = what == PEEK ? 12 : what == ADC ? 2 : 1;
			if (w.size() < 2 && what == PEEK) { arity(2, 999); break; }
			if (!available(need)) break;
			if (w.size() < 2) { arity(2, 999); break; }
			if (cont && k == 0) { legal = false; break; }
			if (!err.empty()) {
				legal = false;
				silent_out = true;
				std::string o = out();
				PBT_CHECK(c, o.find("Invalid ") != std::string::npos && o.find("'" + (err[0] == '*' && err.size() > 1 ? err.substr(1) : err) + "'") != std::string::npos, "invalid \"%s\" was not refused after %s\n%s", err.c_str(), hist.c_str(), o.c_str());
				break;
			}
			show(items, cont, ns);
			break; }
		case FREEZE: {
			w = { "freeze" };
			DEcu *e = find(addr);
			bool all = c.chance(1, 3);
			if (all) w.push_back(mix("all"));
			std::string err, warn;
			unsigned k = all ? 0 : c.chance(1, 5) ? c.range(0, 5) : c.range(1, 2);
			for (unsigned i = 0; i < k; i++) {
				int raw = e && !e->dtc.empty() && !c.chance(1, 6) ? e->dtc[c.draw((unsigned)e->dtc.size())] : c.byte();
				auto d = code_of(addr, raw);
				std::string t;
				bool bad = err.empty() && c.chance(1, 12);
				if (bad) {
					t = c.pick<std::string>({ "256", "0x100", "-1", "65536", "EFI-999", "AT-", "XX-123", "AT65648", "AT--65", "AT+112", "AT 112", "EFI-231x", "EFI-", "-", "ABS", "efi-231efi-231", "Z-65648" });
					if (c.chance(1, 3) && ecu_of(addr)) t = prefix_of(addr) + c.pick<std::string>({ "-001", "65648", "--112", "-32768", "- 112", "-9999" });
					err = t;
				} else if (d && d->suffix > 0 && ecu_of(addr) && prefix_of(addr).size() + 4 <= 7 && c.chance(1, 2)) {
					t = mix(prefix_of(addr)) + c.pick<std::string>({ "-" }) + fmt("%03d", d->suffix);
					for (auto &x : v850::dtcs) if (x.addr == addr && x.suffix == d->suffix) { raw = x.raw; break; }
				} else {
					bool dec = c.chance(1, 4);
					t = dec ? fmt("%d", raw) : fmt(c.pick({ "0x%x", "0x%02X", "0%o" }), (unsigned)raw);
					if (t[0] != '0' && err.empty()) warn += fmt("Warning: retrieving freeze frame by raw identifier %d (=%02X).\nDid you mean ", raw, raw) + (raw < 100 ? "0x" : prefix_of(addr) + "-") + t + "?\n";
				}
				items.push_back({ 3, raw, raw });
				w.push_back(t);
			}
			go();
			if (!available(1)) break;
			if (w.size() < 2) { arity(2, 999); break; }
			if (all) {
				auto b = dtclist();
				if (!wrong.empty()) break;
				if (!b) { say("Couldn't retrieve DTCs."); break; }
				if (b->empty()) { say("No stored DTCs."); break; }
				for (uint8_t x : *b) items.push_back({ 3, x, x });
				show(items, false, 3);
				break;
			}
			if (!err.empty()) { legal = false; silent_out = true; std::string o = out(); PBT_CHECK(c, o.find("Invalid ") != std::string::npos && o.find("'" + err + "'") != std::string::npos, "invalid \"%s\" was not refused after %s\n%s", err.c_str(), hist.c_str(), o.c_str()); break; }
			say(warn);
			show(items, false, 3);
			break; }
		case DUMP: {
			std::string dir = fmt("d%d", (int)getpid()), file = dir + "/ram";
			mkdir(dir.c_str(), 0700);
			unsigned kind = c.weighted({ 8, 1, 2, 1 });      // a file, full device, unopenable, bad arguments
			bool fast = c.chance(3, 4);
			if (DEcu *e = find(addr)) if (conn == 1 && !fast) { e->hole_lo = 0x100; e->hole_hi = 0x100 + (int)c.range(0, 200); }
			if (!fast && !c.chance(1, 6)) kind = kind ? kind : 2;
			if (fault == SILENT) fault = SHORT;
			w = { "dumpram", kind == 1 ? "/dev/full" : kind == 2 ? dir + "/no/ram" : file };
			if (fast) w.push_back(mix("fast"));
			if (kind == 3) { if (c.chance(1, 2)) w.resize(1); else { w.resize(2); w.push_back(c.chance(1, 2) ? "quick" : "fast"); if (w[2] == "fast") w.push_back("x"); } }
			bool tooquick = kind != 3;
			busy = 0;
			if (kind != 3 && c.chance(1, 3)) { FILE *f = fopen(file.c_str(), "w"); for (int i = 0; i < 20000; i++) fputs("old text\n", f); fclose(f); }
			int fds = count_fds();
			go();
			PBT_CHECK(c, count_fds() == fds, "dumpram leaks a file");
			std::string text;
			FILE *f = fopen(file.c_str(), "r");
			bool there = f;
			if (f) { int ch; while ((ch = getc(f)) != EOF) text += (char)ch; fclose(f); unlink(file.c_str()); }
			rmdir(dir.c_str());
			if (!tooquick) { PBT_CHECK(c, !there, "a refused dump created a file"); legal = false; silent_out = true; break; }
			if (!available(1)) break;
			silent_out = true;
			if (kind == 2) { PBT_CHECK(c, log.empty(), "memory read though the file can't be written"); break; }
			std::string exp;
			for (int a = 0; a <= 0xfff8 && wrong.empty() && !(kind == 1 && at == log.size()); a += 8) {
				auto b = dread(0, a, 8);
				if (b) exp += dump(4, a, *b) + "\n";
				else if (fast && a + 8 < 0xf000) a = 0xf000 - 8;
			}
			if (kind == 1) { std::string o = out() + c.captured(); PBT_CHECK(c, exp.empty() || o.find("Error writing file") != std::string::npos, "a failing write was not reported\n%s", o.c_str()); break; }
			if (wrong.empty()) PBT_CHECK(c, text == exp, "the dump has %zu bytes, expected %zu; it starts\n%.200s\nexpected\n%.200s", text.size(), exp.size(), text.c_str(), exp.c_str());
			PBT_CHECK(c, out().find(":D") != std::string::npos, "completion not reported");
			c.label("dump");
			break; }
		case ID:
			w = { "id" };
			if (extra) w.push_back("x");
			go();
			if (arity(1, 1) && available(12)) id_lines();
			break;
		case DTC: {
			w = { "dtc" };
			bool tips = c.chance(1, 3), odd = c.chance(1, 20);
			if (tips) w.push_back(mix("tips"));
			if (odd) w.push_back("x");
			go();
			if (w.size() > 2) { arity(1, 2); break; }
			if (odd) { legal = false; break; }
			if (available(12)) dtc_lines(tips);
			break; }
		case CLEAR: {
			w = { "cleardtc" };
			if (extra) w.push_back("x");
			answer1 = consent(); answer2 = consent();
			unsigned given = c.chance(1, 12) ? c.draw(2) : 2;
			in = given == 0 ? "" : given == 1 ? answer1 + "\n" : answer1 + "\n" + answer2 + "\n";
			set_stdin(in);
			go();
			if (!arity(1, 1) || !available(12) || given < 1) break;
			if (!agrees(answer1)) { say("Not done"); break; }
			if (!read_dtcs) {
				if (given < 2) break;
				if (!agrees(answer2)) { say("Not done"); break; }
			}
			auto b = dtclist();
			if (!wrong.empty()) break;
			if (!b) { say("Failed"); break; }
			if (b->empty()) { say("No DTCs to clear!"); break; }
			bool ok;
			if (conn == 1) { Bytes q = { 0xaf, 1 }; auto r = ask(q); ok = good(q, r) && r->size() == 2; } else { auto r = ask({ 5 }); ok = r && (*r)[0] == 9; }
			say(ok ? "Done" : "Failed");
			break; }
		case SRL: {
			w = { "resetsrl" };
			if (extra) w.push_back("x");
			answer1 = consent();
			bool given = !c.chance(1, 20);
			set_stdin(given ? answer1 + "\n" : "");
			go();
			if (!arity(1, 1)) break;
			if (conn == 3) { silent_out = true; break; }       // whether it asks first is its business; nothing is sent
			if (!given) break;
			if (!agrees(answer1)) { say("Not done"); break; }
			if (conn && !(conn == 1 && addr == 0x51)) { say("Disconnecting from " + desc_of(addr) + " first."); disconnect_lines(); }
			if (conn == 0 && !connect_lines(0x51)) { say("Couldn't connect to combined instrument panel."); break; }
			if (!wrong.empty()) break;
			Bytes q = { 0xb0, 0x30 };
			auto r = ask(q);
			bool old = good(q, r) && r->size() == 2;
			q = { 0xb2, 0x30 };
			auto r2 = ask(q);
			say(good(q, r2) && r2->size() == 2 ? "Done" : !r2 && old ? "Probably done" : "Failed");
			answered++;
			break; }
		case TEST: {
			w = { "test" };
			unsigned k = c.weighted({ 3, 3, 1, 1 });
			if (k == 0) w.push_back(mix("fan1"));
			if (k == 1) w.push_back(mix("fan2"));
			if (k == 2) w.push_back("fan3");
			go();
			if (!available(1)) break;
			if (addr == 0x7a && k < 2) {
				Bytes q = { 0xb0, (uint8_t)(k ? 0x1f : 0x0e), 0x32, 3 };
				auto r = ask(q);
				say(good(q, r) && r->size() == 2 ? "Activating engine cooling fan." : "Unable to activate fan.");
				break;
			}
			say("Usage: test <testname>");
			if (addr == 0x7a) say("Available tests:\nfan1 - Activate engine cooling fan, half speed (please keep fingers clear)\nfan2 - Activate engine cooling fan, full speed (please keep fingers clear)");
			else say("No available tests for this ECU.");
			break; }
		case FOREIGN: {
			// the link opened or closed with the generic commands
			silent_out = true;
			fault = NONE;
			if (conn == 0) {
				global_cfg.L1proto = DIAG_L1_ISO9141;
				global_cfg.L2proto = DIAG_L2_PROT_RAW;
				global_cfg.initmode = DIAG_L2_TYPE_SLOWINIT;
				global_cfg.tgt = c.chance(1, 2) ? 0x51 : 0x33;
				w = { "connect" };
				go();
				PBT_CHECK(c, global_state == STATE_CONNECTED, "harness: no raw connection\n%s", out().c_str());
				conn = 3;
				addr = global_cfg.tgt;
			} else {
				w = { "disconnect" };
				go();
				if (conn == 1) ask({ 0xa0 });
				conn = 0;
			}
			break; }
		}
		std::string o = out();
		if (!legal) PBT_CHECK(c, s.w.tx.empty() && log.empty() && inits.empty(), "a refused command transmitted %s after %s\n%s", hex(s.w.sent()).c_str(), hist.c_str(), o.c_str());
		if (before == 3 && what != FOREIGN) PBT_CHECK(c, s.w.tx.empty(), "%s transmitted %s over another protocol", w[0].c_str(), hex(s.w.sent()).c_str());
		PBT_CHECK(c, wrong.empty(), "%s after %s\n%s", wrong.c_str(), hist.c_str(), o.c_str());
		PBT_CHECK(c, at == log.size(), "%zu more requests, the first %s after %s\n%s", log.size() - at, hex(log[at].req).c_str(), hist.c_str(), o.c_str());
		PBT_CHECK(c, s.bad.empty() && s.ve.bad.empty(), "vehicle saw: %s%s after %s", s.bad.c_str(), s.ve.bad.c_str(), hist.c_str());
		if (!silent_out) check_out(o);
		if (cont && live && !silent_out) {
			PBT_CHECK(c, ups.size() == rounds.size(), "the display moved up %zu times for %zu further rounds\n%s", ups.size(), rounds.size(), o.c_str());
			for (size_t i = 0; i < ups.size(); i++) if (rounds[i] < 1000) PBT_CHECK(c, ups[i] == rounds[i], "%u lines shown, moved up %u\n%s", rounds[i], ups[i], o.c_str());
		} else PBT_CHECK(c, ups.empty(), "the cursor moved without a live display after %s", hist.c_str());
		PBT_CHECK(c, s.w.is_open == (conn > 0) && (global_l2_conn != nullptr) == (conn > 0) && global_state == (conn ? STATE_CONNECTED : STATE_IDLE), "interface %s, connection %d, state %d instead of %d after %s\n%s", s.w.is_open ? "open" : "closed", !!global_l2_conn, (int)global_state, conn, hist.c_str(), o.c_str());
		if (fault) c.label("%s", (const char *const[]){ "", "refuse", "silent", "othersid", "otherid", "short", "long" }[fault]);
		c.label("%s%s", w[0].c_str(), conn == 0 && before == 0 ? " (off)" : "");
		(void)oldaddr;
		if (kwp) for (auto &x : log) if (x.resp.empty()) dead = true;       // the session is lost
	}
	if (conn == 1) { command(v850_cmd_table, { "disconnect" }); conn = 0; }
	else if (conn) { command(diag_cmd_table, { "disconnect" }); conn = 0; }
	if (!kwp) PBT_CHECK(c, lib_bytes() == base, "%ld bytes leaked after %s", (long)lib_bytes() - (long)base, hist.c_str());
	if (answered >= 2) c.nontrivial();
	vos::on_ipending = nullptr;
	vos::on_cursor_up = nullptr;
}

void pbt::property(Ctx &c) {
	PBT_CHECK(c, diag_init() == 0, "diag_init failed");
	set_init();
	bool kwp = c.chance(1, 4);
	A02 a(c, kwp, Sess::pick_itf(c, kwp ? PVAG : PD2));
	unsigned n = c.range(1, 4);
	for (unsigned i = 0; i < n; i++) {
		DEcu e{};
		e.addr = c.chance(2, 3) ? c.pick({ 0x7a, 0x6e, 0x51, 0x7a, 0x6e }) : c.chance(3, 4) ? v850::ecus[c.draw(sizeof v850::ecus / sizeof *v850::ecus)].addr : (int)c.range(0, 127);
		if (e.addr == 0x10 || a.find(e.addr)) e.addr = e.addr == 0x10 ? 0x11 : e.addr;
		if (a.find(e.addr)) continue;
		unsigned k = c.range(0, 6);
		auto data = [&]() { return c.bytes(c.chance(1, 8) ? c.range(0, 58) : c.range(0, 6)); };
		for (unsigned j = 0; j < k; j++) {
			int id = e.addr == 0x7a && c.chance(3, 4) ? c.pick({ 2, 3, 0x0a, 0x10, 0x18, 0x19, 0x1a }) : e.addr == 0x6e && c.chance(3, 4) ? c.pick({ 5, 0x0c }) : c.byte();
			e.live[id] = data();
			if (e.addr == 0x6e && id == 0x0c && e.live[id].size() > 1 && c.chance(3, 4)) { e.live[id][0] &= 3; if (c.chance(1, 8)) { e.live[id][0] = 3; e.live[id][1] = c.pick<uint8_t>({ 0xff, 0xfe }); } }
			if (e.addr == 0x6e && id == 5 && e.live[id].size() > 1 && c.chance(3, 4)) { e.live[id][0] %= 5; e.live[id][1] %= 4; }
		}
		k = c.range(0, 3);
		for (unsigned j = 0; j < k; j++) e.nv[c.byte()] = data();
		if (c.chance(4, 5)) {
			Bytes b = c.bytes(15);
			if (!c.chance(1, 12)) { b[0] = 0; for (int x : { 5, 6, 7, 12, 13, 14 }) b[x] = (uint8_t)(32 + b[x] % 95); if (c.chance(1, 12)) b[c.pick({ 5, 6, 7, 12, 13, 14 })] = c.pick<uint8_t>({ 0, 10, 31, 127, 200 }); }
			if (c.chance(1, 12)) b.resize(c.range(0, 14));
			e.nv[0xf0] = b;
		}
		if (e.addr == 0x7a && c.chance(3, 4)) { Bytes b = c.bytes(10); for (auto &x : b) x = (uint8_t)('0' + x % 10); if (c.chance(1, 8)) b[c.draw(10)] = 'x'; if (c.chance(1, 8)) b.resize(c.range(0, 9)); e.nv[1] = b; }
		k = c.weighted({ 2, 3, 3, 1 }) == 0 ? 0 : c.chance(1, 8) ? c.range(10, 59) : c.range(1, 5);
		std::vector<int> known;
		for (auto &d : v850::dtcs) if (d.addr == e.addr) known.push_back(d.raw);
		for (unsigned j = 0; j < k; j++) e.dtc.push_back(!known.empty() && !c.chance(1, 6) ? (uint8_t)known[c.draw((unsigned)known.size())] : c.byte());
		for (uint8_t x : e.dtc) if (c.chance(2, 3)) e.freeze[x] = data();
		e.seed = c.byte();
		e.hole_lo = c.chance(1, 2) ? 0x10000 : (int)c.draw(2048);
		e.hole_hi = e.hole_lo == 0x10000 ? 0x20000 : c.chance(1, 2) ? 0xf7ff : e.hole_lo + (int)c.draw(100);
		e.wrongkb = c.chance(1, 20);
		a.ecus.push_back(e);
	}
	if (kwp) {
		a.kmem = c.bytes(256);
		for (unsigned j = c.range(1, 5); j; j--) a.adc[c.byte()] = c.bytes(2);
		unsigned k = c.chance(1, 3) ? 0 : c.chance(1, 8) ? c.range(10, 50) : c.range(1, 5);
		std::vector<int> known;
		for (auto &d : v850::dtcs) if (d.addr == 0x10) known.push_back(d.raw);
		for (unsigned j = 0; j < k; j++) { Bytes b = c.bytes(5); if (!known.empty() && !c.chance(1, 6)) b[0] = (uint8_t)known[c.draw((unsigned)known.size())]; a.kdtc.insert(a.kdtc.end(), b.begin(), b.end()); }
		k = c.pick({ 4u, 4u, 4u, 1u, 2u, 3u });
		for (unsigned j = 0; j < k; j++) {
			Bytes b = { 0xf6 };
			size_t len = c.chance(1, 12) ? c.range(0, 20) : 10;
			for (size_t i = 0; i < len; i++) b.push_back((uint8_t)('0' + c.draw(10)));
			if (c.chance(1, 12) && len) b[1 + c.draw((unsigned)len)] = c.byte();
			a.ident.push_back(b);
		}
		unsigned q = c.weighted({ 10, 1, 1 });
		a.kwpkb = q == 0 ? "ok" : q == 1 ? "wrong" : "absent";
	}
	a.run();
}
