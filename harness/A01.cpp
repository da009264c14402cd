// LINK: vos wire vtty_stub
// LIBS: app
// OBD-II scans, monitoring and tests of generated cars against an independent model.
#include "car.hpp"
#include <regex>
#include <cmath>
using namespace pbt;
using namespace car;
using namespace wire;
const char *pbt::prop_id = "A01";
const char *pbt::prop_rule = "a car of 1-10 ECUs on ISO 14230 (fast or slow init), ISO 9141 or J1850 behind any suitable interface, with generated supported ids for modes 1, 2, 5, 6, 8, 9, values, trouble codes, freeze frames, test results and refusals, lost requests, answers of odd lengths and a "
	"car that falls silent; it is scanned and then 0-6 of monitor, dumpdata, ecus, pids, tests, readiness, vehicle info and cleardtc are run, then disconnected and possibly another car scanned; non-trivial = at least two ECUs or trouble codes or a freeze frame";
unsigned pbt::quick_cases = 6000, pbt::thorough_cases = 100000;

namespace {
typedef std::vector<std::string> V;
std::string dtc(uint16_t d) { return fmt("%c%u%03X", "PCBU"[d >> 14], d >> 12 & 3, d & 0xfff); }
std::string tokens(const std::string &l) {
	static const std::regex re("[PCBU][0-9A-F]{4}");
	std::string r;
	for (auto it = std::sregex_iterator(l.begin(), l.end(), re); it != std::sregex_iterator(); ++it) r += it->str() + " ";
	return r;
}
std::string join(const V &v) { std::string s; for (auto &x : v) s += "  " + x + "\n"; return s; }
size_t shown(const Car &k) { return std::min<size_t>(8, k.ecus.size()); }
std::set<int> merged(const Car &k, int mode) { std::set<int> s; for (size_t i = 0; i < shown(k); i++) { auto it = k.ecus[i].sup.find(mode); if (it != k.ecus[i].sup.end()) s.insert(it->second.begin(), it->second.end()); } return s; }
const char *const o2name[] = { "", "Rich to lean sensor threshold voltage", "Lean to rich sensor threshold voltage", "Low sensor voltage for switch time calc.", "High sensor voltage for switch time calc.",
	"Rich to lean sensor switch time", "Lean to rich sensor switch time", "Minimum sensor voltage for test cycle", "Maximum sensor voltage for test cycle", "Time between sensor transitions" };
struct Want { V facts, t5, t6, t6alt; std::set<Bytes> asks; bool freeze_ok = false; };
void want_cms(const Car &k, Want &w) {
	w.asks.insert({ 7 });
	bool any = false;
	std::string t = "pending ";
	for (size_t i = 0; i < k.ecus.size(); i++) {
		if (reply(k.ecus[i], { 7 }).empty()) continue;
		any = true;
		if (i < 8) for (uint16_t d : k.ecus[i].pending) t += dtc(d) + " ";
	}
	w.facts.push_back(any ? squeeze(t) : "no pending");
}
void want_ncms(const Car &k, Want &w, bool all) {
	std::set<int> m = merged(k, 6);
	if (m.empty()) { w.facts.push_back("no mode 6"); return; }
	for (int id : m) if (id % 32) {
		w.asks.insert({ 6, (uint8_t)id });
		for (size_t i = 0; i < shown(k); i++) {
			auto it = k.ecus[i].t6.find(id);
			if (it == k.ecus[i].t6.end()) continue;
			for (auto &t : it->second) {
				for (int alt = 0; alt < 2; alt++) {
					auto sc = [&](unsigned v) { return alt ? (v >> 8) * 255 + (v & 255) : v; };
					unsigned v = sc(t.val), l = sc(t.lim);
					bool fail = t.min ? v < l : v > l;
					std::string s = all || fail ? fmt("Test 0x%X Component 0x%X %s %s val %u Current Val %u", id, t.comp, fail ? "FAILED" : "Passed", t.min ? "Min" : "Max", l, v) : "";
					(alt ? w.t6alt : w.t6).push_back(s);
				}
			}
		}
	}
}
Want want_scan(const Car &k) {
	Want w;
	size_t n = shown(k);
	static const int modes[] = { 1, 2, 5, 6, 8, 9 };
	std::map<int, std::set<int>> m;
	for (int x : modes) {
		m[x] = merged(k, x);
		std::set<int> b = m[x];
		b.insert(0);
		for (int id : b) if (id % 32 == 0) {
			if (x == 2 || x == 5) w.asks.insert({ (uint8_t)x, (uint8_t)id, 0 });
			else if (x == 8) w.asks.insert({ 8, (uint8_t)id, 0, 0, 0, 0, 0 });
			else w.asks.insert({ (uint8_t)x, (uint8_t)id });
		}
	}
	unsigned count = 0;
	if (m[1].count(1)) {
		w.asks.insert({ 1, 1 });
		bool mil = false, ready = true;
		for (size_t i = 0; i < n; i++) {
			auto &e = k.ecus[i];
			if (!e.sup.at(1).count(1)) continue;
			const Bytes &b = e.v1.at(1);
			if (b[0] & 0x80) mil = true;
			count += b[0] & 0x7f;
			if ((b[1] & 0x70) || b[3]) ready = false;
		}
		if (!ready) w.facts.push_back("not ready");
		w.facts.push_back(fmt("MIL light %s, %u stored DTC", mil ? "ON" : "OFF", count));
		if (count) {
			w.asks.insert({ 3 });
			std::string t = "stored ";
			for (size_t i = 0; i < n; i++) for (uint16_t d : k.ecus[i].dtc) t += dtc(d) + " ";
			w.facts.push_back(squeeze(t));
		}
	} else w.facts.push_back("no DTC query");
	for (int id : m[1]) if (id >= 3) w.asks.insert({ 1, (uint8_t)id });
	w.asks.insert({ 2, 2, 0 });
	for (size_t i = 0; i < n; i++) {
		auto &e = k.ecus[i];
		if (!e.sup.count(2)) continue;
		w.freeze_ok = true;
		if (e.freeze) for (int id : e.sup.at(2)) if (id >= 3) w.asks.insert({ 2, (uint8_t)id, 0 });
	}
	bool mon = false;
	for (size_t i = 0; i < n; i++) {
		auto &e = k.ecus[i];
		if (e.freeze) w.facts.push_back(fmt("ECU %zu Freezeframe data exists, caused by DTC %s", i, dtc(e.freeze).c_str()));
		if (e.sup.at(1).count(0x1c) && !e.refuse.count(0x1c)) {
			static const char *const n[] = { 0, "OBD II (California ARB)", "OBD (Federal EPA)", "OBD and OBD II", "OBD I", "not OBD", "EOBD (Europe)" };
			int v = e.v1.at(0x1c)[0];
			w.facts.push_back(fmt("ECU %zu is %s compliant", i, v >= 1 && v <= 6 ? n[v] : fmt("unknown (%d)", v).c_str()));
		}
		if (e.sup.at(1).count(1) && (e.v1.at(1)[2] & 0x20)) mon = true;
	}
	w.asks.insert({ 1, 0x13 });
	unsigned sensors = 0, cnt = 0;
	bool any13 = false;
	for (size_t i = 0; i < n; i++) if (k.ecus[i].sup.at(1).count(0x13)) { uint8_t b = k.ecus[i].v1.at(0x13)[0]; sensors |= b; cnt += (unsigned)__builtin_popcount(b); any13 = true; }
	if (any13) w.facts.push_back(fmt("%u Oxygen (O2) sensors in vehicle", cnt));
	if (!mon) w.facts.push_back("no O2 monitoring");
	else if (m[5].empty()) w.facts.push_back("no O2 tests");
	else for (int s = 0; s < 8; s++) if (sensors >> s & 1) for (int id : m[5]) if (id >= 1 && id <= 0x1f) {
		w.asks.insert({ 5, (uint8_t)id, (uint8_t)(1 << s) });
		for (size_t i = 0; i < n; i++) {
			auto it = k.ecus[i].t5.find(id << 8 | 1 << s);
			if (it == k.ecus[i].t5.end()) continue;
			const Bytes &b = it->second;
			std::string t = k.ecus.size() > 1 ? fmt("ECU %zu ", i) : "";
			const char *res = id > 4 ? (b[0] < b[1] || b[0] > b[2] ? "FAILED" : "Passed") : "";
			if (id <= 4) t += fmt("%s: %f", o2name[id], b[0] * 0.005);
			else if (id == 5 || id == 6) t += fmt("%s: actual %2.2f min %2.2f max %2.2f %s", o2name[id], b[0] * 0.004, b[1] * 0.004, b[2] * 0.004, res);
			else if (id == 9) t += fmt("%s: %s", o2name[id], res);
			else if (id == 7 || id == 8) t += fmt("%s: %f %f %f %s", o2name[id], b[0] * .005, b[1] * .005, b[2] * .005, res);
			else t += fmt("Test %d: actual 0x%X min 0x%X max 0x%X %s", id, b[0], b[1], b[2], res);
			w.t5.push_back(t);
		}
	}
	want_cms(k, w);
	want_ncms(k, w, false);
	return w;
}
// the facts a report states
Want facts(const std::string &out) {
	Want w;
	static const std::regex t5("^(ECU [0-9]+ )?((Rich to|Lean to|Low sensor|High sensor|Minimum|Maximum|Time between).*|Test [0-9]+: actual.*)$"), nine("(Time between[^:]*: ).*(FAILED|Passed)"), t6("^Test 0x[0-9A-F]+ Component.*");
	bool stored = false;
	std::string st;
	auto done = [&]() { if (stored) w.facts.push_back(squeeze("stored " + st)); stored = false; st.clear(); };
	for (auto &raw : lines(out)) {
		std::string l = squeeze(raw);
		auto has = [&](const char *s) { return l.find(s) != std::string::npos; };
		if (has("Requesting ") && !has("Mode 0x03")) done();
		if (has("Requesting Mode 0x03")) { stored = true; continue; }
		if (stored && !has("Request failed") && !has("Retry failed")) st += tokens(l);
		if (has("Not all readiness tests")) w.facts.push_back("not ready");
		else if (has("MIL light")) { if (l.size() && l.back() == 's') l.pop_back(); w.facts.push_back(squeeze(l)); }
		else if (has("do not support DTC#")) w.facts.push_back("no DTC query");
		else if (has("Freezeframe data exists") || has("sensors in vehicle")) w.facts.push_back(l);
		else if (has("ECU ") && has(" compliant") && has(" is ")) w.facts.push_back(l);
		else if (has("sensor monitoring not supported")) w.facts.push_back("no O2 monitoring");
		else if (has("sensor tests not supported")) w.facts.push_back("no O2 tests");
		else if (has("Currently monitored DTCs:")) w.facts.push_back(squeeze("pending " + tokens(l.substr(l.find("DTCs:") + 5))));
		else if (has("No DTCs stored")) w.facts.push_back("no pending");
		else if (has("support non-continuously monitored")) w.facts.push_back("no mode 6");
		else if (std::regex_match(l, t5)) w.t5.push_back(std::regex_replace(l, nine, "$1$2"));
		else if (std::regex_match(l, t6)) w.t6.push_back(l);
	}
	done();
	return w;
}
std::string ask_list(const std::set<Bytes> &s) { std::string r; for (auto &b : s) r += "[" + hex(b) + "] "; return r; }
void compare(Ctx &c, const char *what, Want want, Want got, const std::vector<Bytes> &asked) {
	PBT_CHECK(c, got.facts == want.facts, "%s reported\n%sinstead of\n%s", what, join(got.facts).c_str(), join(want.facts).c_str());
	std::sort(want.t5.begin(), want.t5.end()); std::sort(got.t5.begin(), got.t5.end());
	PBT_CHECK(c, got.t5 == want.t5, "%s: oxygen sensor tests\n%sinstead of\n%s", what, join(got.t5).c_str(), join(want.t5).c_str());
	auto norm = [](V v) { v.erase(std::remove(v.begin(), v.end(), std::string()), v.end()); std::sort(v.begin(), v.end()); return v; };
	V a = norm(want.t6), b = norm(want.t6alt), g = norm(got.t6);
	if (g != a && g == b) c.excluded("mode6-255");
	PBT_CHECK(c, g == a, "%s: test results\n%sinstead of\n%s", what, join(g).c_str(), join(a).c_str());
	std::set<Bytes> q(asked.begin(), asked.end());
	q.insert({ 1, 0 }); want.asks.insert({ 1, 0 });
	for (auto &x : q) PBT_CHECK(c, want.asks.count(x), "%s: asked for %s; expected %s", what, hex(x).c_str(), ask_list(want.asks).c_str());
	for (auto &x : want.asks) PBT_CHECK(c, q.count(x), "%s: did not ask for %s", what, hex(x).c_str());
}
// --- monitor
struct Pid { int id; const char *name; };
const Pid pids[] = { { 3, "Fuel System Status" }, { 4, "Calculated Load Value" }, { 5, "Engine Coolant Temperature" }, { 6, "Short term fuel trim Bank 1" }, { 7, "Long term fuel trim Bank 1" },
	{ 8, "Short term fuel trim Bank 2" }, { 9, "Long term fuel trim Bank 2" }, { 10, "Fuel Pressure" }, { 11, "Intake Manifold Pressure" }, { 12, "Engine RPM" }, { 13, "Vehicle Speed" },
	{ 14, "Ignition timing advance Cyl #1" }, { 15, "Intake Air Temperature" }, { 16, "Air Flow Rate" }, { 17, "Absolute Throttle Position" }, { 18, "Commanded Secondary Air Status" },
	{ 19, "Location of Oxygen Sensors" }, { 20, "Bank 1 Sensor 1 Voltage/Trim" }, { 21, "Bank 1 Sensor 2 Voltage/Trim" }, { 22, "Bank 1 Sensor 3 Voltage/Trim" }, { 23, "Bank 1 Sensor 4 Voltage/Trim" },
	{ 24, "Bank 2 Sensor 1 Voltage/Trim" }, { 25, "Bank 2 Sensor 2 Voltage/Trim" }, { 26, "Bank 2 Sensor 3 Voltage/Trim" }, { 27, "Bank 2 Sensor 4 Voltage/Trim" }, { 30, "Auxiliary Input Status" } };
struct Row { int pid; bool has1, has2; Bytes v1, v2; };
bool number(const std::string &s, const char *unit, double want, double step) {
	char *end;
	double v = strtod(s.c_str(), &end);
	return end != s.c_str() && squeeze(end) == unit && std::fabs(v - want) <= step / 2 + 1e-6;
}
// is this how the value of pid is shown?
bool shows(int pid, const Bytes &b, bool en, const std::string &s) {
	double A = b[0], AB = b.size() > 1 ? b[0] * 256.0 + b[1] : 0;
	switch (pid) {
	case 3: switch (b[0]) { case 1: return s == "Open"; case 2: return s == "Closed"; case 4: return s == "Open-Driving"; case 8: return s == "Open-Fault"; case 16: return s == "Closed-Fault"; } return true;
	case 4: case 17: return number(s, "%", A * 100 / 255, .1);
	case 5: case 15: return en ? number(s, "F", (A - 40) * 9 / 5 + 32, 1) : number(s, "C", A - 40, 1);
	case 6: case 7: case 8: case 9: return number(s, "%", (A - 128) * 100 / 128, .1);
	case 10: return en ? number(s, "psig", A * 3 / 6.8947573, .1) : number(s, "kPaG", A * 3, 1);
	case 11: return en ? number(s, "inHg", A / 3.38638867, .1) : number(s, "kPaA", A, 1);
	case 12: return number(s, "RPM", AB / 4, 1);
	case 13: return en ? number(s, "mph", A / 1.609344, 1) : number(s, "km/h", A, 1);
	case 14: return number(s, "deg", A / 2 - 64, .1);
	case 16: return en ? number(s, "lb/min", AB / 100 * 60 / 453.59237, .1) : number(s, "gm/s", AB / 100, .01);
	case 18: case 19: return true;
	case 30: return s == (b[0] & 1 ? "PTO Active" : "----");
	default: {
		if (b[1] == 0xff) return number(s, "V", A / 200, .001);
		size_t i = s.find('/');
		return i != std::string::npos && number(s.substr(0, i), "V", A / 200, .001) && number(s.substr(i + 1), "%", (b[1] - 128) * 100.0 / 128, .1); }
	}
}
std::vector<Row> table(const Car &k) {
	std::vector<Row> t;
	for (auto &p : pids) for (size_t i = 0; i < shown(k); i++) {
		Row r = { p.id, false, false, {}, {} };
		for (int m = 1; m <= 2; m++) {
			auto im = k.stored[i].find(m);
			if (im == k.stored[i].end()) continue;
			auto it = im->second.find(p.id);
			if (it == im->second.end()) continue;
			(m == 1 ? r.v1 : r.v2) = Bytes(it->second.begin() + m + 1, it->second.end());
			(m == 1 ? r.has1 : r.has2) = true;
		}
		if (r.has1 || r.has2) t.push_back(r);
	}
	return t;
}
std::string dump(const Bytes &b) { std::string s; for (uint8_t x : b) s += fmt("0x%02X ", x); return squeeze(s); }
}

void pbt::property(Ctx &c) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	init_lib();
	set_stdin(std::string());
	size_t base = lib_bytes();
	P p = c.pick({ P14230, P9141, PJ1850 });
	iso::If itf = Sess::pick_itf(c, p);
	if (p == P9141) while (!itf.frame()) itf = Sess::pick_itf(c, p);
	global_cfg.units = c.chance(1, 2);
	global_cfg.addrtype = c.chance(1, 2);
	global_cfg.tgt = c.chance(1, 2) ? 0x33 : (uint8_t)c.range(1, 255);
	global_cfg.src = c.chance(2, 3) ? 0xf1 : (uint8_t)c.range(1, 255);
	global_cfg.speed = 10400;
	unsigned cars = c.chance(1, 4) ? 2 : 1;
	for (unsigned round = 0; round < cars; round++) {
		Car k(c, p, itf);
		global_dl0d = &k.s.dev;
		unsigned n = itf.nohdr() ? 1 : c.weighted({ 0, 6, 4, 2, 1, 1, 1, 1, 1, 1, 1 });
		std::set<int> used = { 0 };
		for (unsigned i = 0; i < n; i++) { int a; do a = (int)c.range(1, 255); while (used.count(a)); used.insert(a); k.ecus.push_back(pick_ecu(c, (uint8_t)a)); }
		k.warp = c.chance(1, 8);
		if (c.chance(1, 12)) k.dead = (int)c.range(0, 40);
		if (c.chance(1, 3)) k.lose = (int)c.range(1, 40);
		bool weak = k.warp || k.dead >= 0;
		for (auto &e : k.ecus) {
			if (e.dtc.size() || e.freeze) c.nontrivial();
			c.note("ECU %02x loud %d mil %d dtcs %zu pending %zu freeze %04x clear %d", e.addr, e.loud, e.mil, e.dtc.size(), e.pending.size(), e.freeze, e.clear);
			for (auto &m : e.sup) { std::string t; for (int i : m.second) t += fmt("%02x ", i); c.note("  mode %d: %s", m.first, t.c_str()); }
		}
		if (n > 1) c.nontrivial();
		c.note("%s over %s%s%s, %u ECUs, warp %d dead %d lose %d units %d", pname[p], itf.name, k.slow ? " slow" : "", k.pwm ? " pwm" : "", n, k.warp, k.dead, k.lose, global_cfg.units);
		c.label("%s over %s%s: %u ECUs%s", pname[p], itf.name, k.slow ? " slow" : "", n, weak ? " (odd)" : "");
		size_t mark = c.captured().size();
		auto output = [&]() { fflush(stdout); std::string o = c.captured(); std::string r = o.substr(mark); mark = o.size(); return r; };
		// a car must be scanned before its data can be shown
		if (c.chance(1, 6)) {
			for (const char *w : { "monitor", "ecus", "pids" }) command(scantool_cmd_table, { w });
			for (const char *w : { "rvi", "cms", "ncms", "readiness" }) command(test_cmd_table, { w });
			std::string o = output();
			PBT_CHECK(c, k.s.w.tx.empty() && k.asked.empty(), "transmits without a connection: %s", hex(k.s.w.sent()).c_str());
			PBT_CHECK(c, o.find("ECUs found") == std::string::npos && o.find("Supported PIDs") == std::string::npos, "reports without a scan: %s", o.c_str());
		}
		if (c.chance(1, 12)) {
			k.here = false;
			PBT_CHECK(c, command(scantool_cmd_table, { "scan" }) == CMD_FAILED, "scan without a car succeeded");
			std::string o = output();
			PBT_CHECK(c, o.find("Connection to ECU established") == std::string::npos && global_state == STATE_IDLE && !global_l3_conn && !global_l2_conn, "connected without a car");
			PBT_CHECK(c, lib_bytes() == base, "failed scan leaks");
			k.here = true;
			c.label("no car");
		}
		Want w = want_scan(k);
		enum cli_retval rv = command(scantool_cmd_table, { "scan" });
		std::string o = output();
		PBT_CHECK(c, k.s.trouble().empty(), "%s", k.s.trouble().c_str());
		if (weak && rv != CMD_OK) {
			PBT_CHECK(c, global_l3_conn == nullptr && global_state == STATE_IDLE, "failed scan leaves a connection");
			c.label("odd car: no connection");
			continue;
		}
		PBT_CHECK(c, rv == CMD_OK && o.find("Connection to ECU established") != std::string::npos, "scan failed:\n%s", o.c_str());
		if (!weak) {
			PBT_CHECK(c, ecu_count == shown(k), "%u ECUs counted of %zu", ecu_count, k.ecus.size());
			if (n > 8) PBT_CHECK(c, o.find("Too many ECUs") != std::string::npos, "ECUs dropped without a message");
			compare(c, "scan", w, facts(o), k.asked);
		}
		unsigned ops = c.range(0, 6);
		for (unsigned i = 0; i < ops; i++) {
			k.asked.clear();
			k.lose = c.chance(1, 6) ? (int)c.range(0, 12) : -1;
			if (k.dead > 0) k.dead = 0;
			if (!weak) for (auto &e : k.ecus) drift(c, e);
			Want want;
			switch (c.weighted({ 3, 2, 1, 1, 2, 2, 2, 2, 2 })) {
			case 0: {           // monitor
				std::vector<std::vector<Row>> tables;
				unsigned left = c.range(1, 3);
				bool fresh = true, en = global_cfg.units;
				V cmd = { "monitor" };
				switch (c.draw(3)) { case 0: cmd.push_back(c.chance(1, 2) ? "english" : "English"); en = true; break; case 1: cmd.push_back("metric"); en = false; break; }
				k.hook = [&](const Bytes &q) {
					if (q[0] == 2) fresh = true;
					if (q[0] != 7 || !fresh) return;
					fresh = false;
					tables.push_back(table(k));
					if (--left == 0) vos::ipending_value = 1;
					else if (!weak) for (auto &e : k.ecus) drift(c, e);
				};
				vos::ipending_value = weak && c.chance(1, 3);
				command(scantool_cmd_table, cmd);
				k.hook = nullptr;
				vos::ipending_value = 0;
				o = output();
				if (weak) break;
				if (!w.freeze_ok) { PBT_CHECK(c, tables.empty(), "harness"); break; }
				PBT_CHECK(c, left == 0, "monitor ended by itself");
				std::vector<std::pair<int, std::string>> rows;
				unsigned heads = 0;
				for (auto &l : lines(o)) {
					if (l.compare(0, 10, "Parameter ") == 0) { heads++; continue; }
					for (auto &q : pids) if (squeeze(l.substr(0, 30)) == q.name) rows.push_back({ q.id, l });
				}
				PBT_CHECK(c, heads == tables.size(), "%u tables for %zu rounds", heads, tables.size());
				size_t at = 0;
				for (auto &t : tables) for (auto &r : t) {
					PBT_CHECK(c, at < rows.size() && rows[at].first == r.pid, "monitor: line %zu is '%s', expected parameter %02x", at, at < rows.size() ? rows[at].second.c_str() : "(none)", r.pid);
					std::string l = rows[at++].second;
					l.resize(std::max<size_t>(l.size(), 47), ' ');
					std::string a = squeeze(l.substr(31, 15)), b = squeeze(l.substr(47));
					PBT_CHECK(c, r.has1 ? shows(r.pid, r.v1, en, a) : a == "-----", "monitor: parameter %02x value %s is shown as '%s' (english %d)", r.pid, hex(r.v1).c_str(), a.c_str(), en);
					PBT_CHECK(c, r.has2 ? shows(r.pid, r.v2, en, b) : b == "-----", "monitor: parameter %02x frozen value %s is shown as '%s' (english %d)", r.pid, hex(r.v2).c_str(), b.c_str(), en);
				}
				PBT_CHECK(c, at == rows.size(), "monitor shows more lines: %s", rows[at].second.c_str());
				c.label("monitor %zu lines", std::min<size_t>(at, 20) / 5 * 5);
				break; }
			case 1: {           // dumpdata
				command(scantool_cmd_table, { "dumpdata" });
				o = output();
				if (weak) break;
				V want, got;
				for (int m = 1; m <= 2; m++) {
					want.push_back(m == 1 ? "Current Data" : "Freezeframe Data");
					for (size_t i = 0; i < shown(k); i++) {
						want.push_back(fmt("ECU 0x%02X:", k.ecus[i].addr & (itf.nohdr() ? 0 : 0xff)));
						for (auto &x : k.stored[i][m]) want.push_back(fmt("0x%02X: ", x.first) + dump(x.second));
					}
				}
				for (auto &l : lines(o)) { std::string s = squeeze(l); if (s.empty() || s.find("Failed") != std::string::npos) continue; got.push_back(s); }
				PBT_CHECK(c, got == want, "dumpdata shows\n%sinstead of\n%s", join(got).c_str(), join(want).c_str());
				PBT_CHECK(c, k.asked.empty(), "dumpdata transmits");
				break; }
			case 2: {           // ecus
				command(scantool_cmd_table, { "ecus" });
				o = output();
				if (weak) break;
				V want = { fmt("%zu ECUs found", shown(k)) }, got;
				for (size_t i = 0; i < shown(k); i++) want.push_back(fmt("ECU %zu: Address 0x%02X", i, itf.nohdr() ? 0 : k.ecus[i].addr));
				for (auto &l : lines(o)) if (!squeeze(l).empty()) got.push_back(squeeze(l));
				PBT_CHECK(c, got == want, "ecus shows\n%sinstead of\n%s", join(got).c_str(), join(want).c_str());
				break; }
			case 3: {           // pids
				command(scantool_cmd_table, { "pids" });
				o = output();
				if (weak) break;
				std::string want, got;
				for (size_t i = 0; i < shown(k); i++) {
					want += fmt("ECU %zu address 0x%02X: Supported PIDs: ", i, itf.nohdr() ? 0 : k.ecus[i].addr);
					for (int m : { 1, 2, 5, 6, 8, 9 }) { want += fmt("Mode %d: ", m); if (k.ecus[i].sup.count(m)) for (int id : k.ecus[i].sup[m]) if (id <= 0x60) want += fmt("0x%02X ", id); }
				}
				for (auto &l : lines(o)) got += l + " ";
				got = squeeze(got); want = squeeze(want);
				PBT_CHECK(c, got == want, "pids shows\n%s\ninstead of\n%s", got.c_str(), want.c_str());
				break; }
			case 4:             // pending codes
				command(test_cmd_table, { "cms" });
				o = output();
				if (weak) break;
				want_cms(k, want);
				compare(c, "test cms", want, facts(o), k.asked);
				break;
			case 5:             // all mode 6 tests
				command(test_cmd_table, { "ncms" });
				o = output();
				if (weak) break;
				want_ncms(k, want, true);
				compare(c, "test ncms", want, facts(o), k.asked);
				break;
			case 6: {           // readiness
				command(test_cmd_table, { "readiness" });
				o = output();
				if (weak) break;
				static const char *const nm[] = { "Misfire Monitoring", "Fuel System Monitoring", "Comprehensive Component Monitoring", 0, "Catalyst Monitoring", "Heated Catalyst Monitoring", "Evaporative System Monitoring",
					"Secondary Air System Monitoring", "A/C System Refrigerant Monitoring", "Oxygen Sensor Monitoring", "Oxygen Sensor Heater Monitor", "EGR System Monitoring" };
				V want, got;
				bool any = false;
				unsigned open = 0;
				for (size_t i = 0; i < shown(k); i++) {
					auto &e = k.ecus[i];
					if (!e.sup[1].count(1)) continue;
					any = true;
					const Bytes &b = e.v1[1];
					for (int t = 0; t < 12; t++) {
						if (!nm[t]) continue;
						bool sup = t < 4 ? b[1] >> t & 1 : b[2] >> (t - 4) & 1, inc = t < 4 ? b[1] >> (t + 4) & 1 : b[3] >> (t - 4) & 1;
						if (sup && inc) open |= 1u << t;
						want.push_back((k.ecus.size() > 1 ? fmt("ECU %zu: ", i) : "") + nm[t] + ": " + (!sup ? "Not Supported" : inc ? "NOT Complete" : "Complete"));
					}
				}
				if (any) {
					unsigned a = (unsigned)__builtin_popcount(open & 15), b = (unsigned)__builtin_popcount(open >> 4);
					auto num = [](unsigned x) { return x ? fmt("%u", x) : std::string("None"); };
					want.push_back("Number of incomplete continuous monitors: " + num(a));
					want.push_back("Number of incomplete non-continuous monitors: " + num(b));
					want.push_back("Total number of incomplete monitors: " + num(a + b));
				} else want.push_back("Mode 1 PID 1 request failed");
				for (auto &l : lines(o)) { std::string s = squeeze(l); bool is = s.find("umber of incomplete") != std::string::npos || s.find("Mode 1 PID 1 request failed") == 0; for (auto q : nm) if (q && s.find(std::string(q) + ": ") != std::string::npos) is = true; if (is) got.push_back(s); }
				PBT_CHECK(c, got == want, "readiness shows\n%sinstead of\n%s", join(got).c_str(), join(want).c_str());
				for (auto &q : k.asked) PBT_CHECK(c, q == (Bytes{ 1, 1 }) || q == (Bytes{ 1, 0 }), "readiness asks for %s", hex(q).c_str());
				break; }
			case 7: {           // vehicle info
				command(test_cmd_table, { "rvi" });
				o = output();
				if (weak) break;
				std::set<int> m = merged(k, 9);
				V want, got;
				std::set<Bytes> asks = { { 1, 0 } };
				for (int id : { 2, 4, 6 }) {
					static const char *const nm[] = { "VIN", 0, "Calibration ID", 0, "CVN" };
					if (!m.count(id)) { want.push_back(std::string("ECU doesn't support ") + nm[id - 2] + " request"); continue; }
					asks.insert({ 9, (uint8_t)id });
					for (size_t i = 0; i < shown(k); i++) {
						auto &e = k.ecus[i];
						if (!e.sup.count(9) || !e.sup[9].count(id)) continue;
						want.push_back(std::string(nm[id - 2]) + ": " + (id == 2 ? e.vin : id == 4 ? e.calid : dump(e.cvn)));
						break;
					}
				}
				for (auto &l : lines(o)) { std::string s = squeeze(l); if (s.find("VIN") != std::string::npos || s.find("Calibration ID") != std::string::npos || s.find("CVN") != std::string::npos) got.push_back(s); }
				PBT_CHECK(c, got == want, "rvi shows\n%sinstead of\n%s", join(got).c_str(), join(want).c_str());
				for (auto &q : k.asked) PBT_CHECK(c, asks.count(q), "rvi asks for %s", hex(q).c_str());
				c.label("vehicle info");
				break; }
			default: {          // cleardtc
				unsigned a = c.draw(6);
				static const char *const ans[] = { "y\n", "yes\n", "YES\n", "n\n", "maybe\n", "" };
				bool yes = a < 3;
				set_stdin(ans[a]);
				command(scantool_cmd_table, { "cleardtc" });
				set_stdin("");
				o = output();
				std::set<Bytes> q(k.asked.begin(), k.asked.end());
				PBT_CHECK(c, yes || k.asked.empty(), "trouble codes cleared, or something else sent, without consent");
				if (!yes) { PBT_CHECK(c, o.find("Done") == std::string::npos, "claims to have cleared"); break; }
				PBT_CHECK(c, q.count({ 4 }), "not asked to clear");
				q.erase({ 4 }); q.erase({ 1, 0 });
				PBT_CHECK(c, q.empty(), "cleardtc asked for %s", hex(*q.begin()).c_str());
				if (weak) break;
				bool any = false, all = true;
				for (size_t i = 0; i < shown(k); i++) { if (k.ecus[i].clear == 0) any = true; else all = false; }
				if (any == all || !any) {
					bool done = false, failed = false;
					for (auto &l : lines(o)) { if (squeeze(l).find("Done") != std::string::npos) done = true; if (squeeze(l).find("Failed") != std::string::npos) failed = true; }
					PBT_CHECK(c, done == any && failed == !any, "clearing %s was reported as %s", any ? "accepted" : "not accepted", done ? "done" : failed ? "failed" : "neither");
				}
				c.label("cleared %d", any);
				break; }
			}
			PBT_CHECK(c, k.s.trouble().empty(), "%s", k.s.trouble().c_str());
		}
		k.dead = -1;
		k.lose = -1;
		command(diag_cmd_table, { "disconnect" });
		PBT_CHECK(c, global_state == STATE_IDLE && !global_l3_conn && !global_l2_conn, "still connected after disconnect");
		// the next attempt forgets the data of this car
		k.here = false;
		command(scantool_cmd_table, { "scan" });
		PBT_CHECK(c, lib_bytes() == base, "memory leaked: %zu", lib_bytes() - base);
		global_dl0d = nullptr;
	}
}
