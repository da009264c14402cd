// LINK: vos
// The simulated car against a reference reading of its database.
#include "pbt.hpp"
#include "vos.hpp"
#include <cmath>
#include <cstring>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_os.h"
#include "diag_cfg.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
}
using namespace pbt;
const char *pbt::prop_id = "E01";
const char *pbt::prop_rule = "1-3 databases of 0-12 requests (patterns of 1-260 bytes with don't-cares, often overlapping) with 0-6 (rarely 300) responses of literals and tokens, comments of any length that mention tags, blank lines and settings, in any layout, "
	"or damaged texts; the same or another database is opened 1-4 times, with 0-8 operations each (requests that match exactly, are longer, shorter or unlike, receptions, bus initialisation, time passing); non-trivial = a token, don't-care, several responses, damage or reopening";
unsigned pbt::quick_cases = 40000, pbt::thorough_cases = 400000;

namespace {
enum Kind { LIT, SIN, SWT, CKS, REQ, REQP };
struct Tok { Kind k; unsigned v; };
typedef std::vector<Tok> Resp;
struct Entry { std::vector<int> pat; std::vector<Resp> resp; };
struct Db {
	std::string text;
	std::vector<Entry> e;
	int proto = 0;
	bool dataonly = false, nocksum = false, framed = false, fullinit = false, damaged = false;
	int fd = -1;
	std::string path;
};
struct { const char *name; int p; } protos[] = { { "P_9141", DIAG_L1_ISO9141 }, { "P_14230", DIAG_L1_ISO14230 }, { "P_J1850P", DIAG_L1_J1850_PWM }, { "P_J1850V", DIAG_L1_J1850_VPW }, { "P_CAN", DIAG_L1_CAN }, { "P_RAW", DIAG_L1_RAW } };

std::string fmt(const char *f, unsigned v) { char b[32]; snprintf(b, sizeof b, f, v); return b; }
std::string lit(Ctx &c, unsigned style, uint8_t v) {
	switch (style) {
	case 0: return fmt("0x%02x", v);
	case 1: return fmt("0x%02X", v);
	case 2: return fmt("%02X", v);
	default: return fmt(c.chance(1, 2) ? "0x%x" : "%x", v);
	}
}
std::string comment(Ctx &c) {
	static const char *const bits[] = { "CFG DATAONLY", "CFG NOL2CKSUM", "CFG FRAMED", "CFG FULLINIT", "CFG P_CAN", "CFG P_RAW", "RP 0x11 0x22", "RQ 0x01", "RQ 0x01 0x02", "x", "mode 1 pid 0", " ", "#CFG FRAMED", "#RP 0x55 0xaa" };
	std::string s = "#";
	if (c.chance(3, 4)) s += " ";
	size_t len = c.chance(1, 6) ? c.size(3000) : c.pick({ 4, 17, 36, 55, 60 }) + c.draw(4);
	bool filler = c.chance(1, 2);
	while (s.size() < len) {
		if (filler || c.chance(1, 3)) { size_t k = c.pick({ 1, 19, 38, 1305 }); s.append(k > s.size() ? k - s.size() : 1, '-'); }
		s += bits[c.draw(14)];
	}
	return s;
}
Db gen(Ctx &c) {
	Db d;
	std::vector<std::string> lines;
	unsigned style = c.draw(4);
	std::string eol = c.chance(1, 6) ? "\r\n" : "\n";
	auto sep = [&]() -> std::string { return style == 0 || !c.chance(1, 10) ? " " : c.chance(1, 2) ? "\t" : "  "; };
	for (unsigned k = c.weighted({ 3, 3, 1 }); k; k--) { unsigned i = c.draw(6); d.proto = protos[i].p; lines.push_back(std::string("CFG ") + protos[i].name); }
	auto opt = [&](const char *name) { lines.insert(lines.begin() + c.draw(lines.size() + 1), std::string("CFG ") + name); return true; };
	unsigned kind = c.weighted({ 4, 1, 1, 1, 1 });
	if (kind == 1 || (kind == 4 && c.chance(1, 2))) d.dataonly = opt("DATAONLY");
	if (kind == 2 || (kind == 4 && c.chance(1, 2))) d.nocksum = opt("NOL2CKSUM");
	if (kind == 3 || (kind == 4 && c.chance(1, 2))) d.framed = opt("FRAMED");
	if (c.chance(1, 4)) d.fullinit = opt("FULLINIT");
	for (auto &l : lines) if (c.chance(1, 8)) l += c.chance(1, 2) ? " " : "\t# comment";
	if (c.chance(1, 3)) lines.insert(lines.begin() + c.draw(lines.size() + 1), comment(c));
	std::vector<std::string> cfg;
	if (c.chance(1, 4)) cfg.swap(lines);        // settings at the end
	unsigned n = c.weighted({ 1, 3, 3, 3, 2, 2 }) + (c.chance(1, 8) ? 6 : 0);
	Bytes alpha = c.bytes(3);
	alpha.push_back(0x33); alpha.push_back(0);
	bool big = c.chance(1, 12), many = c.chance(1, 40);
	for (unsigned i = 0; i < n; i++) {
		Entry e;
		size_t pl = big && c.chance(1, 3) ? c.chance(1, 2) ? c.range(254, 260) : c.range(1, 260) : c.range(1, 5);
		std::string l = "RQ";
		if (i && c.chance(1, 4)) e.pat = d.e[c.draw(i)].pat;
		for (size_t k = 0; k < pl; k++) {
			if (k < e.pat.size()) { if (c.chance(1, 3)) e.pat[k] = c.chance(1, 2) ? -1 : alpha[c.draw(5)]; }
			else e.pat.push_back(c.chance(1, 6) ? -1 : alpha[c.draw(5)]);
		}
		for (int v : e.pat) { l += sep(); l += v < 0 ? "XXXX" : lit(c, style, (uint8_t)v); }
		lines.push_back(l);
		unsigned rn = many && c.chance(1, 2) ? (unsigned)c.range(250, 300) : c.weighted({ 1, 5, 2, 2, 1, 1, 1 });
		for (unsigned r = 0; r < rn; r++) {
			Resp x;
			std::string t = "RP";
			size_t len = big && c.chance(1, 3) ? c.range(200, 260) : many && rn > 100 ? 2 : c.range(1, 12);
			bool refs = c.chance(1, 2), wide = big && len >= 200 && c.chance(1, 3);
			if (wide) { len = c.chance(2, 3) ? 260 : len; refs = false; }
			for (size_t k = 0; k < len; k++) {
				Tok o = { LIT, c.byte() };
				if (refs) switch (c.weighted({ 6, 1, 1, 2, 3, 2 })) {
				case 1: o.k = SIN; break;
				case 2: o.k = SWT; break;
				case 3: o.k = CKS; break;
				case 4: o = { REQ, (unsigned)(big && c.chance(1, 2) ? c.chance(1, 3) ? c.range(255, 260) : c.range(1, 260) : c.range(1, 6)) }; break;
				case 5: o = { REQP, (unsigned)(big && c.chance(1, 2) ? c.chance(1, 3) ? c.range(255, 260) : c.range(1, 260) : c.range(1, 6)) }; break;
				}
				if (wide) o = { REQP, (unsigned)c.range(100, 260) };
				x.push_back(o);
				t += wide ? std::string(" ") : sep();
				switch (o.k) {
				case LIT: t += lit(c, style, (uint8_t)o.v); break;
				case SIN: t += "sin1"; break;
				case SWT: t += "swt1"; break;
				case CKS: t += "cks1"; break;
				case REQ: t += fmt("req%u", o.v); break;
				case REQP: t += fmt("req%u+", o.v); break;
				}
			}
			e.resp.push_back(x);
			lines.push_back(t);
			if (rn < 10 && c.chance(1, 12)) lines.push_back(c.chance(1, 2) ? "" : comment(c));
		}
		d.e.push_back(e);
		if (c.chance(1, 6)) lines.push_back("");
		if (c.chance(1, 6)) lines.push_back(comment(c));
	}
	for (auto &l : cfg) lines.push_back(l);
	for (size_t i = 0; i < lines.size(); i++) { d.text += lines[i]; if (i + 1 < lines.size() || !c.chance(1, 6)) d.text += eol; }
	if (c.chance(1, 5)) {
		d.damaged = true;
		for (unsigned k = c.range(1, 5); k; k--) {
			static const char *const ins[] = { "\nRP\n", "\nRP ", "\nRQ\n", "\nRQ", "\nCFG\n", "\nCFG", " req", " req0 ", " req261 ", " req99999999999 ", " req-1 ", " req1x ", " 0x1ff ", " zz ", " XXXX ", "\nRP \t \n", "\nRP XXXX\n", "0x", "\nRQ zz\nRP 01\n" };
			size_t at = c.draw(d.text.size() + 1);
			switch (c.draw(6)) {
			case 0: d.text.resize(at); break;
			case 1: d.text.insert(at, ins[c.draw(sizeof ins / sizeof *ins)]); break;
			case 2: d.text += ins[c.draw(sizeof ins / sizeof *ins)]; break;
			case 3: { std::string l = c.chance(1, 2) ? "\nRP" : "\nRQ"; for (size_t j = c.size(600); j; j--) l += " 01"; d.text.insert(at, l); break; }
			case 4: if (at < d.text.size()) d.text[at] = (char)c.byte(); break;
			case 5: if (at < d.text.size()) d.text.erase(at, c.range(1, 20)); break;
			}
		}
	}
	d.fd = memfd_create("db", 0);
	size_t off = 0;
	while (off < d.text.size()) { ssize_t k = write(d.fd, d.text.data() + off, d.text.size() - off); if (k <= 0) c.fail("harness: memfd"); off += k; }
	d.path = fmt("/proc/self/fd/%u", (unsigned)d.fd);
	return d;
}
const Entry *find(const Db &d, const Bytes &q) {
	for (auto &e : d.e) {
		if (q.size() < e.pat.size()) continue;
		bool ok = true;
		for (size_t i = 0; i < e.pat.size(); i++) if (e.pat[i] >= 0 && e.pat[i] != q[i]) ok = false;
		if (ok) return &e;
	}
	return nullptr;
}
// the value of a token must be one of these (inclusive, circular)
bool tokok(const Tok &t, const Bytes &q, const Bytes &before, uint8_t v) {
	unsigned m = (unsigned)(diag_os_getms() % 1000);
	switch (t.k) {
	case LIT: return v == (uint8_t)t.v;
	case SIN: return fabs((double)(int8_t)v - 127 * sin(m * 6.283185307 / 1000)) < 1.5;
	case SWT: return v >= 0.255 * m - 1.01 && v <= 0.256 * m + 1.01;
	case CKS: { unsigned s = 0; for (uint8_t x : before) s += x; return v == (uint8_t)s; }
	case REQ: return v == (t.v <= q.size() ? q[t.v - 1] : 0);
	case REQP: return v == (uint8_t)((t.v <= q.size() ? q[t.v - 1] : 0) + 1) || (t.v > q.size() && v == 0);
	}
	return false;
}
uint32_t want_flags(const Db &d) {
	uint32_t f = DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY;
	if (d.dataonly || d.nocksum) f |= DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_DOESL2FRAME;
	if (d.dataonly) f |= DIAG_L1_NOHDRS | DIAG_L1_DATAONLY;
	if (d.framed) f |= DIAG_L1_DOESL2FRAME;
	if (d.fullinit) f |= DIAG_L1_DOESFULLINIT;
	return f;
}
unsigned fds() {
	unsigned n = 0;
	for (int i = 0; i < 64; i++) n += fcntl(i, F_GETFD) >= 0;
	return n;
}
void aim(Ctx &c, struct diag_l0_device *dev, const Db &d) {
	struct cfgi *cfg = diag_l0_getcfg(dev);
	if (!cfg || diag_cfg_setstr(cfg, d.path.c_str())) c.fail("the database could not be selected");
}
}

void pbt::property(Ctx &c) {
	if (diag_init()) c.fail("harness: diag_init");
	vos::advance(c.range(0, 5000) * 1000 + 1);
	std::vector<Db> dbs;
	for (unsigned n = c.weighted({ 4, 2, 1 }) + 1; n; n--) dbs.push_back(gen(c));
	size_t base = lib_bytes();
	unsigned fd0 = fds();
	struct diag_l0_device *dev = diag_l0_new("CARSIM");
	if (!dev) c.fail("no simulated car");
	unsigned opens = c.weighted({ 4, 2, 1, 1 }) + 1;
	if (opens > 1) c.nontrivial();
	for (unsigned o = 0; o < opens; o++) {
		const Db &d = dbs[c.draw(dbs.size())];
		if (d.damaged) c.nontrivial();
		c.note("open %u: %s\n%s", o, d.damaged ? "damaged" : "", d.text.substr(0, 1500).c_str());
		aim(c, dev, d);
		int proto = c.chance(2, 3) && d.proto ? d.proto : protos[c.draw(6)].p;
		int rv = diag_l0_open(dev, proto);
		bool fits = !d.proto || d.proto == proto;
		// a fresh device is the model of a reopened one
		struct diag_l0_device *ref = diag_l0_new("CARSIM");
		aim(c, ref, d);
		int rr = diag_l0_open(ref, proto);
		PBT_CHECK(c, !rv == !rr, "opening returned %d, on a fresh device %d", rv, rr);
		if (!d.damaged) PBT_CHECK(c, !rv == fits, "opening for protocol %d a database for %d returned %d", proto, d.proto, rv);
		c.label("open %s", rv ? "refused" : "ok");
		if (rv) { (void)diag_geterr(); diag_l0_del(ref); continue; }
		uint32_t f = diag_l0_getflags(dev);
		PBT_CHECK(c, f == diag_l0_getflags(ref), "capabilities %x, on a fresh device %x", f, diag_l0_getflags(ref));
		if (!d.damaged) PBT_CHECK(c, f == want_flags(d), "capabilities %x instead of %x", f, want_flags(d));
		const Entry *cur = nullptr;         // unread responses
		Bytes q;
		size_t ri = 0;
		bool unknown = false;               // damaged: pending state not modelled
		for (unsigned k = c.range(0, 8); k; k--) {
			bool pending = cur && ri < cur->resp.size();
			switch (c.weighted({ 8, 1, 1, 1 })) {
			case 0: {
				Bytes r;
				if (!d.e.empty() && c.chance(5, 6)) {
					const Entry &e = d.e[c.draw(d.e.size())];
					for (int v : e.pat) r.push_back(v < 0 ? c.byte() : (uint8_t)v);
					switch (c.weighted({ 5, 2, 2, 2 })) {
					case 1: { Bytes x = c.bytes(c.range(1, 4)); r.insert(r.end(), x.begin(), x.end()); break; }
					case 2: r.resize(c.range(0, (long)r.size())); break;
					case 3: r[c.chance(1, 2) ? r.size() - 1 : c.draw(r.size())] ^= (uint8_t)c.range(1, 255); break;
					}
				} else r = c.bytes(c.chance(1, 10) ? c.pick({ 240, 254 }) + c.draw(60) : c.range(0, 8));
				int sv = diag_l0_send(dev, r.data(), r.size()), sr = diag_l0_send(ref, r.data(), r.size());
				c.note("request %s", hex(r).c_str());
				PBT_CHECK(c, !sv == !sr, "sending returned %d, on a fresh device %d", sv, sr);
				if (r.empty() || r.size() > 260) { PBT_CHECK(c, sv < 0, "a request of %zu bytes was accepted", r.size()); break; }
				if (d.damaged) { if (!sv) unknown = true; }
				else if (pending) { PBT_CHECK(c, sv < 0, "request accepted with unread responses"); break; }
				else PBT_CHECK(c, sv == 0, "request refused: %d", sv);
				if (!d.damaged) { q = r; cur = find(d, r); ri = 0; c.label("%s", cur ? "answered" : "no match"); }
				break; }
			case 1: {
				struct diag_l1_initbus_args in;
				memset(&in, 0, sizeof in);
				in.type = (uint8_t)c.pick({ (int)DIAG_L1_INITBUS_FAST, (int)DIAG_L1_INITBUS_5BAUD, (int)DIAG_L1_INITBUS_2SLOW });
				in.addr = c.chance(1, 2) ? 0x33 : c.byte();
				struct diag_l1_initbus_args i2 = in;
				int iv = diag_l0_ioctl(dev, DIAG_IOCTL_INITBUS, &in);
				diag_l0_ioctl(ref, DIAG_IOCTL_INITBUS, &i2);
				c.note("initbus %d addr %02x", in.type, in.addr);
				if (d.damaged) { unknown = true; break; }
				if (d.fullinit) { PBT_CHECK(c, iv == 0, "full initialisation returned %d", iv); cur = nullptr; break; }
				if (in.type == DIAG_L1_INITBUS_2SLOW) { PBT_CHECK(c, iv < 0, "unsupported initialisation accepted"); cur = nullptr; break; }
				PBT_CHECK(c, iv == 0, "initialisation returned %d", iv);
				q = { in.type == DIAG_L1_INITBUS_FAST ? (uint8_t)0 : in.addr };
				cur = find(d, q);
				ri = in.type == DIAG_L1_INITBUS_FAST ? 0 : 1;       // the synchronisation pattern is taken
				break; }
			case 2: vos::advance(c.range(1, 2000) * 1000); break;
			case 3: { uint8_t x; PBT_CHECK(c, diag_l0_recv(dev, &x, 0, 10) < 0, "reception of nothing succeeded"); break; }
			}
			(void)diag_geterr();
			for (unsigned n = c.chance(1, 8) ? c.draw(3) : 400; n; n--) {
				size_t len = c.chance(1, 10) ? c.range(1, 8) : 300;
				Bytes buf(len, 0xa5), b2(len, 0xa5);
				int rv = diag_l0_recv(dev, buf.data(), len, 100);
				int r2 = diag_l0_recv(ref, b2.data(), len, 100);
				PBT_CHECK(c, rv == r2 && (rv < 0 || buf == b2), "received %d %s, on a fresh device %d %s", rv, hex(buf).c_str(), r2, hex(b2).c_str());
				PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT || (rv > 0 && (size_t)rv <= len), "reception returned %d", rv);
				if (unknown) { if (rv < 0 && n < 380) break; continue; }
				if (!cur || ri >= cur->resp.size()) { PBT_CHECK(c, rv == DIAG_ERR_TIMEOUT, "%d bytes received without a response", rv); break; }
				auto &x = cur->resp[ri++];
				PBT_CHECK(c, rv == (int)std::min(len, x.size()), "response %zu has %d bytes instead of %zu", ri, rv, x.size());
				Bytes before;
				for (int i = 0; i < rv; i++) {
					PBT_CHECK(c, tokok(x[i], q, before, buf[i]), "byte %d (token %d %u) of response %zu is %02x; request %s, time %lu", i, x[i].k, x[i].v, ri, buf[i], hex(q).c_str(), diag_os_getms());
					before.push_back(buf[i]);
					if (x[i].k != LIT) { c.nontrivial(); c.label("token %d", x[i].k); }
				}
				for (size_t i = rv; i < len; i++) PBT_CHECK(c, buf[i] == 0xa5, "wrote beyond the response");
				if (ri > 1) c.nontrivial();
				if (ri > 256) c.label("more than 256 responses");
			}
		}
		diag_l0_close(dev);
		diag_l0_close(ref);
		diag_l0_del(ref);
	}
	diag_l0_del(dev);
	PBT_CHECK(c, lib_bytes() == base, "leak of %ld bytes", (long)lib_bytes() - (long)base);
	PBT_CHECK(c, fds() == fd0, "%u files are open, %u before", fds(), fd0);
}
