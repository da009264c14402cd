// LINK: vos wire
// Text decoders against independent table-driven ones.
#include "sess.hpp"
extern "C" {
#include "diag_l3.h"
#include "diag_iso14230.h"
}
using namespace pbt;
using namespace wire;
const char *pbt::prop_id = "T02";
const char *pbt::prop_rule = "a message of 0..255 bytes (every service, response and error code favoured, plus arbitrary bytes) decoded by the OBD-II, ISO 14230 or VAG decoder directly or shown on reception, into buffers of "
	"1..2000 bytes, message in an exact-size heap block; non-trivial = a message of at least two bytes of a service in the tables";
unsigned pbt::quick_cases = 60000, pbt::thorough_cases = 1000000;

namespace {
std::string fmt(const char *f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::string dump(const Bytes &m, size_t from) { std::string s; for (size_t i = from; i < m.size(); i++) s += fmt("0x%02X ", m[i]); return s; }
std::string j1979(const Bytes &m, bool &known) {
	known = true;
	if (m.empty()) return "J1979: empty message";
	std::string s = m[0] & 0x40 ? "J1979 response " : "J1979 request ";
	uint8_t mode = m[0] & ~0x40;
	size_t need = mode == 1 || mode == 6 || mode == 8 || mode == 9 ? 2 : mode == 2 || mode == 5 ? 3 : 1;
	if (m.size() < need) return s + "Incomplete message: " + dump(m, 0);
	switch (m[0]) {
	case 0x01: return s + fmt("Mode 1 PID 0x%02X", m[1]);
	case 0x41: return s + fmt("Mode 1 Data: PID 0x%02X ", m[1]) + dump(m, 2);
	case 0x02: return s + fmt("Mode 2 PID 0x%02X Frame 0x%02X", m[1], m[2]);
	case 0x42: return s + fmt("Mode 2 FreezeFrame Data: PID 0x%02X Frame 0x%02X ", m[1], m[2]) + dump(m, 3);
	case 0x03: return s + "Mode 3 (Powertrain DTCs)";
	case 0x07: return s + "Request Non-Continuous Monitor System Test Results";
	case 0x43: case 0x47: {
		s += m[0] == 0x47 ? "Non-Continuous Monitor System DTCs: " : "DTCs: ";
		for (size_t i = 1; i + 1 < m.size() && i < 7; i += 2) if (m[i] || m[i + 1]) s += fmt("%c%02X%02X  ", "PCBU"[m[i] >> 6], m[i] & 0x3f, m[i + 1]);
		return s; }
	case 0x04: return s + "Clear DTCs";
	case 0x44: return s + "DTCs cleared";
	case 0x05: return s + fmt("Oxygen Sensor Test ID 0x%02X Sensor 0x%02X", m[1], m[2]);
	case 0x45: return s + fmt("Oxygen Sensor TID 0x%02X Sensor 0x%02X ", m[1], m[2]) + dump(m, 3);
	case 0x06: return s + fmt("Onboard monitoring test request TID 0x%02X", m[1]);
	case 0x46: return s + fmt("Onboard monitoring test result TID 0x%02X ", m[1]) + dump(m, 2);
	case 0x08: return s + fmt("Request control of onboard system TID 0x%02X", m[1]);
	case 0x48: return s + fmt("Control of onboard system response TID 0x%02X ", m[1]) + dump(m, 2);
	case 0x09: return s + fmt("Request vehicle information infotype 0x%02X", m[1]);
	case 0x49: return s + fmt("Vehicle information infotype 0x%02X ", m[1]) + dump(m, 2);
	}
	known = false;
	return s + fmt("UnknownType 0x%02X: Data Dump: ", m[0]) + dump(m, 0);
}
struct N { int id; const char *s; };
const N sids[] = { { 0x10, "startDiagnosticSession" }, { 0x11, "ecuReset" }, { 0x12, "readFreezeFrameData" }, { 0x13, "readDiagnosticTroubleCodes" }, { 0x14, "clearDiagnosticInformation" },
	{ 0x17, "readStatusOfDiagnosticTroubleCodes" }, { 0x18, "readDiagnosticTroubleCodesByStatus" }, { 0x1a, "readEcuId" }, { 0x20, "stopDiagnosticSession" }, { 0x21, "readDataByLocalId" },
	{ 0x22, "readDataByCommonId" }, { 0x23, "readMemoryByAddress" }, { 0x25, "stopRepeatedDataTransmission" }, { 0x26, "setDataRates" }, { 0x27, "securityAccess" }, { 0x2c, "dynamicallyDefineLocalId" },
	{ 0x2e, "writeDataByCommonId" }, { 0x2f, "inputOutputControlByCommonId" }, { 0x30, "inputOutputControlByLocalId" }, { 0x31, "startRoutineByLocalID" }, { 0x32, "stopRoutineByLocalID" },
	{ 0x33, "requestRoutineResultsByLocalId" }, { 0x34, "requestDownload" }, { 0x35, "requestUpload" }, { 0x36, "transfer data" }, { 0x37, "request transfer exit" }, { 0x38, "startRoutineByAddress" },
	{ 0x39, "stopRoutineByAddress" }, { 0x3a, "requestRoutineResultsByAddress" }, { 0x3b, "writeDataByLocalId" }, { 0x3d, "writeMemoryByAddress" }, { 0x3e, "testerPresent" }, { 0x80, "EscCode" },
	{ 0x81, "startCommunication" }, { 0x82, "stopCommunication" }, { 0x83, "accessTimingParameters" } };
const N negs[] = { { 0x10, "generalReject" }, { 0x11, "serviceNotSupported" }, { 0x12, "subFunctionNotSupported-Invalid Format" }, { 0x21, "busy-repeatRequest" },
	{ 0x22, "conditionsNoteCorrectOrRequestSequenceError" }, { 0x23, "routineNotCompleteOrServiceInProgress" }, { 0x31, "requestOutOfRange" }, { 0x33, "securityAccessDenied-securityAccessRequested" },
	{ 0x35, "invalidKey" }, { 0x36, "exceedNumberOfAttempts" }, { 0x37, "requiredTimeDelayNotExpired" }, { 0x40, "downloadNotAccepted" }, { 0x41, "improperDownloadType" },
	{ 0x42, "canNotDownloadToSpecifiedAddress" }, { 0x43, "canNotDownloadNumberOfBytesRequested" }, { 0x50, "uploadNotAccepted" }, { 0x51, "improperUploadType" }, { 0x52, "canNotUploadFromSpecifiedAddress" },
	{ 0x53, "canNotUploadNumberOfBytesRequested" }, { 0x71, "transferSuspended" }, { 0x72, "transferAborted" }, { 0x74, "illegalAddressInBlockTransfer" }, { 0x75, "illegalByteCountInBlockTransfer" },
	{ 0x76, "illegalBlockTrasnferType" }, { 0x77, "blockTransferDataChecksumError" }, { 0x78, "requestCorrectyRcvd-RspPending" }, { 0x79, "incorrectByteCountDuringBlockTransfer" },
	{ 0x80, "serviceNotSupportedInActiveDiagnosticMode//Mfg-Specific" } };
const char *sid(int id) { for (auto &n : sids) if (n.id == id) return n.s; return "Unknown SID"; }
std::string neg(int id) { for (auto &n : negs) if (n.id == id) return n.s; return fmt("Unknown Response code 0x%02X", id); }
std::string kwp(const Bytes &m, bool &known) {
	known = true;
	if (m.empty()) return "Empty response";
	if (m[0] == 0xc1) return "StartCommunications_OK";
	if (m[0] == 0xc2) return "StopCommunications_OK";
	if (m[0] == 0xc3) return "AccessTimingParameters_OK";
	if (m[0] == 0x7f) return m.size() < 3 ? "General_Error, no response code" : fmt("General_Error, Requested_SID_%s ", sid(m[1])) + "Error_" + neg(m[2]);
	if (!(m[0] & 0x40)) { known = false; return fmt("Unknown_response_code 0x%02X", m[0]); }
	std::string s = fmt("Positive response, %s ", sid(m[0] & ~0x40));
	if (m.size() > 1 && m[0] == 0x5a) s += fmt("identOption 0x%02X", m[1]);
	if (m.size() > 1 && m[0] == 0x61) s += fmt("RLOCID 0x%02X", m[1]);
	return s;
}
std::string vagtext(uint8_t type, const Bytes &m, bool &known) {
	const char *n = type == 5 ? "Clear DTCs" : type == 6 ? "End Comms" : type == 7 ? "Request DTCs" : type == 8 ? "Read Data (single)" : type == 0xf6 ? "ASCII Data" : type == 0xfc ? "Hex Data" : nullptr;
	known = n;
	std::string s = n ? fmt("Command: %s: Data : ", n) : fmt("Command: 0x%X: Data : ", type);
	for (uint8_t b : m) s += fmt("0x%X ", b);
	return s + "\n";
}
const struct diag_l3_proto *proto(const char *n) { for (int i = 0; diag_l3_protocols[i]; i++) if (!strcasecmp(diag_l3_protocols[i]->proto_name, n)) return diag_l3_protocols[i]; return nullptr; }
}

void pbt::property(Ctx &c) {
	init_lib();
	size_t base = lib_bytes();
	enum { J, K, V, KRECV, KL3 } kind = (decltype(kind))c.weighted({ 6, 5, 3, 1, 1 });
	Bytes m = c.bytes(c.weighted({ 8, 1 }) ? c.range(0, 255) : c.range(0, 9));
	uint8_t type = c.byte();
	if (!m.empty()) {
		if (kind == J && c.chance(5, 6)) m[0] = (uint8_t)(c.range(1, 9) | (c.chance(2, 3) ? 0x40 : 0));
		if (kind == K || kind == KRECV) {
			if (c.chance(1, 3)) { m[0] = 0x7f; if (m.size() > 2) { if (c.chance(1, 2)) m[1] = (uint8_t)sids[c.draw(36)].id; if (c.chance(2, 3)) m[2] = (uint8_t)negs[c.draw(28)].id; } }
			else if (c.chance(1, 2)) m[0] = (uint8_t)(sids[c.draw(36)].id | 0x40);
		}
	}
	if (kind == V && c.chance(2, 3)) type = c.pick<uint8_t>({ 5, 6, 7, 8, 0xf6, 0xfc });
	size_t bs = c.chance(1, 3) ? (size_t)c.range(1, 120) : 2000;
	uint8_t *heap = (uint8_t *)malloc(m.size() ? m.size() : 1);
	if (m.size()) memcpy(heap, m.data(), m.size());
	struct diag_msg msg = {};
	msg.data = heap; msg.len = m.size(); msg.type = type;
	msg.fmt = c.byte(); msg.src = c.byte(); msg.dest = c.byte();
	bool known = false;
	std::string want;
	const char *kn[] = { "OBD-II", "ISO 14230 response", "VAG", "ISO 14230 reception", "ISO 14230 summary" };
	c.note("%s: %s type %02x buffer %zu", kn[kind], hex(m).c_str(), type, bs);
	if (kind != KRECV) {
		char *buf = (char *)malloc(bs);
		memset(buf, 0x55, bs);
		struct diag_l3_conn conn = {};
		if (kind == J) { want = j1979(m, known); conn.d_l3_proto = proto("SAEJ1979"); diag_l3_decode(&conn, &msg, buf, bs); }
		else if (kind == V) { want = vagtext(type, m, known); conn.d_l3_proto = proto("VAG"); diag_l3_decode(&conn, &msg, buf, bs); }
		else if (kind == KL3) {
			want = m.empty() ? "ISO14230 empty message " : m[0] & 0x40 ? "ISO14230 response " : "ISO14230 request ";
			conn.d_l3_proto = proto("ISO14230"); diag_l3_decode(&conn, &msg, buf, bs);
		} else { want = kwp(m, known); PBT_CHECK(c, diag_l3_iso14230_decode_response(&msg, buf, bs) == buf, "wrong result"); }
		PBT_CHECK(c, memchr(buf, 0, bs), "text not terminated");
		std::string got = buf;
		if (want.size() < bs) PBT_CHECK(c, got == want, "decoded as \"%s\" instead of \"%s\"", got.c_str(), want.c_str());
		else PBT_CHECK(c, want.compare(0, got.size(), got) == 0, "decoded as \"%s\" which is no part of \"%s\"", got.c_str(), want.c_str());
		// another copy of the message, another buffer
		char *buf2 = (char *)malloc(bs);
		memset(buf2, 0xaa, bs);
		uint8_t *heap2 = (uint8_t *)malloc(m.size() ? m.size() : 1);
		if (m.size()) memcpy(heap2, m.data(), m.size());
		struct diag_msg msg2 = msg;
		msg2.data = heap2; msg2.fmt ^= 0x55; msg2.src++; msg2.rxtime = 77;
		if (kind == K) diag_l3_iso14230_decode_response(&msg2, buf2, bs); else diag_l3_decode(&conn, &msg2, buf2, bs);
		PBT_CHECK(c, got == buf2, "equal messages decoded as \"%s\" and \"%s\"", got.c_str(), buf2);
		PBT_CHECK(c, m.empty() || !memcmp(heap, m.data(), m.size()), "message changed");
		free(buf); free(buf2); free(heap2);
		c.label("%s %s%s%s", kn[kind], m.empty() ? "empty" : known ? "known" : "unknown", m.size() > 9 ? " long" : "", want.size() < bs ? "" : " truncated");
	} else {
		if (m.empty()) m.push_back(0x41);
		sess::Sess s(sess::P14230, iso::pick_if(c));
		s.answer = nullptr;
		if (!s.start(c, 0x10)) c.fail("harness: no session");
		struct diag_l3_conn *l3 = diag_l3_start("ISO14230", s.d);
		PBT_CHECK(c, l3, "no application session");
		if (m.size() > 250) m.resize(250);
		want = kwp(m, known);
		s.say({ 20000, m, 0 });
		c.reset_captured();
		std::vector<iso::Got> got;
		int rv = diag_l3_recv(l3, 200, iso::collect_cb, &got);
		PBT_CHECK(c, rv == 0 && got.size() == 1 && got[0].data == m, "received %d/%zu", rv, got.size());
		std::string out = c.captured();
		size_t at = out.find("DECODED: ");
		PBT_CHECK(c, at != std::string::npos && out.compare(at + 9, want.size() + 1, want + "\n") == 0, "shown as \"%s\" instead of \"%s\"", out.c_str(), want.c_str());
		diag_l3_stop(l3);
		diag_l2_StopCommunications(s.d);
		diag_l2_close(&s.dev);
		c.label("%s %s", kn[kind], known ? "known" : "unknown");
	}
	if (known && m.size() > 1) c.nontrivial();
	free(heap);
	PBT_CHECK(c, lib_bytes() == base, "memory leaked");
}
