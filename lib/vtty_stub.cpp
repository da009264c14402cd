// Port list of the serial layer, scripted; nothing else of that layer is used.
#include <vector>
#include <string>
#include <cstdlib>
extern "C" {
#include "diag.h"
#include "diag_tty.h"
}
std::vector<std::string> stub_ports;
extern "C" {
char **diag_tty_getportlist(int *n) {
	char **l = NULL;
	*n = 0;
	for (auto &s : stub_ports) l = strlist_add(l, s.c_str(), (*n)++);
	return l;
}
ttyp *diag_tty_open(const char *) { return NULL; }
void diag_tty_close(ttyp *) {}
int diag_tty_setup(ttyp *, const struct diag_serial_settings *) { return -1; }
int diag_tty_control(ttyp *, unsigned, unsigned) { return -1; }
int diag_tty_iflush(ttyp *) { return -1; }
ssize_t diag_tty_read(ttyp *, void *, size_t, unsigned) { return -1; }
ssize_t diag_tty_write(ttyp *, const void *, const size_t) { return -1; }
int diag_tty_break(ttyp *, const unsigned) { return -1; }
int diag_tty_fastbreak(ttyp *, const unsigned) { return -1; }
}
