/* Probe subprotocol: echoes, and reports every callback to the simulator. */
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#define EXP __attribute__((visibility("default")))
typedef void (*send_t)(int, int, char *, uint64_t);
static send_t send_;
extern void probe_event(int type, int fd, const void *a, size_t n, const char *s1, const char *s2, int port) __attribute__((weak));
EXP void setAllocators(void *a, void *b, void *c) { if (probe_event) probe_event(0, -1, 0, a && b && c, 0, 0, 0); }
EXP void onInit(char *config, send_t s) { send_ = s; if (probe_event) probe_event(1, -1, 0, 0, config, 0, 0); }
EXP void onConnect(int fd, char *ip, int port, char *path, char *cookies) { if (probe_event) { probe_event(8, fd, 0, 0, cookies, 0, 0); probe_event(2, fd, 0, 0, ip, path, port); } }
EXP void onMessage(int fd, int opcode, char *m, size_t n) { if (probe_event) probe_event(3, fd, m, n, 0, 0, opcode); send_(fd, opcode, m, n); if (probe_event) probe_event(7, fd, 0, 0, 0, 0, 0); }
EXP void onWrite(int fd, char *m, size_t n) { if (probe_event) probe_event(4, fd, m, n, 0, 0, 0); }
EXP void onClose(int fd) { if (probe_event) probe_event(5, fd, 0, 0, 0, 0, 0); }
EXP void onDestroy(void) { if (probe_event) probe_event(6, -1, 0, 0, 0, 0, 0); }
