/* A subprotocol that sends from all of its events: greetings when a client connects, announcements to the others when one
   comes, speaks or goes, echoes, and a Close on request. The simulator is told what is about to be sent. */
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define EXP __attribute__((visibility("default")))
typedef void (*send_t)(int, int, char *, uint64_t);
static send_t send_; static pthread_rwlock_t lk = PTHREAD_RWLOCK_INITIALIZER; static char here[66200]; static int lo = sizeof here, hi;
extern int push_mode(void) __attribute__((weak)); extern int push_text(int kind, int from, int to, int op, char *b) __attribute__((weak)); extern void push_at(int n) __attribute__((weak));
static void say(int kind, int from, int to, int op) { char b[5000]; int n = push_text(kind, from, to, op, b); send_(to, op, b, n); memset(b, 'X', n); }
static void others(int kind, int fd, int op) { int i; pthread_rwlock_rdlock(&lk); for (i = lo; i < hi; i++) if (here[i] && i != fd) say(kind, fd, i, op); pthread_rwlock_unlock(&lk); }
EXP void setAllocators(void *a, void *b, void *c) { (void)a; (void)b; (void)c; }
EXP void onInit(char *config, send_t s) { (void)config; send_ = s; memset(here, 0, sizeof here); lo = sizeof here; hi = 0; pthread_rwlock_init(&lk, NULL); }
EXP void onConnect(int fd, char *ip, int port, char *path, char *cookies) {
  int m = push_mode(), i; (void)ip; (void)port; (void)path; (void)cookies;
  for (i = 0; i < (m & 3); i++) say('H', fd, fd, 1 + i % 2);
  if (m & 4) others('J', fd, 1);
  pthread_rwlock_wrlock(&lk); here[fd] = 1; if (fd < lo) lo = fd; if (fd >= hi) hi = fd + 1; pthread_rwlock_unlock(&lk);
  push_at(1);
}
EXP void onMessage(int fd, int op, char *t, size_t n) {
  int m = push_mode(), i;
  if (n >= 6 && !memcmp(t, "@@kick", 6)) { static const int len[] = {0, 2, 5, 125}; int k = n > 6 ? t[6] - '0' : 2; char *b = malloc(len[k] + !len[k]); if (k) { memcpy(b, "\x0f\xa0" "bye", len[k] < 5 ? len[k] : 5); b[1] += k; if (k == 3) memset(b + 2, 'y', 123); } send_(fd, 8, k ? b : 0, len[k]); free(b); return; }
  if (n >= 6 && !memcmp(t, "@@ping", 6)) send_(fd, 9, "are you there", 13);
  if (m & 8) others('B', fd, op);
  push_at(2);
  send_(fd, op, n || !(m & 64) ? t : 0, n);
  if (m & 32) { pthread_rwlock_rdlock(&lk); for (i = fd > 40 ? fd - 40 : 0; i < fd + 40; i++) if (!here[i]) say('P', fd, i, 1); pthread_rwlock_unlock(&lk); }   /* nobody there, or somebody who is not ready to hear anything */
}
EXP void onWrite(int fd, char *m, size_t n) { (void)fd; (void)m; (void)n; }
EXP void onClose(int fd) {
  pthread_rwlock_wrlock(&lk); here[fd] = 0; pthread_rwlock_unlock(&lk);
  if (push_mode() & 16) others('L', fd, 2);
}
EXP void onDestroy(void) { pthread_rwlock_destroy(&lk); }
