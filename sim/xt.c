/* Two extensions of the harness, built from this file as xa and xb. What they do to the data depends on the connection, the
   direction and everything that went before, so that a frame that is left out, seen twice or seen out of order shows. */
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#define EXP __attribute__((visibility("default")))
typedef struct { bool fin, rsv1, rsv2, rsv3; uint8_t opcode; bool mask; uint64_t payloadLength; char maskingKey[4]; char *payload; uint64_t extensionDataLength, applicationDataLength; } frame_t;
typedef void *(*malloc_t)(size_t); typedef void *(*realloc_t)(void *, size_t); typedef void (*free_t)(void *);
static malloc_t m_; static realloc_t r_; static free_t f_;
enum { IN, OUT };
extern int xt_event(int x, int type, int fd, const char *s, char *accepted) __attribute__((weak));
extern int xt_begin(int x, int dir, int each, int fd, frame_t **f, size_t n) __attribute__((weak));   /* what to do: 0 nothing, 1 transform, 2 and use extension data */
extern void xt_bytes(int x, int dir, int fd, void *p, size_t n) __attribute__((weak));
extern void xt_count(int x, int dir, int fd, unsigned char *two) __attribute__((weak));
extern void xt_end(int x, int dir, int fd) __attribute__((weak));
EXP void setAllocators(malloc_t m, realloc_t r, free_t f) { m_ = m; r_ = r; f_ = f; xt_event(XT, 0, -1, m && r && f ? "" : NULL, NULL); }
EXP void onInit(char *config) { xt_event(XT, 1, -1, config, NULL); }
EXP void onOpen(int fd, char *param, char **accepted, bool *valid) {
  char b[64] = ""; int v = xt_event(XT, 2, fd, param, b);
  if (v && b[0]) { if ((*accepted = m_(strlen(b) + 1))) strcpy(*accepted, b); else { v = 0; xt_event(XT, 5, fd, NULL, NULL); } }
  *valid = v;
}
static void whole(int dir, int fd, frame_t **f, size_t n) {
  int how = xt_begin(XT, dir, 0, fd, f, n); size_t i;
#if XT == 1
  if (how && dir == IN) {
    frame_t *h = f[0]; unsigned char two[2]; size_t got = 0, k;
    /* the counter may be spread over the first frames */
    for (i = 0; i < n && got < 2; i++) {
      k = f[i]->payloadLength < 2 - got ? f[i]->payloadLength : 2 - got; memcpy(two + got, f[i]->payload, k); got += k;
      if (how == 2 && k == 2) { f[i]->extensionDataLength = 2; f[i]->applicationDataLength -= 2; }
      else if (k) { memmove(f[i]->payload, f[i]->payload + k, f[i]->payloadLength - k); f[i]->payloadLength -= k; f[i]->applicationDataLength = f[i]->payloadLength; }
    }
    if (got == 2) xt_count(XT, dir, fd, two); else xt_count(XT, dir, fd, NULL);
    for (i = 0; i < n; i++) xt_bytes(XT, dir, fd, f[i]->payload + f[i]->extensionDataLength, f[i]->applicationDataLength);
    h->rsv3 = false;
  } else if (how) {
    frame_t *h = f[0]; unsigned char two[2]; char *p = h->payload ? r_(h->payload, h->payloadLength + 2) : m_(2);
    for (i = 0; p && i < n; i++) xt_bytes(XT, dir, fd, i ? f[i]->payload : p, f[i]->applicationDataLength);
    if (p) {
      xt_count(XT, dir, fd, two); memmove(p + 2, p, h->payloadLength); memcpy(p, two, 2); h->payload = p; h->payloadLength += 2; h->rsv3 = true;
      if (how == 2) h->extensionDataLength = 2; else h->applicationDataLength = h->payloadLength;
    } else { h->payload = NULL; h->payloadLength = h->applicationDataLength = 0; }
  }
#else
  (void)how; (void)i;
#endif
  xt_end(XT, dir, fd);
}
static void each(int dir, int fd, frame_t *f) {
  int how = xt_begin(XT, dir, 1, fd, &f, 1);
#if XT == 0
  if (how) { xt_bytes(XT, dir, fd, f->payload, f->payloadLength); f->rsv2 = dir == OUT; }
#else
  (void)how;
#endif
  xt_end(XT, dir, fd);
}
EXP void inFrame(int fd, frame_t *f) { each(IN, fd, f); }
EXP void inFrames(int fd, frame_t **f, size_t n) { whole(IN, fd, f, n); }
EXP void outFrame(int fd, frame_t *f) { each(OUT, fd, f); }
EXP void outFrames(int fd, frame_t **f, size_t n) { whole(OUT, fd, f, n); }
EXP void onClose(int fd) { xt_event(XT, 3, fd, NULL, NULL); }
EXP void onDestroy(void) { xt_event(XT, 4, -1, NULL, NULL); }
