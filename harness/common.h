/* Shared by all drivers: trace buffer, crash reporting, witness module. */
#pragma once
#include "picotm/picotm.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char* tr_buf; static size_t tr_len, tr_cap; static int tr_fd = -1;
static const char* tr_ctx = "";

static inline void tr_flush(void)
{
    size_t o = 0;
    while (o < tr_len) {
        ssize_t n = write(tr_fd, tr_buf + o, tr_len - o);
        if (n <= 0) break;
        o += n;
    }
    tr_len = 0;
}
static inline void tr_open(const char* path)
{
    tr_fd = path ? open(path, O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644) : dup(1);
    if (tr_fd >= 0 && tr_fd < 500) { int f = fcntl(tr_fd, F_DUPFD_CLOEXEC, 500); if (f >= 0) { close(tr_fd); tr_fd = f; } }
    if (tr_fd < 0) { perror(path); exit(3); }
#ifndef HUGE_MALLOC
    mallopt(M_PERTURB, 0xa5); /* new memory does not happen to be zero */
#endif
    tr_cap = 1 << 20;
    tr_buf = malloc(tr_cap + 65536);
}
static inline void tr_raw(const char* s, size_t n)
{
    memcpy(tr_buf + tr_len, s, n); tr_len += n;
    if (tr_len > tr_cap) tr_flush();
}
static inline void tr(const char* fmt, ...)
{
    char b[8192]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (!strncmp(b, "{\"e\":\"reset\"", 12)) alarm(40); /* a run takes milliseconds */
    tr_raw(b, n);
}
/* bytes as JSON list into a static ring */
static inline const char* tr_bytes(const void* p, size_t n)
{
    static char ring[8][4096]; static int k; char* s = ring[k++ & 7]; char* o = s;
    const unsigned char* b = p;
    *o++ = '[';
    for (size_t i = 0; i < n && o - s < 4000; ++i) o += sprintf(o, i ? ",%u" : "%u", b[i]);
    *o++ = ']'; *o = 0;
    return s;
}
static void crash_handler(int sig)
{
    static volatile int once;
    if (!once) {
        once = 1;
        char b[128];
        int n = snprintf(b, sizeof b, "{\"e\":\"crash\",\"t\":0,\"sig\":%d}\n", sig);
        if (tr_buf) { memcpy(tr_buf + tr_len, b, n); tr_len += n; tr_flush(); }
    }
    _exit(97);
}
static inline void crash_install(void)
{
    static char stack[65536];
    stack_t ss = { .ss_sp = stack, .ss_size = sizeof stack };
    sigaltstack(&ss, NULL);
    int s[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM };
    for (unsigned i = 0; i < sizeof s / sizeof *s; ++i) {
        struct sigaction sa = { .sa_handler = crash_handler, .sa_flags = SA_ONSTACK | SA_NODEFER };
        sigaction(s[i], &sa, NULL);
    }
}
/* assertion text and picotm_error messages are not interesting for the trace */

static uint64_t rg_s = 88172645463325252ull;
static inline uint64_t rg(uint64_t* s) { uint64_t x = *s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; *s = x; return (x * 2685821657736338717ull) >> 20; }
static inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull + b * 0xBF58476D1CE4E5B9ull + 0x94D049BB133111EBull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x ? x : 1; }
