/* Stands between the library's extension module and libcrypto (LD_PRELOAD).
 *
 * Every buffer that a call is about to read or write is checked against
 * AddressSanitizer's shadow; libcrypto works on private copies, so that only as
 * many bytes are written as it really produces.  Contexts are followed from
 * allocation to release.  Calls can be made to fail or to take long.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <openssl/evp.h>

void *__asan_region_is_poisoned(void *beg, size_t size) __attribute__((weak));

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static char errors[8192];
static int nerrors;

static void problem(const char *fmt, const char *fn, long a, long b) {
    pthread_mutex_lock(&lock);
    nerrors++;
    size_t n = strlen(errors);
    if (n < sizeof errors - 300) {
        n += snprintf(errors + n, 100, "%s ", fn);
        n += snprintf(errors + n, 180, fmt, a, b);
        snprintf(errors + n, 10, "; ");
    }
    pthread_mutex_unlock(&lock);
}

/* ------------------------------------------------------------ contexts */
#define MAX 4096
static struct { EVP_CIPHER_CTX *ctx; pthread_t user; int busy, freed; } table[MAX];
static long created, released, peak, live, calls[16], written;
enum { NEW, FREE, INIT, UPDATE, FINAL, OTHER };
static int fail_what = -1, fail_after;
static unsigned delay;
static int fill = -1, next;

static int find(EVP_CIPHER_CTX *c) {
    for (int i = 0; i < MAX; i++)
        if (table[i].ctx == c) return i;
    return -1;
}

static int enter(const char *fn, EVP_CIPHER_CTX *c) {
    int i, what = 0;
    pthread_mutex_lock(&lock);
    i = find(c);
    if (c == NULL) what = 1;
    else if (i < 0) what = 2;
    else if (table[i].freed) what = 3;
    else if (table[i].busy) what = 4;
    else { table[i].busy = 1; table[i].user = pthread_self(); }
    pthread_mutex_unlock(&lock);
    switch (what) {
    case 1: problem("is given no context", fn, 0, 0); return 0;
    case 2: problem("is given something that is not a context", fn, 0, 0); return 0;
    case 3: problem("uses a context that was released", fn, 0, 0); return 0;
    case 4: problem("uses a context that another call is using", fn, 0, 0); return 0;
    }
    return 1;
}

static void leave(EVP_CIPHER_CTX *c) {
    pthread_mutex_lock(&lock);
    int i = find(c);
    if (i >= 0) table[i].busy = 0;
    pthread_mutex_unlock(&lock);
}

/* ------------------------------------------------------------- buffers */
static int bad(const char *fn, const char *what, const void *p, long n) {
    char fmt[160];
    if (n <= 0) return 0;
    if (p == NULL) {
        snprintf(fmt, sizeof fmt, "accesses %%ld bytes of %s, which is NULL", what);
        problem(fmt, fn, n, 0);
        return 1;
    }
    if (!__asan_region_is_poisoned) return 0;
    char *q = __asan_region_is_poisoned((void *)p, n);
    if (q) {
        snprintf(fmt, sizeof fmt, "accesses %%ld bytes of %s, but only %%ld belong to it", what);
        problem(fmt, fn, n, (long)(q - (char *)p));
        return 1;
    }
    return 0;
}

static int fails(int what) {
    int r = 0;
    pthread_mutex_lock(&lock);
    calls[what]++;
    if (fail_what == what && --fail_after <= 0) { fail_what = -1; r = 1; }
    pthread_mutex_unlock(&lock);
    return r;
}

/* only the library is watched: Python itself uses libcrypto, too */
static int mine(void *ret) {
    Dl_info i;
    return dladdr(ret, &i) && i.dli_fname && (strstr(i.dli_fname, "/snmp/") || strstr(i.dli_fname, "_cffi_backend"));
}

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name);
#define MINE mine(__builtin_return_address(0))

EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void) {
    REAL(EVP_CIPHER_CTX_new)
    if (!MINE) return real();
    if (fails(NEW)) return NULL;
    EVP_CIPHER_CTX *c = real();
    pthread_mutex_lock(&lock);
    int i = find(c);
    if (i < 0) i = find(NULL);
    /* forget the contexts that were released longest ago */
    for (int k = 0; i < 0 && k < MAX; k++, next = (next + 1) % MAX)
        if (table[next].freed) { i = next; next = (next + 1) % MAX; break; }
    if (i < 0) abort();
    table[i].ctx = c;
    table[i].busy = table[i].freed = 0;
    created++;
    if (++live > peak) peak = live;
    pthread_mutex_unlock(&lock);
    return c;
}

void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) {
    REAL(EVP_CIPHER_CTX_free)
    if (!MINE) { real(c); return; }
    fails(FREE);
    if (c == NULL) return;
    if (!enter("EVP_CIPHER_CTX_free", c)) return;
    pthread_mutex_lock(&lock);
    int i = find(c);
    table[i].busy = 0;
    table[i].freed = 1;
    released++;
    live--;
    pthread_mutex_unlock(&lock);
    real(c);
}

int EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *c) {
    REAL(EVP_CIPHER_CTX_reset)
    if (!MINE) return real(c);
    if (!enter("EVP_CIPHER_CTX_reset", c)) return 0;
    int r = real(c);
    leave(c);
    return r;
}

int EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX *c, int pad) {
    REAL(EVP_CIPHER_CTX_set_padding)
    if (!MINE) return real(c, pad);
    fails(OTHER);
    if (!enter("EVP_CIPHER_CTX_set_padding", c)) return 0;
    int r = real(c, pad);
    leave(c);
    return r;
}

static int init(const char *fn, EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *key, const unsigned char *iv,
                int (*real)(EVP_CIPHER_CTX *, const EVP_CIPHER *, const unsigned char *, const unsigned char *)) {
    unsigned char k[EVP_MAX_KEY_LENGTH], v[EVP_MAX_IV_LENGTH];
    int fail = fails(INIT), r = 0;
    if (!enter(fn, c)) return 0;
    const EVP_CIPHER *x = t ? t : EVP_CIPHER_CTX_get0_cipher(c);
    if (x == NULL && (key || iv))
        problem("is given no cipher", fn, 0, 0);
    else {
        int ok = 1;
        if (key && x) {
            if (bad(fn, "the key", key, EVP_CIPHER_get_key_length(x))) ok = 0;
            else memcpy(k, key, EVP_CIPHER_get_key_length(x));
        }
        if (iv && x) {
            if (bad(fn, "the IV", iv, EVP_CIPHER_get_iv_length(x))) ok = 0;
            else memcpy(v, iv, EVP_CIPHER_get_iv_length(x));
        }
        if (ok && !fail)
            r = real(c, t, key ? k : NULL, iv ? v : NULL);
    }
    leave(c);
    return r;
}

#define INITFN(name) \
int name(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *key, const unsigned char *iv) { \
    REAL(name) \
    if (!MINE) return real(c, t, key, iv); \
    return init(#name, c, t, key, iv, real); \
}
INITFN(EVP_EncryptInit)
INITFN(EVP_DecryptInit)

static int update(const char *fn, EVP_CIPHER_CTX *c, unsigned char *out, int *outl, const unsigned char *in, int inl,
                  int (*real)(EVP_CIPHER_CTX *, unsigned char *, int *, const unsigned char *, int)) {
    int fail = fails(UPDATE), r = 0, n = 0;
    if (!enter(fn, c)) return 0;
    if (delay) usleep(delay);
    if (inl < 0)
        problem("is given a negative length", fn, inl, 0);
    else if (!bad(fn, "the input", in, inl) && !bad(fn, "the output length", outl, sizeof *outl)) {
        unsigned char *copy = malloc(inl + 1), *res = malloc(inl + 2 * EVP_MAX_BLOCK_LENGTH);
        memset(res, 0xA5, inl + 2 * EVP_MAX_BLOCK_LENGTH);
        if (inl) memcpy(copy, in, inl);
        if (!fail) {
            r = real(c, res, &n, copy, inl);
            if (n < 0 || n > inl + EVP_MAX_BLOCK_LENGTH) abort();
            if (!bad(fn, "the output", out, n)) {
                if (n) memcpy(out, res, n);
                *outl = n;
                written = n;
            } else r = 0;
        } else if (out && outl && fill >= 0) {
            /* an operation that failed half-way has left something behind */
            if (!bad(fn, "the output", out, inl > 4 ? 4 : inl)) memset(out, fill, inl > 4 ? 4 : inl);
            *outl = inl > 4 ? 4 : inl;
        }
        free(copy);
        free(res);
    }
    leave(c);
    return r;
}

#define UPDATEFN(name) \
int name(EVP_CIPHER_CTX *c, unsigned char *out, int *outl, const unsigned char *in, int inl) { \
    REAL(name) \
    if (!MINE) return real(c, out, outl, in, inl); \
    return update(#name, c, out, outl, in, inl, real); \
}
UPDATEFN(EVP_EncryptUpdate)
UPDATEFN(EVP_DecryptUpdate)
UPDATEFN(EVP_CipherUpdate)

static int final(const char *fn, EVP_CIPHER_CTX *c, unsigned char *out, int *outl, int (*real)(EVP_CIPHER_CTX *, unsigned char *, int *)) {
    unsigned char res[2 * EVP_MAX_BLOCK_LENGTH];
    int fail = fails(FINAL), r = 0, n = 0;
    if (!enter(fn, c)) return 0;
    if (!fail && !bad(fn, "the output length", outl, sizeof *outl)) {
        r = real(c, res, &n);
        if (!bad(fn, "the output", out, n)) {
            if (n) memcpy(out, res, n);
            *outl = n;
        } else r = 0;
    }
    leave(c);
    return r;
}

#define FINALFN(name) \
int name(EVP_CIPHER_CTX *c, unsigned char *out, int *outl) { \
    REAL(name) \
    if (!MINE) return real(c, out, outl); \
    return final(#name, c, out, outl, real); \
}
FINALFN(EVP_EncryptFinal)
FINALFN(EVP_DecryptFinal)
FINALFN(EVP_EncryptFinal_ex)
FINALFN(EVP_DecryptFinal_ex)

/* -------------------------------------------------------- for the check */
void shim_reset(void) {
    pthread_mutex_lock(&lock);
    errors[0] = 0;
    nerrors = 0;
    fail_what = -1;
    delay = 0;
    fill = -1;
    pthread_mutex_unlock(&lock);
}
const char *shim_errors(void) { return errors; }
int shim_nerrors(void) { return nerrors; }
long shim_live(void) { return live; }
long shim_created(void) { return created; }
long shim_released(void) { return released; }
long shim_peak(void) { return peak; }
long shim_calls(int i) { return calls[i]; }
long shim_written(void) { return written; }
int shim_pending(void) { return fail_what >= 0; }
int shim_watching(void) { return __asan_region_is_poisoned != NULL; }
void shim_fail(int what, int after, int with) { fail_what = what; fail_after = after; fill = with; }
void shim_delay(unsigned us) { delay = us; }
