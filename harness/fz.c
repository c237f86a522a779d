// Coverage guided workload for the memory safety properties. The sanitizers and the CPU limit are the oracle.
// FZ_MODE (compile time): 1 xmq/htmq, 2 json, 3 xml/html/detect, 4 ixml.
// Input: 3 setting bytes, then the text. With mode 4 the grammar and the text to parse are separated by byte 0xFE.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <fcntl.h>
#include "xmq.h"
#include <libxml/parser.h>
#include <libxml/xmlerror.h>
void __asan_poison_memory_region(void const volatile *addr, size_t size);
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
static volatile int counting; static volatile long live_n;
static void hm(const volatile void *p, size_t n) { if (counting && p) live_n++; }
static void hf(const volatile void *p) { if (counting && p) live_n--; }
static int want_leaks;
static unsigned long n_ok, n_fail, n_printed, n_tok;
static void silent(void *ctx, const char *msg, ...) {}
static int inited, in_library;
static void at_end(void)
{
    if (in_library) { static const char m[] = "==1==ERROR: AddressSanitizer: library-called-exit (0x0)\n"; if (write(2, m, sizeof m - 1)) {} _exit(77); }
    const char *fn = getenv("FZ_STATS");
    if (!fn) return;
    FILE *f = fopen(fn, "a"); if (!f) return;
    fprintf(f, "{\"ok\":%lu,\"fail\":%lu,\"printed\":%lu,\"tokenized\":%lu}\n", n_ok, n_fail, n_printed, n_tok); fclose(f);
}
static void init(void)
{
    inited = 1;
    xmlInitParser(); xmlSetGenericErrorFunc(NULL, silent);
    want_leaks = getenv("FZ_LEAK") != NULL;
    if (want_leaks) __sanitizer_install_malloc_and_free_hooks(hm, hf);
    atexit(at_end);
}

static void pr(XMQDoc *d, int of, int a, int b)
{
    XMQOutputSettings *os = xmqNewOutputSettings();
    xmqSetOutputFormat(os, of);
    if (a & 1) xmqSetCompact(os, true);
    if (a & 2) xmqSetEscapeNewlines(os, true);
    if (a & 4) xmqSetEscapeNon7bit(os, true);
    if (a & 8) xmqSetEscapeTabs(os, true);
    if (a & 16) xmqSetAddIndent(os, b & 7);
    if (a & 32) xmqSetOmitDecl(os, true);
    static const int rf[] = { XMQ_RENDER_PLAIN, XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_TEX, XMQ_RENDER_HTMQ, XMQ_RENDER_RAW, 0, 0 };
    int r = rf[(b >> 3) & 7];
    xmqSetRenderFormat(os, r);
    if (b & 64) xmqSetUseColor(os, true);
    if (b & 128) xmqSetBackgroundMode(os, true);
    if (a & 64) xmqSetRenderRaw(os, true);
    if (r == XMQ_RENDER_HTML) xmqRenderHtmlSettings(os, a & 64 ? "id" : NULL, a & 128 ? "cl" : NULL);
    xmqSetupDefaultColors(os);
    char *start = NULL, *stop = NULL; size_t skip = 0;
    xmqSetupPrintMemory(os, &start, &stop); xmqSetupPrintSkip(os, &skip);
    xmqPrint(d, os);
    xmqFreeOutputSettings(os);
    if (start) { volatile char s = 0; for (char *p = start + skip; p < stop; ++p) s ^= *p; n_printed++; free(start); }
}

static void tk(const char *data, size_t n, int b)
{
    XMQOutputSettings *os = xmqNewOutputSettings();
    xmqSetUseColor(os, b & 1); xmqSetBackgroundMode(os, b & 2);
    int k = (b >> 2) % 5;
    if (k >= 2) xmqSetRenderFormat(os, k == 2 ? XMQ_RENDER_TERMINAL : k == 3 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX);
    xmqSetupDefaultColors(os);
    char *start = NULL, *stop = NULL; size_t skip = 0;
    xmqSetupPrintMemory(os, &start, &stop); xmqSetupPrintSkip(os, &skip);
    XMQParseCallbacks *cb = xmqNewParseCallbacks();
    if (k == 0) xmqSetupParseCallbacksDebugTokens(cb);
    else if (k == 1) xmqSetupParseCallbacksDebugContent(cb);
    else xmqSetupParseCallbacksColorizeTokens(cb, k == 2 ? XMQ_RENDER_TERMINAL : k == 3 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX);
    XMQParseState *st = xmqNewParseState(cb, os);
    char *c = malloc(n ? n : 1); memcpy(c, data, n);
    xmqTokenizeBuffer(st, c, c + n);
    n_tok++;
    xmqStateErrno(st); xmqStateErrorMsg(st);
    xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os);
    free(c); if (start) free(start);
}

static void one(const uint8_t *d, size_t size)
{
    uint8_t a = d[0], b = d[1], f = d[2];
    const char *t = (const char*)d + 3; size_t n = size - 3;
    static const int fl[8] = { 0, XMQ_FLAG_TRIM_NONE, XMQ_FLAG_TRIM_HEURISTIC, XMQ_FLAG_TRIM_EXACT, 0, XMQ_FLAG_NOMERGE, XMQ_FLAG_NOMERGE, 0 };
    int flags = fl[f & 7];
    const char *root = (f & 8) ? "root" : NULL;
    static const int outs[] = { XMQ_CONTENT_XML, XMQ_CONTENT_HTML, XMQ_CONTENT_JSON, XMQ_CONTENT_TEXT, XMQ_CONTENT_CLINES, XMQ_CONTENT_HTMQ, XMQ_CONTENT_XMQ, XMQ_CONTENT_JSON };
    int out2 = outs[(f >> 5) & 7];
    XMQDoc *q = xmqNewDoc();
    if (f & 16) xmqSetDocSourceName(q, "src");
    char *c;
#if FZ_MODE == 4
    XMQDoc *g = xmqNewDoc();
    const char *sep = memchr(t, 0xFE, n);
    size_t gn = sep ? (size_t)(sep - t) : n, tn = sep ? n - gn - 1 : 0;
    if (gn > 1500) gn = 1500;
    if (tn > 120) tn = 120;
    c = malloc(gn + 1); memcpy(c, t, gn); c[gn] = 0;
    bool ok = xmqParseBufferWithType(g, c, (a & 1) ? NULL : c + gn, NULL, XMQ_CONTENT_IXML, 0);
    xmqDocError(g);
    free(c);
    if (ok && sep)
    {
        c = malloc(tn + 1); memcpy(c, sep + 1, tn); c[tn] = 0;
        bool ok2 = xmqParseBufferWithIXML(q, c, c + tn, g, (f & 32) ? XMQ_FLAG_IXML_TRY_TO_RECOVER : 0);
        free(c);
        if (ok2) { n_ok++; pr(q, XMQ_CONTENT_XMQ, 0, 0); } else { n_fail++; xmqDocError(q); }
        if (f & 64)
        { // a second parse with the same grammar
            XMQDoc *q2 = xmqNewDoc();
            c = malloc(tn + 1); memcpy(c, sep + 1, tn); c[tn] = 0;
            xmqParseBufferWithIXML(q2, c, c + tn / 2, g, 0);
            free(c); xmqFreeDoc(q2);
        }
    }
    else n_fail++;
    xmqFreeDoc(g);
#else
#if FZ_MODE == 1
    int type = (f & 16) ? XMQ_CONTENT_HTMQ : XMQ_CONTENT_XMQ;
#elif FZ_MODE == 2
    int type = XMQ_CONTENT_JSON;
#else
    int type = (f & 16) ? XMQ_CONTENT_HTML : (f & 8) ? XMQ_CONTENT_DETECT : XMQ_CONTENT_XML;
#endif
    // exactly the bytes given
    c = malloc(n ? n : 1); memcpy(c, t, n);
    bool ok = xmqParseBufferWithType(q, c, c + n, root, type, flags);
    xmqDocErrno(q); xmqDocError(q);
    free(c);
    if (ok) n_ok++; else n_fail++;
    if (ok)
    {
        pr(q, FZ_MODE == 2 ? XMQ_CONTENT_JSON : XMQ_CONTENT_XMQ, a, b);
        pr(q, out2, a, b & ~0x38);
        if (f & 4) pr(q, XMQ_CONTENT_XMQ, a ^ 1, b ^ 0x40);
    }
#if FZ_MODE == 1
    if (b & 1) tk(t, n, b >> 1);
#endif
#endif
    xmqFreeDoc(q);
}

static void guarded(const uint8_t *d, size_t n) { in_library = 1; one(d, n); in_library = 0; }

int LLVMFuzzerTestOneInput(const uint8_t *d, size_t size)
{
    if (!inited) init();
    if (size < 3 || size > 20000) return 0;
    guarded(d, size);
    if (want_leaks)
    {
        for (int k = 0; ; ++k)
        {
            xmlResetLastError();
            live_n = 0; counting = 1; guarded(d, size); xmlResetLastError(); counting = 0;
            if (live_n <= 0) break;
            if (k == 2)
            {
                fprintf(stderr, "==1==ERROR: AddressSanitizer: leak-counted (%ld allocations are still live)\n", live_n);
                abort();
            }
        }
    }
    return 0;
}
