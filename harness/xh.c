// Operation server for the monitors: executes requests against the instrumented library, one at a time,
// and records what it observed (verdicts, trees, bytes, live allocations, descriptors).
// Only the public header xmq.h and libxml2 are used, so refactorings inside the library do not matter.
//
//   xh REQUESTS RESPONSES [CPU_SECONDS]
//
// REQUESTS: for every request u32 nactions, per action u32 nargs, per arg u32 len + bytes.
// RESPONSES: one line of JSON per request, written with one write() before the next request starts.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <errno.h>
#include <pthread.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "xmq.h"
#include <libxml/tree.h>
#include <libxml/parser.h>
#include <libxml/HTMLparser.h>
#include <libxml/HTMLtree.h>
#include <libxml/xpath.h>
#include <libxml/xmlerror.h>

// ---------------------------------------------------------------- allocation accounting
#ifdef HAVE_THREADS
#define TL __thread
#else
#define TL
#endif
static TL volatile int counting;
static TL volatile long live_n;
static pthread_t main_thread;
#ifdef HAVE_WORK
#include "work.c"
static unsigned long last_edges, last_bytes;
#endif
#ifdef HAVE_ASAN
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
static void hook_malloc(const volatile void *p, size_t n) { if (counting && p) __sync_fetch_and_add(&live_n, 1); }
static void hook_free(const volatile void *p) { if (counting && p) __sync_fetch_and_sub(&live_n, 1); }
#endif

// ---------------------------------------------------------------- output buffer
static TL char *ob; static TL size_t on, oc;
static void oadd(const char *s, size_t n)
{
    if (on + n + 1 > oc) { oc = (on + n + 1) * 2; int c = counting; counting = 0; ob = realloc(ob, oc); counting = c; }
    memcpy(ob + on, s, n); on += n;
}
static void os_(const char *s) { oadd(s, strlen(s)); }
static void oi(long v) { char b[32]; snprintf(b, 32, "%ld", v); os_(b); }
static void oq(const char *s, size_t n)
{
    static const char hx[] = "0123456789abcdef";
    oadd("\"", 1);
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { char b[2] = { '\\', c }; oadd(b, 2); }
        else if (c >= 0x20 && c < 0x7f) oadd((char*)&c, 1);
        else { char b[6] = { '\\', 'u', '0', '0', hx[c >> 4], hx[c & 15] }; oadd(b, 6); }
    }
    oadd("\"", 1);
}
static void oz(const void *s) { if (!s) os_("null"); else oq((const char*)s, strlen((const char*)s)); }

// ---------------------------------------------------------------- tree dump
static void dump_kids(xmlNode *n);
static void dump_node(xmlNode *n)
{
    switch (n->type)
    {
    case XML_ELEMENT_NODE: {
        os_("[\"e\","); oz(n->ns ? n->ns->prefix : NULL); os_(","); oz(n->name); os_(",");
        oz(n->ns ? n->ns->href : NULL); os_(",[");
        bool first = true;
        for (xmlNs *ns = n->nsDef; ns; ns = ns->next)
        {
            if (!first) os_(",");
            first = false;
            os_("["); oz(ns->prefix); os_(","); oz(ns->href); os_("]");
        }
        os_("],["); first = true;
        for (xmlAttr *a = n->properties; a; a = a->next)
        {
            if (!first) os_(",");
            first = false;
            os_("["); oz(a->ns ? a->ns->prefix : NULL); os_(","); oz(a->name); os_(","); oz(a->ns ? a->ns->href : NULL); os_(",");
            dump_kids(a->children); os_("]");
        }
        os_("],"); dump_kids(n->children); os_("]");
        break; }
    case XML_TEXT_NODE: os_("[\"t\","); oz(n->content ? n->content : (const xmlChar*)""); os_("]"); break;
    case XML_CDATA_SECTION_NODE: os_("[\"x\","); oz(n->content ? n->content : (const xmlChar*)""); os_("]"); break;
    case XML_COMMENT_NODE: os_("[\"c\","); oz(n->content ? n->content : (const xmlChar*)""); os_("]"); break;
    case XML_PI_NODE: os_("[\"p\","); oz(n->name); os_(","); oz(n->content); os_("]"); break;
    case XML_ENTITY_REF_NODE: os_("[\"r\","); oz(n->name); os_("]"); break;
    case XML_DTD_NODE: {
        xmlBufferPtr b = xmlBufferCreate();
        xmlNodeDump(b, n->doc, n, 0, 0);
        os_("[\"d\","); oz(xmlBufferContent(b)); os_("]");
        xmlBufferFree(b);
        break; }
    default: os_("[\"?\","); oi(n->type); os_("]");
    }
}
static void dump_kids(xmlNode *n)
{
    os_("[");
    for (bool first = true; n; n = n->next) { if (!first) os_(","); first = false; dump_node(n); }
    os_("]");
}

// Structural sanity of a tree: sibling, parent and document links must agree. Returns NULL or what is wrong.
static const char *check_links(xmlDocPtr doc, xmlNode *parent, xmlNode *first, xmlNode *last)
{
    xmlNode *prev = NULL;
    for (xmlNode *n = first; n; n = n->next)
    {
        if (n->prev != prev) return "prev link";
        if (n->parent != parent) return "parent link";
        if (n->doc != doc) return "doc link";
        if (n->type == XML_ELEMENT_NODE)
        {
            for (xmlAttr *a = n->properties; a; a = a->next) { if (a->parent != n) return "attribute parent"; }
            const char *e = check_links(doc, n, n->children, n->last);
            if (e) return e;
        }
        prev = n;
    }
    if (last != prev) return "last link";
    return NULL;
}

// ---------------------------------------------------------------- request decoding
typedef struct { const char *p; uint32_t n; } Arg;
typedef struct { Arg *a; uint32_t n; } Action;
static const char *rb, *re;
static uint32_t u32(void) { if (re - rb < 4) { fprintf(stderr, "XH: truncated request\n"); _exit(95); } uint32_t v; memcpy(&v, rb, 4); rb += 4; return v; }

#define ND 16
static TL XMQDoc *D[ND];
static TL char *last_out; static TL size_t last_n; // start..stop of last print, without skip
static TL char *scratch_dir;

static int argi(Action *a, uint32_t i) { char b[32]; if (i >= a->n) return 0; uint32_t n = a->a[i].n < 31 ? a->a[i].n : 31; memcpy(b, a->a[i].p, n); b[n] = 0; return atoi(b); }
static char *argz(Action *a, uint32_t i) { if (i >= a->n) return NULL; return strndup(a->a[i].p, a->a[i].n); }
static bool argis(Action *a, uint32_t i, const char *s) { return i < a->n && a->a[i].n == strlen(s) && !memcmp(a->a[i].p, s, a->a[i].n); }

typedef struct { int fd; const char *p; size_t n; size_t chunk; char fn[512]; } Feed;
static void *feeder(void *x)
{
    Feed *f = x; size_t o = 0; unsigned s = 12345;
    if (f->fd < 0) f->fd = open(f->fn, O_WRONLY);
    while (o < f->n)
    {
        size_t k = f->chunk; if (k == 0) { s = s * 1103515245 + 12345; k = 1 + (s >> 16) % 700; }
        if (k > f->n - o) k = f->n - o;
        ssize_t w = write(f->fd, f->p + o, k);
        if (w <= 0) break;
        o += w;
        if (f->chunk < 64) sched_yield();
    }
    close(f->fd);
    return NULL;
}
static void write_file(const char *fn, const char *p, size_t n)
{
    int fd = open(fn, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    size_t o = 0;
    while (o < n) { ssize_t w = write(fd, p + o, n - o); if (w <= 0) { fprintf(stderr, "XH: cannot write %s\n", fn); _exit(95); } o += w; }
    close(fd);
}

static void verdict(XMQDoc *d, bool ok)
{
    const char *e = xmqDocError(d);
    os_("{\"ok\":"); os_(ok ? "true" : "false");
    os_(",\"err\":"); oz(e);
    os_(",\"errno\":"); oi((long)xmqDocErrno(d));
    os_(",\"ct\":"); oi(xmqGetOriginalContentType(d));
    os_(",\"size\":"); oi((long)xmqGetOriginalSize(d));
    os_(",\"src\":"); oz(xmqGetDocSourceName(d));
    os_("}");
}

// parse D type flags root mode data
static void act_parse(Action *a, const char *p, size_t n)
{
    int d = argi(a, 1); XMQContentType ct = argi(a, 2); int flags = argi(a, 3);
    char *root = argz(a, 4); if (root && !root[0]) { free(root); root = NULL; }
    char mode = a->a[5].n ? a->a[5].p[0] : 'z';
    if (D[d]) xmqFreeDoc(D[d]);
    D[d] = xmqNewDoc();
    bool ok = false;
    if (mode == 'z' || mode == 'Z')
    { // terminated, no stop given (Z: stop given)
        char *b = malloc(n + 1); memcpy(b, p, n); b[n] = 0;
        ok = xmqParseBufferWithType(D[d], b, mode == 'z' ? NULL : b + n, root, ct, flags);
        free(b);
    }
    else if (mode == 'e')
    { // exactly the bytes: nothing valid after them
        char *b = malloc(n ? n : 1); memcpy(b, p, n);
        ok = xmqParseBufferWithType(D[d], b, b + n, root, ct, flags);
        free(b);
    }
    else if (mode == 'm')
    { // in the middle of other bytes
        char *b = malloc(n + 64); memset(b, '}', n + 64); memset(b + 32 + n, '\'', 32); memcpy(b + 32, p, n);
        ok = xmqParseBufferWithType(D[d], b + 32, b + 32 + n, root, ct, flags);
        free(b);
    }
    else if (mode == 'f')
    {
        char fn[512]; snprintf(fn, 512, "%s/in", scratch_dir); write_file(fn, p, n);
        ok = xmqParseFileWithType(D[d], fn, root, ct, flags);
    }
    else if (mode == 's')
    { // standard input, delivered in chunks of the given size (0: random sizes)
        int chunk = argi(a, 7);
        int fd[2]; if (pipe(fd)) _exit(95);
        dup2(fd[0], 0); if (fd[0] != 0) close(fd[0]);
        pthread_t t; Feed f = { fd[1], p, n, (size_t)chunk, "" };
        int c = counting; counting = 0; pthread_create(&t, NULL, feeder, &f); counting = c;
        ok = xmqParseFileWithType(D[d], NULL, root, ct, flags);
        // Drain whatever was not read, so that the feeder ends.
        char tmp[4096]; while (read(0, tmp, 4096) > 0) {}
        counting = 0; pthread_join(t, NULL); counting = c;
        close(0); int nul = open("/dev/null", O_RDONLY); if (nul != 0 && nul >= 0) { dup2(nul, 0); close(nul); }
    }
    else if (mode == 'q')
    { // through a named pipe, in chunks
        int chunk = argi(a, 7); char fn[512]; snprintf(fn, 512, "%s/fifo", scratch_dir);
        unlink(fn); if (mkfifo(fn, 0600)) _exit(95);
        Feed f = { -1, p, n, (size_t)chunk }; snprintf(f.fn, sizeof f.fn, "%s", fn);
        pthread_t t; int c = counting; counting = 0; pthread_create(&t, NULL, feeder, &f); counting = c;
        ok = xmqParseFileWithType(D[d], fn, root, ct, flags);
        counting = 0; pthread_join(t, NULL); counting = c;
        unlink(fn);
    }
    else if (mode == 'p')
    { // as given file name
        char *fn = strndup(p, n);
        ok = xmqParseFileWithType(D[d], fn, root, ct, flags);
        free(fn);
    }
    if (root) free(root);
    verdict(D[d], ok);
}

static XMQOutputSettings *make_settings(Action *a, uint32_t i, char **keep, bool *free_out)
{
    XMQOutputSettings *os = xmqNewOutputSettings();
    char *s = argz(a, i); *keep = s;
    char *theme = NULL, *id = NULL, *cls = NULL;
    char *is = NULL, *es = NULL, *et = NULL, *cr = NULL, *nl = NULL; bool ov = false;
    xmqSetOutputFormat(os, XMQ_CONTENT_XMQ);
    char *sp = NULL;
    for (char *k = strtok_r(s, ",", &sp); k; k = strtok_r(NULL, ",", &sp))
    {
        char *v = strchr(k, '='); if (!v) continue; *v++ = 0; int n = atoi(v);
        if (!strcmp(k, "of")) xmqSetOutputFormat(os, !strcmp(v, "xmq") ? XMQ_CONTENT_XMQ : !strcmp(v, "htmq") ? XMQ_CONTENT_HTMQ : !strcmp(v, "xml") ? XMQ_CONTENT_XML : !strcmp(v, "html") ? XMQ_CONTENT_HTML : !strcmp(v, "json") ? XMQ_CONTENT_JSON : !strcmp(v, "text") ? XMQ_CONTENT_TEXT : !strcmp(v, "clines") ? XMQ_CONTENT_CLINES : n);
        else if (!strcmp(k, "compact")) xmqSetCompact(os, n);
        else if (!strcmp(k, "indent")) xmqSetAddIndent(os, n);
        else if (!strcmp(k, "nl")) xmqSetEscapeNewlines(os, n);
        else if (!strcmp(k, "tab")) xmqSetEscapeTabs(os, n);
        else if (!strcmp(k, "n7")) xmqSetEscapeNon7bit(os, n);
        else if (!strcmp(k, "omit")) xmqSetOmitDecl(os, n);
        else if (!strcmp(k, "color")) xmqSetUseColor(os, n);
        else if (!strcmp(k, "dark")) xmqSetBackgroundMode(os, n);
        else if (!strcmp(k, "render")) xmqSetRenderFormat(os, !strcmp(v, "terminal") ? XMQ_RENDER_TERMINAL : !strcmp(v, "html") ? XMQ_RENDER_HTML : !strcmp(v, "tex") ? XMQ_RENDER_TEX : n);
        else if (!strcmp(k, "raw")) xmqSetRenderRaw(os, n);
        else if (!strcmp(k, "only")) xmqSetRenderOnlyStyle(os, n);
        else if (!strcmp(k, "theme")) theme = v;
        else if (!strcmp(k, "id")) id = v;
        else if (!strcmp(k, "class")) cls = v;
        else if (!strcmp(k, "is")) { is = v; ov = true; }
        else if (!strcmp(k, "es")) { es = v; ov = true; }
        else if (!strcmp(k, "et")) { et = v; ov = true; }
        else if (!strcmp(k, "cr")) { cr = v; ov = true; }
        else if (!strcmp(k, "enl")) { nl = v; ov = true; }
    }
    xmqRenderHtmlSettings(os, id, cls);
    if (theme) xmqSetRenderTheme(os, theme);
    xmqSetupDefaultColors(os);
    if (ov) xmqOverrideSettings(os, is, es, et, cr, nl);
    return os;
}

static void act_print(Action *a, bool emit)
{
    int d = argi(a, 1); char *keep; bool f;
    XMQOutputSettings *os = make_settings(a, 2, &keep, &f);
    char *start = NULL, *stop = NULL; size_t skip = 0;
    xmqSetupPrintMemory(os, &start, &stop);
    xmqSetupPrintSkip(os, &skip);
    xmqPrint(D[d], os);
    xmqFreeOutputSettings(os);
    free(keep);
    if (last_out) { free(last_out); last_out = NULL; }
    last_n = 0;
    if (start)
    {
        // Every byte claimed to be output must be there.
        last_n = stop - start - skip; last_out = malloc(last_n + 1);
        memcpy(last_out, start + skip, last_n); last_out[last_n] = 0;
        free(start);
    }
    if (emit) { if (!last_out) os_("null"); else oq(last_out, last_n); } else oi((long)last_n);
}

// tok KIND(0 debugtokens,1 debugcontent,2 terminal,3 html,4 tex) settings mode data
static void act_tok(Action *a)
{
    int kind = argi(a, 1); char *keep; bool f;
    XMQOutputSettings *os = make_settings(a, 2, &keep, &f);
    char *start = NULL, *stop = NULL; size_t skip = 0;
    xmqSetupPrintMemory(os, &start, &stop);
    xmqSetupPrintSkip(os, &skip);
    XMQParseCallbacks *cb = xmqNewParseCallbacks();
    if (kind == 0) xmqSetupParseCallbacksDebugTokens(cb);
    else if (kind == 1) xmqSetupParseCallbacksDebugContent(cb);
    else xmqSetupParseCallbacksColorizeTokens(cb, kind == 2 ? XMQ_RENDER_TERMINAL : kind == 3 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX);
    XMQParseState *st = xmqNewParseState(cb, os);
    Arg *da = &a->a[4];
    char mode = a->a[3].n ? a->a[3].p[0] : 'z';
    bool ok;
    if (mode == 'f')
    {
        char fn[512]; snprintf(fn, 512, "%s/in", scratch_dir); write_file(fn, da->p, da->n);
        ok = xmqTokenizeFile(st, fn);
    }
    else
    {
        char *b = malloc(da->n + 1); memcpy(b, da->p, da->n); b[da->n] = 0;
        if (mode == 'e') { free(b); b = malloc(da->n ? da->n : 1); memcpy(b, da->p, da->n); }
        ok = xmqTokenizeBuffer(st, b, mode == 'z' ? NULL : b + da->n);
        free(b);
    }
    os_("{\"ok\":"); os_(ok ? "true" : "false"); os_(",\"errno\":"); oi(xmqStateErrno(st));
    os_(",\"err\":"); oz(xmqStateErrorMsg(st));
    os_(",\"out\":"); if (start) oq(start + skip, stop - start - skip); else os_("null");
    os_("}");
    xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os); free(keep);
    if (start) free(start);
}

// What the library writes to standard output and error while one call runs.
extern void __sanitizer_set_report_fd(void *) __attribute__((weak));
static int nthreads;
static int cap_fd = -1, cap_o, cap_e;
static void cap_begin(void)
{
    if (nthreads) return;
    fflush(stdout); fflush(stderr);
    cap_fd = open("../cap", O_RDWR | O_CREAT | O_TRUNC, 0600); cap_o = dup(1); cap_e = dup(2);
    if (cap_fd < 0 || cap_o < 0 || cap_e < 0) _exit(95);
    if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(long)cap_e);
    dup2(cap_fd, 1); dup2(cap_fd, 2);
}
static char *cap_end(void)
{
    if (nthreads) return strdup("");
    fflush(stdout); fflush(stderr);
    dup2(cap_o, 1); dup2(cap_e, 2); if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)2L);
    close(cap_o); close(cap_e);
    off_t n = lseek(cap_fd, 0, SEEK_END); char *b = malloc(n + 1);
    if (pread(cap_fd, b, n, 0) != n) _exit(95);
    b[n] = 0; close(cap_fd); cap_fd = -1; unlink("../cap");
    return b;
}

// ixml D G flags mode data
static void act_ixml(Action *a)
{
    int d = argi(a, 1), g = argi(a, 2), flags = argi(a, 3); char mode = a->a[4].n ? a->a[4].p[0] : 'z';
    Arg *x = &a->a[5];
    if (D[d]) xmqFreeDoc(D[d]);
    D[d] = xmqNewDoc();
    bool ok;
    if (mode == 'f')
    {
        char fn[512]; snprintf(fn, 512, "%s/in", scratch_dir); write_file(fn, x->p, x->n);
        cap_begin();
        ok = xmqParseFileWithIXML(D[d], fn, D[g], flags);
    }
    else
    {
        bool exact = mode == 'e';
        char *b = malloc(x->n + (exact ? (x->n == 0) : 1)); memcpy(b, x->p, x->n); if (!exact) b[x->n] = 0;
        cap_begin();
        ok = xmqParseBufferWithIXML(D[d], b, mode == 'z' ? NULL : b + x->n, D[g], flags);
        free(b);
    }
    char *said = cap_end();
    os_("{\"ok\":"); os_(ok ? "true" : "false"); os_(",\"err\":"); oz(xmqDocError(D[d])); os_(",\"errno\":"); oi((long)xmqDocErrno(D[d]));
    os_(",\"said\":"); oz(said); os_(",\"size\":"); oi((long)xmqGetOriginalSize(D[d])); os_("}");
    free(said);
}

typedef struct { int count, stop_at; XMQDoc *d; bool first; } Each;
static XMQProceed each_cb(XMQDoc *doq, XMQNode *node, void *user)
{
    Each *e = user;
    if (!e->first) os_(",");
    e->first = false;
    os_("["); oz(xmqGetName(node)); os_(","); oz(xmqGetContent(node)); os_("]");
    e->count++;
    return (e->stop_at > 0 && e->count >= e->stop_at) ? XMQ_STOP : XMQ_CONTINUE;
}

static void odouble(double d) { char b[64]; snprintf(b, 64, "\"%a\"", d); os_(b); }
typedef struct { const char *path; bool first; int depth; } Rel;
static XMQProceed rel_inner(XMQDoc *doq, XMQNode *node, void *user)
{
    Rel *r = user;
    if (!r->first) os_(",");
    r->first = false;
    os_("["); oz(xmqGetName(node)); os_(","); oz(xmqGetContent(node)); os_("]");
    return XMQ_CONTINUE;
}
static XMQProceed rel_cb(XMQDoc *doq, XMQNode *node, void *user)
{ // the getters and a nested iteration, relative to each node
    Rel *r = user, in = { r->path, true, 0 };
    if (!r->first) os_(",");
    r->first = false;
    os_("["); oz(xmqGetStringRel(doq, r->path, node)); os_(","); oi(xmqGetIntRel(doq, r->path, node)); os_(","); oi((long)xmqGetLongRel(doq, r->path, node));
    os_(","); odouble(xmqGetDoubleRel(doq, r->path, node)); os_(",["); int n = xmqForeachRel(doq, r->path, rel_inner, &in, node); os_("],"); oi(n); os_(",["); oz(xmqGetName(node)); os_(","); oz(xmqGetContent(node)); os_("]]");
    return XMQ_CONTINUE;
}

#ifdef HAVE_WORK
static void run1(Action *a);
#endif
static void run(Action *a)
{
#ifdef HAVE_WORK
    if (argis(a, 0, "work")) { os_("["); oi(last_edges); os_(","); oi(last_bytes); os_("]"); return; }
    work_edges = work_bytes = 0; run1(a); last_edges = work_edges; last_bytes = work_bytes;
}
static void run1(Action *a)
{
#endif
    if (argis(a, 0, "parse")) act_parse(a, a->a[6].p, a->a[6].n);
    else if (argis(a, 0, "reparse")) act_parse(a, last_out ? last_out : "", last_n);
    else if (argis(a, 0, "print")) act_print(a, true);
    else if (argis(a, 0, "printq")) act_print(a, false);
    else if (argis(a, 0, "dump"))
    {
        XMQDoc *q = D[argi(a, 1)]; xmlDocPtr d = q ? xmqGetImplementationDoc(q) : NULL;
        if (!d) os_("null"); else dump_kids(d->children);
    }
    else if (argis(a, 0, "links"))
    {
        XMQDoc *q = D[argi(a, 1)]; xmlDocPtr d = q ? xmqGetImplementationDoc(q) : NULL;
        const char *e = d ? check_links(d, (xmlNode*)d, d->children, d->last) : NULL;
        oz(e);
    }
    else if (argis(a, 0, "free")) { int d = argi(a, 1); if (D[d]) xmqFreeDoc(D[d]); D[d] = NULL; os_("null"); }
    else if (argis(a, 0, "tok")) act_tok(a);
    else if (argis(a, 0, "detect"))
    {
        char *b = malloc(a->a[1].n + 1); memcpy(b, a->a[1].p, a->a[1].n); b[a->a[1].n] = 0;
        oi(xmqDetectContentType(b, b + a->a[1].n)); free(b);
    }
    else if (argis(a, 0, "ixml")) act_ixml(a);
    else if (argis(a, 0, "quote")) { char *s = argz(a, 1); char *q = xmqCompactQuote(s); oz(q); free(q); free(s); }
    else if (argis(a, 0, "int")) { char *x = argz(a, 2); oi(xmqGetInt(D[argi(a, 1)], x)); free(x); }
    else if (argis(a, 0, "long")) { char *x = argz(a, 2); oi((long)xmqGetLong(D[argi(a, 1)], x)); free(x); }
    else if (argis(a, 0, "double")) { char *x = argz(a, 2); char b[64]; snprintf(b, 64, "\"%a\"", xmqGetDouble(D[argi(a, 1)], x)); os_(b); free(x); }
    else if (argis(a, 0, "string")) { char *x = argz(a, 2); const char *s = xmqGetString(D[argi(a, 1)], x); oz(s); free(x); }
    else if (argis(a, 0, "each"))
    {
        char *x = argz(a, 2); Each e = { 0, argi(a, 3), D[argi(a, 1)], true };
        os_("{\"nodes\":["); int n = xmqForeach(e.d, x, each_cb, &e); os_("],\"ret\":"); oi(n); os_("}");
        free(x);
    }
    else if (argis(a, 0, "count")) { char *x = argz(a, 2); oi(xmqForeach(D[argi(a, 1)], x, NULL, NULL)); free(x); }
    else if (argis(a, 0, "rel"))
    { // rel D path1 path2
        char *x = argz(a, 2), *y = argz(a, 3); Rel r = { y, true, 0 };
        os_("{\"nodes\":["); int n = xmqForeach(D[argi(a, 1)], x, rel_cb, &r); os_("],\"ret\":"); oi(n); os_("}"); free(x); free(y);
    }
    else if (argis(a, 0, "relroot"))
    { // relroot D path
        char *y = argz(a, 2); Rel r = { y, true, 0 };
        XMQNode *root = xmqGetRootNode(D[argi(a, 1)]);
        if (!root) os_("null"); else { rel_cb(D[argi(a, 1)], root, &r); }
        free(y);
    }
    else if (argis(a, 0, "trim")) { xmqTrimWhitespace(D[argi(a, 1)], argi(a, 2)); os_("null"); }
    else if (argis(a, 0, "srcname")) { char *s = argz(a, 2); if (!D[argi(a, 1)]) D[argi(a, 1)] = xmqNewDoc(); xmqSetDocSourceName(D[argi(a, 1)], s); oz(xmqGetDocSourceName(D[argi(a, 1)])); free(s); }
    else if (argis(a, 0, "line"))
    { // line HUMAN element key value key value ...: every value goes through "%s"
        int human = argi(a, 1); uint32_t n = (a->n - 3) / 2; char *e = argz(a, 2); char *v[64]; if (n > 8) n = 8;
        for (uint32_t i = 0; i < 2 * n; ++i) v[i] = argz(a, 3 + i);
        for (uint32_t i = 2 * n; i < 64; ++i) v[i] = NULL;
        XMQLineConfig *lc = xmqNewLineConfig(); xmqSetLineHumanReadable(lc, human);
        char *r = NULL;
        #define KV(i) v[2*(i)], "%s", v[2*(i)+1]
        switch (n) {
        case 0: r = xmqLinePrintf(lc, e, "}", NULL); break;
        case 1: r = xmqLinePrintf(lc, e, KV(0), "}", NULL); break;
        case 2: r = xmqLinePrintf(lc, e, KV(0), KV(1), "}", NULL); break;
        case 3: r = xmqLinePrintf(lc, e, KV(0), KV(1), KV(2), "}", NULL); break;
        case 4: r = xmqLinePrintf(lc, e, KV(0), KV(1), KV(2), KV(3), "}", NULL); break;
        case 5: r = xmqLinePrintf(lc, e, KV(0), KV(1), KV(2), KV(3), KV(4), "}", NULL); break;
        case 6: r = xmqLinePrintf(lc, e, KV(0), KV(1), KV(2), KV(3), KV(4), KV(5), "}", NULL); break;
        case 7: r = xmqLinePrintf(lc, e, KV(0), KV(1), KV(2), KV(3), KV(4), KV(5), KV(6), "}", NULL); break;
        default: r = xmqLinePrintf(lc, e, KV(0), KV(1), KV(2), KV(3), KV(4), KV(5), KV(6), KV(7), "}", NULL); break;
        }
        oz(r); if (r) free(r); xmqFreeLineConfig(lc); free(e);
        for (uint32_t i = 0; i < 2 * n; ++i) free(v[i]);
    }
    else if (argis(a, 0, "linefmt"))
    { // linefmt HUMAN: fixed formats mixing types: key1=%d key2=%s key3=%5.2f:%s key4=%zu|%c
        int human = argi(a, 1); char *e = argz(a, 2), *s1 = argz(a, 4), *s2 = argz(a, 6);
        XMQLineConfig *lc = xmqNewLineConfig(); xmqSetLineHumanReadable(lc, human);
        char *r = xmqLinePrintf(lc, e, "i=", "%d", argi(a, 3), "s=", "%s", s1, "f=", "%.2f:%s:%d", argi(a, 5) / 4.0, s2, argi(a, 3),
                                "z=", "%zu|%c|%s", (size_t)argi(a, 5), 'c', s1, "}", NULL);
        oz(r); if (r) free(r); xmqFreeLineConfig(lc); free(e); free(s1); free(s2);
    }
    else if (argis(a, 0, "linedoc"))
    { XMQLineConfig *lc = xmqNewLineConfig(); char *r = xmqLineDoc(lc, D[argi(a, 1)]); oz(r); free(r); xmqFreeLineConfig(lc); }
    else if (argis(a, 0, "line1"))
    { // line1 HUMAN element= value
        int human = argi(a, 1); char *e = argz(a, 2), *v = argz(a, 3);
        XMQLineConfig *lc = xmqNewLineConfig(); xmqSetLineHumanReadable(lc, human);
        char *r = xmqLinePrintf(lc, e, "%s", v); oz(r); if (r) free(r); xmqFreeLineConfig(lc); free(e); free(v);
    }
    else if (argis(a, 0, "xmldoc"))
    { // xmldoc D data: reads with libxml2 itself (no xmq code), the result becomes the implementation document
        int d = argi(a, 1);
        xmlDocPtr x = xmlReadMemory(a->a[2].p, a->a[2].n, "x", NULL, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
        if (!x) os_("false");
        else
        {
            if (D[d]) xmqFreeDoc(D[d]);
            D[d] = xmqNewDoc();
            xmlDocPtr old = xmqGetImplementationDoc(D[d]);
            if (old) xmlFreeDoc(old);
            xmqSetImplementationDoc(D[d], x); os_("true");
        }
    }
    else if (argis(a, 0, "lxxml"))
    { // serialise D with libxml2 itself
        xmlDocPtr d = xmqGetImplementationDoc(D[argi(a, 1)]); xmlChar *b = NULL; int n = 0;
        xmlDocDumpMemoryEnc(d, &b, &n, "UTF-8"); if (b) { oq((char*)b, n); xmlFree(b); } else os_("null");
    }
    else if (argis(a, 0, "lxhtml"))
    {
        htmlDocPtr d = xmqGetImplementationDoc(D[argi(a, 1)]); xmlChar *b = NULL; int n = 0;
        htmlDocDumpMemoryFormat(d, &b, &n, 0); if (b) { oq((char*)b, n); xmlFree(b); } else os_("null");
    }
    else { fprintf(stderr, "XH: unknown action %.*s\n", (int)(a->n ? a->a[0].n : 0), a->n ? a->a[0].p : ""); _exit(95); }
}

static int count_fds(void)
{
    int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d); return n;
}

static volatile int finished;
static void on_exit_(void) { if (!finished) { static const char m[] = "XH: the library ended the process\n"; if (write(2, m, sizeof m - 1)) {} _exit(96); } }
static void on_cpu(int s) { static const char m[] = "XH: cpu time limit exceeded\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }

static void silent(void *ctx, const char *msg, ...) {}

static int decode(Action **out)
{
    uint32_t na = u32(); Action *as = calloc(na + 1, sizeof(Action));
    for (uint32_t i = 0; i < na; ++i)
    {
        as[i].n = u32(); as[i].a = calloc(as[i].n + 1, sizeof(Arg));
        for (uint32_t j = 0; j < as[i].n; ++j)
        {
            as[i].a[j].n = u32(); as[i].a[j].p = rb;
            if ((size_t)(re - rb) < as[i].a[j].n) { fprintf(stderr, "XH: truncated request\n"); _exit(95); }
            rb += as[i].a[j].n;
        }
    }
    *out = as;
    return na;
}

#ifdef HAVE_THREADS
// Every thread executes its share of the requests on documents of its own. With XH_SHARE=1 every thread executes them all.
typedef struct { Action *as; int na; } Req;
static Req *reqs; static int nreqs; static char **answers; static const char *base_dir; static unsigned long ticket; static unsigned *order; static size_t norder;
static pthread_barrier_t start_line;
static void *worker(void *x)
{
    int me = (int)(long)x; char dir[400]; snprintf(dir, sizeof dir, "%s/%d", base_dir, me); mkdir(dir, 0700); scratch_dir = dir;
    unsigned s = me * 7919 + 1; const char *sd = getenv("XH_SEED"); if (sd) s += 104729 * atoi(sd);
    xmlSetGenericErrorFunc(NULL, silent);
    pthread_barrier_wait(&start_line);
    for (int q = me; q < nreqs; q += nthreads)
    {
        on = 0; os_("{\"r\":[");
        xmlResetLastError();
        for (int i = 0; i < reqs[q].na; ++i)
        {
            unsigned long t = __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED);
            if (t < norder) order[t] = q;
            s = s * 1103515245 + 12345;
            if ((s >> 16) % 4 == 0) sched_yield();
            if ((s >> 16) % 29 == 0) usleep((s >> 20) % 300);
            if (i) os_(",");
            run(&reqs[q].as[i]);
        }
        for (int d = 0; d < ND; ++d) { if (D[d]) xmqFreeDoc(D[d]); D[d] = NULL; }
        if (last_out) { free(last_out); last_out = NULL; } last_n = 0;
        xmlResetLastError();
        os_("],\"thread\":"); oi(me); os_("}\n");
        answers[q] = strndup(ob, on);
    }
    char fn[512]; snprintf(fn, 512, "%s/in", dir); unlink(fn); rmdir(dir);
    return NULL;
}
static int threads(int out)
{
    norder = 0;
    int cap = 0;
    while (rb < re) { if (nreqs == cap) reqs = realloc(reqs, (cap = cap * 2 + 16) * sizeof(Req)); reqs[nreqs].na = decode(&reqs[nreqs].as); norder += reqs[nreqs].na; nreqs++; }
    answers = calloc(nreqs + 1, sizeof(char *)); order = calloc(norder + 1, sizeof(unsigned));
    nthreads = atoi(getenv("XH_THREADS"));
    pthread_barrier_init(&start_line, NULL, nthreads);
    pthread_t *t = calloc(nthreads, sizeof(pthread_t));
    for (int i = 0; i < nthreads; ++i) pthread_create(&t[i], NULL, worker, (void *)(long)i);
    for (int i = 0; i < nthreads; ++i) pthread_join(t[i], NULL);
    // What switched between what: number of times the next action belonged to another request, and a hash of the order.
    unsigned long sw = 0, h = 1469598103934665603UL;
    for (size_t i = 0; i < norder; ++i) { if (i && order[i] != order[i - 1]) sw++; h = (h ^ order[i]) * 1099511628211UL; }
    for (int q = 0; q < nreqs; ++q) { char *a = answers[q]; size_t n = strlen(a), o = 0; while (o < n) { ssize_t w = write(out, a + o, n - o); if (w <= 0) _exit(95); o += w; } }
    char b[128]; int n = snprintf(b, 128, "{\"switches\":%lu,\"order\":\"%lx\",\"actions\":%zu}\n", sw, h, norder); if (write(out, b, n) != n) _exit(95);
    return 0;
}
#endif

int main(int argc, char **argv)
{
    static char so_buf[4096]; setvbuf(stdout, so_buf, _IOFBF, sizeof so_buf);
    if (argc < 3) return 95;
    int cpu = argc > 3 ? atoi(argv[3]) : 20;
    FILE *f = fopen(argv[1], "rb"); if (!f) { perror(argv[1]); return 95; }
    fseek(f, 0, SEEK_END); size_t n = ftell(f); rewind(f);
    char *buf = malloc(n + 1); if (fread(buf, 1, n, f) != n) return 95; fclose(f);
    rb = buf; re = buf + n;
    int out = open(argv[2], O_CREAT | O_WRONLY | O_APPEND, 0600); if (out < 0) { perror(argv[2]); return 95; }
    char dir[] = "/tmp/xh.XXXXXX"; scratch_dir = getenv("XH_SCRATCH"); if (!scratch_dir) scratch_dir = mkdtemp(dir);
    main_thread = pthread_self();
#ifdef HAVE_ASAN
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
    atexit(on_exit_);
    signal(SIGPROF, on_cpu); signal(SIGPIPE, SIG_IGN);
    xmlInitParser();
    if (!getenv("XH_KEEP_XMLERR")) { xmlSetGenericErrorFunc(NULL, silent); }
#ifdef HAVE_THREADS
    base_dir = scratch_dir;
    int rc = threads(out); finished = 1; exit(rc);
#endif
    while (rb < re)
    {
        Action *as; uint32_t na = decode(&as);
        struct itimerval it = { { 0, 0 }, { cpu, 0 } }; setitimer(ITIMER_PROF, &it, NULL);
        int fds0 = count_fds();
        on = 0; os_("{\"r\":[");
        xmlResetLastError();
        live_n = 0; counting = 1;
        for (uint32_t i = 0; i < na; ++i) { if (i) os_(","); run(&as[i]); }
        for (int d = 0; d < ND; ++d) { if (D[d]) xmqFreeDoc(D[d]); D[d] = NULL; }
        if (last_out) { free(last_out); last_out = NULL; } last_n = 0;
        xmlResetLastError();
        counting = 0; long live = live_n;
        os_("],\"live\":"); oi(live); os_(",\"fds\":"); oi(count_fds() - fds0);
        os_("}\n");
        size_t o = 0; while (o < on) { ssize_t w = write(out, ob + o, on - o); if (w <= 0) _exit(95); o += w; }
        for (uint32_t i = 0; i < na; ++i) free(as[i].a);
        free(as);
        fflush(stdout);
    }
    finished = 1;
    if (scratch_dir == dir) { char fn[512]; snprintf(fn, 512, "%s/in", dir); unlink(fn); rmdir(dir); }
    _exit(0);
}
