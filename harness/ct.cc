// Drives the supporting containers with random operation sequences next to the C++ standard containers.
// ct KIND SEED SEQUENCES  -> one line "ok KIND sequences operations max-size distinct" or "BAD key: what" and exit 1
#include <map>
#include <vector>
#include <deque>
#include <string>
#include <set>
#include <random>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
#define class class_
extern "C" {
#include "parts/always.h"
#include "parts/hashmap.h"
#include "parts/stack.h"
#include "parts/vector.h"
#include "parts/membuffer.h"
struct U8 { char bytes[4]; };
size_t encode_utf8(int uc, struct U8 *);
bool decode_utf8(const char *start, const char *stop, int *out_char, size_t *out_len);
size_t peek_utf8_char(const char *start, const char *stop, struct U8 *uc);
size_t num_utf8_bytes(char c);
bool utf8_char_to_codepoint_string(struct U8 *uc, char *buf);
}
#undef class
using namespace std;
static mt19937_64 R;
static uint64_t rnd(uint64_t n) { return R() % n; }
static long ops, biggest, evals;
static uint64_t hist; static set<uint64_t> seen;
static string trail;
static void note(const char *o, long v = 0) { ops++; hist = hist * 1099511628211ull + o[0] * 31 + o[1] + v * 7919; if (trail.size() < 600) { trail += ' '; trail += o; } }
#define BAD(key, ...) do { printf("BAD %s: ", key); printf(__VA_ARGS__); printf(" after%s\n", trail.c_str()); fflush(stdout); _exit(1); } while (0)
static void begin() { hist = 7; trail = ""; }
static void end_() { seen.insert(hist); evals++; }

static string key(int style)
{
    string s;
    switch (style)
    {
    case 0: s = string(1, 'a' + rnd(6)); break;
    case 1: s = "k" + to_string(rnd(40)); break;
    case 2: { size_t n = rnd(12); for (size_t i = 0; i < n; ++i) s += (char)(1 + rnd(255)); break; }
    case 3: { size_t n = 1 + rnd(3); for (size_t i = 0; i < n; ++i) s += "\xc3\xa5"; s += to_string(rnd(5)); break; }
    case 4: s = string(rnd(400), 'x') + to_string(rnd(3)); break;
    default: s = "key" + to_string(rnd(100000)); break;
    }
    return s;
}
static int freed[4096]; static long nfreed;
static void count_free(void *p) { long i = (long)p - 1; if (i >= 0 && i < 4096) freed[i]++; nfreed++; }

static void maps(long seqs)
{
    for (long q = 0; q < seqs; ++q)
    {
        begin();
        size_t buckets[] = { 1, 2, 3, 7, 16, 100, 256, 1024 };
        HashMap *m = hashmap_create(buckets[rnd(8)]);
        map<string, void*> ref; long n = rnd(4) ? rnd(60) : rnd(1500); int style = rnd(7);
        for (long i = 0; i < n; ++i)
        {
            string k = key(style == 6 ? rnd(6) : style); char buf[512]; strcpy(buf, k.c_str());
            switch (rnd(8))
            {
            case 0: case 1: case 2: case 3: { void *v = (void*)(1 + rnd(4000)); hashmap_put(m, buf, v); ref[k] = v; note("put", (long)v); break; }
            case 4: case 5: case 6: {
                void *v = hashmap_get(m, buf); auto it = ref.find(k); note("get");
                if (v != (it == ref.end() ? NULL : it->second)) BAD("map-get", "get(%s) gives %p expected %p", buf, v, it == ref.end() ? NULL : it->second);
                break; }
            default: {
                if (rnd(8)) break;
                note("iterate"); map<string, void*> got; HashMapIterator *it = hashmap_iterate(m); const char *kk; void *vv; size_t c = 0;
                while (hashmap_next_key_value(it, &kk, &vv)) { c++; got[kk] = vv; if (c > ref.size() + 5) break; }
                hashmap_free_iterator(it);
                if (c != ref.size() || got != ref) BAD("map-iterate", "iteration visits %zu keys (%zu different), map has %zu", c, got.size(), ref.size());
                break; }
            }
            // The map must not keep what it was given as key.
            memset(buf, '#', sizeof buf - 1); buf[511] = 0;
            if (hashmap_size(m) != ref.size()) BAD("map-size", "size %zu expected %zu", hashmap_size(m), ref.size());
        }
        for (auto &p : ref) if (hashmap_get(m, p.first.c_str()) != p.second) BAD("map-get", "at the end get(%s) gives another value", p.first.c_str());
        if ((long)ref.size() > biggest) biggest = ref.size();
        if (rnd(2)) hashmap_free(m);
        else
        {
            memset(freed, 0, sizeof freed); nfreed = 0; hashmap_free_and_values(m, count_free);
            if (nfreed != (long)ref.size()) BAD("map-free", "freed %ld values of %zu", nfreed, ref.size());
            map<long, int> want; for (auto &p : ref) want[(long)p.second - 1]++;
            for (auto &w : want) if (freed[w.first] != w.second) BAD("map-free", "value %ld freed %d times, not %d", w.first, freed[w.first], w.second);
        }
        end_();
    }
}
static void stacks(long seqs)
{
    for (long q = 0; q < seqs; ++q)
    {
        begin(); Stack *s = stack_create(); deque<void*> ref; long n = rnd(4) ? rnd(40) : rnd(3000); int grow = 3 + rnd(5);
        for (long i = 0; i < n; ++i)
        {
            long o = rnd(10);
            if (o < grow || ref.empty()) { void *v = (void*)(rnd(20) ? 1 + rnd(100000) : 0); stack_push(s, v); ref.push_back(v); note("push", (long)v); }
            else if (o & 1) { void *v = stack_pop(s); note("pop"); if (v != ref.back()) BAD("stack-pop", "pop gives %p expected %p of %zu", v, ref.back(), ref.size()); ref.pop_back(); }
            else { void *v = stack_rock(s); note("rock"); if (v != ref.front()) BAD("stack-rock", "pulling from the bottom gives %p expected %p of %zu", v, ref.front(), ref.size()); ref.pop_front(); }
            if (s->size != ref.size()) BAD("stack-size", "size %zu expected %zu", s->size, ref.size());
            if ((long)ref.size() > biggest) biggest = ref.size();
        }
        if (rnd(2)) while (!ref.empty()) { void *v = rnd(2) ? stack_pop(s) : NULL; if (v) { if (v != ref.back()) BAD("stack-pop", "draining gives %p", v); ref.pop_back(); } else break; }
        stack_free(s); end_();
    }
    stack_free(NULL);
}
static void vectors(long seqs)
{
    for (long q = 0; q < seqs; ++q)
    {
        begin(); Vector *s = vector_create(); vector<void*> ref; long n = rnd(4) ? rnd(60) : rnd(6000); int grow = 4 + rnd(6);
        for (long i = 0; i < n; ++i)
        {
            long o = rnd(10);
            if (o < grow || ref.empty()) { void *v = (void*)(rnd(30) ? 1 + rnd(4000) : 0); vector_push_back(s, v); ref.push_back(v); note("push", (long)v); }
            else if (o & 1) { void *v = vector_pop_back(s); note("pop"); if (v != ref.back()) BAD("vector-pop", "pop gives %p expected %p of %zu", v, ref.back(), ref.size()); ref.pop_back(); }
            else { size_t j = rnd(ref.size()); void *v = vector_element_at(s, j); note("at", j); if (v != ref[j]) BAD("vector-at", "element %zu is %p expected %p of %zu", j, v, ref[j], ref.size()); }
            if (s->size != ref.size()) BAD("vector-size", "size %zu expected %zu", s->size, ref.size());
            if ((long)ref.size() > biggest) biggest = ref.size();
        }
        for (size_t j = 0; j < ref.size(); ++j) if (vector_element_at(s, j) != ref[j]) BAD("vector-at", "at the end element %zu differs", j);
        if (rnd(2)) vector_free(s);
        else { size_t nn = 0; for (auto v : ref) nn += v != NULL; nfreed = 0; vector_free_and_values(s, count_free); if (nfreed != (long)nn) BAD("vector-free", "freed %ld of %zu", nfreed, nn); }
        end_();
    }
    vector_free(NULL);
}
static void buffers(long seqs)
{
    for (long q = 0; q < seqs; ++q)
    {
        begin(); MemBuffer *m = new_membuffer(); string ref; long n = rnd(4) ? rnd(40) : rnd(2500);
        if (rnd(6) == 0) { size_t l = rnd(3000); char *p = (char*)malloc(l ? l : 1); for (size_t i = 0; i < l; ++i) p[i] = rnd(256); membuffer_reuse(m, p, l); ref.assign(p, l); note("reuse", l); }
        for (long i = 0; i < n; ++i)
        {
            switch (rnd(9))
            {
            case 0: case 1: { size_t l = rnd(20) ? rnd(30) : rnd(5000); string x; for (size_t j = 0; j < l; ++j) x += (char)rnd(256); char *e = (char*)malloc(l + 1); memcpy(e, x.data(), l); membuffer_append_region(m, e, e + l); free(e); ref += x; note("region", l); break; }
            case 2: case 3: { size_t l = rnd(20) ? rnd(30) : rnd(5000); string x; for (size_t j = 0; j < l; ++j) x += (char)(1 + rnd(255)); char *e = strdup(x.c_str()); if (rnd(3)) membuffer_append(m, e); else membuffer_append_region(m, e, NULL); free(e); ref += x; note("append", l); break; }
            case 4: { char c = rnd(256); membuffer_append_char(m, c); ref += c; note("char", c); break; }
            case 5: { int v = rnd(1u << 31); membuffer_append_int(m, v); ref.append((char*)&v, sizeof v); note("int", v); break; }
            case 6: { void *v = (void*)R(); membuffer_append_pointer(m, v); ref.append((char*)&v, sizeof v); note("pointer"); break; }
            case 7: if (rnd(2)) { membuffer_append_null(m); ref += '\0'; note("null"); } else { const char *k = " \n\t\r"; int j = rnd(4); membuffer_append_entity(m, k[j]); const char *en[] = { "&#32;", "&#10;", "&#9;", "&#13;" }; ref += en[j]; note("entity", j); } break;
            default: membuffer_drop_last_null(m); if (!ref.empty() && ref.back() == 0) ref.pop_back(); note("drop"); break;
            }
            if (membuffer_used(m) != ref.size()) BAD("buffer-used", "used %zu expected %zu", membuffer_used(m), ref.size());
            char b = membuffer_back(m); if (b != (ref.empty() ? 0 : ref.back())) BAD("buffer-back", "last byte %d", b);
            if (m->used_ > m->max_) BAD("buffer-max", "used %zu of %zu", m->used_, m->max_);
            if (rnd(20) == 0 && !ref.empty() && memcmp(m->buffer_, ref.data(), ref.size())) BAD("buffer-content", "content of %zu bytes differs", ref.size());
        }
        if ((long)ref.size() > biggest) biggest = ref.size();
        if (rnd(3) == 0) membuffer_append_null(m), ref += '\0';
        if (ref.empty() || rnd(3) == 0) free_membuffer_and_free_content(m);
        else { char *c = free_membuffer_but_return_trimmed_content(m); if (memcmp(c, ref.data(), ref.size())) BAD("buffer-content", "returned content of %zu bytes differs", ref.size()); free(c); }
        end_();
    }
}
// The Unicode standard's table of well-formed byte sequences.
static int ref_decode(const unsigned char *s, size_t n, size_t *len)
{
    unsigned a = s[0];
    if (a < 0x80) { *len = 1; return a; }
    if (a < 0xc2 || a > 0xf4) return -1;
    size_t need = a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4;
    if (n < need) return -1;
    unsigned lo = 0x80, hi = 0xbf;
    if (a == 0xe0) lo = 0xa0; else if (a == 0xed) hi = 0x9f; else if (a == 0xf0) lo = 0x90; else if (a == 0xf4) hi = 0x8f;
    if (s[1] < lo || s[1] > hi) return -1;
    for (size_t i = 2; i < need; ++i) if (s[i] < 0x80 || s[i] > 0xbf) return -1;
    *len = need;
    if (need == 2) return (a & 31) << 6 | (s[1] & 63);
    if (need == 3) return (a & 15) << 12 | (s[1] & 63) << 6 | (s[2] & 63);
    return (a & 7) << 18 | (s[1] & 63) << 12 | (s[2] & 63) << 6 | (s[3] & 63);
}
static void try_decode(const unsigned char *s, size_t n)
{
    // Exactly these bytes, at the end of an allocation.
    static char *page[5]; if (!page[n]) page[n] = (char*)malloc(n);
    memcpy(page[n], s, n);
    size_t rl = 0, l = 99; int rc = ref_decode(s, n, &rl), c = -7;
    bool ok = decode_utf8(page[n], page[n] + n, &c, &l);
    evals++; ops++;
    char hex[32] = ""; for (size_t i = 0; i < n; ++i) snprintf(hex + 3 * i, 4, "%02x ", s[i]);
    if (ok != (rc >= 0)) BAD(ok ? "utf8-malformed-decodes" : "utf8-valid-refused", "bytes %s", hex);
    if (ok && (c != rc || l != rl)) BAD("utf8-decode", "bytes %s give U+%X (%zu bytes), not U+%X (%zu)", hex, c, l, rc, rl);
    if (!ok && l != 1) BAD("utf8-error-length", "bytes %s: %zu bytes skipped", hex, l);
    struct U8 u; memset(&u, 0x55, sizeof u); size_t p = peek_utf8_char(page[n], page[n] + n, &u);
    if (p > n) BAD("utf8-peek", "bytes %s: peeks %zu of %zu", hex, p, n);
    if (ok && (p != rl || memcmp(u.bytes, s, rl))) BAD("utf8-peek", "bytes %s: peeks %zu, not %zu", hex, p, rl);
}
static void utf8(long quads)
{
    for (int c = 0; c <= 0x10ffff; ++c)
    {
        if (c >= 0xd800 && c < 0xe000) continue;
        struct U8 u; size_t n = encode_utf8(c, &u), rl = 0; int l2 = -1; size_t l = 0;
        evals++; ops++;
        if (n < 1 || n > 4 || ref_decode((unsigned char*)u.bytes, n, &rl) != c || rl != n) BAD("utf8-encode", "U+%X encodes to %zu bytes %02x %02x %02x %02x", c, n, u.bytes[0] & 255, u.bytes[1] & 255, u.bytes[2] & 255, u.bytes[3] & 255);
        for (size_t i = n; i < 4; ++i) if (u.bytes[i]) BAD("utf8-encode", "U+%X: bytes after its %zu bytes are not zero", c, n);
        if (!decode_utf8(u.bytes, u.bytes + n, &l2, &l) || l2 != c || l != n) BAD("utf8-roundtrip", "U+%X decodes as U+%X (%zu of %zu bytes)", c, l2, l, n);
        if (num_utf8_bytes(u.bytes[0]) != n) BAD("utf8-length", "U+%X: first byte says %zu bytes of %zu", c, num_utf8_bytes(u.bytes[0]), n);
        char b[32], w[32]; snprintf(w, 32, "U+%X", c);
        if (!utf8_char_to_codepoint_string(&u, b) || strcmp(b, w)) BAD("utf8-name", "U+%X named %s", c, b);
    }
    unsigned char s[4];
    for (int a = 0; a < 256; ++a) { s[0] = a; try_decode(s, 1); for (int b = 0; b < 256; ++b) { s[1] = b; try_decode(s, 2); } }
    for (int a = 0x80; a < 256; ++a) for (int b = 0; b < 256; ++b) for (int c = 0; c < 256; ++c) { s[0] = a; s[1] = b; s[2] = c; try_decode(s, 3); }
    static const unsigned char edge[] = { 0, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xef, 0xf0, 0xf4, 0xff };
    for (int a = 0xc0; a < 256; ++a) for (int b = 0; b < 256; ++b) for (size_t c = 0; c < sizeof edge; ++c) for (size_t d = 0; d < sizeof edge; ++d) { s[0] = a; s[1] = b; s[2] = edge[c]; s[3] = edge[d]; try_decode(s, 4); }
    for (long i = 0; i < quads; ++i) { for (int j = 0; j < 4; ++j) s[j] = rnd(256); s[0] |= 0xc0; try_decode(s, 4); }
    biggest = 4;
}
int main(int argc, char **argv)
{
    string k = argv[1]; R.seed(strtoul(argv[2], 0, 10) * 1000003 + k[0]); long n = atol(argv[3]);
    alarm(600);
    if (k == "map") maps(n); else if (k == "stack") stacks(n); else if (k == "vector") vectors(n); else if (k == "buffer") buffers(n); else utf8(n);
    printf("ok %s %ld %ld %ld %zu\n", k.c_str(), evals, ops, biggest, seen.size());
}
