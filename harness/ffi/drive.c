/* C22: carries out C API calls read from stdin and prints what they answer, one line per command. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
#include "styx.h"
size_t __sanitizer_get_current_allocated_bytes(void);
#define SLOTS 64
typedef struct { StyxDocument *doc; const StyxValue **v; size_t n, cap; const StyxObject **o; size_t no, capo; const StyxSequence **q; size_t nq, capq; } Slot;
static Slot slot[SLOTS];
static unsigned long long calls;
static void die(const char *m) { printf("FAIL %s\n", m); fflush(stdout); exit(3); }
static void puthex(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) fprintf(f, "%02x", (unsigned char)*s);
    fputc('"', f);
}
/* exactly as long as the text, so that a read past its end is seen */
static char *unhex(const char *h) {
    size_t n = strlen(h) / 2;
    char *b = malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); b[i] = (char)x; }
    b[n] = 0;
    return b;
}
static long add(Slot *s, const StyxValue *v) {
    if (!s) return -1;
    if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 64; s->v = realloc(s->v, s->cap * sizeof *s->v); }
    s->v[s->n] = v;
    return (long)s->n++;
}
static void object(FILE *f, Slot *s, const StyxObject *o);
static void value(FILE *f, Slot *s, const StyxValue *v) {
    long id = add(s, v);
    int k = (int)styx_value_payload_kind(v);
    calls += 6;
    fprintf(f, "{\"id\":%ld,\"k\":%d,\"u\":%d", id, k, (int)styx_value_is_unit(v));
    char *t = styx_value_tag(v);
    if (t) { fputs(",\"g\":", f); puthex(f, t); styx_free_string(t); }
    char *x = styx_value_scalar(v);
    if (x) { fputs(",\"s\":", f); puthex(f, x); styx_free_string(x); }
    const StyxObject *o = styx_value_as_object(v);
    if (o) { fputs(",\"o\":", f); object(f, s, o); }
    const StyxSequence *q = styx_value_as_sequence(v);
    if (q) {
        if (s) {
            if (s->nq == s->capq) { s->capq = s->capq ? 2 * s->capq : 64; s->q = realloc(s->q, s->capq * sizeof *s->q); }
            s->q[s->nq++] = q;
        }
        size_t n = styx_sequence_len(q);
        fputs(",\"q\":[", f);
        for (size_t i = 0; i < n; i++) {
            if (i) fputc(',', f);
            const StyxValue *e = styx_sequence_get(q, i);
            calls++;
            if (!e) { printf("FAIL item %zu of %zu is null\n", i, n); exit(3); }
            value(f, s, e);
        }
        fputc(']', f);
        if (styx_sequence_get(q, n) || styx_sequence_get(q, n + 1) || styx_sequence_get(q, SIZE_MAX)) die("an item past the end");
    }
    fputc('}', f);
}
static void object(FILE *f, Slot *s, const StyxObject *o) {
    if (s) {
        if (s->no == s->capo) { s->capo = s->capo ? 2 * s->capo : 64; s->o = realloc(s->o, s->capo * sizeof *s->o); }
        fprintf(f, "{\"id\":%zu,\"e\":[", s->no);
        s->o[s->no++] = o;
    } else fputs("{\"e\":[", f);
    size_t n = styx_object_len(o);
    for (size_t i = 0; i < n; i++) {
        const StyxValue *k = styx_object_key_at(o, i), *v = styx_object_value_at(o, i);
        calls += 2;
        if (!k || !v) die("an entry in range is null");
        if (i) fputc(',', f);
        fputc('[', f);
        value(f, s, k);
        fputc(',', f);
        value(f, s, v);
        fputc(']', f);
    }
    fputs("]}", f);
    if (styx_object_key_at(o, n) || styx_object_value_at(o, n) || styx_object_key_at(o, SIZE_MAX) || styx_object_value_at(o, SIZE_MAX / 2)) die("an entry past the end");
}
static void clear(Slot *s) { free(s->v); free(s->o); free(s->q); memset(s, 0, sizeof *s); }
static void found(Slot *s, const StyxValue *v) {
    if (!v) { puts("null"); return; }
    for (size_t i = 0; i < s->n; i++) if (s->v[i] == v) { printf("%zu\n", i); return; }
    puts("FAIL a value that is not in the document");
}
typedef struct { const StyxDocument *doc; char *buf; size_t len; } Reader;
static void *reader(void *a) {
    Reader *r = a;
    FILE *f = open_memstream(&r->buf, &r->len);
    object(f, NULL, styx_document_root(r->doc));
    fclose(f);
    return NULL;
}
static void nulls(void) {
    StyxParseResult r = styx_parse(NULL);
    if (r.document || !r.error) die("parse of null");
    styx_free_string(r.error);
    styx_free_string(NULL);
    styx_free_document(NULL);
    if (styx_document_root(NULL) || styx_document_get(NULL, "a") || styx_document_get(NULL, NULL)) die("document null");
    if (styx_value_payload_kind(NULL) != STYX_PAYLOAD_KIND_NONE || styx_value_is_unit(NULL) || styx_value_tag(NULL) || styx_value_scalar(NULL)) die("value null");
    if (styx_value_as_object(NULL) || styx_value_as_sequence(NULL) || styx_value_get(NULL, "a") || styx_value_get(NULL, NULL)) die("value null");
    if (styx_object_len(NULL) || styx_object_get(NULL, "a") || styx_object_get(NULL, NULL) || styx_object_key_at(NULL, 0) || styx_object_value_at(NULL, 0)) die("object null");
    if (styx_sequence_len(NULL) || styx_sequence_get(NULL, 0)) die("sequence null");
    r = styx_parse("a {b (c)}");
    if (!r.document || r.error) die("parse");
    const StyxValue *v = styx_document_get(r.document, "a");
    const StyxObject *o = styx_value_as_object(v);
    if (!v || !o || styx_document_get(r.document, NULL) || styx_value_get(v, NULL) || styx_object_get(o, NULL)) die("null path or key");
    if (styx_value_as_sequence(v) || styx_value_scalar(v) || styx_value_tag(v)) die("an object is something else");
    styx_free_document(r.document);
    calls += 28;
    puts("ok");
}
int main(void) {
    static char line[1 << 23];
    while (fgets(line, sizeof line, stdin)) {
        size_t n = strlen(line);
        if (line[n - 1] == '\n') line[n - 1] = 0;
        char *sp = strchr(line, ' ');
        int i = sp ? atoi(sp + 1) : 0;
        char *arg = sp ? strchr(sp + 1, ' ') : NULL;
        if (i < 0 || i >= SLOTS) die("slot");
        Slot *s = &slot[i];
        long id = -1;
        if (arg && (line[0] == 'v' || line[0] == 'o')) { id = atol(arg + 1); arg = strchr(arg + 1, ' '); }
        char *text = arg ? unhex(arg + 1) : NULL;
        calls++;
        switch (line[0]) {
        case 'p': {
            StyxParseResult r = styx_parse(text);
            free(text), text = NULL; /* the document must not refer to it */
            if (!r.document == !r.error) die("not exactly one of document and error");
            if (r.error) { fputs("{\"error\":", stdout); puthex(stdout, r.error); puts("}"); styx_free_string(r.error); }
            else { s->doc = r.document; puts("{}"); }
            break;
        }
        case 'w':
            { StyxDocument *d = s->doc; clear(s); s->doc = d; }
            object(stdout, s, styx_document_root(s->doc));
            putchar('\n');
            break;
        case 'g': found(s, styx_document_get(s->doc, text)); break;
        case 'v': found(s, styx_value_get(s->v[id], text)); break;
        case 'o': found(s, styx_object_get(s->o[id], text)); break;
        case 'f': styx_free_document(s->doc); clear(s); puts("ok"); break;
        case 'b': printf("%zu\n", __sanitizer_get_current_allocated_bytes()); break;
        case 'n': nulls(); break;
        case 't': {
            enum { T = 4 };
            pthread_t th[T];
            Reader r[T];
            memset(r, 0, sizeof r);
            for (int k = 0; k < T; k++) { r[k].doc = s->doc; pthread_create(&th[k], NULL, reader, &r[k]); }
            for (int k = 0; k < T; k++) pthread_join(th[k], NULL);
            int same = 1;
            for (int k = 1; k < T; k++) same &= r[k].len == r[0].len && !memcmp(r[k].buf, r[0].buf, r[0].len);
            for (int k = 0; k < T; k++) free(r[k].buf);
            puts(same ? "ok" : "FAIL threads read different trees");
            break;
        }
        default: die("command");
        }
        free(text);
        fflush(stdout);
    }
    for (int i = 0; i < SLOTS; i++) if (slot[i].v) clear(&slot[i]);
    fprintf(stderr, "calls %llu\n", calls);
    return 0;
}
