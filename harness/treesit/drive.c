/* C31, C32: parses texts with the editor grammar, from scratch or after an edit, checks the ranges of the tree and prints it.
   stdin: p <len>\n<bytes>                      parse
          e <start> <old_end> <new_end> <len>\n<bytes>  the last text was edited into this one
          k <n>                                 forget the tree (next text starts anew), keep the parser */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <tree_sitter/api.h>
const TSLanguage *tree_sitter_styx(void);
static char *txt; static uint32_t len;
static unsigned long long nodes;
static TSPoint point(const char *t, uint32_t at) {
    TSPoint p = {0, 0};
    for (uint32_t i = 0; i < at; i++) { if (t[i] == '\n') { p.row++; p.column = 0; } else p.column++; }
    return p;
}
typedef struct { char *b; size_t n, c; } Str;
static void put(Str *s, const char *f, size_t n) {
    if (s->n + n + 1 > s->c) { s->c = 2 * (s->n + n + 1); s->b = realloc(s->b, s->c); }
    memcpy(s->b + s->n, f, n); s->n += n; s->b[s->n] = 0;
}
static const char *bad;
/* pre-order walk with a cursor: no recursion, whatever the depth */
static void show(Str *s, TSTree *t, bool check) {
    TSTreeCursor c = ts_tree_cursor_new(ts_tree_root_node(t));
    uint32_t depth = 0;
    static struct { uint32_t a, b, prev; } st[1 << 16];
    char tmp[300];
    for (;;) {
        TSNode n = ts_tree_cursor_current_node(&c);
        uint32_t a = ts_node_start_byte(n), b = ts_node_end_byte(n);
        nodes++;
        if (check && depth < (1 << 16) - 1) {
            if (a > b || b > len) bad = "a range outside the text";
            if (depth) {
                if (a < st[depth - 1].a || b > st[depth - 1].b) bad = "a child outside its parent";
                if (a < st[depth - 1].prev) bad = "siblings overlap";
                st[depth - 1].prev = b;
            }
            st[depth].a = a, st[depth].b = b, st[depth].prev = a;
            TSPoint p = ts_node_start_point(n), q = ts_node_end_point(n);
            if (p.row > q.row || (p.row == q.row && p.column > q.column)) bad = "points out of order";
            if ((p.column > a) || (a && p.row == 0 && p.column != a)) bad = "a point that is not at its byte";
        }
        const char *f = ts_tree_cursor_current_field_name(&c);
        int k = snprintf(tmp, sizeof tmp, "[\"%s%s\",%u,%u,%d,\"%s\"", ts_node_is_missing(n) ? "MISSING " : "", ts_node_is_named(n) ? ts_node_type(n) : "", a, b, ts_node_is_named(n), f ? f : "");
        put(s, tmp, (size_t)k);
        if (ts_tree_cursor_goto_first_child(&c)) { depth++; put(s, ",", 1); continue; }
        put(s, "]", 1);
        for (;;) {
            if (ts_tree_cursor_goto_next_sibling(&c)) { put(s, ",", 1); break; }
            if (!ts_tree_cursor_goto_parent(&c)) { ts_tree_cursor_delete(&c); return; }
            depth--;
            put(s, "]", 1);
        }
    }
}
static char *need(size_t n) {
    char *b = malloc(n + 1);
    if (fread(b, 1, n, stdin) != n) exit(4);
    b[n] = 0;
    return b;
}
int main(void) {
    TSParser *p = ts_parser_new();
    if (!ts_parser_set_language(p, tree_sitter_styx())) { puts("FAIL language"); return 3; }
    TSTree *tree = NULL;
    char line[200];
    while (fgets(line, sizeof line, stdin)) {
        unsigned s0, oe, ne, n;
        alarm(20);
        if (sscanf(line, "p %u", &n) == 1) {
            free(txt); txt = need(n); len = n;
            if (tree) ts_tree_delete(tree);
            /* the parser gets no byte past the end */
            char *exact = malloc(n ? n : 1); memcpy(exact, txt, n);
            tree = ts_parser_parse_string(p, NULL, exact, n);
            free(exact);
            Str s = {0}; bad = NULL;
            show(&s, tree, true);
            if (bad) printf("FAIL %s\n", bad); else printf("%d %s\n", ts_node_has_error(ts_tree_root_node(tree)), s.b);
            free(s.b);
        } else if (sscanf(line, "e %u %u %u %u", &s0, &oe, &ne, &n) == 4) {
            char *new = need(n);
            TSInputEdit e = {s0, oe, ne, point(txt, s0), point(txt, oe), point(new, ne)};
            ts_tree_edit(tree, &e);
            free(txt); txt = new; len = n;
            TSTree *inc = ts_parser_parse_string(p, tree, new, n);
            TSTree *fresh = ts_parser_parse_string(p, NULL, new, n);
            Str a = {0}, b = {0}; bad = NULL;
            show(&a, inc, true); show(&b, fresh, true);
            int ea = ts_node_has_error(ts_tree_root_node(inc)), eb = ts_node_has_error(ts_tree_root_node(fresh));
            ts_tree_delete(fresh); ts_tree_delete(tree);
            tree = inc;
            if (bad) printf("FAIL %s\n", bad); else printf("%d %d %d %s\n", ea, eb, !strcmp(a.b, b.b), b.b);
            free(a.b); free(b.b);
        } else { puts("FAIL command"); return 3; }
        alarm(0);
        fflush(stdout);
    }
    if (tree) ts_tree_delete(tree);
    ts_parser_delete(p);
    free(txt);
    fprintf(stderr, "nodes %llu\n", nodes);
    return 0;
}
