/* Reads requests ("COUNT BYTES\n", then that many strings, each ended by a NUL), parses the
   first string and looks up the others as paths. Answers with a line for each ("LENGTH\n" before
   the whole): the dumped tree or "error", the dumped value or "none", and at last "ok" or what
   was wrong. */
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "styx.h"

static char *out;
static size_t len, cap;
static const char *wrong;

static void put(const char *s, size_t n) {
    if (len + n + 1 > cap) {
        cap = (len + n + 1) * 2;
        out = realloc(out, cap);
        if (!out) abort();
    }
    memcpy(out + len, s, n);
    len += n;
    out[len] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }

static void check(bool ok, const char *what) {
    if (!ok && !wrong) wrong = what;
}

/* Prints a string and frees it. */
static void string(char *s) {
    if (!s) {
        puts_("-");
        return;
    }
    puts_("x");
    for (const unsigned char *p = (const unsigned char *)s; *p; p++) {
        char b[3];
        snprintf(b, sizeof b, "%02x", *p);
        put(b, 2);
    }
    styx_free_string(s);
}

static void value(const StyxValue *v);

static void entries(const StyxObject *o) {
    size_t n = styx_object_len(o);
    for (size_t i = 0; i < n; i++) {
        const StyxValue *k = styx_object_key_at(o, i);
        const StyxValue *v = styx_object_value_at(o, i);
        check(k && v, "entry: missing");
        if (!k || !v) return;
        value(k);
        value(v);
        /* An untagged key finds its entry, or an earlier one with the same key. */
        char *tag = styx_value_tag(k), *text = styx_value_scalar(k);
        if (!tag && text) {
            const StyxValue *found = styx_object_get(o, text);
            check(found != NULL, "object_get: does not find a key");
            bool earlier = false;
            for (size_t j = 0; j < i && !earlier; j++) {
                char *t = styx_value_tag(styx_object_key_at(o, j)), *s = styx_value_scalar(styx_object_key_at(o, j));
                earlier = !t && s && !strcmp(s, text);
                styx_free_string(t);
                styx_free_string(s);
            }
            check(earlier || found == v, "object_get: finds another value");
        }
        styx_free_string(tag);
        styx_free_string(text);
    }
    check(!styx_object_key_at(o, n) && !styx_object_value_at(o, n) && !styx_object_key_at(o, (size_t)-1) && !styx_object_value_at(o, (size_t)-1),
          "bounds: entry past the end");
    check(!styx_object_get(o, "no such key") && !styx_object_get(o, "\xff"), "object_get: finds what is not there");
}

static void value(const StyxValue *v) {
    const StyxObject *o = styx_value_as_object(v);
    const StyxSequence *q = styx_value_as_sequence(v);
    puts_(styx_value_is_unit(v) ? "(u" : "(v");
    string(styx_value_tag(v));
    puts_(" ");
    StyxPayloadKind k = styx_value_payload_kind(v);
    check((o != NULL) == (k == STYX_PAYLOAD_KIND_OBJECT), "as_object: wrong kind");
    check((q != NULL) == (k == STYX_PAYLOAD_KIND_SEQUENCE), "as_sequence: wrong kind");
    if (k != STYX_PAYLOAD_KIND_SCALAR) {
        char *s = styx_value_scalar(v);
        check(!s, "scalar: wrong kind");
        styx_free_string(s);
    }
    switch (k) {
    case STYX_PAYLOAD_KIND_NONE:
        puts_("n");
        break;
    case STYX_PAYLOAD_KIND_SCALAR:
        puts_("s");
        string(styx_value_scalar(v));
        break;
    case STYX_PAYLOAD_KIND_SEQUENCE: {
        puts_("q");
        size_t n = q ? styx_sequence_len(q) : 0;
        for (size_t i = 0; i < n; i++) value(styx_sequence_get(q, i));
        check(!styx_sequence_get(q, n) && !styx_sequence_get(q, (size_t)-1), "bounds: item past the end");
        break;
    }
    case STYX_PAYLOAD_KIND_OBJECT:
        puts_("o");
        entries(o);
        break;
    default:
        check(false, "kind: unknown");
    }
    puts_(")");
}

static void nulls(void) {
    check(!styx_document_root(NULL) && !styx_document_get(NULL, "a"), "null: document");
    check(styx_value_payload_kind(NULL) == STYX_PAYLOAD_KIND_NONE && !styx_value_is_unit(NULL) && !styx_value_tag(NULL) && !styx_value_scalar(NULL) &&
              !styx_value_as_object(NULL) && !styx_value_as_sequence(NULL) && !styx_value_get(NULL, "a"),
          "null: value");
    check(styx_object_len(NULL) == 0 && !styx_object_get(NULL, "a") && !styx_object_key_at(NULL, 0) && !styx_object_value_at(NULL, 0), "null: object");
    check(styx_sequence_len(NULL) == 0 && !styx_sequence_get(NULL, 0), "null: sequence");
    styx_free_document(NULL);
    styx_free_string(NULL);
    StyxParseResult r = styx_parse("a \xff");
    check(!r.document && r.error, "utf-8: accepted");
    styx_free_document(r.document);
    styx_free_string(r.error);
}

int main(void) {
    size_t count, size;
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    put("", 0);
    nulls();
    while (scanf("%zu %zu", &count, &size) == 2) {
        getchar();
        char *in = malloc(size + 1);
        if (!in || fread(in, 1, size, stdin) != size) abort();
        in[size] = 0;
        len = 0;
        if (cap < 1 << 16) {
            cap = 1 << 16;
            out = realloc(out, cap);
        }
        size_t before = mallinfo2().uordblks, buffer = malloc_usable_size(out);
        StyxParseResult r = styx_parse(in);
        check((r.document != NULL) != (r.error != NULL), "result: not one of document and error");
        if (r.document) {
            const StyxObject *root = styx_document_root(r.document);
            check(root != NULL, "root: missing");
            puts_("(v- o");
            entries(root);
            puts_(")\n");
            check(!styx_document_get(r.document, "\xff"), "document_get: finds what is not there");
        } else {
            check(r.error && *r.error, "error: no message");
            puts_("error\n");
        }
        const char *path = in;
        for (size_t i = 1; i < count; i++) {
            path += strlen(path) + 1;
            const StyxValue *v = styx_document_get(r.document, path);
            if (v)
                value(v);
            else
                puts_("none");
            puts_("\n");
            /* The same in two steps. */
            const char *dot = strchr(path, '.');
            if (v && dot && dot[1] && dot > path) {
                char *first = strndup(path, dot - path);
                const StyxValue *a = styx_document_get(r.document, first);
                const StyxValue *b = a ? styx_value_get(a, dot + 1) : NULL;
                /* Sibling dotted paths: the first object of the name need not have the rest. */
                check(a != NULL && (!b || b == v), "value_get: differs from document_get");
                free(first);
            }
        }
        styx_free_document(r.document);
        styx_free_string(r.error);
        size_t after = mallinfo2().uordblks;
        check(after - malloc_usable_size(out) == before - buffer, "leak: memory in use grows");
        puts_(wrong ? wrong : "ok");
        wrong = NULL;
        printf("%zu\n", len);
        fwrite(out, 1, len, stdout);
        fflush(stdout);
        free(in);
    }
    return 0;
}
