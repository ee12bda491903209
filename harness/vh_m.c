/* Programs without a state of their own: text checks, tag comparison, debug text. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vh.h"
#include <sys/mman.h>
#include <unistd.h>

#define OP(name) (!strcmp(op, name))
static const char* op;

/* ---- every API that promises UTF-8 or a C string, on one byte string ---- */
/* Results are listed by what the API promises: u UTF-8, c no NUL, b both,
 * a nothing; wu is UTF-8 while writing. */
/* each list holds the distinct outcomes of all APIs making the same promise */
static const char* lists[5][8]; static int list_n[5];
enum { LU, LC, LB, LA, LW };
static void res(int k, mpack_error_t e) {
    const char* n = err_name(e);
    for (int i = 0; i < list_n[k]; i++) if (!strcmp(lists[k][i], n)) return;
    if (list_n[k] < 8) lists[k][list_n[k]++] = n;
}
#if MPACK_WRITER
static void w_text(int k, int how, const uint8_t* p, size_t n) {
    size_t cap = n + 40;
    char* buf = (char*)malloc(cap);
    mpack_writer_t w;
    mpack_writer_init(&w, buf, cap);
    char* z = (char*)malloc(n + 1);
    if (n) memcpy(z, p, n);
    z[n] = 0;
    switch (how) {
        case 0: mpack_write_utf8(&w, (const char*)p, (uint32_t)n); break;
        case 1: mpack_write_utf8_cstr(&w, z); break;
        case 2: mpack_write_utf8_cstr_or_nil(&w, z); break;
        case 3: mpack_write_str(&w, (const char*)p, (uint32_t)n); break;
        case 4: mpack_write_cstr(&w, z); break;
        case 5: mpack_write_cstr_or_nil(&w, z); break;
    }
    res(k, mpack_writer_destroy(&w));
    free(z); free(buf);
}
#endif
#if MPACK_READER || MPACK_NODE
static uint8_t* msg; static size_t msg_n, msg_h;
static void make_msg(const uint8_t* p, size_t n) {
    msg = (uint8_t*)malloc(n + 5);
    msg[0] = 0xdb; msg[1] = (uint8_t)(n >> 24); msg[2] = (uint8_t)(n >> 16); msg[3] = (uint8_t)(n >> 8); msg[4] = (uint8_t)n;
    msg_h = 5;
    if (n) memcpy(msg + 5, p, n);
    msg_n = n + 5;
    /* an exact block, so that nothing beyond it is touched */
    uint8_t* q = (uint8_t*)malloc(msg_n); memcpy(q, msg, msg_n); free(msg); msg = q;
}
#endif
#if MPACK_READER
static const uint8_t* fsrc; static size_t fpos, fstep;
static size_t m_fill(mpack_reader_t* r, char* p, size_t n) {
    (void)r;
    size_t left = msg_n - fpos, c = fstep < n ? fstep : n;
    if (c > left) c = left;
    memcpy(p, fsrc + fpos, c); fpos += c;
    return c;
}
static void r_text(int k, int how, size_t n, size_t step) {
    mpack_reader_t r;
    char* rbuf = NULL;
    if (step) {
        rbuf = (char*)malloc(n + 64);
        fsrc = msg; fpos = 0; fstep = step;
        mpack_reader_init(&r, rbuf, n + 64, 0);
        mpack_reader_set_fill(&r, m_fill);
    } else mpack_reader_init_data(&r, (const char*)msg, msg_n);
    char* buf = (char*)malloc(n + 1);
    char* q = NULL; (void)q;
    if (how < 10) {
        mpack_tag_t t = mpack_read_tag(&r); (void)t;
        switch (how) {
            case 0: mpack_read_utf8(&r, buf, n); break;
            case 1: mpack_read_utf8_inplace(&r, n); break;
            case 2: mpack_read_cstr(&r, buf, n + 1, n); break;
            case 3: mpack_read_utf8_cstr(&r, buf, n + 1, n); break;
            case 4: if (n) mpack_read_bytes(&r, buf, n); break;
            case 5: mpack_read_bytes_inplace(&r, n); break;
            #ifdef MPACK_MALLOC
            case 6: q = mpack_read_bytes_alloc_impl(&r, n, false); break;
            #endif
        }
        if (mpack_reader_error(&r) == mpack_ok) mpack_done_str(&r);
    }
    #if MPACK_EXPECT
    switch (how) {
        case 10: mpack_expect_utf8(&r, buf, n); break;
        case 11: mpack_expect_cstr(&r, buf, n + 1); break;
        case 12: mpack_expect_utf8_cstr(&r, buf, n + 1); break;
        case 13: mpack_expect_str_buf(&r, buf, n); break;
        #ifdef MPACK_MALLOC
        case 14: q = mpack_expect_cstr_alloc(&r, n + 1); break;
        case 15: q = mpack_expect_utf8_cstr_alloc(&r, n + 1); break;
        #endif
        case 16: mpack_expect_str_length(&r, (uint32_t)n); if (n) mpack_read_bytes(&r, buf, n); mpack_done_str(&r); break;
    }
    #endif
    #ifdef MPACK_MALLOC
    if (q) MPACK_FREE(q);
    #endif
    res(k, mpack_reader_destroy(&r));
    free(buf); free(rbuf);
}
#endif
#if MPACK_NODE
static void n_text(int k, int how, size_t n) {
    mpack_tree_t t;
    mpack_node_data_t pool[2];
    mpack_tree_init_pool(&t, (const char*)msg, msg_n, pool, 2);
    mpack_tree_parse(&t);
    mpack_node_t nd = mpack_tree_root(&t);
    char* buf = (char*)malloc(n + 1);
    char* q = NULL; (void)q;
    switch (how) {
        case 0: mpack_node_check_utf8(nd); break;
        case 1: mpack_node_copy_utf8(nd, buf, n); break;
        case 2: mpack_node_check_utf8_cstr(nd); break;
        case 3: mpack_node_copy_utf8_cstr(nd, buf, n + 1); break;
        case 4: mpack_node_copy_cstr(nd, buf, n + 1); break;
        case 5: mpack_node_copy_data(nd, buf, n); break;
        case 6: mpack_node_str(nd); break;
        #ifdef MPACK_MALLOC
        case 7: q = mpack_node_cstr_alloc(nd, n + 1); break;
        case 8: q = mpack_node_utf8_cstr_alloc(nd, n + 1); break;
        case 9: q = mpack_node_data_alloc(nd, n + 1); break;
        #endif
    }
    #ifdef MPACK_MALLOC
    if (q) MPACK_FREE(q);
    #endif
    res(k, mpack_tree_destroy(&t));
    free(buf);
}
#endif
static void do_text(const char* arg) {
    bytes_t d = parse_bytes(arg);
    lg_hex("d", d.p, d.n);
    for (int i = 0; i < 5; i++) list_n[i] = 0;
    bool nul = d.n && memchr(d.p, 0, d.n) != NULL; (void)nul;
    #if MPACK_WRITER
    w_text(LW, 0, d.p, d.n); w_text(LA, 3, d.p, d.n);
    if (!nul) { w_text(LW, 1, d.p, d.n); w_text(LW, 2, d.p, d.n); w_text(LA, 4, d.p, d.n); w_text(LA, 5, d.p, d.n); }
    #endif
    #if MPACK_READER || MPACK_NODE
    make_msg(d.p, d.n);
    #endif
    #if MPACK_READER
    for (int s = 0; s < 3; s++) {
        size_t step = s == 0 ? 0 : s == 1 ? 1 : 3;
        r_text(LU, 0, d.n, step); r_text(LU, 1, d.n, step);
        r_text(LC, 2, d.n, step); r_text(LB, 3, d.n, step);
        r_text(LA, 4, d.n, step); r_text(LA, 5, d.n, step);
        #ifdef MPACK_MALLOC
        r_text(LA, 6, d.n, step);
        #endif
        #if MPACK_EXPECT
        r_text(LU, 10, d.n, step); r_text(LC, 11, d.n, step); r_text(LB, 12, d.n, step); r_text(LA, 13, d.n, step);
        r_text(LA, 16, d.n, step);
        #ifdef MPACK_MALLOC
        r_text(LC, 14, d.n, step); r_text(LB, 15, d.n, step);
        #endif
        #endif
    }
    #endif
    #if MPACK_NODE
    n_text(LU, 0, d.n); n_text(LU, 1, d.n); n_text(LB, 2, d.n); n_text(LB, 3, d.n); n_text(LC, 4, d.n); n_text(LA, 5, d.n); n_text(LA, 6, d.n);
    #ifdef MPACK_MALLOC
    n_text(LC, 7, d.n); n_text(LB, 8, d.n); n_text(LA, 9, d.n);
    #endif
    #endif
    #if MPACK_READER || MPACK_NODE
    free(msg); msg = NULL;
    #endif
    static const char* names[5] = {"u", "c", "b", "a", "w"};
    for (int i = 0; i < 5; i++) {
        lg(",\"%s\":[", names[i]);
        for (int j = 0; j < list_n[i]; j++) lg("%s\"%s\"", j ? "," : "", lists[i][j]);
        lg("]");
    }
}

/* ---- tags ---- */
typedef union { uint32_t u; float f; } fu_t;
typedef union { uint64_t u; double d; } du_t;
static mpack_tag_t mk_tag(const char* s) {      /* kind:value[:exttype] */
    char t[16]; const char* c = strchr(s, ':');
    size_t n = c ? (size_t)(c - s) : strlen(s);
    memcpy(t, s, n); t[n] = 0;
    const char* v = c ? c + 1 : "0";
    const char* xs = strchr(v, ':');
    int x = xs ? (int)parse_i64(xs + 1) : 0; (void)x;
    if (!strcmp(t, "nil")) return mpack_tag_make_nil();
    if (!strcmp(t, "bool")) return mpack_tag_make_bool(parse_u64(v) != 0);
    if (!strcmp(t, "true")) return mpack_tag_make_true();
    if (!strcmp(t, "false")) return mpack_tag_make_false();
    if (!strcmp(t, "int")) return mpack_tag_make_int(parse_i64(v));
    if (!strcmp(t, "uint")) return mpack_tag_make_uint(parse_u64(v));
    if (!strcmp(t, "float")) { fu_t f; f.u = (uint32_t)parse_u64(v);
        #if MPACK_FLOAT
        return mpack_tag_make_float(f.f);
        #else
        return mpack_tag_make_raw_float(f.u);
        #endif
    }
    if (!strcmp(t, "double")) { du_t f; f.u = parse_u64(v);
        #if MPACK_DOUBLE
        return mpack_tag_make_double(f.d);
        #else
        return mpack_tag_make_raw_double(f.u);
        #endif
    }
    if (!strcmp(t, "str")) return mpack_tag_make_str((uint32_t)parse_u64(v));
    if (!strcmp(t, "bin")) return mpack_tag_make_bin((uint32_t)parse_u64(v));
    if (!strcmp(t, "array")) return mpack_tag_make_array((uint32_t)parse_u64(v));
    if (!strcmp(t, "map")) return mpack_tag_make_map((uint32_t)parse_u64(v));
    #if MPACK_EXTENSIONS
    if (!strcmp(t, "ext")) return mpack_tag_make_ext((int8_t)x, (uint32_t)parse_u64(v));
    #endif
    mpack_tag_t z = MPACK_TAG_ZERO;
    return z;
}
/* all pairs of the tags named */
static void do_cmp(line_t* l) {
    int n = l->argc - 1;
    lg(",\"g\":[");
    for (int i = 0; i < n; i++) { lg("%s{\"q\":0", i ? "," : ""); lg_tag("t", mk_tag(l->argv[i + 1])); lg("}"); }
    lg("],\"c\":[");
    for (int i = 0; i < n; i++) {
        lg("%s[", i ? "," : "");
        for (int j = 0; j < n; j++) {
            mpack_tag_t a = mk_tag(l->argv[i + 1]), b = mk_tag(l->argv[j + 1]);
            int c = mpack_tag_cmp(a, b);
            lg("%s%d", j ? "," : "", c < 0 ? -1 : c > 0 ? 1 : 0);
        }
        lg("]");
    }
    lg("],\"q\":[");
    for (int i = 0; i < n; i++) {
        lg("%s[", i ? "," : "");
        for (int j = 0; j < n; j++)
            lg("%s%d", j ? "," : "", mpack_tag_equal(mk_tag(l->argv[i + 1]), mk_tag(l->argv[j + 1])) ? 1 : 0);
        lg("]");
    }
    lg("]");
}

/* ---- debug text ---- */
#if MPACK_DEBUG && MPACK_STDIO && MPACK_READER
static sb_t text; static int text_calls;
static void t_print(void* ctx, const char* p, size_t n) { vh_yield(); (void)ctx; text_calls++; sb_add(&text, p, n); }
static void lg_text(const char* key) { lg_hex(key, text.p ? text.p : "", text.n); text.n = 0; }
static void lg_file(const char* key, char* p, size_t n) { lg_hex(key, p, n); free(p); }
/* what a buffer of n bytes holds: up to its first NUL */
static void lg_buf(int i, size_t n, const char* p) {
    size_t k = 0;
    while (k < n && p[k]) k++;
    lg("%s{\"n\":%d,\"z\":%s", i ? "," : "", (int)n, k < n ? "true" : "false");
    lg_hex("s", p, k);
    lg("}");
}
static void do_print(line_t* l) {
    bytes_t d = parse_bytes(l->argv[1]);
    lg_hex("d", d.p, d.n);
    const char* p = (const char*)d.p;
    mpack_print_data_to_callback(p, d.n, t_print, NULL);
    lg_text("dt");
    lg(",\"db\":[");
    for (int i = 2; i < l->argc; i++) {
        size_t n = (size_t)parse_u64(l->argv[i]);
        char* b = (char*)malloc(n);
        memset(b, 'z', n);
        mpack_print_data_to_buffer(p, d.n, b, n);
        lg_buf(i - 2, n, b);
        free(b);
    }
    lg("]");
    { char* mp; size_t mn; FILE* f = open_memstream(&mp, &mn);
      mpack_print_data_to_file(p, d.n, f); fclose(f); lg_file("df", mp, mn); }
    { memset(&v_file, 0, sizeof(v_file));
      v_file.data = (uint8_t*)malloc(d.n + 1); if (d.n) memcpy(v_file.data, d.p, d.n);
      v_file.len = d.n; v_file.reading = true; v_file.seekable = true; v_file.fail_at = -1;
      FILE* f = vfile_open();
      mpack_print_stdfile_to_callback(f, t_print, NULL); fclose(f); lg_text("ft"); }
    #if MPACK_NODE
    mpack_tree_t t;
    mpack_tree_init_data(&t, p, d.n);
    mpack_tree_parse(&t);
    bool ok = mpack_tree_error(&t) == mpack_ok;
    lg(",\"tok\":%s", ok ? "true" : "false");
    if (ok) {
        mpack_node_t n = mpack_tree_root(&t);
        mpack_node_print_to_callback(n, t_print, NULL);
        lg_text("nt");
        lg(",\"nb\":[");
        for (int i = 2; i < l->argc; i++) {
            size_t k = (size_t)parse_u64(l->argv[i]);
            char* b = (char*)malloc(k);
            memset(b, 'z', k);
            mpack_node_print_to_buffer(n, b, k);
            lg_buf(i - 2, k, b);
            free(b);
        }
        lg("]");
        char* mp; size_t mn; FILE* f = open_memstream(&mp, &mn);
        mpack_node_print_to_file(n, f); fclose(f); lg_file("nf", mp, mn);
    }
    mpack_tree_destroy(&t);
    #else
    lg(",\"tok\":false");
    #endif
}
#endif

#if MPACK_DEBUG && MPACK_STDIO
/* the two descriptions of a tag, in buffers of the sizes given (exact-sized
 * allocations, so that an overrun is seen) */
static void tag_buf(int i, size_t n, mpack_tag_t t, const bytes_t* pre) {
    char* b = (char*)malloc(n);
    memset(b, 'z', n);
    if (pre) mpack_tag_debug_pseudo_json(t, b, n, (const char*)pre->p, pre->n);
    else mpack_tag_debug_describe(t, b, n);
    size_t k = 0;
    while (k < n && b[k]) k++;
    lg("%s{\"n\":%d,\"z\":%s", i ? "," : "", (int)n, k < n ? "true" : "false");
    lg_hex("s", b, k);
    lg("}");
    free(b);
}
static void do_describe(line_t* l) {     /* describe tag prefix sizes... */
    mpack_tag_t t = mk_tag(l->argv[1]);
    bytes_t d = parse_bytes(l->argv[2]);
    lg_tag("t", t); lg_hex("d", d.p, d.n);
    lg(",\"db\":[");
    for (int i = 3; i < l->argc; i++) tag_buf(i - 3, (size_t)parse_u64(l->argv[i]), t, NULL);
    lg("],\"pb\":[");
    for (int i = 3; i < l->argc; i++) tag_buf(i - 3, (size_t)parse_u64(l->argv[i]), t, &d);
    lg("]");
}
#endif

/* ---- data so large that the sizes computed from it can wrap around ---- */
/* n bytes c behind the bytes of head; all megabytes but the first are the same memory */
#if MPACK_NODE && MPACK_WRITER && defined(MPACK_MALLOC)
#define MB ((size_t)1 << 20)
static char* huge_map; static size_t huge_size;
static char* huge_data(const char* head, size_t hn, size_t n, char c) {
    int fd = memfd_create("vh", 0);
    if (fd < 0 || ftruncate(fd, (off_t)MB) != 0) return NULL;
    huge_size = (n / MB + 2) * MB;
    char* b = (char*)mmap(NULL, huge_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    huge_map = b;
    if (b == (char*)MAP_FAILED) { close(fd); return NULL; }
    memset(b, c, MB);
    if (write(fd, b, MB) != (ssize_t)MB) { close(fd); return NULL; }
    for (size_t o = MB; o < huge_size; o += MB)
        if (mmap(b + o, MB, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { close(fd); return NULL; }
    close(fd);
    memcpy(b + MB - hn, head, hn);
    return b + MB - hn;
}
static void do_huge(line_t* l) {
    const char* what = l->argv[1];
    size_t n = (size_t)parse_u64(l->argv[2]);
    char head[5] = {(char)0xdd, (char)(n >> 24), (char)(n >> 16), (char)(n >> 8), (char)n};
    if (what[0] != 'p') head[0] = (char)0xdb;
    if (!strcmp(what, "write")) head[0] = 'x';
    alarm(sizeof(size_t) == 4 ? 60 : 240);     /* gigabytes are looked at */
    bool ptr = false; mpack_error_t e = mpack_ok;
    /* what is written does not fit into memory, so no more than its beginning can be looked at */
    bool part = !strcmp(what, "write") && sizeof(size_t) == 4;
    char* d = huge_data(head, 5, part ? n / 8 : n, what[0] == 'p' ? (char)0xc0 : 'a');
    lg(",\"what\":\"%s\"", what);
    if (!d) { lg(",\"skip\":true,\"e\":\"ok\",\"ptr\":false"); return; }
    if (!strcmp(what, "write")) {
        mpack_writer_t w; char* q = NULL; size_t sz = 0;
        mpack_writer_init_growable(&w, &q, &sz);
        if (n & 1) mpack_write_nil(&w);
        mpack_write_object_bytes(&w, d, n);
        e = mpack_writer_destroy(&w);
        ptr = q != NULL;
        if (q) MPACK_FREE(q);
    } else {
        mpack_tree_t t;
        mpack_tree_init_data(&t, d, n + 5);
        mpack_tree_parse(&t);
        char* p = NULL;
        if (!strcmp(what, "cstr")) p = mpack_node_cstr_alloc(mpack_tree_root(&t), (size_t)-1);
        else if (!strcmp(what, "ucstr")) p = mpack_node_utf8_cstr_alloc(mpack_tree_root(&t), (size_t)-1);
        else if (!strcmp(what, "data")) p = mpack_node_data_alloc(mpack_tree_root(&t), (size_t)-1);
        else ptr = mpack_tree_error(&t) == mpack_ok;
        if (p) { ptr = true; MPACK_FREE(p); }
        e = mpack_tree_destroy(&t);
    }
    munmap(huge_map, huge_size);
    lg(",\"skip\":false,\"e\":\"%s\",\"ptr\":%s", err_name(e), ptr ? "true" : "false");
}
#endif

void run_misc(void) {
    for (int i = 0; i < vprog_n; i++) {
        line_t* l = &vprog[i];
        op = l->argv[0];
        begin_call();
        lg("{\"op\":\"%s\"", op);
        if (OP("text")) do_text(l->argv[1]);
        else if (OP("cmp")) do_cmp(l);
        #if MPACK_NODE && MPACK_WRITER && defined(MPACK_MALLOC)
        else if (OP("huge")) do_huge(l);
        #endif
        #if MPACK_DEBUG && MPACK_STDIO && MPACK_READER
        else if (OP("print")) do_print(l);
        #endif
        #if MPACK_DEBUG && MPACK_STDIO
        else if (OP("describe")) do_describe(l);
        #endif
        else { while (vlog.n && vlog.p[vlog.n - 1] != '\n') vlog.n--; lg("{\"op\":\"unsupported\"}\n"); return; }
        lg(",\"live\":%d}\n", v_live);
    }
}
