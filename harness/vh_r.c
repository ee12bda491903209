/* Reader programs: line 0 is "data BYTES", the rest are calls. */
#include "vh.h"
#if MPACK_READER

static mpack_reader_t rd;
static uint8_t* src; static size_t src_len, src_lim, src_pos;   /* what the stream holds and has delivered */
static int chunks[32], chunks_n, chunk_i;
static mpack_error_t eos_err; static int eos_mode;              /* 0: return 0, 1: return -1, 2: flag */
static bool eos_told, is_mem, is_filesrc, file_pos_known;

static void r_error(mpack_reader_t* r, mpack_error_t err) { (void)r; on_error_cb((int)err); }
static void r_teardown(mpack_reader_t* r) { (void)r; vh_yield(); v_td++; }
static size_t r_fill(mpack_reader_t* r, char* p, size_t n) {
    vh_yield();
    if (mpack_reader_error(r) != mpack_ok) v_fae++;
    size_t left = src_lim - src_pos;
    if (left == 0) {
        /* the failure passes: asked again, the source goes on */
        if (eos_told) { memset(p, 0xc0, n); return n; }
        eos_told = true;
        src_lim = src_len;
        if (eos_mode == 2) { mpack_reader_flag_error(r, eos_err); return 0; }
        return eos_mode == 1 ? (size_t)-1 : 0;
    }
    size_t c = (size_t)chunks[chunk_i++ % chunks_n];
    if (c > n) c = n;
    if (c > left) c = left;
    memcpy(p, src + src_pos, c);
    src_pos += c;
    return c;
}
static void r_skip(mpack_reader_t* r, size_t n) {
    vh_yield();
    if (mpack_reader_error(r) != mpack_ok) v_fae++;
    size_t left = src_lim - src_pos;
    if (n > left) {
        src_pos = src_lim;
        mpack_reader_flag_error(r, eos_mode == 2 ? eos_err : mpack_error_io);
        return;
    }
    src_pos += n;
}

#define OP(name) (!strcmp(op, name))
static const char* op;
static void ev(void) { lg("{\"op\":\"%s\"", op); }
static bool unsupported(void) {
    while (vlog.n && vlog.p[vlog.n - 1] != '\n') vlog.n--;
    lg("{\"op\":\"unsupported\"}\n");
    return false;
}
static bool found_u[1024], found_c[1024];

/* results live outside the frame, since calls may be left by a jump */
static mpack_tag_t tg; static uint64_t r64; static int64_t ri64; static size_t rz; static const char* rp; static char* rq;
static uint8_t* buf; static size_t bufn; static int8_t xt; static bool rb; static uint32_t cnt;
#if MPACK_EXTENSIONS
static mpack_timestamp_t ts;
#endif
#if MPACK_FLOAT
static float rf;
#endif
#if MPACK_DOUBLE
static double rdb;
#endif
static uint8_t* newbuf(size_t n) { buf = (uint8_t*)scratch(n); bufn = n; if (n) memset(buf, 0xdb, n); return buf; }
static bool was_error;               /* the reader was in error before this call */
/* what was read into buf; of a buffer filled in error, what is neither untouched nor cleared */
static void lg_buf(size_t n) {
    if (mpack_reader_error(&rd) != mpack_ok) {
        size_t i = 0;
        while (was_error && i < bufn && (buf[i] == 0xdb || buf[i] == 0)) i++;
        n = was_error && i < bufn ? bufn : 0;
    }
    lg_hex("d", buf, n);
}
static void lg_cbuf(void) {         /* a C string in buf: contents up to the first NUL */
    size_t i = 0;
    while (i < bufn && buf[i]) i++;
    lg_hex("d", buf, i);
    lg(",\"z\":%s", i < bufn ? "true" : "false");
}

#if MPACK_EXPECT
static bool do_num(line_t* l) {
    const char* f = l->argv[1];
    const char* a = l->argc > 2 ? l->argv[2] : "0";
    const char* b = l->argc > 3 ? l->argv[3] : "0";
    lg(",\"fn\":\"%s\"", f);
    #define U(T, name, w) \
        if (!strcmp(f, #name)) { r64 = 0; lg(",\"s\":false,\"w\":%d,\"nr\":false", w); lg_u64("lo", 0); lg_u64("hi", (T)-1); lg_u64("df", 0); \
            CALL(r64 = mpack_expect_##name(&rd)); lg_u64("r", r64); return true; } \
        if (!strcmp(f, #name "_range")) { T lo = (T)parse_u64(a), hi = (T)parse_u64(b); r64 = lo; \
            lg(",\"s\":false,\"w\":%d,\"nr\":false", w); lg_u64("lo", lo); lg_u64("hi", hi); lg_u64("df", lo); \
            CALL(r64 = mpack_expect_##name##_range(&rd, (T)parse_u64(a), (T)parse_u64(b))); lg_u64("r", r64); return true; } \
        if (!strcmp(f, #name "_max")) { r64 = 0; lg(",\"s\":false,\"w\":%d,\"nr\":false", w); lg_u64("lo", 0); lg_u64("hi", (T)parse_u64(a)); lg_u64("df", 0); \
            CALL(r64 = mpack_expect_##name##_max(&rd, (T)parse_u64(a))); lg_u64("r", r64); return true; }
    U(uint8_t, u8, 1) U(uint16_t, u16, 2) U(uint32_t, u32, 4) U(uint64_t, u64, 8) U(unsigned int, uint, 4)
    #define S(T, name, w, MIN, MAX) \
        if (!strcmp(f, #name)) { ri64 = 0; lg(",\"s\":true,\"w\":%d,\"nr\":false", w); lg_u64("lo", (uint64_t)(int64_t)MIN); lg_u64("hi", (uint64_t)(int64_t)MAX); lg_u64("df", 0); \
            CALL(ri64 = mpack_expect_##name(&rd)); lg_u64("r", (uint64_t)ri64); return true; } \
        if (!strcmp(f, #name "_range")) { T lo = (T)parse_i64(a), hi = (T)parse_i64(b); ri64 = lo; \
            lg(",\"s\":true,\"w\":%d,\"nr\":false", w); lg_u64("lo", (uint64_t)(int64_t)lo); lg_u64("hi", (uint64_t)(int64_t)hi); lg_u64("df", (uint64_t)(int64_t)lo); \
            CALL(ri64 = mpack_expect_##name##_range(&rd, (T)parse_i64(a), (T)parse_i64(b))); lg_u64("r", (uint64_t)ri64); return true; } \
        if (!strcmp(f, #name "_max")) { ri64 = 0; lg(",\"s\":true,\"w\":%d,\"nr\":false", w); lg_u64("lo", 0); lg_u64("hi", (uint64_t)(int64_t)(T)parse_i64(a)); lg_u64("df", 0); \
            CALL(ri64 = mpack_expect_##name##_max(&rd, (T)parse_i64(a))); lg_u64("r", (uint64_t)ri64); return true; }
    S(int8_t, i8, 1, INT8_MIN, INT8_MAX) S(int16_t, i16, 2, INT16_MIN, INT16_MAX) S(int32_t, i32, 4, INT32_MIN, INT32_MAX)
    S(int64_t, i64, 8, INT64_MIN, INT64_MAX) S(int, int, 4, INT32_MIN, INT32_MAX)
    if (!strcmp(f, "uint_match")) { lg(",\"s\":false,\"w\":8,\"nr\":true"); lg_u64("lo", parse_u64(a)); lg_u64("hi", parse_u64(a));
        CALL(mpack_expect_uint_match(&rd, parse_u64(a))); return true; }
    if (!strcmp(f, "int_match")) { lg(",\"s\":true,\"w\":8,\"nr\":true"); lg_u64("lo", (uint64_t)parse_i64(a)); lg_u64("hi", (uint64_t)parse_i64(a));
        CALL(mpack_expect_int_match(&rd, parse_i64(a))); return true; }
    return unsupported();
}

static bool do_real(line_t* l) {
    const char* f = l->argv[1];
    uint64_t a = l->argc > 2 ? parse_u64(l->argv[2]) : 0, b = l->argc > 3 ? parse_u64(l->argv[3]) : 0;
    (void)a; (void)b;
    r64 = 0;
    lg(",\"fn\":\"%s\"", f);
    #if MPACK_FLOAT
    { uint32_t u; float lo, hi; uint32_t a4 = (uint32_t)a, b4 = (uint32_t)b; memcpy(&lo, &a4, 4); memcpy(&hi, &b4, 4);
    rf = 0;
    if (!strcmp(f, "float")) { CALL(rf = mpack_expect_float(&rd)); memcpy(&u, &rf, 4); lg_u64("r", u); return true; }
    if (!strcmp(f, "float_strict")) { CALL(rf = mpack_expect_float_strict(&rd)); memcpy(&u, &rf, 4); lg_u64("r", u); return true; }
    if (!strcmp(f, "float_range")) { lg_u64("lo", a4); lg_u64("hi", b4); rf = lo;
        CALL(rf = mpack_expect_float_range(&rd, lo, hi)); memcpy(&u, &rf, 4); lg_u64("r", u); return true; }
    }
    #else
    if (!strcmp(f, "raw_float")) { CALL(r64 = mpack_expect_raw_float(&rd)); lg_u64("r", r64); return true; }
    #endif
    #if MPACK_DOUBLE
    { double lo, hi; memcpy(&lo, &a, 8); memcpy(&hi, &b, 8);
    rdb = 0;
    if (!strcmp(f, "double")) { CALL(rdb = mpack_expect_double(&rd)); memcpy(&r64, &rdb, 8); lg_u64("r", r64); return true; }
    if (!strcmp(f, "double_strict")) { CALL(rdb = mpack_expect_double_strict(&rd)); memcpy(&r64, &rdb, 8); lg_u64("r", r64); return true; }
    if (!strcmp(f, "double_range")) { lg_u64("lo", a); lg_u64("hi", b); rdb = lo;
        CALL(rdb = mpack_expect_double_range(&rd, lo, hi)); memcpy(&r64, &rdb, 8); lg_u64("r", r64); return true; }
    }
    #else
    if (!strcmp(f, "raw_double")) { CALL(r64 = mpack_expect_raw_double(&rd)); lg_u64("r", r64); return true; }
    #endif
    return unsupported();
}

/* counts of maps and arrays */
static bool do_count(line_t* l) {
    const char* f = l->argv[1];
    uint32_t a = l->argc > 2 ? (uint32_t)parse_u64(l->argv[2]) : 0, b = l->argc > 3 ? (uint32_t)parse_u64(l->argv[3]) : 0;
    cnt = 0; rb = false;
    #define HD(T, LO, HI, DF, NIL, NR) lg(",\"fn\":\"%s\",\"t\":\"%s\",\"nil\":%s,\"nr\":%s", f, T, NIL, NR); \
        lg_u64("lo", LO); lg_u64("hi", HI); lg_u64("df", DF)
    #define FAM(T, name) \
    if (!strcmp(f, #name)) { HD(T, 0, UINT32_MAX, 0, "false", "false"); CALL(cnt = mpack_expect_##name(&rd)); lg_u64("r", cnt); return true; } \
    if (!strcmp(f, #name "_range")) { HD(T, a, b, a, "false", "false"); cnt = a; CALL(cnt = mpack_expect_##name##_range(&rd, a, b)); lg_u64("r", cnt); return true; } \
    if (!strcmp(f, #name "_max")) { HD(T, 0, a, 0, "false", "false"); CALL(cnt = mpack_expect_##name##_max(&rd, a)); lg_u64("r", cnt); return true; } \
    if (!strcmp(f, #name "_match")) { HD(T, a, a, 0, "false", "true"); CALL(mpack_expect_##name##_match(&rd, a)); return true; } \
    if (!strcmp(f, #name "_or_nil")) { HD(T, 0, UINT32_MAX, 0, "true", "false"); cnt = 77; CALL(rb = mpack_expect_##name##_or_nil(&rd, &cnt)); \
        lg_u64("r", cnt); lg(",\"has\":%s", rb ? "true" : "false"); return true; } \
    if (!strcmp(f, #name "_max_or_nil")) { HD(T, 0, a, 0, "true", "false"); cnt = 77; CALL(rb = mpack_expect_##name##_max_or_nil(&rd, a, &cnt)); \
        lg_u64("r", cnt); lg(",\"has\":%s", rb ? "true" : "false"); return true; }
    FAM("map", map) FAM("array", array)
    return unsupported();
}
static bool do_array_alloc(line_t* l) {
    #ifdef MPACK_MALLOC
    bool nil = !strcmp(l->argv[1], "nil");
    uint32_t mx = (uint32_t)parse_u64(l->argv[2]);
    static uint32_t* p;
    p = NULL; cnt = 77;
    lg(",\"nil\":%s", nil ? "true" : "false"); lg_u64("hi", mx);
    if (nil) CALL(p = mpack_expect_array_or_nil_alloc(&rd, uint32_t, mx, &cnt));
    else CALL(p = mpack_expect_array_alloc(&rd, uint32_t, mx, &cnt));
    if (v_jumped) cnt = 0;
    lg(",\"null\":%s,\"nb\":%d", p ? "false" : "true", (int)live_size(p));
    lg_u64("r", cnt);
    if (p) MPACK_FREE(p);
    return true;
    #else
    (void)l; return unsupported();
    #endif
}
/* lengths of strings, blobs and extensions */
static bool do_len(line_t* l) {
    const char* f = l->argv[1];
    uint32_t a = l->argc > 2 ? (uint32_t)parse_u64(l->argv[2]) : 0;
    cnt = 0; xt = 77;
    #define HL(T, LO, HI, NR) lg(",\"fn\":\"%s\",\"t\":\"%s\",\"nr\":%s", f, T, NR); lg_u64("lo", LO); lg_u64("hi", HI)
    if (!strcmp(f, "str")) { HL("str", 0, UINT32_MAX, "false"); CALL(cnt = mpack_expect_str(&rd)); }
    else if (!strcmp(f, "str_max")) { HL("str", 0, a, "false"); CALL(cnt = mpack_expect_str_max(&rd, a)); }
    else if (!strcmp(f, "str_length")) { HL("str", a, a, "true"); CALL(mpack_expect_str_length(&rd, a)); }
    else if (!strcmp(f, "bin")) { HL("bin", 0, UINT32_MAX, "false"); CALL(cnt = mpack_expect_bin(&rd)); }
    else if (!strcmp(f, "bin_max")) { HL("bin", 0, a, "false"); CALL(cnt = mpack_expect_bin_max(&rd, a)); }
    else if (!strcmp(f, "bin_size")) { HL("bin", a, a, "true"); CALL(mpack_expect_bin_size(&rd, a)); }
    #if MPACK_EXTENSIONS
    else if (!strcmp(f, "ext")) { HL("ext", 0, UINT32_MAX, "false"); CALL(cnt = mpack_expect_ext(&rd, &xt)); }
    else if (!strcmp(f, "ext_max")) { HL("ext", 0, a, "false"); CALL(cnt = mpack_expect_ext_max(&rd, &xt, a)); }
    else if (!strcmp(f, "ext_size")) { HL("ext", a, a, "true"); CALL(mpack_expect_ext_size(&rd, &xt, a)); }
    #endif
    else return unsupported();
    lg_u64("r", cnt);
    lg(",\"x\":%d", strncmp(f, "ext", 3) ? 0 : (int)xt);
    return true;
}
static bool do_buf(line_t* l) {
    const char* f = l->argv[1];
    size_t cap = (size_t)parse_u64(l->argv[2]);
    const char* t = strstr(f, "bin") ? "bin" : strstr(f, "ext") ? "ext" : "str";
    bool exact = !strcmp(f, "bin_size_buf");
    rz = 0; xt = 77;
    lg(",\"fn\":\"%s\",\"t\":\"%s\",\"utf8\":%s,\"exact\":%s,\"cap\":%d", f, t, !strcmp(f, "utf8") ? "true" : "false", exact ? "true" : "false", vi(cap));
    newbuf(cap);
    if (!strcmp(f, "str_buf")) CALL(rz = mpack_expect_str_buf(&rd, (char*)buf, cap));
    else if (!strcmp(f, "utf8")) CALL(rz = mpack_expect_utf8(&rd, (char*)buf, cap));
    else if (!strcmp(f, "bin_buf")) CALL(rz = mpack_expect_bin_buf(&rd, (char*)buf, cap));
    else if (exact) { CALL(mpack_expect_bin_size_buf(&rd, (char*)buf, (uint32_t)cap)); rz = mpack_reader_error(&rd) == mpack_ok ? cap : 0; }
    #if MPACK_EXTENSIONS
    else if (!strcmp(f, "ext_buf")) CALL(rz = mpack_expect_ext_buf(&rd, &xt, (char*)buf, cap));
    #endif
    else return unsupported();
    lg(",\"r\":%d,\"x\":%d", (int)rz, *t == 'e' ? (int)xt : 0);
    lg_buf(rz <= cap ? rz : 0);
    return true;
}
static bool do_alloc(line_t* l) {
    #ifdef MPACK_MALLOC
    const char* f = l->argv[1];
    size_t mx = (size_t)parse_u64(l->argv[2]);
    rq = NULL; rz = 777; xt = 77;
    lg(",\"fn\":\"%s\",\"max\":%d", f, vi(mx));
    bool c = false;
    if (!strcmp(f, "cstr")) { c = true; CALL(rq = mpack_expect_cstr_alloc(&rd, mx)); }
    else if (!strcmp(f, "utf8_cstr")) { c = true; CALL(rq = mpack_expect_utf8_cstr_alloc(&rd, mx)); }
    else if (!strcmp(f, "bin")) CALL(rq = mpack_expect_bin_alloc(&rd, mx, &rz));
    #if MPACK_EXTENSIONS
    else if (!strcmp(f, "ext")) CALL(rq = mpack_expect_ext_alloc(&rd, &xt, mx, &rz));
    #endif
    else return unsupported();
    size_t got = live_size(rq);          /* bytes of the allocation handed out */
    lg(",\"null\":%s", rq ? "false" : "true");
    if (c) { size_t n = 0; while (rq && n < got && rq[n]) n++; lg_hex("d", rq, n);
        lg(",\"z\":%s,\"r\":0,\"x\":0", rq && n < got ? "true" : "false"); }
    else { lg_hex("d", rq, rq && rz <= got ? rz : 0); lg(",\"z\":false,\"r\":%d,\"x\":%d", (int)rz, f[0] == 'e' ? (int)xt : 0); }
    if (rq) MPACK_FREE(rq);
    return true;
    #else
    (void)l; return unsupported();
    #endif
}
static const char* keys[300]; static int nkeys;
static void parse_keys(char* s) {
    nkeys = 0;
    char* tok = s;
    lg(",\"keys\":[");
    while (tok && *tok) {
        char* c = strchr(tok, ',');
        char one[600]; size_t n = c ? (size_t)(c - tok) : strlen(tok);
        memcpy(one, tok, n); one[n] = 0;
        bytes_t b = parse_bytes_z(one);
        keys[nkeys++] = (const char*)b.p;
        lg("%s\"x", nkeys > 1 ? "," : "");
        for (size_t i = 0; i < b.n; i++) lg("%02x", b.p[i]);
        lg("\"");
        tok = c ? c + 1 : NULL;
    }
    lg("]");
}
static void lg_found(bool* f, int n) {
    lg(",\"fd\":[");
    for (int i = 0; i < n; i++) lg("%s%s", i ? "," : "", f[i] ? "true" : "false");
    lg("]");
}
#endif

static bool do_op(line_t* l) {
    const char* a = l->argc > 1 ? l->argv[1] : "0";
    const char* b = l->argc > 2 ? l->argv[2] : "0";
    ev();
    was_error = mpack_reader_error(&rd) != mpack_ok;
    mpack_tag_t zero = MPACK_TAG_ZERO;
    size_t n = (size_t)parse_u64(*a == '-' || (*a >= '0' && *a <= '9') ? a : "0");
    if (OP("tag")) { tg = zero; CALL(tg = mpack_read_tag(&rd)); lg_tag("tag", tg); }
    else if (OP("peek")) { tg = zero; CALL(tg = mpack_peek_tag(&rd)); lg_tag("tag", tg); }
    else if (OP("bytes")) { lg(",\"n\":%d", vi(n)); newbuf(n); CALL(mpack_read_bytes(&rd, (char*)buf, n));
        lg_buf(n); }
    else if (OP("utf8")) { lg(",\"n\":%d", vi(n)); newbuf(n); CALL(mpack_read_utf8(&rd, (char*)buf, n));
        lg_buf(n); }
    else if (OP("cstr") || OP("utf8cstr")) {
        size_t c = (size_t)parse_u64(b);
        lg(",\"cap\":%d,\"n\":%d", vi(n), vi(c)); newbuf(n);
        if (OP("cstr")) CALL(mpack_read_cstr(&rd, (char*)buf, n, c)); else CALL(mpack_read_utf8_cstr(&rd, (char*)buf, n, c));
        lg_cbuf();
    }
    else if (OP("inplace") || OP("utf8inplace")) {
        lg(",\"n\":%d", vi(n)); rp = NULL;
        if (OP("inplace")) CALL(rp = mpack_read_bytes_inplace(&rd, n)); else CALL(rp = mpack_read_utf8_inplace(&rd, n));
        lg(",\"null\":%s", rp ? "false" : "true"); lg_hex("d", rp, rp ? n : 0);
    }
    #ifdef MPACK_MALLOC
    else if (OP("balloc") || OP("ballocz")) {
        lg(",\"n\":%d", vi(n)); rq = NULL;
        if (OP("balloc")) CALL(rq = mpack_read_bytes_alloc(&rd, n)); else CALL(rq = mpack_read_bytes_alloc_impl(&rd, n, true));
        size_t got = live_size(rq);
        lg(",\"null\":%s", rq ? "false" : "true"); lg_hex("d", rq, rq && got >= n ? n : 0);
        lg(",\"z\":%s", rq && got > n && rq[n] == 0 ? "true" : "false");
        if (rq) MPACK_FREE(rq);
    }
    #endif
    else if (OP("skip")) { lg(",\"n\":%d", vi(n)); CALL(mpack_skip_bytes(&rd, n)); }
    else if (OP("should")) { begin_call(); v_jumped = 0; lg(",\"n\":%d,\"r\":%s", vi(n), mpack_should_read_bytes_inplace(&rd, n) ? "true" : "false"); }
    else if (OP("done")) {
        lg(",\"t\":\"%s\"", a);
        mpack_type_t t = parse_type(a);
        if (!strcmp(b, "type")) CALL(mpack_done_type(&rd, t));
        else if (t == mpack_type_array) CALL(mpack_done_array(&rd));
        else if (t == mpack_type_map) CALL(mpack_done_map(&rd));
        else if (t == mpack_type_str) CALL(mpack_done_str(&rd));
        else if (t == mpack_type_bin) CALL(mpack_done_bin(&rd));
        #if MPACK_EXTENSIONS
        else CALL(mpack_done_ext(&rd));
        #endif
    }
    else if (OP("discard")) CALL(mpack_discard(&rd));
    else if (OP("remain")) {
        rz = 0; rp = NULL;
        CALL(rz = mpack_reader_remaining(&rd, &rp));
        lg(",\"n\":%d", (int)rz); lg_hex("d", rp, rz);
        #if MPACK_STDIO
        if (is_filesrc) src_pos = v_file.pos;
        #endif
        lg(",\"sp\":%d", is_filesrc && !file_pos_known ? -1 : (int)src_pos);
    }
    #if MPACK_EXTENSIONS
    else if (OP("ts")) { lg(",\"n\":%d", vi(n)); ts.seconds = 0; ts.nanoseconds = 0; CALL(ts = mpack_read_timestamp(&rd, n));
        lg_u64("s", (uint64_t)ts.seconds); lg_u64("ns", ts.nanoseconds); }
    #endif
    else if (OP("flag")) { lg(",\"er\":\"%s\"", a); CALL(mpack_reader_flag_error(&rd, parse_error(a))); }
    #if MPACK_EXPECT
    else if (OP("n")) { if (!do_num(l)) return false; }
    else if (OP("f")) { if (!do_real(l)) return false; }
    else if (OP("c")) { if (!do_count(l)) return false; }
    else if (OP("aalloc")) { if (!do_array_alloc(l)) return false; }
    else if (OP("l")) { if (!do_len(l)) return false; }
    else if (OP("b")) { if (!do_buf(l)) return false; }
    else if (OP("a")) { if (!do_alloc(l)) return false; }
    else if (OP("s")) {
        size_t cap = (size_t)parse_u64(b);
        bool u = !strcmp(a, "utf8_cstr");
        lg(",\"utf8\":%s,\"cap\":%d", u ? "true" : "false", vi(cap));
        newbuf(cap);
        if (u) CALL(mpack_expect_utf8_cstr(&rd, (char*)buf, cap)); else CALL(mpack_expect_cstr(&rd, (char*)buf, cap));
        lg_cbuf();
    }
    else if (OP("m")) {
        bytes_t d = !strcmp(a, "cstr") ? parse_bytes_z(b) : parse_bytes(b);
        lg_hex("d", d.p, d.n);
        if (!strcmp(a, "cstr")) CALL(mpack_expect_cstr_match(&rd, (const char*)d.p));
        else CALL(mpack_expect_str_match(&rd, (const char*)d.p, d.n));
    }
    else if (OP("enum") || OP("enumopt")) {
        parse_keys(l->argv[1]);
        rz = (size_t)nkeys;
        if (OP("enum")) CALL(rz = mpack_expect_enum(&rd, keys, (size_t)nkeys)); else CALL(rz = mpack_expect_enum_optional(&rd, keys, (size_t)nkeys));
        lg(",\"r\":%d", (int)rz);
    }
    else if (OP("keyuint")) {
        lg(",\"n\":%d", vi(n)); rz = n;
        CALL(rz = mpack_expect_key_uint(&rd, found_u, n));
        lg(",\"r\":%d", (int)rz); lg_found(found_u, vi(n));
    }
    else if (OP("keycstr")) {
        parse_keys(l->argv[1]); rz = (size_t)nkeys;
        CALL(rz = mpack_expect_key_cstr(&rd, keys, found_c, (size_t)nkeys));
        lg(",\"r\":%d", (int)rz); lg_found(found_c, nkeys);
    }
    else if (OP("keynew")) { begin_call(); v_jumped = 0; memset(found_u, 0, sizeof(found_u)); memset(found_c, 0, sizeof(found_c)); }
    else if (OP("etag")) {
        int x = l->argc > 3 ? (int)parse_i64(l->argv[3]) : 0; (void)x;
        tg = zero;
        if (!strcmp(a, "nil")) tg = mpack_tag_make_nil();
        else if (!strcmp(a, "bool")) tg = mpack_tag_make_bool(parse_u64(b) != 0);
        else if (!strcmp(a, "int")) tg = mpack_tag_make_int(parse_i64(b));
        else if (!strcmp(a, "uint")) tg = mpack_tag_make_uint(parse_u64(b));
        else if (!strcmp(a, "float")) { uint32_t u = (uint32_t)parse_u64(b);
            #if MPACK_FLOAT
            float f; memcpy(&f, &u, 4); tg = mpack_tag_make_float(f);
            #else
            tg = mpack_tag_make_raw_float(u);
            #endif
        } else if (!strcmp(a, "double")) { uint64_t u = parse_u64(b);
            #if MPACK_DOUBLE
            double f; memcpy(&f, &u, 8); tg = mpack_tag_make_double(f);
            #else
            tg = mpack_tag_make_raw_double(u);
            #endif
        }
        else if (!strcmp(a, "str")) tg = mpack_tag_make_str((uint32_t)parse_u64(b));
        else if (!strcmp(a, "bin")) tg = mpack_tag_make_bin((uint32_t)parse_u64(b));
        else if (!strcmp(a, "array")) tg = mpack_tag_make_array((uint32_t)parse_u64(b));
        else if (!strcmp(a, "map")) tg = mpack_tag_make_map((uint32_t)parse_u64(b));
        #if MPACK_EXTENSIONS
        else if (!strcmp(a, "ext")) tg = mpack_tag_make_ext((int8_t)x, (uint32_t)parse_u64(b));
        #endif
        else return unsupported();
        lg_tag("tag", tg);
        CALL(mpack_expect_tag(&rd, tg));
    }
    else if (OP("enil")) CALL(mpack_expect_nil(&rd));
    else if (OP("ebool")) { rb = false; CALL(rb = mpack_expect_bool(&rd)); lg(",\"r\":%s", rb ? "true" : "false"); }
    else if (OP("etrue")) CALL(mpack_expect_true(&rd));
    else if (OP("efalse")) CALL(mpack_expect_false(&rd));
    #if MPACK_EXTENSIONS
    else if (OP("ets")) { ts.seconds = 0; ts.nanoseconds = 0; CALL(ts = mpack_expect_timestamp(&rd));
        lg_u64("s", (uint64_t)ts.seconds); lg_u64("ns", ts.nanoseconds); }
    else if (OP("etst")) { ri64 = 0; CALL(ri64 = mpack_expect_timestamp_truncate(&rd)); lg_u64("s", (uint64_t)ri64); }
    #endif
    #endif
    else return unsupported();
    end_event(mpack_reader_error(&rd));
    return true;
}

void run_reader(void) {
    const char* s = env_s("src", "mem");
    const char* e0 = env_s("e0", "ok");
    bool eh = env_i("eh", 1) != 0;
    bytes_t data = parse_bytes(vprog[0].argv[1]);
    static uint8_t* copy; static size_t copy_n; static FILE* f;
    src = data.p; src_len = data.n; src_pos = 0; f = NULL; copy = NULL; copy_n = 0;
    eos_told = false;
    src_lim = (size_t)env_i("failat", (long)src_len);
    if (src_lim > src_len) src_lim = src_len;
    is_mem = !strcmp(s, "mem") || !strcmp(s, "memb"); is_filesrc = !strcmp(s, "file");
    memset(found_u, 0, sizeof(found_u)); memset(found_c, 0, sizeof(found_c));
    const char* eos = env_s("eos", "0");
    eos_mode = !strcmp(eos, "0") ? 0 : !strcmp(eos, "-1") ? 1 : 2;
    eos_err = eos_mode == 2 ? parse_error(eos) : mpack_error_io;
    chunks_n = 0; chunk_i = 0;
    const char* q = env_s("ch", "1000000");
    while (*q && chunks_n < 32) { chunks[chunks_n] = atoi(q); if (chunks[chunks_n] < 1) chunks[chunks_n] = 1; chunks_n++; while (*q && *q != ',') q++; if (*q) q++; }
    const char* fclose_mode = env_s("close", "1"); (void)fclose_mode;
    file_pos_known = env_i("unbuf", 1) != 0;

    op = "init";
    ev();
    if (strcmp(e0, "ok")) {
        CALL(mpack_reader_init_error(&rd, parse_error(e0)));
    } else if (!strcmp(s, "mem")) {
        src_pos = src_len;
        CALL(mpack_reader_init_data(&rd, (const char*)data.p, data.n));
    } else if (!strcmp(s, "memb")) {
        src_pos = src_len;
        size_t cap = data.n + (size_t)env_i("slack", 0);
        uint8_t* m = (uint8_t*)scratch(cap); memcpy(m, data.p, data.n);
        CALL(mpack_reader_init(&rd, (char*)m, cap, data.n));
    } else if (is_filesrc) {
        #if MPACK_STDIO
        v_file.reading = true;
        v_file.data = (uint8_t*)malloc(src_len + 1); memcpy(v_file.data, src, src_len); v_file.len = src_len;
        if (!strcmp(fclose_mode, "name")) {
            v_fcx = v_fopen_fail ? 0 : 1;
            CALL(mpack_reader_init_filename(&rd, "vh:in"));
        } else {
            v_fcx = !strcmp(fclose_mode, "1");
            f = vfile_open();
            CALL(mpack_reader_init_stdfile(&rd, f, v_fcx != 0));
        }
        #else
        unsupported(); return;
        #endif
    } else {
        size_t cap = (size_t)env_i("buf", 64), pre = (size_t)env_i("pre", 0);
        if (pre > cap) pre = cap;
        if (pre > src_lim) pre = src_lim;
        uint8_t* m = (uint8_t*)scratch(cap); memset(m, 0xee, cap); memcpy(m, src, pre);
        src_pos = pre;
        CALL(mpack_reader_init(&rd, (char*)m, cap, pre));
        if (!v_jumped && mpack_reader_error(&rd) == mpack_ok) {
            mpack_reader_set_fill(&rd, r_fill);
            if (env_i("skip", 0)) mpack_reader_set_skip(&rd, r_skip);
        }
    }
    if (is_mem) { copy = (uint8_t*)malloc(src_len + 1); memcpy(copy, src, src_len); copy_n = src_len; }
    if (env_i("td", 1) && !is_filesrc) { v_tdx = 1; mpack_reader_set_teardown(&rd, r_teardown); }
    if (eh) mpack_reader_set_error_handler(&rd, r_error);
    end_event(mpack_reader_error(&rd));

    for (int i = 1; i < vprog_n; i++) {
        op = vprog[i].argv[0];
        if (!do_op(&vprog[i])) { mpack_reader_flag_error(&rd, mpack_error_bug); (void)mpack_reader_destroy(&rd); free(copy); return; }
    }

    static mpack_error_t r;
    r = mpack_ok;
    op = "destroy";
    CALL(r = mpack_reader_destroy(&rd));
    if (v_jumped) {
        lg("{\"op\":\"destroyj\"");
        end_event(mpack_reader_error(&rd));
        CALL(r = mpack_reader_destroy(&rd));
    }
    ev();
    #if MPACK_STDIO
    if (is_filesrc) { int fc = v_fc, sf = v_sf; if (f && v_fc == 0) fclose(f); v_fc = fc; v_sf = sf; }
    lg(",\"r\":\"%s\",\"fc\":%d,\"fcx\":%d", err_name(r), v_fc, v_fcx);
    #else
    lg(",\"r\":\"%s\",\"fc\":0,\"fcx\":0", err_name(r));
    #endif
    lg(",\"same\":%s", !copy || !memcmp(copy, src, copy_n) ? "true" : "false");
    free(copy); copy = NULL;
    lg(",\"live\":%d,\"dbl\":%d,\"td\":%d,\"tdx\":%d", v_live, v_dbl, v_td, v_tdx);
    end_event(mpack_reader_error(&rd));
}
#else
void run_reader(void) { lg("{\"op\":\"unsupported\"}\n"); }
#endif
