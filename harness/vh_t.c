/* Tree programs: line 0 is "data BYTES", the rest are calls. Nodes are kept in
 * numbered registers. */
#include "vh.h"
#include <limits.h>
#if MPACK_NODE

static mpack_tree_t tr;
static uint8_t* src; static size_t src_len, src_lim, src_pos;
static int chunks[64], chunks_n, chunk_i;
static mpack_error_t eos_err; static int eos_mode;      /* 0: nothing yet, 1: return -1, 2: flag */
static long prev_pos; static bool eos_told, would_block;          /* what had been delivered before the last read of this call */
#define NREG 16
static mpack_node_t reg[NREG];

static void t_error(mpack_tree_t* t, mpack_error_t err) { (void)t; on_error_cb((int)err); }
static void t_teardown(mpack_tree_t* t) { (void)t; vh_yield(); v_td++; }
#ifdef MPACK_MALLOC
static size_t t_read(mpack_tree_t* t, char* p, size_t n) {
    vh_yield();
    if (mpack_tree_error(t) != mpack_ok || n == 0) v_fae++;
    prev_pos = (long)src_pos; would_block = false;
    size_t left = src_lim - src_pos;
    if (left == 0) {
        /* the failure passes: asked again, the source goes on */
        if (eos_told) { memset(p, 0xc0, n); return n; }
        if (eos_mode != 0) { eos_told = true; src_lim = src_len; }
        if (eos_mode == 2) { v_sf = 1; v_se = eos_err; mpack_tree_flag_error(t, eos_err); return 0; }
        if (eos_mode == 1) { v_sf = 1; v_se = mpack_error_io; return (size_t)-1; }
        would_block = true;
        return 0;
    }
    size_t c = (size_t)chunks[chunk_i++ % chunks_n];
    if (c == 0) { would_block = true; return 0; }
    if (c > n) c = n;
    if (c > left) c = left;
    memcpy(p, src + src_pos, c);
    src_pos += c;
    return c;
}
#endif

#define OP(name) (!strcmp(op, name))
static const char* op;
static void ev(void) { lg("{\"op\":\"%s\"", op); }
static bool unsupported(void) {
    while (vlog.n && vlog.p[vlog.n - 1] != '\n') vlog.n--;
    lg("{\"op\":\"unsupported\"}\n");
    return false;
}
/* results live outside the frame, since calls may be left by a jump */
static mpack_node_t nd; static uint64_t r64; static int64_t ri64; static size_t rz; static const char* rp; static char* rq;
static uint8_t* buf; static size_t bufn; static bool rb; static int rx; static mpack_tag_t tg; static mpack_type_t ty;
#if MPACK_EXTENSIONS
static mpack_timestamp_t ts;
#endif
#if MPACK_FLOAT
static float rf;
#endif
#if MPACK_DOUBLE
static double rdb;
#endif
static uint8_t* newbuf(size_t n) { buf = (uint8_t*)scratch(n); bufn = n; if (n) memset(buf, 0xdb, n); return buf; }
static void lg_cbuf(void) {
    size_t i = 0;
    while (i < bufn && buf[i]) i++;
    lg_hex("d", buf, i);
    lg(",\"z\":%s", i < bufn ? "true" : "false");
}
static int rn(const char* s) { int i = atoi(s); if (i < 0 || i >= NREG) { fprintf(stderr, "bad register %s\n", s); exit(3); } return i; }
static void lg_to(int i) { if (v_jumped) reg[i] = mpack_tree_root(&tr); lg(",\"to\":%d", i + 1); }

static int dump_n;
static bool data_kind(mpack_type_t t) {
    #if MPACK_EXTENSIONS
    if (t == mpack_type_ext) return true;
    #endif
    return t == mpack_type_str || t == mpack_type_bin;
}
static void dump(mpack_node_t n, int depth) {
    if (++dump_n > 40000 || depth > 5000) return;
    mpack_tag_t t = mpack_node_tag(n);
    lg("%s{\"q\":0", dump_n > 1 ? "," : "");
    lg_tag("g", t);
    mpack_type_t k = mpack_node_type(n);
    if (data_kind(k)) lg_hex("d", mpack_node_data(n), mpack_node_data_len(n));
    lg("}");
    if (k == mpack_type_array)
        for (size_t i = 0; i < mpack_node_array_length(n); i++) dump(mpack_node_array_at(n, i), depth + 1);
    if (k == mpack_type_map)
        for (size_t i = 0; i < mpack_node_map_count(n); i++) {
            dump(mpack_node_map_key_at(n, i), depth + 1);
            dump(mpack_node_map_value_at(n, i), depth + 1);
        }
}

static bool do_num(const char* f, mpack_node_t n) {
    r64 = 0; ri64 = 0;
    lg(",\"fn\":\"%s\"", f);
    #define U(T, name) if (!strcmp(f, #name)) { lg(",\"s\":false"); lg_u64("lo", 0); lg_u64("hi", (T)-1); \
        CALL(r64 = mpack_node_##name(n)); lg_u64("r", r64); return true; }
    U(uint8_t, u8) U(uint16_t, u16) U(uint32_t, u32) U(uint64_t, u64) U(unsigned int, uint)
    #define S(name, MIN, MAX) if (!strcmp(f, #name)) { lg(",\"s\":true"); lg_u64("lo", (uint64_t)(int64_t)MIN); lg_u64("hi", (uint64_t)(int64_t)MAX); \
        CALL(ri64 = mpack_node_##name(n)); lg_u64("r", (uint64_t)ri64); return true; }
    S(i8, INT8_MIN, INT8_MAX) S(i16, INT16_MIN, INT16_MAX) S(i32, INT32_MIN, INT32_MAX) S(i64, INT64_MIN, INT64_MAX) S(int, INT32_MIN, INT32_MAX)
    return unsupported();
}
static bool do_real(const char* f, mpack_node_t n) {
    r64 = 0;
    lg(",\"fn\":\"%s\"", f);
    #if MPACK_FLOAT
    { uint32_t u;
    rf = 0;
    if (!strcmp(f, "float")) { CALL(rf = mpack_node_float(n)); memcpy(&u, &rf, 4); lg_u64("r", u); return true; }
    if (!strcmp(f, "float_strict")) { CALL(rf = mpack_node_float_strict(n)); memcpy(&u, &rf, 4); lg_u64("r", u); return true; }
    }
    #else
    if (!strcmp(f, "raw_float")) { CALL(r64 = mpack_node_raw_float(n)); lg_u64("r", r64); return true; }
    #endif
    #if MPACK_DOUBLE
    rdb = 0;
    if (!strcmp(f, "double")) { CALL(rdb = mpack_node_double(n)); memcpy(&r64, &rdb, 8); lg_u64("r", r64); return true; }
    if (!strcmp(f, "double_strict")) { CALL(rdb = mpack_node_double_strict(n)); memcpy(&r64, &rdb, 8); lg_u64("r", r64); return true; }
    #else
    if (!strcmp(f, "raw_double")) { CALL(r64 = mpack_node_raw_double(n)); lg_u64("r", r64); return true; }
    #endif
    return unsupported();
}
static bool do_lookup(line_t* l) {
    /* look FN reg key [to] */
    const char* f = l->argv[1];
    mpack_node_t n = reg[rn(l->argv[2])];
    const char* k = l->argv[3];
    int to = l->argc > 4 ? rn(l->argv[4]) : 0;
    bool opt = strstr(f, "_opt") != NULL, has = strstr(f, "has") != NULL;
    const char* kind = strstr(f, "cstr") ? "cstr" : strstr(f, "str") ? "str" : strstr(f, "uint") ? "uint" : "int";
    static bytes_t b;
    lg(",\"n\":%s,\"kd\":\"%s\",\"opt\":%s,\"has\":%s", l->argv[2], strstr(kind, "str") ? "str" : kind, opt ? "true" : "false", has ? "true" : "false");
    rb = false;
    if (!strcmp(kind, "int")) {
        lg_u64("v", (uint64_t)parse_i64(k)); lg(",\"d\":\"x\"");
        if (has) CALL(rb = mpack_node_map_contains_int(n, parse_i64(k)));
        else if (opt) CALL(nd = mpack_node_map_int_optional(n, parse_i64(k)));
        else CALL(nd = mpack_node_map_int(n, parse_i64(k)));
    } else if (!strcmp(kind, "uint")) {
        lg_u64("v", parse_u64(k)); lg(",\"d\":\"x\"");
        if (has) CALL(rb = mpack_node_map_contains_uint(n, parse_u64(k)));
        else if (opt) CALL(nd = mpack_node_map_uint_optional(n, parse_u64(k)));
        else CALL(nd = mpack_node_map_uint(n, parse_u64(k)));
    } else if (!strcmp(kind, "cstr")) {
        b = parse_bytes_z(k);
        lg_u64("v", 0); lg_hex("d", b.p, b.n);
        if (has) CALL(rb = mpack_node_map_contains_cstr(n, (const char*)b.p));
        else if (opt) CALL(nd = mpack_node_map_cstr_optional(n, (const char*)b.p));
        else CALL(nd = mpack_node_map_cstr(n, (const char*)b.p));
    } else {
        b = parse_bytes(k);
        lg_u64("v", 0); lg_hex("d", b.p, b.n);
        if (has) CALL(rb = mpack_node_map_contains_str(n, (const char*)b.p, b.n));
        else if (opt) CALL(nd = mpack_node_map_str_optional(n, (const char*)b.p, b.n));
        else CALL(nd = mpack_node_map_str(n, (const char*)b.p, b.n));
    }
    lg(",\"r\":%s", rb ? "true" : "false");
    if (has) lg(",\"to\":0"); else { reg[to] = nd; lg_to(to); }
    return true;
}
static const char* keys[300]; static int nkeys;
static void parse_keys(char* s) {
    nkeys = 0;
    char* tok = s;
    lg(",\"keys\":[");
    while (tok && *tok) {
        char* c = strchr(tok, ',');
        char one[600]; size_t n = c ? (size_t)(c - tok) : strlen(tok);
        memcpy(one, tok, n); one[n] = 0;
        bytes_t b = parse_bytes_z(one);
        keys[nkeys++] = (const char*)b.p;
        lg("%s\"x", nkeys > 1 ? "," : "");
        for (size_t i = 0; i < b.n; i++) lg("%02x", b.p[i]);
        lg("\"");
        tok = c ? c + 1 : NULL;
    }
    lg("]");
}
static long off_of(const char* p) {       /* where in the caller's data, or -1 */
    return p && (const uint8_t*)p >= src && (const uint8_t*)p <= src + src_len ? (long)((const uint8_t*)p - src) : -1;
}

static bool do_op(line_t* l) {
    const char* a = l->argc > 1 ? l->argv[1] : "0";
    const char* b = l->argc > 2 ? l->argv[2] : "0";
    const char* c = l->argc > 3 ? l->argv[3] : "0";
    static bool parsed;
    if (OP("got")) {            /* what the last parse gave, if it gave a message */
        if (!parsed) return true;
        op = "root"; ev();
        CALL(nd = mpack_tree_root(&tr)); reg[rn(a)] = nd; lg_to(rn(a));
        end_event(mpack_tree_error(&tr));
        op = "dump";
    }
    ev();
    mpack_tag_t zero = MPACK_TAG_ZERO;
    if (OP("parse") || OP("try")) {
        prev_pos = -1; would_block = false; rb = false;
        if (OP("parse")) CALL(mpack_tree_parse(&tr)); else CALL(rb = mpack_tree_try_parse(&tr));
        parsed = mpack_tree_error(&tr) == mpack_ok && (rb || OP("parse"));
        lg(",\"r\":%s,\"av\":%d,\"pv\":%d,\"wb\":%s,\"size\":%d,\"pk\":%d", rb ? "true" : "false", (int)src_pos, (int)prev_pos,
                would_block ? "true" : "false", vi(mpack_tree_size(&tr)), vi(v_alloc_peak));
    }
    else if (OP("limits")) { size_t s = (size_t)parse_u64(a), n = (size_t)parse_u64(b);
        begin_call(); v_jumped = 0; mpack_tree_set_limits(&tr, s, n); lg(",\"maxs\":%d,\"maxn\":%d", vi(s), vi(n)); }
    else if (OP("root")) { CALL(nd = mpack_tree_root(&tr)); reg[rn(a)] = nd; lg_to(rn(a)); }
    else if (OP("aat") || OP("kat") || OP("vat")) {
        size_t i = (size_t)parse_u64(b);
        mpack_node_t n = reg[rn(a)];
        if (OP("aat")) CALL(nd = mpack_node_array_at(n, i));
        else if (OP("kat")) CALL(nd = mpack_node_map_key_at(n, i));
        else CALL(nd = mpack_node_map_value_at(n, i));
        reg[rn(c)] = nd;
        lg(",\"n\":%s,\"i\":%d", a, vi(i)); lg_to(rn(c));
    }
    else if (OP("look")) { if (!do_lookup(l)) return false; }
    else if (OP("dump")) {
        lg(",\"n\":%s,\"l\":[", a); dump_n = 0;
        begin_call(); v_jumped = 0;
        if (mpack_tree_error(&tr) == mpack_ok) dump(reg[rn(a)], 0);
        lg("]");
    }
    else if (OP("ntag")) { lg(",\"n\":%s", a); tg = zero; mpack_node_t n = reg[rn(a)]; CALL(tg = mpack_node_tag(n)); lg_tag("tag", tg); }
    else if (OP("ntype")) { lg(",\"n\":%s", a); mpack_node_t n = reg[rn(a)]; CALL(ty = mpack_node_type(n)); lg(",\"t\":\"%s\"", type_name(ty)); }
    else if (OP("isnil")) { lg(",\"n\":%s", a); mpack_node_t n = reg[rn(a)]; CALL(rb = mpack_node_is_nil(n)); lg(",\"r\":%s", rb ? "true" : "false"); }
    else if (OP("ismissing")) { lg(",\"n\":%s", a); mpack_node_t n = reg[rn(a)]; CALL(rb = mpack_node_is_missing(n)); lg(",\"r\":%s", rb ? "true" : "false"); }
    else if (OP("nnil")) { lg(",\"n\":%s", a); mpack_node_t n = reg[rn(a)]; CALL(mpack_node_nil(n)); }
    else if (OP("nmissing")) { lg(",\"n\":%s", a); mpack_node_t n = reg[rn(a)]; CALL(mpack_node_missing(n)); }
    else if (OP("ntrue")) { lg(",\"n\":%s", a); mpack_node_t n = reg[rn(a)]; CALL(mpack_node_true(n)); }
    else if (OP("nfalse")) { lg(",\"n\":%s", a); mpack_node_t n = reg[rn(a)]; CALL(mpack_node_false(n)); }
    else if (OP("nbool")) { lg(",\"n\":%s", a); rb = false; mpack_node_t n = reg[rn(a)]; CALL(rb = mpack_node_bool(n)); lg(",\"r\":%s", rb ? "true" : "false"); }
    else if (OP("nn")) { lg(",\"n\":%s", b); if (!do_num(a, reg[rn(b)])) return false; }
    else if (OP("nf")) { lg(",\"n\":%s", b); if (!do_real(a, reg[rn(b)])) return false; }
    #if MPACK_EXTENSIONS
    else if (OP("nts")) {
        lg(",\"n\":%s,\"fn\":\"%s\"", b, a); ts.seconds = 0; ts.nanoseconds = 0;
        mpack_node_t n = reg[rn(b)];
        if (!strcmp(a, "sec")) { CALL(ts.seconds = mpack_node_timestamp_seconds(n)); }
        else if (!strcmp(a, "nsec")) { CALL(ts.nanoseconds = mpack_node_timestamp_nanoseconds(n)); }
        else CALL(ts = mpack_node_timestamp(n));
        lg_u64("s", (uint64_t)ts.seconds); lg_u64("ns", ts.nanoseconds);
    }
    else if (OP("nx")) { lg(",\"n\":%s", a); rx = 0; mpack_node_t n = reg[rn(a)]; CALL(rx = mpack_node_exttype(n)); lg(",\"r\":%d", rx); }
    #endif
    else if (OP("nl")) {
        mpack_node_t n = reg[rn(b)]; rz = 0;
        lg(",\"n\":%s,\"fn\":\"%s\"", b, a);
        if (!strcmp(a, "bin_size")) CALL(rz = mpack_node_bin_size(n));
        else if (!strcmp(a, "data_len")) CALL(rz = mpack_node_data_len(n));
        else if (!strcmp(a, "strlen")) CALL(rz = mpack_node_strlen(n));
        else if (!strcmp(a, "array_length")) CALL(rz = mpack_node_array_length(n));
        else if (!strcmp(a, "map_count")) CALL(rz = mpack_node_map_count(n));
        else return unsupported();
        lg(",\"r\":%d", vi(rz));
    }
    else if (OP("nd")) {
        mpack_node_t n = reg[rn(b)]; rp = NULL;
        lg(",\"n\":%s,\"fn\":\"%s\"", b, a);
        if (!strcmp(a, "str")) CALL(rp = mpack_node_str(n));
        else if (!strcmp(a, "data")) CALL(rp = mpack_node_data(n));
        else if (!strcmp(a, "bin_data")) CALL(rp = mpack_node_bin_data(n));
        else return unsupported();
        lg(",\"null\":%s,\"off\":%d", rp ? "false" : "true", (int)off_of(rp));
        lg_hex("d", rp, rp && mpack_tree_error(&tr) == mpack_ok ? mpack_node_data_len(n) : 0);
    }
    else if (OP("nc")) {
        mpack_node_t n = reg[rn(b)];
        size_t cap = (size_t)parse_u64(c);
        rz = 0;
        lg(",\"n\":%s,\"fn\":\"%s\",\"cap\":%d", b, a, vi(cap));
        newbuf(cap);
        if (!strcmp(a, "data")) CALL(rz = mpack_node_copy_data(n, (char*)buf, cap));
        else if (!strcmp(a, "utf8")) CALL(rz = mpack_node_copy_utf8(n, (char*)buf, cap));
        else if (!strcmp(a, "cstr")) CALL(mpack_node_copy_cstr(n, (char*)buf, cap));
        else if (!strcmp(a, "utf8_cstr")) CALL(mpack_node_copy_utf8_cstr(n, (char*)buf, cap));
        else return unsupported();
        lg(",\"r\":%d", vi(rz));
        if (strstr(a, "cstr")) lg_cbuf();
        else { lg_hex("d", buf, rz <= cap ? rz : 0); lg(",\"z\":false"); }
    }
    #ifdef MPACK_MALLOC
    else if (OP("na")) {
        mpack_node_t n = reg[rn(b)];
        size_t mx = (size_t)parse_u64(c);
        rq = NULL;
        lg(",\"n\":%s,\"fn\":\"%s\",\"max\":%d", b, a, vi(mx));
        bool cs = strstr(a, "cstr") != NULL;
        if (!strcmp(a, "data")) CALL(rq = mpack_node_data_alloc(n, mx));
        else if (!strcmp(a, "cstr")) CALL(rq = mpack_node_cstr_alloc(n, mx));
        else if (!strcmp(a, "utf8_cstr")) CALL(rq = mpack_node_utf8_cstr_alloc(n, mx));
        else return unsupported();
        size_t got = live_size(rq), k = 0;
        if (cs) while (rq && k < got && rq[k]) k++;
        else if (rq && mpack_tree_error(&tr) == mpack_ok) { k = mpack_node_data_len(n); if (k > got) k = got; }
        lg(",\"null\":%s", rq ? "false" : "true"); lg_hex("d", rq, k);
        lg(",\"z\":%s", cs && rq && k < got ? "true" : "false");
        if (rq) MPACK_FREE(rq);
    }
    #endif
    else if (OP("nu")) {
        mpack_node_t n = reg[rn(b)];
        lg(",\"n\":%s,\"fn\":\"%s\"", b, a);
        if (!strcmp(a, "utf8")) CALL(mpack_node_check_utf8(n)); else CALL(mpack_node_check_utf8_cstr(n));
    }
    else if (OP("nenum") || OP("nenumopt")) {
        mpack_node_t n = reg[rn(a)];
        lg(",\"n\":%s", a);
        parse_keys(l->argv[2]); rz = (size_t)nkeys;
        if (OP("nenum")) CALL(rz = mpack_node_enum(n, keys, (size_t)nkeys)); else CALL(rz = mpack_node_enum_optional(n, keys, (size_t)nkeys));
        lg(",\"r\":%d", vi(rz));
    }
    else if (OP("flag")) { lg(",\"er\":\"%s\"", a); if (l->argc > 2) { mpack_node_t n = reg[rn(b)]; CALL(mpack_node_flag_error(n, parse_error(a))); } else CALL(mpack_tree_flag_error(&tr, parse_error(a))); }
    else return unsupported();
    end_event(mpack_tree_error(&tr));
    return true;
}

void run_tree(void) {
    const char* s = env_s("src", "data");
    const char* e0 = env_s("e0", "ok");
    bool eh = env_i("eh", 1) != 0;
    bytes_t data = parse_bytes(vprog[0].argv[1]);
    static uint8_t* copy; static FILE* f;
    src = data.p; src_len = data.n; src_pos = 0; f = NULL; copy = NULL;
    eos_told = false;
    src_lim = (size_t)env_i("failat", (long)src_len);
    if (src_lim > src_len) src_lim = src_len;
    const char* eos = env_s("eos", "0");
    eos_mode = !strcmp(eos, "0") ? 0 : !strcmp(eos, "-1") ? 1 : 2;
    eos_err = eos_mode == 2 ? parse_error(eos) : mpack_error_io;
    chunks_n = 0; chunk_i = 0;
    const char* q = env_s("ch", "1000000");
    while (*q && chunks_n < 64) { chunks[chunks_n++] = atoi(q); while (*q && *q != ',') q++; if (*q) q++; }
    size_t maxs = (size_t)strtoull(env_s("max", "2000000000"), NULL, 10), maxn = (size_t)strtoull(env_s("nodes", "2000000000"), NULL, 10);
    bool isfile = !strcmp(s, "file");
    const char* close_mode = env_s("close", "1"); (void)close_mode;

    op = "init";
    ev();
    if (strcmp(e0, "ok")) {
        CALL(mpack_tree_init_error(&tr, parse_error(e0)));
    } else if (!strcmp(s, "pool")) {
        size_t n = (size_t)env_i("pool", 1);
        mpack_node_data_t* pool = (mpack_node_data_t*)scratch(sizeof(mpack_node_data_t) * n);
        src_pos = src_len;
        CALL(mpack_tree_init_pool(&tr, (const char*)data.p, data.n, pool, n));
    }
    #ifdef MPACK_MALLOC
    else if (!strcmp(s, "data")) {
        src_pos = src_len;
        CALL(mpack_tree_init_data(&tr, (const char*)data.p, data.n));
    } else if (!strcmp(s, "stream")) {
        CALL(mpack_tree_init_stream(&tr, t_read, NULL, maxs, maxn));
    }
    #if MPACK_STDIO
    else if (isfile) {
        v_file.reading = true;
        v_file.data = (uint8_t*)malloc(src_len + 1); memcpy(v_file.data, src, src_len); v_file.len = src_len;
        unsigned long long fmax_ull = strtoull(env_s("fmax", "0"), NULL, 10);
        size_t fmax = fmax_ull > (size_t)-1 ? (size_t)-1 : (size_t)fmax_ull;
        if (!strcmp(close_mode, "name")) {
            v_fcx = v_fopen_fail || fmax > (size_t)LONG_MAX ? 0 : 1;
            CALL(mpack_tree_init_filename(&tr, "vh:in", fmax));
        } else {
            v_fcx = !strcmp(close_mode, "1");
            f = vfile_open();
            CALL(mpack_tree_init_stdfile(&tr, f, fmax, v_fcx != 0));
        }
        src_pos = src_len;
    }
    #endif
    #endif
    else { unsupported(); return; }
    if (strcmp(s, "stream") && (*env_s("max", "") || *env_s("nodes", ""))) mpack_tree_set_limits(&tr, maxs, maxn);
    copy = (uint8_t*)malloc(src_len + 1); memcpy(copy, src, src_len);
    if (env_i("td", 1) && !isfile) { v_tdx = 1; mpack_tree_set_teardown(&tr, t_teardown); }
    if (eh) mpack_tree_set_error_handler(&tr, t_error);
    lg(",\"pk\":%d", vi(v_alloc_peak));
    #if MPACK_STDIO
    lg(",\"fc\":%d,\"fcx\":%d", v_fc, v_fcx);          /* files are closed before the tree is used */
    #else
    lg(",\"fc\":0,\"fcx\":0");
    #endif
    end_event(mpack_tree_error(&tr));

    for (int i = 1; i < vprog_n; i++) {
        op = vprog[i].argv[0];
        if (!do_op(&vprog[i])) { (void)mpack_tree_destroy(&tr); free(copy); return; }
    }

    static mpack_error_t r;
    r = mpack_ok;
    op = "destroy";
    CALL(r = mpack_tree_destroy(&tr));
    if (v_jumped) {
        lg("{\"op\":\"destroyj\"");
        end_event(mpack_tree_error(&tr));
        CALL(r = mpack_tree_destroy(&tr));
    }
    ev();
    #if MPACK_STDIO
    if (isfile) { int fc = v_fc, sf = v_sf; if (f && v_fc == 0) fclose(f); v_fc = fc; v_sf = sf; }
    lg(",\"r\":\"%s\",\"fc\":%d,\"fcx\":%d", err_name(r), v_fc, v_fcx);
    #else
    lg(",\"r\":\"%s\",\"fc\":0,\"fcx\":0", err_name(r));
    #endif
    lg(",\"same\":%s", !memcmp(copy, src, src_len) ? "true" : "false");
    free(copy); copy = NULL;
    lg(",\"live\":%d,\"dbl\":%d,\"td\":%d,\"tdx\":%d", v_live, v_dbl, v_td, v_tdx);
    end_event(mpack_tree_error(&tr));
}
#else
void run_tree(void) { lg("{\"op\":\"unsupported\"}\n"); }
#endif
