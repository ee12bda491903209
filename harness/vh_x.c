/* What a writer program wrote, read back by every reading API. */
#include "vh.h"

#if MPACK_WRITER && MPACK_READER && MPACK_NODE

/* ---- a document: its objects in preorder ---- */
static sb_t cur;                       /* the list being read */
static bool sep_;
static void put(const char* s) { sb_add(&cur, s, strlen(s)); }
static void item(mpack_type_t t, uint64_t v, int x, const char* d, size_t n) {
    static const char hx[] = "0123456789abcdef";
    char b[128];
    snprintf(b, sizeof(b), "%s{\"t\":\"%s\",\"v\":\"x%016llx\",\"x\":%d,\"d\":\"x", sep_ ? "," : "", type_name(t), (unsigned long long)v, x);
    sep_ = true;
    put(b);
    for (size_t i = 0; i < n; i++) { char c[2] = { hx[((uint8_t)d[i]) >> 4], hx[((uint8_t)d[i]) & 15] }; sb_add(&cur, c, 2); }
    put("\"}");
}
static uint64_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint64_t tag_v(mpack_tag_t t) {
    switch (mpack_tag_type(&t)) {
        case mpack_type_bool: return mpack_tag_bool_value(&t) ? 1 : 0;
        case mpack_type_int: return (uint64_t)mpack_tag_int_value(&t);
        case mpack_type_uint: return mpack_tag_uint_value(&t);
        #if MPACK_FLOAT
        case mpack_type_float: return fbits(mpack_tag_float_value(&t));
        #else
        case mpack_type_float: return mpack_tag_raw_float_value(&t);
        #endif
        #if MPACK_DOUBLE
        case mpack_type_double: return dbits(mpack_tag_double_value(&t));
        #else
        case mpack_type_double: return mpack_tag_raw_double_value(&t);
        #endif
        case mpack_type_str: return mpack_tag_str_length(&t);
        case mpack_type_bin: return mpack_tag_bin_length(&t);
        case mpack_type_array: return mpack_tag_array_count(&t);
        case mpack_type_map: return mpack_tag_map_count(&t);
        #if MPACK_EXTENSIONS
        case mpack_type_ext: return mpack_tag_ext_length(&t);
        #endif
        default: return 0;
    }
}
static int tag_x(mpack_tag_t t) {
    #if MPACK_EXTENSIONS
    if (mpack_tag_type(&t) == mpack_type_ext) return mpack_tag_ext_exttype(&t);
    #endif
    (void)t; return 0;
}

/* ---- distinct outcomes ---- */
static char* lists[32]; static int lists_n;
static char* copies[32]; static int copies_n;
static void add(char** l, int* n, const char* s) {
    for (int i = 0; i < *n; i++) if (!strcmp(l[i], s)) return;
    if (*n < 32) { l[*n] = strdup(s); (*n)++; }
}
static void start_list(void) { cur.n = 0; sep_ = false; put("["); }
static void end_list(mpack_error_t e) {
    put("]");
    if (e != mpack_ok) { cur.n = 0; put("[{\"t\":\"error "); put(err_name(e)); put("\",\"v\":\"x0000000000000000\",\"x\":0,\"d\":\"x\"}]"); }
    add(lists, &lists_n, cur.p);
}

/* ---- readers ---- */
static const char* ch_pat; static const char* ch_p; static size_t src_pos;
static size_t next_chunk(void) {
    if (!*ch_p) ch_p = ch_pat;
    char* end; size_t n = strtoul(ch_p, &end, 10);
    ch_p = *end == ',' ? end + 1 : end;
    return n ? n : 1;
}
static size_t x_fill(mpack_reader_t* r, char* buf, size_t n) {
    (void)r;
    size_t c = next_chunk(), left = vx_out.n - src_pos;
    if (n > c) n = c;
    if (n > left) n = left;
    memcpy(buf, vx_out.p + src_pos, n);
    src_pos += n;
    return n;
}
static void x_skip(mpack_reader_t* r, size_t n) {
    if (n > vx_out.n - src_pos) { src_pos = vx_out.n; mpack_reader_flag_error(r, mpack_error_io); } else src_pos += n;
}
static char* tmp; static size_t tmp_cap;
static char* room(size_t n) {
    free(tmp);
    tmp_cap = n;
    return tmp = (char*)malloc(n);
}
static mpack_writer_t* cw;             /* re-encodes what is read, or NULL */
static int roll;                       /* varies the call used */

static void x_bytes(mpack_reader_t* r, mpack_type_t t, uint32_t n, int x) {
    char* b = room(n);
    if (++roll % 3 == 0 && n > 1) { mpack_read_bytes(r, b, n / 2); mpack_read_bytes(r, b + n / 2, n - n / 2); }
    else mpack_read_bytes(r, b, n);
    if (mpack_reader_error(r) != mpack_ok) return;
    item(t, n, x, b, n);
    if (cw) { mpack_write_bytes(cw, b, n); mpack_finish_type(cw, t); }
}
static void x_tags(mpack_reader_t* r, int depth) {
    mpack_tag_t t = mpack_read_tag(r);
    if (mpack_reader_error(r) != mpack_ok || depth > 300) return;
    mpack_type_t k = mpack_tag_type(&t);
    if (cw) mpack_write_tag(cw, t);
    switch (k) {
        case mpack_type_str: case mpack_type_bin:
        #if MPACK_EXTENSIONS
        case mpack_type_ext:
        #endif
            x_bytes(r, k, mpack_tag_bytes(&t), tag_x(t));
            mpack_done_type(r, k);
            return;
        case mpack_type_array: case mpack_type_map: {
            item(k, tag_v(t), 0, "", 0);
            uint64_t n = k == mpack_type_map ? 2 * (uint64_t)mpack_tag_map_count(&t) : mpack_tag_array_count(&t);
            for (; n && mpack_reader_error(r) == mpack_ok; n--) x_tags(r, depth + 1);
            mpack_done_type(r, k);
            if (cw) mpack_finish_type(cw, k);
            return; }
        default: item(k, tag_v(t), tag_x(t), "", 0);
    }
}
#if MPACK_EXPECT
static void x_typed(mpack_reader_t* r, int depth) {
    mpack_tag_t t = mpack_peek_tag(r);
    if (mpack_reader_error(r) != mpack_ok || depth > 300) return;
    mpack_type_t k = mpack_tag_type(&t);
    uint64_t v = 0; uint32_t n = tag_v(t) > 0xffffffffu ? 0 : (uint32_t)tag_v(t);
    roll++;
    switch (k) {
        case mpack_type_nil: mpack_expect_nil(r); item(k, 0, 0, "", 0); return;
        case mpack_type_bool: v = mpack_expect_bool(r) ? 1 : 0; item(k, v, 0, "", 0); return;
        case mpack_type_uint:
            v = tag_v(t);
            if (v < 256 && roll % 3) v = mpack_expect_u8(r);
            else if (v < 65536 && roll % 3) v = mpack_expect_u16(r);
            else if (v < 0x100000000ull && roll % 3) v = mpack_expect_u32(r);
            else if (v >> 63 || roll % 2) v = mpack_expect_u64(r);
            else v = (uint64_t)mpack_expect_i64(r);
            item(k, v, 0, "", 0); return;
        case mpack_type_int: {
            int64_t s = (int64_t)tag_v(t);
            if (s >= -128 && s < 128 && roll % 3) s = mpack_expect_i8(r);
            else if (s >= -32768 && s < 32768 && roll % 3) s = mpack_expect_i16(r);
            else if (s >= -2147483648ll && s < 2147483648ll && roll % 3) s = mpack_expect_i32(r);
            else s = mpack_expect_i64(r);
            item(k, (uint64_t)s, 0, "", 0); return; }
        case mpack_type_float:
            #if MPACK_FLOAT
            v = fbits(mpack_expect_float_strict(r));
            #else
            v = mpack_expect_raw_float(r);
            #endif
            item(k, v, 0, "", 0); return;
        case mpack_type_double:
            #if MPACK_DOUBLE
            v = dbits(mpack_expect_double_strict(r));
            #else
            v = mpack_expect_raw_double(r);
            #endif
            item(k, v, 0, "", 0); return;
        case mpack_type_str: {
            char* b = room(n);
            if (roll % 4 == 0) { n = (uint32_t)mpack_expect_str_buf(r, b, n); item(k, n, 0, b, n); return; }
            if (roll % 4 == 1) { uint32_t m = mpack_expect_str_max(r, n); mpack_read_bytes(r, b, n); mpack_done_str(r); item(k, m, 0, b, n); return; }
            n = mpack_expect_str(r); mpack_read_bytes(r, b, n); mpack_done_str(r); item(k, n, 0, b, n); return; }
        case mpack_type_bin: {
            char* b = room(n);
            if (roll % 3 == 0) { n = (uint32_t)mpack_expect_bin_buf(r, b, n); item(k, n, 0, b, n); return; }
            if (roll % 3 == 1) { mpack_expect_bin_size_buf(r, b, n); item(k, n, 0, b, n); return; }
            n = mpack_expect_bin(r); mpack_read_bytes(r, b, n); mpack_done_bin(r); item(k, n, 0, b, n); return; }
        #if MPACK_EXTENSIONS
        case mpack_type_ext: {
            char* b = room(n); int8_t x = 99;
            if (roll % 2) { n = (uint32_t)mpack_expect_ext_buf(r, &x, b, n); item(k, n, x, b, n); return; }
            n = mpack_expect_ext(r, &x); mpack_read_bytes(r, b, n); mpack_done_ext(r); item(k, n, x, b, n); return; }
        #endif
        case mpack_type_array:
            if (roll % 2) n = mpack_expect_array(r); else n = mpack_expect_array_range(r, n, n);
            item(k, n, 0, "", 0);
            for (uint32_t i = 0; i < n && mpack_reader_error(r) == mpack_ok; i++) x_typed(r, depth + 1);
            mpack_done_array(r);
            return;
        case mpack_type_map: {
            uint32_t c = n;
            if (roll % 3 == 0) n = mpack_expect_map(r); else if (roll % 3 == 1) n = mpack_expect_map_max(r, n); else { c = 0; if (!mpack_expect_map_or_nil(r, &c)) c = 0; n = c; }
            item(k, n, 0, "", 0);
            for (uint32_t i = 0; i < n && mpack_reader_error(r) == mpack_ok; i++) { x_typed(r, depth + 1); x_typed(r, depth + 1); }
            mpack_done_map(r);
            return; }
        default: mpack_discard(r); item(k, 0, 0, "", 0);
    }
}
#endif
static int objects;                    /* how many objects there are at the top, -1: count them */
typedef void (*read_fn)(mpack_reader_t*, int);
static void read_all(mpack_reader_t* r, read_fn f) {
    start_list();
    if (objects < 0) {
        objects = 0;
        while (mpack_reader_error(r) == mpack_ok && mpack_reader_remaining(r, NULL) > 0) { f(r, 0); objects++; }
    } else for (int i = 0; i < objects && mpack_reader_error(r) == mpack_ok; i++) f(r, 0);
    end_list(mpack_reader_destroy(r));
}
static void by_readers(read_fn f) {
    mpack_reader_t r;
    mpack_reader_init_data(&r, vx_out.p, vx_out.n);
    read_all(&r, f);
    static const char* pats[] = { "1", "3,1,7", "1000000" };
    static const size_t bufs[] = { 32, 37, 300 };
    for (int i = 0; i < 3; i++) {
        ch_pat = ch_p = pats[i]; src_pos = 0;
        char* buf = (char*)malloc(bufs[i]);
        mpack_reader_init(&r, buf, bufs[i], 0);
        mpack_reader_set_fill(&r, x_fill);
        if (i) mpack_reader_set_skip(&r, x_skip);
        read_all(&r, f);
        free(buf);
    }
    #if MPACK_STDIO && defined(MPACK_MALLOC)
    free(v_file.data); memset(&v_file, 0, sizeof(v_file));
    v_file.reading = true; v_file.seekable = true; v_file.fail_at = -1;
    v_file.data = (uint8_t*)malloc(vx_out.n + 1); memcpy(v_file.data, vx_out.p, vx_out.n); v_file.len = vx_out.n;
    mpack_reader_init_filename(&r, "vh:in");
    read_all(&r, f);
    #endif
}

/* ---- trees ---- */
static void x_node(mpack_node_t n, int depth) {
    mpack_tag_t t = mpack_node_tag(n);
    mpack_type_t k = mpack_node_type(n);
    if (depth > 300) return;
    switch (k) {
        case mpack_type_str: item(k, mpack_node_strlen(n), 0, mpack_node_str(n), mpack_node_strlen(n)); return;
        case mpack_type_bin: item(k, mpack_node_bin_size(n), 0, mpack_node_bin_data(n), mpack_node_bin_size(n)); return;
        #if MPACK_EXTENSIONS
        case mpack_type_ext: item(k, mpack_node_data_len(n), mpack_node_exttype(n), mpack_node_data(n), mpack_node_data_len(n)); return;
        #endif
        case mpack_type_array:
            item(k, mpack_node_array_length(n), 0, "", 0);
            for (size_t i = 0; i < mpack_node_array_length(n); i++) x_node(mpack_node_array_at(n, i), depth + 1);
            return;
        case mpack_type_map:
            item(k, mpack_node_map_count(n), 0, "", 0);
            for (size_t i = 0; i < mpack_node_map_count(n); i++) { x_node(mpack_node_map_key_at(n, i), depth + 1); x_node(mpack_node_map_value_at(n, i), depth + 1); }
            return;
        default: item(k, tag_v(t), tag_x(t), "", 0);
    }
}
static mpack_error_t x_trees(mpack_tree_t* t) {
    for (int i = 0; i < objects; i++) {
        mpack_tree_parse(t);
        if (mpack_tree_error(t) != mpack_ok) break;
        x_node(mpack_tree_root(t), 0);
    }
    return mpack_tree_error(t);
}
static size_t x_read(mpack_tree_t* t, char* buf, size_t n) {
    (void)t;
    return x_fill(NULL, buf, n);
}
static void by_trees(void) {
    mpack_tree_t t; mpack_error_t e;
    size_t pool = vx_out.n + 1;
    mpack_node_data_t* nodes = (mpack_node_data_t*)malloc(sizeof(*nodes) * pool);
    mpack_tree_init_pool(&t, vx_out.p, vx_out.n, nodes, pool);
    start_list(); e = x_trees(&t); end_list(e != mpack_ok ? e : mpack_tree_destroy(&t));
    free(nodes);
    #ifdef MPACK_MALLOC
    mpack_tree_init_data(&t, vx_out.p, vx_out.n);
    start_list(); x_trees(&t); end_list(mpack_tree_destroy(&t));
    static const char* pats[] = { "1", "3,1,7", "1000000" };
    for (int i = 0; i < 3; i++) {
        ch_pat = ch_p = pats[i]; src_pos = 0;
        mpack_tree_init_stream(&t, x_read, NULL, 1000000, 1000000);
        start_list(); x_trees(&t); end_list(mpack_tree_destroy(&t));
    }
    #if MPACK_STDIO
    if (vx_out.n) {
        free(v_file.data); memset(&v_file, 0, sizeof(v_file));
        v_file.reading = true; v_file.seekable = true; v_file.fail_at = -1;
        v_file.data = (uint8_t*)malloc(vx_out.n + 1); memcpy(v_file.data, vx_out.p, vx_out.n); v_file.len = vx_out.n;
        mpack_tree_init_filename(&t, "vh:in", 0);
        start_list(); x_trees(&t); end_list(mpack_tree_destroy(&t));
    }
    #endif
    #endif
}

static void copy(void) {
    mpack_writer_t cwr; mpack_reader_t r;
    size_t cap = vx_out.n + 9;
    char* buf = (char*)malloc(cap);
    mpack_writer_init(&cwr, buf, cap);
    #if MPACK_COMPATIBILITY
    for (int i = 0; i < vprog_n; i++) if (!strcmp(vprog[i].argv[0], "version")) mpack_writer_set_version(&cwr, (mpack_version_t)atoi(vprog[i].argv[1]));
    #endif
    cw = &cwr;
    mpack_reader_init_data(&r, vx_out.p, vx_out.n);
    start_list();
    while (mpack_reader_error(&r) == mpack_ok && mpack_reader_remaining(&r, NULL) > 0) x_tags(&r, 0);
    cw = NULL;
    mpack_reader_destroy(&r);
    size_t n = mpack_writer_buffer_used(&cwr);
    mpack_error_t e = mpack_writer_destroy(&cwr);
    sb_t s = { NULL, 0, 0 };
    static const char hx[] = "0123456789abcdef";
    sb_add(&s, "x", 1);
    if (e == mpack_ok) for (size_t i = 0; i < n; i++) { char c[2] = { hx[((uint8_t)buf[i]) >> 4], hx[((uint8_t)buf[i]) & 15] }; sb_add(&s, c, 2); }
    else sb_add(&s, "ff", 2);
    add(copies, &copies_n, s.p);
    free(s.p); free(buf);
}

void run_reread(void) {
    for (int i = 0; i < lists_n; i++) free(lists[i]);
    for (int i = 0; i < copies_n; i++) free(copies[i]);
    lists_n = copies_n = 0; roll = 0; cw = NULL;
    vx_ok = false;
    run_writer();
    if (!vx_ok) return;
    begin_call(); v_jumped = 0;
    if (!vx_out.p) sb_add(&vx_out, "", 0);
    char* own = (char*)malloc(vx_out.n);          /* exact, for the sanitizer */
    memcpy(own, vx_out.p, vx_out.n);
    sb_t keep = vx_out; vx_out.p = own;
    objects = -1;
    by_readers(x_tags);
    #if MPACK_EXPECT
    by_readers(x_typed);
    #endif
    by_trees();
    copy();
    vx_out = keep; free(own);
    lg("{\"op\":\"reread\",\"lists\":[");
    for (int i = 0; i < lists_n; i++) { if (i) lg(","); sb_add(&vlog, lists[i], strlen(lists[i])); }
    lg("],\"copies\":[");
    for (int i = 0; i < copies_n; i++) { lg(i ? ",\"" : "\""); sb_add(&vlog, copies[i], strlen(copies[i])); lg("\""); }
    lg("],\"live\":%d", v_live);
    end_event(mpack_ok);
}
#else
void run_reread(void) { lg("{\"op\":\"unsupported\"}\n"); }
#endif
