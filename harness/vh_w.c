/* Writer programs. */
#include "vh.h"
sb_t vx_out; bool vx_ok;      /* what the last writer program wrote */
#if MPACK_WRITER

static mpack_writer_t w;
static sb_t sink_out;           /* what the flush function received */
static int flush_calls, flush_fail_at; static mpack_error_t flush_err;
static char* grow_data; static size_t grow_size;
static char* fixed_buf; static size_t fixed_cap;

static void w_error(mpack_writer_t* writer, mpack_error_t err) { (void)writer; on_error_cb((int)err); }
static void w_teardown(mpack_writer_t* writer) { (void)writer; vh_yield(); v_td++; }
static void w_flush(mpack_writer_t* writer, const char* p, size_t n) {
    vh_yield();
    if (mpack_writer_error(writer) != mpack_ok) v_fae++;
    if (++flush_calls == flush_fail_at) {
        v_sf = 1; v_se = flush_err;
        sb_add(&sink_out, p, n / 2);
        mpack_writer_flag_error(writer, flush_err);
        return;
    }
    sb_add(&sink_out, p, n);
}

#define OP(name) (!strcmp(op, name))
static const char* op;
static void ev(void) { lg("{\"op\":\"%s\"", op); }
static void ev_v(uint64_t v) { lg_u64("v", v); }
static bool unsupported(void) {
    while (vlog.n && vlog.p[vlog.n - 1] != '\n') vlog.n--;
    lg("{\"op\":\"unsupported\"}\n");
    return false;
}

#if !MPACK_FLOAT || !MPACK_DOUBLE
#define VH_NOREAL 1
#endif
typedef union { uint32_t u; float f; } fu_t;
typedef union { uint64_t u; double d; } du_t;

#if MPACK_HAS_GENERIC || defined(__cplusplus)
#define VH_GEN 1
#else
#define VH_GEN 0
#endif

/* generic write; key NULL for a plain value */
static bool do_gen(const char* key, const char* k, const char* val) {
#if VH_GEN
    lg(",\"k\":\"%s\"", !strcmp(k, "mcstr") ? "cstr" : k);
    #define G(T, x) do { T gv = (T)(x); if (key) CALL(mpack_write_kv(&w, key, gv)); else CALL(mpack_write(&w, gv)); } while (0)
    if (!strcmp(k, "cstr") || !strcmp(k, "mcstr")) {
        bytes_t b = parse_bytes_z(val);
        lg(",\"null\":%s", b.null ? "true" : "false");
        lg_hex("d", b.p, b.n);
        if (k[0] == 'm') G(char*, b.null ? NULL : (char*)b.p);
        else G(const char*, b.null ? NULL : (const char*)b.p);
        return true;
    }
    if (!strcmp(k, "float")) {
        #if MPACK_FLOAT
        fu_t x; x.u = (uint32_t)parse_u64(val);
        ev_v(x.u); G(float, x.f);
        return true;
        #else
        return unsupported();
        #endif
    }
    if (!strcmp(k, "double")) {
        #if MPACK_DOUBLE
        du_t x; x.u = parse_u64(val);
        ev_v(x.u); G(double, x.d);
        return true;
        #else
        return unsupported();
        #endif
    }
    uint64_t v = parse_u64(val);
    ev_v(v);
    if (!strcmp(k, "u8")) G(uint8_t, v);
    else if (!strcmp(k, "u16")) G(uint16_t, v);
    else if (!strcmp(k, "u32")) G(uint32_t, v);
    else if (!strcmp(k, "u64")) G(uint64_t, v);
    else if (!strcmp(k, "i8")) G(int8_t, v);
    else if (!strcmp(k, "i16")) G(int16_t, v);
    else if (!strcmp(k, "i32")) G(int32_t, v);
    else if (!strcmp(k, "i64")) G(int64_t, v);
    else if (!strcmp(k, "bool")) G(bool, v);
    else { fprintf(stderr, "bad generic %s\n", k); exit(3); }
    return true;
#else
    (void)key; (void)k; (void)val;
    return unsupported();
#endif
}

static bool do_op(line_t* l) {
    const char* a = l->argc > 1 ? l->argv[1] : "";
    const char* b = l->argc > 2 ? l->argv[2] : "";
    ev();
    if (OP("u8"))  { ev_v((uint8_t)parse_u64(a));  CALL(mpack_write_u8(&w, (uint8_t)parse_u64(a))); }
    else if (OP("u16")) { ev_v((uint16_t)parse_u64(a)); CALL(mpack_write_u16(&w, (uint16_t)parse_u64(a))); }
    else if (OP("u32")) { ev_v((uint32_t)parse_u64(a)); CALL(mpack_write_u32(&w, (uint32_t)parse_u64(a))); }
    else if (OP("u64")) { ev_v(parse_u64(a)); CALL(mpack_write_u64(&w, parse_u64(a))); }
    else if (OP("uint")) { ev_v(parse_u64(a)); CALL(mpack_write_uint(&w, parse_u64(a))); }
    else if (OP("i8"))  { ev_v((uint64_t)(int64_t)(int8_t)parse_i64(a));  CALL(mpack_write_i8(&w, (int8_t)parse_i64(a))); }
    else if (OP("i16")) { ev_v((uint64_t)(int64_t)(int16_t)parse_i64(a)); CALL(mpack_write_i16(&w, (int16_t)parse_i64(a))); }
    else if (OP("i32")) { ev_v((uint64_t)(int64_t)(int32_t)parse_i64(a)); CALL(mpack_write_i32(&w, (int32_t)parse_i64(a))); }
    else if (OP("i64")) { ev_v((uint64_t)parse_i64(a)); CALL(mpack_write_i64(&w, parse_i64(a))); }
    else if (OP("int")) { ev_v((uint64_t)parse_i64(a)); CALL(mpack_write_int(&w, parse_i64(a))); }
    else if (OP("bool")) { bool v = parse_u64(a) != 0; ev_v(v); CALL(mpack_write_bool(&w, v)); }
    else if (OP("true")) CALL(mpack_write_true(&w));
    else if (OP("false")) CALL(mpack_write_false(&w));
    else if (OP("nil")) CALL(mpack_write_nil(&w));
    else if (OP("repnil")) { int n = (int)parse_i64(a); lg(",\"n\":%d", n); CALL(for (volatile int i = 0; i < n; i++) mpack_write_nil(&w)); }
    else if (OP("float")) {
        fu_t x; x.u = (uint32_t)parse_u64(a); ev_v(x.u);
        #if MPACK_FLOAT
        CALL(mpack_write_float(&w, x.f));
        #else
        CALL(mpack_write_raw_float(&w, x.u));
        #endif
    }
    else if (OP("double")) {
        du_t x; x.u = parse_u64(a); ev_v(x.u);
        #if MPACK_DOUBLE
        CALL(mpack_write_double(&w, x.d));
        #else
        CALL(mpack_write_raw_double(&w, x.u));
        #endif
    }
    else if (OP("objbytes")) { bytes_t d = parse_bytes(a); lg_hex("d", d.p, d.n); CALL(mpack_write_object_bytes(&w, (const char*)d.p, d.n)); }
    else if (OP("str"))  { bytes_t d = parse_bytes(a); lg_hex("d", d.p, d.n); CALL(mpack_write_str(&w, (const char*)d.p, (uint32_t)d.n)); }
    else if (OP("utf8")) { bytes_t d = parse_bytes(a); lg_hex("d", d.p, d.n); CALL(mpack_write_utf8(&w, (const char*)d.p, (uint32_t)d.n)); }
    else if (OP("bin"))  { bytes_t d = parse_bytes(a); lg_hex("d", d.p, d.n); CALL(mpack_write_bin(&w, (const char*)d.p, (uint32_t)d.n)); }
    else if (OP("bytes")) { bytes_t d = parse_bytes(a); lg_hex("d", d.p, d.n); CALL(mpack_write_bytes(&w, (const char*)d.p, d.n)); }
    else if (OP("cstr"))  { bytes_t d = parse_bytes_z(a); lg_hex("d", d.p, d.n); CALL(mpack_write_cstr(&w, (const char*)d.p)); }
    else if (OP("utf8cstr"))  { bytes_t d = parse_bytes_z(a); lg_hex("d", d.p, d.n); CALL(mpack_write_utf8_cstr(&w, (const char*)d.p)); }
    else if (OP("cstrnil"))  { bytes_t d = parse_bytes_z(a); lg(",\"null\":%s", d.null ? "true" : "false"); lg_hex("d", d.p, d.n);
        CALL(mpack_write_cstr_or_nil(&w, d.null ? NULL : (const char*)d.p)); }
    else if (OP("utf8cstrnil"))  { bytes_t d = parse_bytes_z(a); lg(",\"null\":%s", d.null ? "true" : "false"); lg_hex("d", d.p, d.n);
        CALL(mpack_write_utf8_cstr_or_nil(&w, d.null ? NULL : (const char*)d.p)); }
    else if (OP("sarr")) { uint32_t n = (uint32_t)parse_u64(a); uint8_t q[4] = {(uint8_t)(n>>24),(uint8_t)(n>>16),(uint8_t)(n>>8),(uint8_t)n}; lg_hex("n", q, 4); CALL(mpack_start_array(&w, n)); }
    else if (OP("smap")) { uint32_t n = (uint32_t)parse_u64(a); uint8_t q[4] = {(uint8_t)(n>>24),(uint8_t)(n>>16),(uint8_t)(n>>8),(uint8_t)n}; lg_hex("n", q, 4); CALL(mpack_start_map(&w, n)); }
    else if (OP("sstr")) { uint32_t n = (uint32_t)parse_u64(a); uint8_t q[4] = {(uint8_t)(n>>24),(uint8_t)(n>>16),(uint8_t)(n>>8),(uint8_t)n}; lg_hex("n", q, 4); CALL(mpack_start_str(&w, n)); }
    else if (OP("sbin")) { uint32_t n = (uint32_t)parse_u64(a); uint8_t q[4] = {(uint8_t)(n>>24),(uint8_t)(n>>16),(uint8_t)(n>>8),(uint8_t)n}; lg_hex("n", q, 4); CALL(mpack_start_bin(&w, n)); }
    #if MPACK_EXTENSIONS
    else if (OP("ext"))  { int x = (int)parse_i64(a); bytes_t d = parse_bytes(b); lg(",\"x\":%d", x); lg_hex("d", d.p, d.n);
        CALL(mpack_write_ext(&w, (int8_t)x, (const char*)d.p, (uint32_t)d.n)); }
    else if (OP("sext")) { int x = (int)parse_i64(a); uint32_t n = (uint32_t)parse_u64(b);
        uint8_t q[4] = {(uint8_t)(n>>24),(uint8_t)(n>>16),(uint8_t)(n>>8),(uint8_t)n}; lg(",\"x\":%d", x); lg_hex("n", q, 4);
        CALL(mpack_start_ext(&w, (int8_t)x, n)); }
    else if (OP("ts")) { int64_t s = parse_i64(a); uint32_t ns = (uint32_t)parse_u64(b);
        const char* how = l->argc > 3 ? l->argv[3] : "";
        lg_u64("s", (uint64_t)s); uint8_t q[4] = {(uint8_t)(ns>>24),(uint8_t)(ns>>16),(uint8_t)(ns>>8),(uint8_t)ns}; lg_hex("ns", q, 4);
        if (!strcmp(how, "sec") && ns == 0) CALL(mpack_write_timestamp_seconds(&w, s));
        else if (!strcmp(how, "struct")) { mpack_timestamp_t t; t.seconds = s; t.nanoseconds = ns; CALL(mpack_write_timestamp_struct(&w, t)); }
        else CALL(mpack_write_timestamp(&w, s, ns)); }
    #endif
    else if (OP("tag")) {
        const char* t = a; const char* v = b; int x = l->argc > 3 ? (int)parse_i64(l->argv[3]) : 0; (void)x;
        mpack_tag_t tag = MPACK_TAG_ZERO;
        if (!strcmp(t, "nil")) tag = mpack_tag_make_nil();
        else if (!strcmp(t, "bool")) tag = mpack_tag_make_bool(parse_u64(v) != 0);
        else if (!strcmp(t, "int")) tag = mpack_tag_make_int(parse_i64(v));
        else if (!strcmp(t, "uint")) tag = mpack_tag_make_uint(parse_u64(v));
        else if (!strcmp(t, "float")) { fu_t f; f.u = (uint32_t)parse_u64(v);
            #if MPACK_FLOAT
            tag = mpack_tag_make_float(f.f);
            #else
            tag = mpack_tag_make_raw_float(f.u);
            #endif
        } else if (!strcmp(t, "double")) { du_t f; f.u = parse_u64(v);
            #if MPACK_DOUBLE
            tag = mpack_tag_make_double(f.d);
            #else
            tag = mpack_tag_make_raw_double(f.u);
            #endif
        } else if (!strcmp(t, "str")) tag = mpack_tag_make_str((uint32_t)parse_u64(v));
        else if (!strcmp(t, "bin")) tag = mpack_tag_make_bin((uint32_t)parse_u64(v));
        else if (!strcmp(t, "array")) tag = mpack_tag_make_array((uint32_t)parse_u64(v));
        else if (!strcmp(t, "map")) tag = mpack_tag_make_map((uint32_t)parse_u64(v));
        #if MPACK_EXTENSIONS
        else if (!strcmp(t, "ext")) tag = mpack_tag_make_ext((int8_t)x, (uint32_t)parse_u64(v));
        #endif
        lg_tag("tag", tag);
        CALL(mpack_write_tag(&w, tag));
    }
    else if (OP("gen")) { if (!do_gen(NULL, a, b)) return false; }
    else if (OP("kv")) { bytes_t k = parse_bytes_z(a); lg_hex("key", k.p, k.n);
        if (!do_gen((const char*)k.p, b, l->argc > 3 ? l->argv[3] : "")) return false; }
    else if (OP("fin")) {
        lg(",\"t\":\"%s\"", a);
        mpack_type_t t = parse_type(a);
        if (!strcmp(b, "type")) CALL(mpack_finish_type(&w, t));
        else if (t == mpack_type_array) CALL(mpack_finish_array(&w));
        else if (t == mpack_type_map) CALL(mpack_finish_map(&w));
        else if (t == mpack_type_str) CALL(mpack_finish_str(&w));
        else if (t == mpack_type_bin) CALL(mpack_finish_bin(&w));
        #if MPACK_EXTENSIONS
        else CALL(mpack_finish_ext(&w));
        #endif
    }
    #if MPACK_BUILDER
    else if (OP("barr")) CALL(mpack_build_array(&w));
    else if (OP("bmap")) CALL(mpack_build_map(&w));
    else if (OP("carr")) CALL(mpack_complete_array(&w));
    else if (OP("cmap")) CALL(mpack_complete_map(&w));
    #endif
    else if (OP("flushmsg")) CALL(mpack_writer_flush_message(&w));
    #if MPACK_COMPATIBILITY
    else if (OP("version")) { lg(",\"ver\":%d", (int)parse_i64(a)); CALL(mpack_writer_set_version(&w, (mpack_version_t)parse_i64(a))); }
    #endif
    else if (OP("flag")) { lg(",\"er\":\"%s\"", a); CALL(mpack_writer_flag_error(&w, parse_error(a))); }
    else if (OP("query")) {
        begin_call(); v_jumped = 0;
        lg(",\"used\":%d,\"left\":%d,\"size\":%d", (int)mpack_writer_buffer_used(&w), (int)mpack_writer_buffer_left(&w), (int)mpack_writer_buffer_size(&w));
    }
    else return unsupported();
    end_event(mpack_writer_error(&w));
    return true;
}

void run_writer(void) {
    const char* sink = env_s("sink", "fixed");
    const char* e0 = env_s("e0", "ok");
    bool eh = env_i("eh", 1) != 0;
    sink_out.n = 0; flush_calls = 0;
    flush_fail_at = (int)env_i("ferr", 0); flush_err = parse_error(env_s("fer", "io"));
    grow_data = NULL; grow_size = 0; fixed_buf = NULL; fixed_cap = 0;
    bool is_file = !strcmp(sink, "file"), is_grow = !strcmp(sink, "grow"), is_flush = !strcmp(sink, "flush");
    const char* fclose_mode = env_s("close", "1"); (void)fclose_mode;
    #if MPACK_STDIO
    FILE* volatile f = NULL;
    #endif
    (void)is_file;

    op = "init";
    ev();
    if (strcmp(e0, "ok")) {
        CALL(mpack_writer_init_error(&w, parse_error(e0)));
    } else if (is_grow) {
        #ifdef MPACK_MALLOC
        grow_data = (char*)1; grow_size = 77;
        CALL(mpack_writer_init_growable(&w, &grow_data, &grow_size));
        #else
        unsupported(); return;
        #endif
    } else if (is_file) {
        #if MPACK_STDIO
        v_file.reading = false;
        if (!strcmp(fclose_mode, "name")) {
            v_fcx = v_fopen_fail ? 0 : 1;
            CALL(mpack_writer_init_filename(&w, "vh:out"));
        } else {
            v_fcx = !strcmp(fclose_mode, "1");
            f = vfile_open();
            CALL(mpack_writer_init_stdfile(&w, f, v_fcx != 0));
        }
        #else
        unsupported(); return;
        #endif
    } else {
        fixed_cap = (size_t)env_i("cap", 64);
        fixed_buf = (char*)scratch(fixed_cap);
        memset(fixed_buf, 0xee, fixed_cap);
        CALL(mpack_writer_init(&w, fixed_buf, fixed_cap));
        if (is_flush) mpack_writer_set_flush(&w, w_flush);
    }
    if (env_i("td", 1) && !is_grow && !is_file) { v_tdx = 1; mpack_writer_set_teardown(&w, w_teardown); }
    if (eh) mpack_writer_set_error_handler(&w, w_error);
    end_event(mpack_writer_error(&w));

    for (int i = 0; i < vprog_n; i++) {
        op = vprog[i].argv[0];
        if (!do_op(&vprog[i])) { mpack_writer_flag_error(&w, mpack_error_bug); (void)mpack_writer_destroy(&w); return; }
    }

    static mpack_error_t r; static size_t used;
    r = mpack_ok;
    used = mpack_writer_error(&w) == mpack_ok && fixed_buf ? mpack_writer_buffer_used(&w) : 0;
    op = "destroy";
    CALL(r = mpack_writer_destroy(&w));
    if (v_jumped) {
        lg("{\"op\":\"destroyj\"");
        end_event(mpack_writer_error(&w));
        CALL(r = mpack_writer_destroy(&w));
    }
    ev();
    bool set = true;
    const char* out = ""; size_t outn = 0;
    if (is_grow) {
        set = grow_data != NULL;
        if (set) { out = grow_data; outn = grow_size; }
    } else if (is_flush) { out = sink_out.p; outn = sink_out.n; }
    #if MPACK_STDIO
    else if (is_file) {
        int fc = v_fc, sf = v_sf;
        if (f && v_fc == 0) fclose(f);
        v_fc = fc; v_sf = sf;
        out = (const char*)v_file.data; outn = v_file.len;
    }
    #endif
    else { out = fixed_buf; outn = used; }
    lg(",\"r\":\"%s\",\"set\":%s", err_name(r), set ? "true" : "false");
    lg_hex("out", out, outn);
    vx_out.n = 0;
    vx_ok = r == mpack_ok && set;
    if (vx_ok) sb_add(&vx_out, out, outn);
    #ifdef MPACK_MALLOC
    if (is_grow && set) MPACK_FREE(grow_data);
    #endif
    #if MPACK_STDIO
    lg(",\"fc\":%d,\"fcx\":%d", v_fc, v_fcx);
    #else
    lg(",\"fc\":0,\"fcx\":0");
    #endif
    lg(",\"live\":%d,\"dbl\":%d,\"td\":%d,\"tdx\":%d", v_live, v_dbl, v_td, v_tdx);
    /* the destination beyond what was written */
    end_event(mpack_writer_error(&w));
}
#else
void run_writer(void) { lg("{\"op\":\"unsupported\"}\n"); }
#endif
