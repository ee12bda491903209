#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "vh.h"
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>

sb_t vlog;
void sb_add(sb_t* s, const char* d, size_t n) {
    if (s->n + n + 1 > s->cap) {
        s->cap = (s->n + n + 1) * 2 + 256;
        s->p = (char*)realloc(s->p, s->cap);
    }
    memcpy(s->p + s->n, d, n);
    s->n += n;
    s->p[s->n] = 0;
}
void lg(const char* fmt, ...) {
    char buf[1024];
    va_list va;
    va_start(va, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    if (n > (int)sizeof(buf) - 1) n = sizeof(buf) - 1;
    sb_add(&vlog, buf, (size_t)n);
}
void lg_hex(const char* key, const void* d, size_t n) {
    static const char hx[] = "0123456789abcdef";
    lg(",\"%s\":\"x", key);
    const uint8_t* p = (const uint8_t*)d;
    char buf[512]; size_t k = 0;
    for (size_t i = 0; i < n; i++) {
        buf[k++] = hx[p[i] >> 4]; buf[k++] = hx[p[i] & 15];
        if (k == sizeof(buf)) { sb_add(&vlog, buf, k); k = 0; }
    }
    sb_add(&vlog, buf, k);
    sb_add(&vlog, "\"", 1);
}
void lg_u64(const char* key, uint64_t v) { lg(",\"%s\":\"x%016llx\"", key, (unsigned long long)v); }

static const struct { mpack_error_t e; const char* s; } errs[] = {
    {mpack_ok, "ok"}, {mpack_error_io, "io"}, {mpack_error_invalid, "invalid"},
    {mpack_error_unsupported, "unsupported"}, {mpack_error_type, "type"},
    {mpack_error_too_big, "too_big"}, {mpack_error_memory, "memory"}, {mpack_error_bug, "bug"},
    {mpack_error_data, "data"}, {mpack_error_eof, "eof"} };
#define NERRS (int)(sizeof(errs)/sizeof(errs[0]))
const char* err_name(mpack_error_t e) {
    for (int i = 0; i < NERRS; i++) if (errs[i].e == e) return errs[i].s;
    return "unknown";
}
mpack_error_t parse_error(const char* s) {
    for (int i = 0; i < NERRS; i++) if (!strcmp(errs[i].s, s)) return errs[i].e;
    fprintf(stderr, "bad error name %s\n", s); exit(3);
}
static const struct { mpack_type_t t; const char* s; } types[] = {
    {mpack_type_missing, "missing"}, {mpack_type_nil, "nil"}, {mpack_type_bool, "bool"},
    {mpack_type_int, "int"}, {mpack_type_uint, "uint"}, {mpack_type_float, "float"},
    {mpack_type_double, "double"}, {mpack_type_str, "str"}, {mpack_type_bin, "bin"},
    {mpack_type_array, "array"}, {mpack_type_map, "map"}
    #if MPACK_EXTENSIONS
    ,{mpack_type_ext, "ext"}
    #endif
};
#define NTYPES (int)(sizeof(types)/sizeof(types[0]))
const char* type_name(mpack_type_t t) {
    for (int i = 0; i < NTYPES; i++) if (types[i].t == t) return types[i].s;
    return "unknown";
}
mpack_type_t parse_type(const char* s) {
    for (int i = 0; i < NTYPES; i++) if (!strcmp(types[i].s, s)) return types[i].t;
    fprintf(stderr, "bad type name %s\n", s); exit(3);
}
void lg_tag(const char* key, mpack_tag_t t) {
    uint64_t v = 0; int x = 0;
    switch (mpack_tag_type(&t)) {
        case mpack_type_missing: case mpack_type_nil: break;
        case mpack_type_bool: v = mpack_tag_bool_value(&t) ? 1 : 0; break;
        case mpack_type_int: v = (uint64_t)mpack_tag_int_value(&t); break;
        case mpack_type_uint: v = mpack_tag_uint_value(&t); break;
        case mpack_type_float: {
            #if MPACK_FLOAT
            float f = mpack_tag_float_value(&t); uint32_t u; memcpy(&u, &f, 4); v = u;
            #else
            v = mpack_tag_raw_float_value(&t);
            #endif
            break; }
        case mpack_type_double: {
            #if MPACK_DOUBLE
            double d = mpack_tag_double_value(&t); memcpy(&v, &d, 8);
            #else
            v = mpack_tag_raw_double_value(&t);
            #endif
            break; }
        case mpack_type_str: v = mpack_tag_str_length(&t); break;
        case mpack_type_bin: v = mpack_tag_bin_length(&t); break;
        case mpack_type_array: v = mpack_tag_array_count(&t); break;
        case mpack_type_map: v = mpack_tag_map_count(&t); break;
        #if MPACK_EXTENSIONS
        case mpack_type_ext: v = mpack_tag_ext_length(&t); x = mpack_tag_ext_exttype(&t); break;
        #endif
        default: break;
    }
    lg(",\"%s\":{\"t\":\"%s\",\"v\":\"x%016llx\",\"x\":%d}", key, type_name(mpack_tag_type(&t)),
            (unsigned long long)v, x);
}

env_t* venv; line_t* vprog; int vprog_n;
const char* env_s(const char* key, const char* dflt) {
    for (int i = 0; i < venv->n; i++) if (!strcmp(venv->kv[i].key, key)) return venv->kv[i].val;
    return dflt;
}
long env_i(const char* key, long dflt) {
    const char* s = env_s(key, NULL);
    return s ? strtol(s, NULL, 10) : dflt;
}

/* blocks freed at the end of the case */
static void** blocks; static int blocks_n, blocks_cap;
void* scratch(size_t n) {
    if (blocks_n == blocks_cap) {
        blocks_cap = blocks_cap * 2 + 64;
        blocks = (void**)realloc(blocks, sizeof(void*) * (size_t)blocks_cap);
    }
    /* a block of exactly n bytes, so that the sanitizer sees any access outside */
    void* p = malloc(n);
    blocks[blocks_n++] = p;
    return p;
}
static void scratch_clear(void) {
    for (int i = 0; i < blocks_n; i++) free(blocks[i]);
    blocks_n = 0;
}
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
/* xHEX, rBB*N, joined with '+'; "-" is NULL, "x" is empty */
static bytes_t parse_bytes_impl(const char* s, size_t extra) {
    bytes_t b; b.null = false;
    if (s[0] == '-') { b.p = NULL; b.n = 0; b.null = true; return b; }
    size_t n = 0;
    for (int pass = 0; pass < 2; pass++) {
        const char* q = s; size_t k = 0;
        while (*q) {
            if (*q == '+') { q++; continue; }
            if (*q == 'x') {
                q++;
                while (*q && *q != '+') {
                    if (pass) b.p[k] = (uint8_t)(hexv(q[0]) * 16 + hexv(q[1]));
                    k++; q += 2;
                }
            } else if (*q == 'r') {
                int v = hexv(q[1]) * 16 + hexv(q[2]);
                char* end; unsigned long c = strtoul(q + 4, &end, 10);
                if (pass) memset(b.p + k, v, c);
                k += c; q = end;
            } else { fprintf(stderr, "bad bytes %s\n", s); exit(3); }
        }
        n = k;
        if (!pass) b.p = (uint8_t*)scratch(n + extra);
    }
    b.n = n;
    if (extra) b.p[n] = 0;
    return b;
}
bytes_t parse_bytes(const char* s) { return parse_bytes_impl(s, 0); }
bytes_t parse_bytes_z(const char* s) { return parse_bytes_impl(s, 1); }
uint64_t parse_u64(const char* s) { return s[0] == '-' ? (uint64_t)strtoll(s, NULL, 10) : strtoull(s, NULL, 0); }
int64_t parse_i64(const char* s) { return strtoll(s, NULL, 10); }

/* ---- allocation ---- */
int v_alloc_n, v_alloc_fail, v_af, v_live, v_dbl;
size_t v_alloc_bytes, v_alloc_peak, v_alloc_cur;
typedef struct { void* p; size_t n; } live_t;
static live_t* lives; static int lives_cap;
static void live_add(void* p, size_t n) {
    if (v_live == lives_cap) {
        lives_cap = lives_cap * 2 + 64;
        lives = (live_t*)realloc(lives, sizeof(live_t) * (size_t)lives_cap);
    }
    lives[v_live].p = p; lives[v_live].n = n; v_live++;
    v_alloc_bytes += n; v_alloc_cur += n;
    if (v_alloc_cur > v_alloc_peak) v_alloc_peak = v_alloc_cur;
}
size_t live_size(const void* p) {
    for (int i = v_live - 1; i >= 0; i--) if (lives[i].p == p) return lives[i].n;
    return 0;
}
static long live_del(void* p) {     /* size of the block, or -1 */
    for (int i = v_live - 1; i >= 0; i--) if (lives[i].p == p) {
        size_t n = lives[i].n;
        v_alloc_cur -= n;
        lives[i] = lives[--v_live];
        return (long)n;
    }
    v_dbl++;
    return -1;
}
/* counts an allocation; false if it must fail */
static bool alloc_ok(size_t n) {
    if (++v_alloc_n == v_alloc_fail) { v_af++; return false; }
    if (n > ((size_t)1 << 28)) {
        if (v_alloc_cur + n > v_alloc_peak) v_alloc_peak = v_alloc_cur + n;
        v_af++;
        return false;
    }
    return true;
}
VH_EXTC void* vh_malloc(size_t n) {
    vh_yield();
    if (!alloc_ok(n)) return NULL;
    void* p = malloc(n);
    memset(p, 0xa5, n);
    live_add(p, n);
    return p;
}
VH_EXTC void vh_free(void* p) {
    vh_yield();
    if (!p) return;
    if (live_del(p) >= 0) free(p);
}
VH_EXTC void* vh_realloc(void* p, size_t n) {
    vh_yield();
    if (!alloc_ok(n)) return NULL;
    long old = p ? live_del(p) : 0;
    if (old < 0) return NULL;
    void* q = malloc(n);     /* always moves */
    memset(q, 0xa5, n);
    if (p) { memcpy(q, p, (size_t)old < n ? (size_t)old : n); free(p); }
    live_add(q, n);
    return q;
}
static void live_clear(void) {
    for (int i = 0; i < v_live; i++) free(lives[i].p);
    v_live = 0; v_alloc_cur = 0;
}

/* ---- calls ---- */
int v_cb[32], v_cbn, v_jump, v_td, v_tdx, v_fae, v_sf;
volatile int v_injump, v_jumped;
mpack_error_t v_se;
jmp_buf v_jb;
static jmp_buf case_jb;
void begin_call(void) { v_cbn = 0; v_af = 0; v_sf = 0; v_fae = 0; v_se = mpack_error_io; vh_yield(); }
void on_error_cb(int err) {
    vh_yield();
    if (v_cbn < 32) v_cb[v_cbn++] = err;
    if (v_jump && v_injump) longjmp(v_jb, 1);
}
void end_event(mpack_error_t err) {
    lg(",\"e\":\"%s\",\"cb\":[", err_name(err));
    for (int i = 0; i < v_cbn; i++) lg("%s\"%s\"", i ? "," : "", err_name((mpack_error_t)v_cb[i]));
    lg("],\"af\":%d,\"sf\":%s,\"se\":\"%s\",\"fae\":%d,\"j\":%s}\n", v_af ? 1 : 0, v_sf ? "true" : "false",
            err_name(v_se), v_fae, v_jumped ? "true" : "false");
}

#if MPACK_DEBUG && MPACK_CUSTOM_ASSERT
void mpack_assert_fail(const char* message) {
    const char* nl = strchr(message, '\n');
    char buf[400]; int k = 0;
    const char* m = nl ? nl + 1 : message;
    for (; *m && k < 390; m++) buf[k++] = (*m == '"' || *m == '\\' || *m == '\n') ? ' ' : *m;
    buf[k] = 0;
    /* drop a partial event */
    while (vlog.n && vlog.p[vlog.n - 1] != '\n') vlog.n--;
    lg("{\"op\":\"assert\",\"msg\":\"%s\"}\n", buf);
    longjmp(case_jb, 1);
}
#endif
static int v_breaks;
#if MPACK_DEBUG && MPACK_CUSTOM_BREAK
void mpack_break_hit(const char* message) { (void)message; v_breaks++; }
#endif

/* ---- FILE ---- */
#if MPACK_STDIO
vfile_t v_file; int v_fopen_fail, v_fc, v_fcx;
static ssize_t ck_read(void* c, char* buf, size_t n) {
    vfile_t* f = (vfile_t*)c;
    vh_yield();
    if (f->fail_at >= 0 && f->pos >= (size_t)f->fail_at) { v_sf = 1; f->failed = true; errno = EIO; return -1; }
    size_t end = f->missing < f->len ? f->len - f->missing : 0;
    size_t left = f->pos < end ? end - f->pos : 0;
    if (n > left) n = left;
    if (f->fail_at >= 0 && f->pos + n > (size_t)f->fail_at) n = (size_t)f->fail_at - f->pos;
    if (f->short_n > 0 && n > (size_t)f->short_n) n = (size_t)f->short_n;
    memcpy(buf, f->data + f->pos, n);
    f->pos += n;
    return (ssize_t)n;
}
static ssize_t ck_write(void* c, const char* buf, size_t n) {
    vfile_t* f = (vfile_t*)c;
    vh_yield();
    size_t ok = n;
    if (f->fail_at >= 0) {
        size_t room = f->pos < (size_t)f->fail_at ? (size_t)f->fail_at - f->pos : 0;
        if (ok > room) ok = room;
    }
    if (ok < n) { v_sf = 1; f->failed = true; errno = ENOSPC; if (ok == 0) return 0; }
    if (f->pos + ok > f->cap) {
        f->cap = (f->pos + ok) * 2 + 64;
        f->data = (uint8_t*)realloc(f->data, f->cap);
    }
    memcpy(f->data + f->pos, buf, ok);
    f->pos += ok;
    if (f->pos > f->len) f->len = f->pos;
    return (ssize_t)ok;
}
static int ck_seek(void* c, off64_t* off, int whence) {
    vfile_t* f = (vfile_t*)c;
    if (!f->seekable) { errno = ESPIPE; return -1; }
    off64_t p = whence == SEEK_SET ? *off : whence == SEEK_CUR ? (off64_t)f->pos + *off : (off64_t)f->len + *off;
    if (p < 0) { errno = EINVAL; return -1; }
    if (f->fail_at >= 0 && p > f->fail_at && f->reading) { v_sf = 1; f->failed = true; errno = EIO; return -1; }
    f->pos = (size_t)p;
    *off = p;
    return 0;
}
static int ck_close(void* c) {
    vfile_t* f = (vfile_t*)c;
    f->closes++; v_fc++;
    if (f->fail_close) { v_sf = 1; errno = EIO; return -1; }
    return 0;
}
FILE* vfile_open(void) {
    cookie_io_functions_t io;
    io.read = ck_read; io.write = ck_write; io.seek = ck_seek; io.close = ck_close;
    FILE* f = fopencookie(&v_file, v_file.reading ? "rb" : "wb", io);
    if (env_i("unbuf", 1)) setvbuf(f, NULL, _IONBF, 0);
    return f;
}
VH_EXTC FILE* __wrap_fopen(const char* path, const char* mode);
VH_EXTC FILE* __real_fopen(const char* path, const char* mode);
VH_EXTC FILE* __wrap_fopen(const char* path, const char* mode) {
    if (strncmp(path, "vh:", 3)) return __real_fopen(path, mode);
    if (v_fopen_fail) { v_sf = 1; errno = ENOENT; return NULL; }
    return vfile_open();
}
#endif

/* ---- main ---- */
static char* trim(char* s) { size_t n = strlen(s); while (n && (s[n-1] == '\n' || s[n-1] == '\r')) s[--n] = 0; return s; }
static char* dupstr(const char* s) { char* p = (char*)malloc(strlen(s) + 1); strcpy(p, s); return p; }

static env_t* envs; static int envs_n, envs_cap;
static line_t* prog; static int prog_n, prog_cap;
static char* case_id; static char kind;
static FILE* vout;
VH_EXTC int vh_main(FILE* in, FILE* out);

static void reset_run(void) {
    v_alloc_n = 0; v_alloc_fail = (int)env_i("af", 0); v_dbl = 0; v_alloc_bytes = v_alloc_peak = v_alloc_cur = 0;
    v_jump = (int)env_i("jump", 0); v_td = v_tdx = 0; v_injump = 0; v_jumped = 0;
    #if MPACK_STDIO
    free(v_file.data);
    memset(&v_file, 0, sizeof(v_file));
    v_file.fail_at = env_i("failat", -1);
    v_file.missing = (size_t)env_i("missing", 0);
    v_file.fail_close = env_i("failclose", 0) != 0;
    v_file.seekable = env_i("seek", 1) != 0;
    v_file.short_n = (int)env_i("shortn", 0);
    v_fopen_fail = (int)env_i("failopen", 0);
    v_fc = v_fcx = 0;
    #endif
    begin_call();
}

static void run_case(void) {
    char** logs = (char**)calloc((size_t)envs_n, sizeof(char*));
    for (int k = 0; k < envs_n; k++) {
        venv = &envs[k];
        vprog = prog; vprog_n = prog_n;
        vlog.n = 0; if (vlog.p) vlog.p[0] = 0;
        /* announced first, so that a crash can be attributed */
        fprintf(vout, "S %s %d\n", case_id, venv->id); fflush(vout);
        reset_run();
        alarm(20);
        if (setjmp(case_jb) == 0) {
            switch (kind) {
                #if MPACK_WRITER
                case 'W': run_writer(); break;
                #endif
                #if MPACK_READER
                case 'R': run_reader(); break;
                #endif
                #if MPACK_NODE
                case 'T': run_tree(); break;
                #endif
                case 'M': run_misc(); break;
                case 'X': run_reread(); break;
                default: lg("{\"op\":\"unsupported\"}\n");
            }
        }
        alarm(0);
        live_clear();
        scratch_clear();
        if (!vlog.p) sb_add(&vlog, "", 0);
        int same = -1;
        for (int j = 0; j < k; j++) if (logs[j] && !strcmp(logs[j], vlog.p)) { same = envs[j].id; break; }
        if (same >= 0) fprintf(vout, "D %s %d %d\n", case_id, venv->id, same);
        else {
            logs[k] = dupstr(vlog.p);
            fprintf(vout, "B %s %d\n", case_id, venv->id);
            fwrite(vlog.p, 1, vlog.n, vout);
            fprintf(vout, "Z\n");
        }
    }
    for (int k = 0; k < envs_n; k++) free(logs[k]);
    free(logs);
}

int vh_main(FILE* in, FILE* out) {
    vout = out;
    size_t cap = 0; char* lbuf = NULL;
    while (getline(&lbuf, &cap, in) > 0) {
        char* s = trim(lbuf);
        if (s[0] == 'C') {              /* C id kind */
            char* sp = strchr(s + 2, ' ');
            *sp = 0;
            free(case_id); case_id = dupstr(s + 2); kind = sp[1];
            for (int i = 0; i < prog_n; i++) { free(prog[i].argv[0]); free(prog[i].argv); }
            envs_n = 0; prog_n = 0;
        } else if (s[0] == 'E') {       /* E id k=v ... */
            if (envs_n == envs_cap) { envs_cap = envs_cap * 2 + 16; envs = (env_t*)realloc(envs, sizeof(env_t) * (size_t)envs_cap); }
            env_t* e = &envs[envs_n++];
            e->n = 0;
            char* save = NULL;
            char* tok = strtok_r(s + 2, " ", &save);
            e->id = atoi(tok);
            while ((tok = strtok_r(NULL, " ", &save)) != NULL) {
                char* eq = strchr(tok, '=');
                if (!eq) continue;
                *eq = 0;
                if (e->n >= MAXKV || strlen(eq + 1) >= sizeof(e->kv[0].val)) { fprintf(stderr, "env too big\n"); exit(3); }
                strncpy(e->kv[e->n].key, tok, sizeof(e->kv[0].key) - 1);
                e->kv[e->n].key[sizeof(e->kv[0].key) - 1] = 0;
                strcpy(e->kv[e->n].val, eq + 1);
                e->n++;
            }
        } else if (s[0] == '.') {       /* . op args */
            if (prog_n == prog_cap) { prog_cap = prog_cap * 2 + 64; prog = (line_t*)realloc(prog, sizeof(line_t) * (size_t)prog_cap); }
            line_t* l = &prog[prog_n++];
            char* c = dupstr(s + 2);
            int n = 1;
            for (char* q = c; *q; q++) if (*q == ' ') n++;
            l->argv = (char**)calloc((size_t)n + 1, sizeof(char*));
            l->argc = 0;
            char* q = c;
            l->argv[l->argc++] = q;
            while ((q = strchr(q, ' ')) != NULL) { *q++ = 0; l->argv[l->argc++] = q; }
        } else if (s[0] == 'X') {
            run_case();
        }
    }
    fprintf(vout, "END\n");
    free(lbuf);
    return 0;
}
#ifndef VH_COPY
int main(void) {
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    return vh_main(stdin, stdout);
}
#endif
