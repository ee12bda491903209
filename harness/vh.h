/* Conformance harness: executes call programs against mpack and logs every call. */
#ifndef VH_H
#define VH_H 1
#include "mpack.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdbool.h>

#ifdef __cplusplus
#define VH_EXTC extern "C"
#else
#define VH_EXTC
#endif

/* With VH_COPY several copies of the harness share one copy of the code under test
 * (see vhi.c), each in a thread of its own; vh_yield() is where another one may run. */
#ifdef VH_COPY
VH_EXTC void vh_yield(void);
#include <unistd.h>
#define alarm(n) ((void)0)      /* the copies run under one clock */
#else
#define vh_yield() ((void)0)
#endif

/* ---- log ---- */
typedef struct { char* p; size_t n, cap; } sb_t;
extern sb_t vlog;
void sb_add(sb_t* s, const char* d, size_t n);
void lg(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void lg_hex(const char* key, const void* d, size_t n);   /* ,"key":"x..." */
void lg_u64(const char* key, uint64_t v);
void lg_tag(const char* key, mpack_tag_t t);

/* ---- environment of the current run ---- */
typedef struct { char key[24]; char val[4096]; } kv_t;
#define MAXKV 40
typedef struct { int id; int n; kv_t kv[MAXKV]; } env_t;
extern env_t* venv;
const char* env_s(const char* key, const char* dflt);
long env_i(const char* key, long dflt);

/* ---- program ---- */
typedef struct { int argc; char** argv; } line_t;
extern line_t* vprog; extern int vprog_n;

/* argument parsing */
typedef struct { uint8_t* p; size_t n; bool null; } bytes_t;
bytes_t parse_bytes(const char* s);      /* exact-size heap block, freed at case end */
bytes_t parse_bytes_z(const char* s);    /* plus a NUL terminator inside the block */
uint64_t parse_u64(const char* s);
int64_t parse_i64(const char* s);
void* scratch(size_t n);                 /* exact-size heap block, freed at case end */
mpack_error_t parse_error(const char* s);
const char* err_name(mpack_error_t e);
mpack_type_t parse_type(const char* s);
const char* type_name(mpack_type_t t);

/* ---- faults and observations ---- */
extern int v_alloc_n, v_alloc_fail, v_af, v_live, v_dbl;
size_t live_size(const void* p);      /* size of a live allocation, 0 if it is not one */
extern size_t v_alloc_bytes, v_alloc_peak, v_alloc_cur;
extern int v_cb[32], v_cbn;              /* error callbacks in this call */
extern int v_jump; extern volatile int v_injump; extern volatile int v_jumped;
extern jmp_buf v_jb;
extern int v_td, v_tdx;                  /* teardown calls / expected */
extern int v_fae;                        /* fill/flush/read calls made in an error state */
extern int v_sf; extern mpack_error_t v_se; /* stream failed in this call */
static inline int vi(size_t n) { return n > 0x7fffffff ? 0x7fffffff : (int)n; }  /* as the specification counts */
void begin_call(void);
void on_error_cb(int err);

#define CALL(stmt) do { begin_call(); v_jumped = 0; \
    if (setjmp(v_jb) == 0) { v_injump = 1; stmt; v_injump = 0; } \
    else { v_injump = 0; v_jumped = 1; } } while (0)

/* ends an event: error state, callbacks and faults of the call */
void end_event(mpack_error_t err);

/* ---- FILE streams with faults ---- */
#if MPACK_STDIO
typedef struct {
    uint8_t* data; size_t len, cap, pos;
    bool reading; bool seekable;
    size_t missing;    /* so many bytes at the end are claimed but cannot be read */
    long fail_at;      /* read/write fails once this byte offset is reached, -1 never */
    bool fail_close; int closes; int short_n;
    bool ispipe;
    bool failed;
} vfile_t;
extern vfile_t v_file;
FILE* vfile_open(void);
extern int v_fopen_fail;
extern int v_fc, v_fcx;
#endif

void run_writer(void);
void run_reader(void);
void run_tree(void);
void run_misc(void);
void run_reread(void);
extern sb_t vx_out; extern bool vx_ok;
#endif
