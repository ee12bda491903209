/* Runs two programs at once against one copy of the code under test. The harness
 * is linked in twice, its symbols prefixed A_ and B_, each copy in a thread of its
 * own. Calls and callbacks are the points (vh_yield) where the turn may pass on;
 * a schedule such as "0110" says to whom, cyclically. With mode=free there are no
 * turns and the threads run as they like.
 *   C id I / E n sched=0110 mode=turn / . P W sink=grow / . op ... / . P R src=mem / . op ... / X
 */
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <unistd.h>

#define N 2
int A_vh_main(FILE*, FILE*); int B_vh_main(FILE*, FILE*);
static _Thread_local int me;

#define FWD(ret, name, params, args) ret A_##name params; ret B_##name params; \
    ret name params { return me ? B_##name args : A_##name args; }
FWD(void*, vh_malloc, (size_t n), (n))
FWD(void, vh_free, (void* p), (p))
#ifdef VH_REALLOC
FWD(void*, vh_realloc, (void* p, size_t n), (p, n))
#endif
FWD(FILE*, __wrap_fopen, (const char* path, const char* mode), (path, mode))
#ifdef VHI_ASSERT
FWD(void, mpack_assert_fail, (const char* m), (m))
FWD(void, mpack_break_hit, (const char* m), (m))
#endif

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static pthread_barrier_t start;
static int freerun, turn, alive[N];
static const char* sched; static size_t at;

void vh_yield(void) {
    if (freerun) return;
    pthread_mutex_lock(&mu);
    int next = sched[at++] - '0';
    if (!sched[at]) at = 0;
    if (alive[next] && next != me) {
        turn = next;
        pthread_cond_broadcast(&cv);
        while (turn != me) pthread_cond_wait(&cv, &mu);
    }
    pthread_mutex_unlock(&mu);
}

typedef struct { int k; char* text; size_t n; char* out; size_t outn; } job_t;
static void* job(void* p) {
    job_t* j = (job_t*)p;
    me = j->k;
    FILE* in = fmemopen(j->text, j->n, "r");
    FILE* out = open_memstream(&j->out, &j->outn);
    pthread_barrier_wait(&start);
    if (!freerun) {
        pthread_mutex_lock(&mu);
        while (turn != me) pthread_cond_wait(&cv, &mu);
        pthread_mutex_unlock(&mu);
    }
    if (me) B_vh_main(in, out); else A_vh_main(in, out);
    if (!freerun) {
        pthread_mutex_lock(&mu);
        alive[me] = 0; turn = 1 - me;
        pthread_cond_broadcast(&cv);
        pthread_mutex_unlock(&mu);
    }
    fclose(in); fclose(out);
    return NULL;
}

static char* lines[20000]; static int nl;
static char* envs[20000]; static int ne;
static char id[64];

static void run_env(const char* env) {
    char* copy = strdup(env); char* save = NULL;
    char* eid = strtok_r(copy, " ", &save);
    sched = "01"; freerun = 0; at = 0;
    for (char* t; (t = strtok_r(NULL, " ", &save));) {
        if (!strncmp(t, "sched=", 6)) sched = t + 6;
        else if (!strcmp(t, "mode=free")) freerun = 1;
    }
    job_t j[N]; memset(j, 0, sizeof(j));
    FILE* f = NULL; int k = -1;
    for (int i = 0; i < nl; i++) {
        char* l = lines[i];
        if (!strncmp(l, ". P ", 4)) {
            if (f) { fputs("X\n", f); fclose(f); }
            k++;
            f = open_memstream(&j[k].text, &j[k].n);
            fprintf(f, "C %d %c\nE 0%s\n", k, l[4], l + 5);
        } else fprintf(f, "%s\n", l);
    }
    fputs("X\n", f); fclose(f);
    printf("S %s %s\n", id, eid); fflush(stdout);
    turn = sched[0] - '0'; alive[0] = alive[1] = 1;
    alarm(20);
    pthread_t th[N];
    for (k = 0; k < N; k++) { j[k].k = k; pthread_create(&th[k], NULL, job, &j[k]); }
    for (k = 0; k < N; k++) pthread_join(th[k], NULL);
    alarm(0);
    printf("B %s %s\n", id, eid);
    for (k = 0; k < N; k++) {
        char* b = strstr(j[k].out, "\nB "); char* e = b ? strstr(b, "\nZ\n") : NULL;
        printf("#\n");
        if (b && e) { b = strchr(b + 1, '\n') + 1; if (e >= b) { fwrite(b, 1, (size_t)(e - b), stdout); printf("\n"); } }
        free(j[k].out); free(j[k].text);
    }
    printf("Z\n");
    free(copy);
}

int main(void) {
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    pthread_barrier_init(&start, NULL, N);
    size_t cap = 0; char* s = NULL;
    while (getline(&s, &cap, stdin) > 0) {
        size_t n = strlen(s);
        while (n && (s[n-1] == '\n' || s[n-1] == '\r')) s[--n] = 0;
        if (s[0] == 'C') {
            for (int i = 0; i < nl; i++) free(lines[i]);
            for (int i = 0; i < ne; i++) free(envs[i]);
            nl = ne = 0;
            sscanf(s + 2, "%63s", id);
        } else if (s[0] == 'E') envs[ne++] = strdup(s + 2);
        else if (s[0] == '.') lines[nl++] = strdup(s);
        else if (s[0] == 'X') for (int i = 0; i < ne; i++) run_env(envs[i]);
    }
    printf("END\n");
    return 0;
}
