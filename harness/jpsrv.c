/*
 * jpsrv: fork server around the public API of JPStream.
 *
 * Parent: reads a framed request on fd 0, forks, lets the child execute it, relays the
 * child's (possibly partial) payload and its exit status on the original stdout.
 * The library's own chatter on stdout/stderr goes to /dev/null (or to the stderr log).
 *
 * Frame: u32 total, then fields (u32 len, bytes).  Reply: u32 status, u32 len, payload.
 */
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <unistd.h>
#include <limits.h>
#include <malloc.h>
#include "path_processor.h"
#include "jsonpath_parser.h"
#include "sched_shim.h"

int jpstream_verif_memory_footprint = 250000000;

/* ------------------------------------------------------------------ framing */
static int jv_out_fd = -1;          /* child: payload pipe */
static char **jv_F; static uint32_t *jv_FL; static int jv_NF;

static void jv_wr(int fd, const void *p, size_t n) {
    const char *c = p;
    while (n) { ssize_t k = write(fd, c, n); if (k < 0) { if (errno == EINTR) continue; _exit(97); } c += k; n -= k; }
}
static int jv_rd(int fd, void *p, size_t n) {
    char *c = p;
    while (n) { ssize_t k = read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return 0; c += k; n -= k; }
    return 1;
}
static char *jv_obuf; static size_t jv_olen, jv_ocap;
static void jv_oput(const void *p, size_t n) {
    if (jv_olen + n > jv_ocap) { jv_ocap = (jv_olen + n) * 2 + 65536; jv_obuf = realloc(jv_obuf, jv_ocap); }
    memcpy(jv_obuf + jv_olen, p, n); jv_olen += n;
}
static void jv_ou32(uint32_t v) { jv_oput(&v, 4); }
static void jv_oi32(int32_t v) { jv_oput(&v, 4); }
static void jv_ostr(const char *s) { uint32_t n = s ? (uint32_t)strlen(s) : 0; jv_ou32(n); jv_oput(s ? s : "", n); }
static void jv_obytes(const char *s, uint32_t n) { jv_ou32(n); jv_oput(s, n); }
static void jv_oflush(void) { jv_wr(jv_out_fd, jv_obuf, jv_olen); jv_olen = 0; }

static char jv_scratch[PATH_MAX];
static const char *jv_write_doc(const char *tag, const char *data, uint32_t n) {
    static char buf[8][PATH_MAX]; static int k = 0;
    char *path = buf[k++ & 7];
    snprintf(path, PATH_MAX, "%s/%s.json", jv_scratch, tag);
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0) _exit(96);
    jv_wr(fd, data, n); close(fd);
    return path;
}
static char *jv_dupz(const char *p, uint32_t n) { char *s = malloc(n + 1); memcpy(s, p, n); s[n] = 0; return s; }

static void jv_put_output(Output *o) {
    if (o == NULL) { jv_ou32(0xFFFFFFFFu); return; }
    int n = getOutputSize(o);
    jv_oi32(n);
    for (int i = 0; i < n; i++) jv_ostr(getOutputElement(o, i));
}

/* ------------------------------------------------------------------ commands */
/* A command whose part of the internal interface has changed is left out of the build (JV_NO_...): the checks that need it
 * then have no answer, the others go on. */
static void jv_gone(void) { _exit(94); }

/* run: doc, path, op...   op = "serial fp" | "par n fp seed" | "opt n fp seed" | "train"(uses doc) |
   "trainon K" (K = index of extra doc field given as "doc" op) | "new" (recreate the processor) | "free" */
static void jv_cmd_run(void) {
    char *docs[64]; int nd = 0;
    char *path = jv_F[2];
    docs[nd++] = strdup(jv_write_doc("d0", jv_F[1], jv_FL[1]));
    PathProcessor *pp = createPathProcessor(path);
    if (pp == NULL) { jv_ou32(0xFFFFFFFEu); jv_oflush(); return; }
    ConstraintTable *ct = NULL;
    int cur = 0;
    for (int i = 3; i < jv_NF; i++) {
        char op[32] = ""; long a = 0, b = 0, c = 0;
        sscanf(jv_F[i], "%31s %ld %ld %ld", op, &a, &b, &c);
        sched_shim_off();
        if (!strcmp(op, "doc")) {           /* next field = another document; becomes current */
            char tag[16]; snprintf(tag, sizeof tag, "d%d", nd);
            i++;
            docs[nd++] = strdup(jv_write_doc(tag, jv_F[i], jv_FL[i])); cur = nd - 1;
        } else if (!strcmp(op, "missing")) { /* the current document becomes a file that does not exist */
            docs[cur] = "/nonexistent/x.json";
        } else if (!strcmp(op, "use")) {
            cur = (int)a;
        } else if (!strcmp(op, "path")) {   /* next field = new query (old processor kept alive) */
            i++;
            pp = createPathProcessor(jv_F[i]);
        } else if (!strcmp(op, "newpp")) {  /* next field = new query, old processor freed */
            i++;
            freePathProcessor(pp);
            pp = createPathProcessor(jv_F[i]);
        } else if (!strcmp(op, "train")) {
            jpstream_verif_memory_footprint = 250000000;
            ct = collectDataConstraints(pp, docs[a]);
        } else if (!strcmp(op, "freect")) {
            freeConstraintTable(ct); ct = NULL;
        } else if (!strcmp(op, "serial")) {
            jpstream_verif_memory_footprint = a > 0 ? (int)a : 250000000;
            Output *o = serialRun(pp, docs[cur]);
            jv_put_output(o); jv_oflush();
            if (o) freeOutput(o);
        } else if (!strcmp(op, "par") || !strcmp(op, "opt")) {
            jpstream_verif_memory_footprint = b > 0 ? (int)b : 250000000;
            if (c) sched_shim_on((unsigned)c);
            Output *o = op[0] == 'p' ? parallelRun(pp, docs[cur], (int)a) : parallelRunOpt(pp, docs[cur], (int)a, ct);
            sched_shim_off();
            jv_put_output(o); jv_oflush();
            if (o) freeOutput(o);
        } else _exit(95);
    }
    jv_oflush();
}

/* repeat: document, path, repetitions, mode (s, p or o; a second letter n: a new processor each time), workers, footprint, seed, training document (optional), which file is missing (optional)
 * -> per repetition, after everything was freed: bytes allocated, open descriptors, address space (KB), number of results */
static long jv_vsz_kb(void) {
    long a = 0; FILE *f = fopen("/proc/self/statm", "r");
    if (!f) return -1;
    if (fscanf(f, "%ld", &a) != 1) a = -1;
    fclose(f);
    return a * (sysconf(_SC_PAGESIZE) / 1024);
}
static int jv_open_fds(void) { int n = 0; for (int i = 0; i < 4096; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static void jv_cmd_repeat(void) {
    char *doc = strdup(jv_write_doc("d0", jv_F[1], jv_FL[1]));
    char *train = jv_NF > 8 && jv_FL[8] ? strdup(jv_write_doc("d1", jv_F[8], jv_FL[8])) : doc;
    if (jv_NF > 9) unlink(*jv_F[9] == 't' ? train : doc);      /* the run finds no file */
    int reps = atoi(jv_F[3]); char op = jv_F[4][0]; int fresh = jv_F[4][1] == 'n', cores = atoi(jv_F[5]), seed = atoi(jv_F[7]);
    jpstream_verif_memory_footprint = atoi(jv_F[6]) > 0 ? atoi(jv_F[6]) : 250000000;
    PathProcessor *pp = createPathProcessor(jv_F[2]);
    jv_oput("", 0); jv_olen = 0; jv_obuf = realloc(jv_obuf, jv_ocap = 1 << 16);
    for (int r = 0; r < reps; r++) {
        Output *o; ConstraintTable *ct = NULL;
        if (fresh && r) { freePathProcessor(pp); pp = createPathProcessor(jv_F[2]); }
        if (seed) sched_shim_on(seed);
        if (op == 's') o = serialRun(pp, doc);
        else if (op == 'p') o = parallelRun(pp, doc, cores);
        else { ct = collectDataConstraints(pp, train); o = parallelRunOpt(pp, doc, cores, ct); freeConstraintTable(ct); }
        sched_shim_off();
        int n = o ? getOutputSize(o) : -1;
        if (o) freeOutput(o);
        struct mallinfo2 m = mallinfo2();
        long long used = (long long)m.uordblks + m.hblkhd;
        jv_oput(&used, 8); jv_oi32(jv_open_fds()); jv_oi32((int)jv_vsz_kb()); jv_oi32(n); jv_oflush();
    }
}

/* hist: jv_F[1] = number of documents, the documents, then operations on slots of processors (P), tables (C) and documents (D):
 *   "pp P" + query | "delpp P" | "ct C P D" | "delct C" | "serial P D fp" | "par P D n fp seed" | "opt P D n fp seed C" | "drop R" (free the output of run R)
 * Every run's output is sent at once; the outputs still held are sent again at the end (run number, output). */
static void jv_cmd_hist(void) {
    char *docs[64]; int nd = atoi(jv_F[1]);
    for (int i = 0; i < nd; i++) { char tag[16]; snprintf(tag, sizeof tag, "d%d", i); docs[i] = strdup(jv_write_doc(tag, jv_F[2 + i], jv_FL[2 + i])); }
    PathProcessor *pp[16] = {0}; ConstraintTable *ct[16] = {0}; Output *out[512]; int no = 0;
    for (int i = 2 + nd; i < jv_NF; i++) {
        char op[16] = ""; long a[6] = {0};
        sscanf(jv_F[i], "%15s %ld %ld %ld %ld %ld %ld", op, a, a + 1, a + 2, a + 3, a + 4, a + 5);
        sched_shim_off(); jpstream_verif_memory_footprint = 250000000;
        Output *o;
        if (!strcmp(op, "pp")) { pp[a[0]] = createPathProcessor(jv_F[++i]); continue; }
        else if (!strcmp(op, "delpp")) { freePathProcessor(pp[a[0]]); pp[a[0]] = NULL; continue; }
        else if (!strcmp(op, "ct")) { ct[a[0]] = collectDataConstraints(pp[a[1]], docs[a[2]]); continue; }
        else if (!strcmp(op, "delct")) { freeConstraintTable(ct[a[0]]); ct[a[0]] = NULL; continue; }
        else if (!strcmp(op, "look")) {     /* the states the table lists for each key of the next field (one per line; the first is the array) */
#ifdef JV_NO_CT
            jv_oi32(0); i++;
#else
            int n = 1; for (char *p = jv_F[i + 1]; *p; p++) n += *p == '\n';
            jv_oi32(n);
            for (char *k = jv_F[++i]; k; ) {
                char *nx = strchr(k, '\n'); if (nx) *nx++ = 0;
                ConstraintInfo ci; memset(&ci, 0xEE, sizeof ci); ci.num_state = -1; ci.type = n-- > 0 && !strcmp(k, "[") ? LB : KY;
                char txt[1024]; int l = 0;
                if (ci.type == KY && strlen(k) >= sizeof ci.token_name) l = sprintf(txt, "long");
                else {
                    if (ci.type == KY) strcpy(ci.token_name, k);
                    updateStateInfo(ct[a[0]], &ci);
                    for (int j = 0; j < ci.num_state && l < 900; j++) l += sprintf(txt + l, "%d ", ci.state_set[j]);
                    txt[l] = 0;
                }
                jv_ostr(txt); k = nx;
            }
#endif
            jv_oflush(); continue;
        }
        else if (!strcmp(op, "edit")) { char tag[16]; snprintf(tag, sizeof tag, "d%ld", a[0]); i++; jv_write_doc(tag, jv_F[i], jv_FL[i]); continue; }
        else if (!strcmp(op, "gone")) { unlink(docs[a[0]]); continue; }
        else if (!strcmp(op, "drop")) { if (out[a[0]]) freeOutput(out[a[0]]); out[a[0]] = NULL; continue; }
        else if (!strcmp(op, "serial")) { if (a[2] > 0) jpstream_verif_memory_footprint = a[2]; o = serialRun(pp[a[0]], docs[a[1]]); }
        else {
            if (a[3] > 0) jpstream_verif_memory_footprint = a[3];
            if (a[4]) sched_shim_on((unsigned)a[4]);
            o = op[0] == 'p' ? parallelRun(pp[a[0]], docs[a[1]], a[2]) : parallelRunOpt(pp[a[0]], docs[a[1]], a[2], a[5] >= 0 ? ct[a[5]] : NULL);
            sched_shim_off();
        }
        out[no++] = o; jv_put_output(o); jv_oflush();
    }
    for (int i = 0; i < no; i++) if (out[i]) jv_put_output(out[i]);
    jv_oflush();
}

#ifndef JV_NO_LEX
static void jv_cmd_lex(void) {
    char *s = jv_dupz(jv_F[1], jv_FL[1]);
    Lexer lx; initLexer(&lx, s);
    for (;;) {
        Token t = nextToken(&lx);
        jv_oi32(t.token_type);
        if (t.token_type == END) break;
        jv_oi32((int)(lx.next_start - lx.begin_stream));
        if (t.token_type == KY || t.token_type == PRI) jv_ostr(t.content); else jv_ou32(0);
        if (jv_olen > 1 << 16) jv_oflush();
    }
    destroyLexer(&lx);
    jv_oflush();
}
#else
#define jv_cmd_lex jv_gone
#endif

#ifndef JV_NO_PART
static void jv_put_part(PartitionInfo pi) {
    jv_oi32(pi.num_chunk);
    for (int i = 0; i < pi.num_chunk; i++) { if (pi.stream[i] == NULL) jv_ou32(0xFFFFFFFFu); else jv_ostr(pi.stream[i]); }
    jv_oflush();
}
static void jv_cmd_part(void) {
    char *s = jv_dupz(jv_F[1], jv_FL[1]);
    PartitionInfo pi = partitionInputStream(s, atoi(jv_F[2]));
    free(s);                         /* the chunks must not alias the input */
    jv_put_part(pi); freeInputChunks(pi);
}
static __attribute__((noinline)) void jv_dirty_stack(void) { volatile char a[8192]; for (int i = 0; i < 8192; i++) a[i] = 0x5A; }
static void jv_cmd_partfile(void) {           /* third field: the file is missing */
    if (jv_NF > 3) {
        jv_dirty_stack();
        PartitionInfo pm = partitionFile("/nonexistent/x.json", atoi(jv_F[2]));
        jv_oi32(pm.num_chunk); jv_oflush(); return;
    }
    PartitionInfo pi = partitionFile((char *)jv_write_doc("d0", jv_F[1], jv_FL[1]), atoi(jv_F[2]));
    jv_put_part(pi); freeInputChunks(pi);
}
#else
#define jv_cmd_part jv_gone
#define jv_cmd_partfile jv_gone
#endif

#ifndef JV_NO_LOAD
static void jv_cmd_load(void) {
    char *s = loadInputStream((char *)jv_write_doc("d0", jv_F[1], jv_FL[1]));
    jv_ostr(s); free(s);
    jv_oi32(loadInputStream("/nonexistent/x.json") == NULL);
    jv_oflush();
}
static void jv_cmd_bload(void) {
    const char *p = strdup(jv_write_doc("d0", jv_F[1], jv_FL[1]));
    jpstream_verif_memory_footprint = atoi(jv_F[2]);
    int pos = 0; 
    for (int i = 0; i < 100000; i++) {
        char *s = loadBoundedInputStream((char *)p, &pos);
        if (s == NULL) break;
        jv_ostr(s); jv_oi32(pos); jv_oflush();
        free(s);
    }
    jv_ou32(0xFFFFFFFFu); jv_oi32(pos); jv_oi32(jv_open_fds()); jv_oflush();
}
#else
#define jv_cmd_load jv_gone
#define jv_cmd_bload jv_gone
#endif

#ifndef JV_NO_AST
static void jv_put_ast(ASTNode *n) {
    if (n == NULL) { jv_oi32(-1); return; }
    jv_oi32(n->node_type);
    switch (n->node_type) {
    case jnt_number: { double d = n->number; jv_oput(&d, 8); break; }
    case jnt_id: case jnt_string: case jnt_variable: case jnt_function: case jnt_attribute: jv_ostr(n->string); break;
    case jnt_operator: jv_oi32(n->opt); break;
    default: break;
    }
    jv_put_ast(n->left);
    /* a unary operator has no right child */
    jv_put_ast(n->right);
}
static void jv_cmd_ast(void) {
    ASTNode *r = analysisJSONPath(jv_F[1]);
    jv_put_ast(r); jv_oflush();
}
#else
#define jv_cmd_ast jv_gone
static void jv_put_ast(ASTNode *n) { jv_gone(); }
#endif

#ifndef JV_NO_EVAL
/* jv_F[1] = path with a filter, rest: name,text pairs (text field empty length 0xFFFFFFFF impossible -> use "\1" for NULL) */
static ASTNode *jv_find_filter(ASTNode *n) {
    if (!n) return NULL;
    if (n->node_type == jnt_fliter) return n;
    ASTNode *x = jv_find_filter(n->left); if (x) return x;
    return jv_find_filter(n->right);
}
/* jv_F[1]=path with a filter, jv_F[2]=number of conditions n, n names, then sets of n texts ("\1" = no value) */
static void jv_cmd_eval(void) {
    ASTNode *root = analysisJSONPath(jv_F[1]);
    evaluatorModifyReference(root);
    ASTNode *f = jv_find_filter(root);
    int n = atoi(jv_F[2]);
    PredicateCondition *pc = calloc(n + 1, sizeof *pc);
    for (int i = 0; i < n; i++) pc[i].name = jv_F[3 + i];
    for (int k = 3 + n; k + n <= jv_NF && n >= 0; k += n ? n : 1) {
        for (int i = 0; i < n; i++) pc[i].text = jv_F[k + i][0] == '\1' ? NULL : strdup(jv_F[k + i]);
        jv_oi32(evaluateExpression(f->left, pc) ? 1 : 0);
        jv_oi32(evaluateExpression(f->left, pc) ? 1 : 0);
        int kept = 1, cleared = 1;
        for (int i = 0; i < n; i++) {
            if (pc[i].name != jv_F[3 + i]) kept = 0;
            if (jv_F[k + i][0] == '\1' ? pc[i].text != NULL : (pc[i].text == NULL || strcmp(pc[i].text, jv_F[k + i]))) kept = 0;
        }
        clearPredicateCondtion(pc);
        for (int i = 0; i < n; i++) if (pc[i].text != NULL || pc[i].name != jv_F[3 + i]) cleared = 0;
        jv_oi32(kept); jv_oi32(cleared); jv_oflush();
        if (!n) break;
    }
}
#else
#define jv_cmd_eval jv_gone
#endif

#ifndef JV_NO_DFA
static void jv_cmd_dfa(void) {
    JSONQueryDFAContext ctx; memset(&ctx, 0, sizeof ctx);
    JSONQueryDFA *d = jv_F[2][0] == 'a' ? buildJSONQueryDFAFromAST(analysisJSONPath(jv_F[1]), &ctx) : buildJSONQueryDFA(jv_F[1], &ctx);
    if (!d) { jv_oi32(-1); jv_oflush(); return; }
    int S = getDFAStatesNumber(d), I = getDFAInputsNumber(d);
    jv_oi32(S); jv_oi32(I);
    for (int j = 0; j < I; j++) jv_ostr(getDFAInputType(d, j));
    for (int i = 0; i < S; i++) {
        for (int j = 0; j < I; j++) jv_oi32(dfaNextState(d, i, j));
        jv_oi32(getDFAStopState(d, i)); jv_oi32(getDFAAcceptType(d, i));
        JSONQueryIndexPair p = getDFAArrayIndex(d, i); jv_oi32(p.lower); jv_oi32(p.upper);
    }
    jv_oi32(getContextSizeOfPredicateStates(&ctx));
    for (int k = 0; k < getContextSizeOfPredicateStates(&ctx); k++) {
        int st = getContextPredicateStates(&ctx, k);
        jv_oi32(st);
        int m = getContextSizeOfMapping(&ctx, st);
        jv_oi32(m);
        for (int j = 0; j < m; j++) {
            int cs = getContextValueOfMapping(&ctx, st, j);
            jv_oi32(cs);
            ASTNode *t = cs >= 0 && cs < S ? getContextSubtree(&ctx, cs) : NULL;
            jv_oi32(t ? t->node_type : -1);
            jv_ostr(t && t->node_type == jnt_variable ? t->string : "");
        }
        jv_put_ast(getContextSubtree(&ctx, st));
    }
    /* words: each remaining field is a word; symbols separated by '/', "[" is the array symbol, \x01 the empty key */
    for (int f = 3; f < jv_NF; f++) {
        int st = 1;
        char *w = jv_F[f];
        if (jv_FL[f]) for (char *tok = w; tok; ) {
            char *nx = strchr(tok, '/'); if (nx) *nx++ = 0;
            st = dfaNextStateByStr(d, st, !strcmp(tok, "\x01") ? (char*)"" : strcmp(tok, "[") ? tok : DFA_ARRAY);
            tok = nx;
        }
        jv_oi32(st);
    }
    jv_oflush();
}
#else
#define jv_cmd_dfa jv_gone
#endif

#ifndef JV_NO_PIECES
/* pieces: path, flag, piece... : one StreamingAutomaton fed consecutive pieces (flag: 0 all CLOSE, 1 all OPEN, 2 alternating)
 * -> number of matches after each piece, all matches, output of the filter, stack sizes */
static void jv_cmd_pieces(void) {
    JSONQueryDFAContext *ctx = malloc(sizeof *ctx);
    JSONQueryDFA *d = buildJSONQueryDFA(jv_F[1], ctx);
    int flag = atoi(jv_F[2]);
    StreamingAutomaton sa;
    initStreamingAutomaton(&sa, d);
    for (int i = 3; i < jv_NF; i++) {
        char *s = jv_dupz(jv_F[i], jv_FL[i]);
        executeAutomaton(&sa, s, flag == 0 ? CLOSE : flag == 1 ? OPEN : i & 1 ? OPEN : CLOSE);
        free(s);
        jv_oi32(getTupleListSize(sa.tuple_list)); jv_oflush();
    }
    int n = getTupleListSize(sa.tuple_list);
    jv_oi32(n);
    for (int i = 0; i < n; i++) { jv_oi32(getTuple(sa.tuple_list, i).state); jv_oi32(getTuple(sa.tuple_list, i).type); jv_ostr(getTuple(sa.tuple_list, i).text); }
    jv_oflush();
    PredicateFilter pf; initPredicateFilter(&pf, sa.tuple_list, ctx);
    Output *o = generateFinalOutput(&pf);
    jv_put_output(o);
    jv_oi32(syntaxStackSize(&sa.syntax_stack));
    if (o) freeOutput(o);
    destroyPredicateFilter(&pf);
    if (sa.constraint_table) freeConstraintTable(sa.constraint_table);
    destroyStreamingAutomaton(&sa);
    jv_oflush();
}
#else
#define jv_cmd_pieces jv_gone
#endif

#ifndef JV_NO_PARTIAL
/* partial: path, kind (s, p or o), workers, schedule, training text, piece... : one StreamingContext fed consecutive pieces by the partial runs
 * -> number of results so far after each piece, the last output */
static void jv_cmd_partial(void) {
    PathProcessor *pp = createPathProcessor(jv_F[1]);
    char kind = jv_F[2][0]; int n = atoi(jv_F[3]); unsigned seed = atoi(jv_F[4]);
    ConstraintTable *ct = NULL;
    if (kind == 'o') ct = collectDataConstraints(pp, jv_write_doc("d1", jv_F[5], jv_FL[5]));
    if (kind != 's' && getDFAStatesNumber(pp->query_automaton) > MAX_STATE) kind = 's';
    StreamingContext ci; initStreamingContext(&ci);
    Output *o = NULL;
    for (int i = 6; i < jv_NF; i++) {
        char *s = jv_dupz(jv_F[i], jv_FL[i]);
        if (seed) sched_shim_on(seed + i);
        o = kind == 's' ? serialPartialRun(pp, s, &ci) : kind == 'p' ? parallelPartialRun(pp, s, n, &ci) : parallelPartialRunOpt(pp, s, n, ct, &ci);
        sched_shim_off();
        free(s);
        jv_oi32(o ? getOutputSize(o) : -1); jv_oflush();
    }
    jv_put_output(o); jv_oflush();
    destroyStreamingContext(&ci);
    if (o) freeOutput(o);
    if (ct) freeConstraintTable(ct);
    freePathProcessor(pp);
}
#else
#define jv_cmd_partial jv_gone
#endif

#ifndef JV_NO_INTERNAL
/* internal: README "internal API" pipelines.  jv_F[1]=doc jv_F[2]=path jv_F[3]=workers jv_F[4]=training document, then modes:
 * s CLOSE / S OPEN: streaming; p: partitionFile; i: partitionInputStream; o: partitionFile with constraints of the training document; O: same with partitionInputStream
 * fN: the memory is freed (1) or not (0) at the end of each pipeline; cN sets the schedule */
static void jv_cmd_internal(void) {
    char *p = strdup(jv_write_doc("d0", jv_F[1], jv_FL[1])), *tr = strdup(jv_write_doc("d1", jv_F[4], jv_FL[4]));
    int seed = 0, n = atoi(jv_F[3]);
    for (int k = 5; k < jv_NF; k++) {
        char m = jv_F[k][0];
        if (m == 'c') { seed = atoi(jv_F[k] + 1); continue; }
        JSONQueryDFAContext *ctx = malloc(sizeof *ctx);
        JSONQueryDFA *d = buildJSONQueryDFA(jv_F[2], ctx);
        TupleList *tl; StreamingAutomaton sa, ts; ParallelAutomata pa; PartitionInfo pi;
        char *stream = NULL;
        if (m == 's' || m == 'S') {
            stream = loadInputStream(p);
            initStreamingAutomaton(&sa, d);
            executeAutomaton(&sa, stream, m == 'S' ? OPEN : CLOSE);
            tl = sa.tuple_list;
        } else {
            ConstraintTable *ct = NULL;
            if (getDFAStatesNumber(d) > MAX_STATE) { jv_ou32(0xFFFFFFFEu); continue; }   /* more than the workers are made for */
            if (m == 'o' || m == 'O') {
                char *s = loadInputStream(tr);
                initStreamingAutomaton(&ts, d);
                executeAutomaton(&ts, s, OPEN);
                free(s); ct = ts.constraint_table;
            }
            if (m == 'i' || m == 'O') { stream = loadInputStream(p); pi = partitionInputStream(stream, n); }
            else pi = partitionFile(p, n);
            initParallelAutomata(&pa, d);
            if (seed) sched_shim_on(seed);
            executeParallelAutomata(&pa, pi, ct);
            sched_shim_off();
            tl = pa.tuple_list;
        }
        PredicateFilter pf;
        initPredicateFilter(&pf, tl, ctx);
        Output *o = generateFinalOutput(&pf);
        jv_put_output(o); jv_oflush();
        if (o) freeOutput(o);
        destroyPredicateFilter(&pf);
        if (m == 's' || m == 'S') { if (sa.constraint_table) freeConstraintTable(sa.constraint_table); destroyStreamingAutomaton(&sa); }
        else {
            freeInputChunks(pi); destroyParallelAutomata(&pa);
            if (m == 'o' || m == 'O') { freeConstraintTable(ts.constraint_table); destroyStreamingAutomaton(&ts); }
        }
        free(stream);
    }
    jv_oflush();
}
#else
#define jv_cmd_internal jv_gone
#endif

#ifndef JV_NO_CT
/* jv_F[1] = document, jv_F[2] = path, rest: symbols to look up ("[" or a key); first the transition table of the processor */
static void jv_cmd_ct(void) {
    const char *p = strdup(jv_write_doc("d0", jv_F[1], jv_FL[1]));
    PathProcessor *pp = createPathProcessor(jv_F[2]);
    JSONQueryDFA *d = pp->query_automaton;
    int S = getDFAStatesNumber(d), I = getDFAInputsNumber(d);
    jv_oi32(S); jv_oi32(I);
    for (int j = 0; j < I; j++) jv_ostr(getDFAInputType(d, j));
    for (int i = 0; i < S; i++) {
        for (int j = 0; j < I; j++) jv_oi32(dfaNextState(d, i, j));
        JSONQueryIndexPair x = getDFAArrayIndex(d, i); jv_oi32(x.lower); jv_oi32(x.upper);
    }
    ConstraintTable *ct = collectDataConstraints(pp, (char *)p);
    jv_oi32(ct != NULL);
    for (int f = 3; ct && f < jv_NF; f++) {       /* query the table: "[" for arrays, key otherwise */
        ConstraintInfo ci; memset(&ci, 0xEE, sizeof ci); ci.num_state = -1;
        if (jv_FL[f] == 2 && !strcmp(jv_F[f], "\1[")) ci.type = LB;
        else { ci.type = KY; if (jv_FL[f] >= sizeof ci.token_name) { jv_oi32(-1); continue; } strcpy(ci.token_name, jv_F[f]); }
        updateStateInfo(ct, &ci);
        jv_oi32(ci.num_state);
        for (int j = 0; j < ci.num_state; j++) jv_oi32(ci.state_set[j]);
    }
    freeConstraintTable(ct);
    jv_oflush();
}
#else
#define jv_cmd_ct jv_gone
#endif

void jv_rx_i32(int v) { jv_oi32(v); if (jv_olen > 1 << 16) jv_oflush(); }
void jv_rx_flush(void) { jv_oflush(); }
void jv_cmd_rx_fields(char **f, uint32_t *fl, int nf);
#ifndef JV_NO_RX
static void jv_cmd_rx(void) { jv_cmd_rx_fields(jv_F, jv_FL, jv_NF); }
#else
#define jv_cmd_rx jv_gone
#endif

static const struct { const char *n; void (*f)(void); } jv_CMDS[] = {
    {"run", jv_cmd_run}, {"repeat", jv_cmd_repeat}, {"lex", jv_cmd_lex}, {"part", jv_cmd_part}, {"partfile", jv_cmd_partfile},
    {"load", jv_cmd_load}, {"bload", jv_cmd_bload}, {"ast", jv_cmd_ast}, {"eval", jv_cmd_eval}, {"dfa", jv_cmd_dfa},
    {"pieces", jv_cmd_pieces}, {"internal", jv_cmd_internal}, {"ct", jv_cmd_ct}, {"rx", jv_cmd_rx}, {"hist", jv_cmd_hist},
    {"partial", jv_cmd_partial},
};

int main(int argc, char **argv) {
    if (argc < 2) return 2;
    snprintf(jv_scratch, sizeof jv_scratch, "%s", argv[1]);
    long cpu = argc > 2 ? atol(argv[2]) : 20;
    int reply = dup(1);
    fcntl(reply, F_SETFD, FD_CLOEXEC);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    char errlog[PATH_MAX]; snprintf(errlog, sizeof errlog, "%s/stderr.log", jv_scratch);
    signal(SIGPIPE, SIG_IGN);
    for (;;) {
        uint32_t total;
        if (!jv_rd(0, &total, 4)) return 0;
        char *req = malloc(total + 1);
        if (!jv_rd(0, req, total)) return 0;
        req[total] = 0;
        int pfd[2]; if (pipe(pfd)) return 3;
        pid_t pid = fork();
        if (pid < 0) return 4;
        if (pid == 0) {
            close(pfd[0]); close(0); close(reply); jv_out_fd = pfd[1];
            int e = open(errlog, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
            if (e >= 0) { dup2(e, 2); close(e); }
            struct rlimit rl = {cpu, cpu + 2}; setrlimit(RLIMIT_CPU, &rl);
            struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
            struct rlimit rf = {1u << 30, 1u << 30}; setrlimit(RLIMIT_FSIZE, &rf);
            int cap = 64; jv_F = malloc(cap * sizeof *jv_F); jv_FL = malloc(cap * sizeof *jv_FL);
            for (uint32_t o = 0; o + 4 <= total; ) {
                uint32_t l; memcpy(&l, req + o, 4); o += 4;
                if (jv_NF == cap) { cap *= 2; jv_F = realloc(jv_F, cap * sizeof *jv_F); jv_FL = realloc(jv_FL, cap * sizeof *jv_FL); }
                jv_F[jv_NF] = jv_dupz(req + o, l); jv_FL[jv_NF++] = l; o += l;
            }
            for (size_t k = 0; k < sizeof jv_CMDS / sizeof *jv_CMDS; k++)
                if (!strcmp(jv_F[0], jv_CMDS[k].n)) { jv_CMDS[k].f(); _exit(0); }
            _exit(94);
        }
        close(pfd[1]); free(req);
        char *acc = NULL; size_t n = 0, cap = 0; int timed = 0;
        for (;;) {
            if (n + 65536 > cap) { cap = (n + 65536) * 2; acc = realloc(acc, cap); }
            struct pollfd p = {pfd[0], POLLIN, 0};
            int k = poll(&p, 1, 600 * 1000);
            if (k == 0) { kill(pid, SIGKILL); timed = 1; break; }
            ssize_t r = read(pfd[0], acc + n, 65536);
            if (r < 0 && errno == EINTR) continue;
            if (r <= 0) break;
            n += r;
            if (n > (256u << 20)) { kill(pid, SIGKILL); break; }
        }
        close(pfd[0]);
        int st = 0; waitpid(pid, &st, 0);
        uint32_t status = timed ? 0x20000u : WIFSIGNALED(st) ? 0x10000u | WTERMSIG(st) : (uint32_t)WEXITSTATUS(st);
        uint32_t ln = (uint32_t)n;
        jv_wr(reply, &status, 4); jv_wr(reply, &ln, 4); jv_wr(reply, acc, n);
        free(acc);
    }
}
