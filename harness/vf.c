/* Native side of the harness interface: used when a counterexample is replayed against the real build.
   The symbolic engine supplies these functions itself; here they read the recorded inputs. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>

static uint64_t vals[65536], params[16];
static long nvals = -1, npos, nparams;
static char name[256];
static void load(void) {
  if (nvals >= 0) return;
  nvals = 0;
  const char *p = getenv("VF_REPLAY");
  if (!p) return;
  FILE *f = fopen(p, "r");
  if (!f) { perror(p); _exit(45); }
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "harness ", 8)) sscanf(line + 8, "%250s", name);
    else if (!strncmp(line, "param ", 6)) { if (nparams < 16) params[nparams++] = strtoull(line + 6, 0, 10); }
    else if (!strncmp(line, "input ", 6)) { if (nvals < 65536) vals[nvals++] = strtoull(line + 6, 0, 10); }
  }
  fclose(f);
}
static uint64_t next(void) { load(); if (npos >= nvals) { fprintf(stderr, "replay: inputs exhausted\n"); _exit(44); } return vals[npos++]; }
const char *__vf_replay_name(void) { if (!getenv("VF_REPLAY")) return 0; load(); return name; }
uint64_t __vf_sym(uint64_t lo, uint64_t hi) { uint64_t v = next(); if (v < lo || v > hi) { fprintf(stderr, "replay: input out of range\n"); _exit(44); } return v; }
uint64_t __vf_choose(uint64_t n) { uint64_t v = next(); if (v >= n) { fprintf(stderr, "replay: choice out of range\n"); _exit(44); } return v; }
uint64_t __vf_shard(uint64_t n) { return __vf_choose(n); }
void __vf_assume(uint32_t c) { if (!c) { fflush(stdout); _exit(43); } }
void __vf_check(uint32_t c, const char *m, uint64_t n) { if (!c) { fflush(stdout); fprintf(stderr, "REPLAY-FAILED %.*s\n", (int)n, m); _exit(42); } }
void __vf_cover(const char *m, uint64_t n) { (void)m; (void)n; }
void __vf_note(const char *m, uint64_t n) { fprintf(stderr, "note: "); fwrite(m, 1, n, stderr); fprintf(stderr, "\n"); }
uint64_t __vf_conc(uint64_t v) { return v; }
int32_t __vf_engine(void) { return 0; }
uint64_t __vf_param(uint64_t k) { load(); return k < (uint64_t)nparams ? params[k] : 0; }
static const char *colour;
void __vf_colour(const char *value) { colour = value; }
static uint64_t head;
void __vf_head(uint64_t n) { head = n; }
void __vf_hash(uint64_t k) { (void)k; }
struct res { uint64_t code, panicked; uint8_t *out; uint64_t outlen; uint8_t *err; uint64_t errlen; };
static void grow(uint8_t **b, uint64_t *n, uint64_t *cap, const uint8_t *d, uint64_t k) { if (*n + k > *cap) { *cap = (*n + k) * 2 + 64; *b = realloc(*b, *cap); } memcpy(*b + *n, d, k); *n += k; }
/* run the program itself with the given command line in a child process and collect what it prints */
void __vf_run(void *fn, uint64_t argc, char **argv, struct res *r) {
  (void)fn; (void)argc; int o[2], e[2]; memset(r, 0, sizeof *r);
  if (pipe(o) || pipe(e)) { perror("pipe"); _exit(45); }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    dup2(o[1], 1); dup2(e[1], 2); close(o[0]); close(o[1]); close(e[0]); close(e[1]);
    unsetenv("VF_REPLAY"); if (colour) setenv("CLICOLOR_FORCE", colour, 1); else unsetenv("CLICOLOR_FORCE"); setenv("RUST_BACKTRACE", "0", 1); struct rlimit rl = {10, 10}; setrlimit(RLIMIT_CPU, &rl); struct rlimit as = {4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &as);
    execv("/proc/self/exe", argv); _exit(127);
  }
  close(o[1]); close(e[1]);
  struct pollfd pf[2] = {{o[0], POLLIN, 0}, {e[0], POLLIN, 0}}; int open_ = 2, cut = 0; uint64_t oc = 0, ec = 0; static uint8_t buf[65536];
  while (open_) { if (poll(pf, 2, -1) < 0) break; for (int i = 0; i < 2; i++) if (pf[i].fd >= 0 && pf[i].revents) { ssize_t k = read(pf[i].fd, buf, sizeof buf); if (k <= 0) { close(pf[i].fd); pf[i].fd = -1; open_--; } else if (i == 0) { if (r->outlen < (1u << 27)) grow(&r->out, &r->outlen, &oc, buf, k); if (head && r->outlen >= head) { cut = 1; r->outlen = head; kill(p, SIGKILL); for (int q = 0; q < 2; q++) if (pf[q].fd >= 0) { close(pf[q].fd); pf[q].fd = -1; } open_ = 0; } } else grow(&r->err, &r->errlen, &ec, buf, k); } }
  int st; waitpid(p, &st, 0); head = 0;
  if (cut) { r->code = 141; return; }
  if (WIFEXITED(st)) { r->code = WEXITSTATUS(st); r->panicked = r->code == 101; } else { r->code = 128 + WTERMSIG(st); r->panicked = 1; }
}
int32_t __vf_catch(void *fn, void *data) { (void)fn; (void)data; return 0; }
