// Independent literal Turing machine interpreter (the oracle).  Cells: write[], dir[] (+1/-1), next[].
// next: >=0 state; -1 halt.  undefined cells are given as write 1, right, halt by the caller.
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef struct {
  int64_t cap, origin, pos, lo, hi, steps; // lo..hi visited (inclusive) indexes
  int32_t state, from_state, from_sym, halted, nsym, nstate;
  uint8_t *tape; uint8_t w[1024]; int8_t d[1024]; int32_t n[1024];
} Sim;
Sim *sim_new(int ns, int nk, const uint8_t *w, const int8_t *d, const int32_t *n) {
  Sim *s = calloc(1, sizeof(Sim));
  s->cap = 4096; s->origin = 2048; s->pos = 2048; s->lo = s->hi = 2048;
  s->tape = calloc(s->cap, 1); s->nsym = nk; s->nstate = ns;
  memcpy(s->w, w, ns*nk); memcpy(s->d, d, ns*nk); memcpy(s->n, n, sizeof(int32_t)*ns*nk);
  return s;
}
void sim_free(Sim *s) { free(s->tape); free(s); }
static void grow(Sim *s) {
  int64_t nc = s->cap * 2, off = s->cap / 2;
  uint8_t *t = calloc(nc, 1);
  memcpy(t + off, s->tape, s->cap);
  free(s->tape); s->tape = t; s->cap = nc; s->pos += off; s->origin += off; s->lo += off; s->hi += off;
}
// run until steps == target or halted
void sim_run(Sim *s, int64_t target) {
  while (!s->halted && s->steps < target) {
    int sym = s->tape[s->pos]; int k = s->state * s->nsym + sym;
    s->tape[s->pos] = s->w[k];
    s->pos += s->d[k];
    s->steps++;
    if (s->pos < s->lo) s->lo = s->pos;
    if (s->pos > s->hi) s->hi = s->pos;
    if (s->n[k] < 0) { s->halted = 1; s->from_state = s->state; s->from_sym = sym; s->state = -1; }
    else s->state = s->n[k];
    if (s->pos < 2 || s->pos > s->cap - 3) grow(s);
  }
}
int64_t sim_score(Sim *s) { int64_t c = 0; for (int64_t i = s->lo; i <= s->hi; i++) c += s->tape[i] != 0; return c; }
int64_t sim_get(Sim *s, int what) {
  switch (what) { case 0: return s->steps; case 1: return s->halted; case 2: return s->state; case 3: return s->from_state;
    case 4: return s->from_sym; case 5: return s->pos - s->origin; case 6: return s->lo - s->origin; case 7: return s->hi - s->origin; }
  return 0;
}
void sim_tape(Sim *s, uint8_t *out) { memcpy(out, s->tape + s->lo, s->hi - s->lo + 1); }
// last step index at which each state was the state *before* a step (state in use), within steps so far:
// run from start for nsteps and fill last[state] = last step number t (0-based config index) with that state, -1 never
void sim_last_seen(Sim *s, int64_t target, int64_t *last) {
  for (int i = 0; i < s->nstate; i++) last[i] = -1;
  while (!s->halted && s->steps < target) { last[s->state] = s->steps; sim_run(s, s->steps + 1); }
}

// start from given cells (index head = head position), state; clears history
void sim_init(Sim *s, const uint8_t *cells, int64_t len, int64_t head, int state) {
  int64_t cap = len * 2 + 4096; uint8_t *t = calloc(cap, 1);
  int64_t off = cap / 4;
  memcpy(t + off, cells, len);
  free(s->tape); s->tape = t; s->cap = cap; s->pos = off + head; s->origin = s->pos;
  s->lo = off < s->pos ? off : s->pos; s->hi = off + len - 1 > s->pos ? off + len - 1 : s->pos;
  s->steps = 0; s->state = state; s->halted = 0; s->from_state = s->from_sym = 0;
}
// run until the configuration equals (state, cells with head index) up to blank ends; cells must be trimmed to contain all non-zeros.
// returns 1 found, 0 not found (limit or halt). max_width: give up beyond.
int sim_find(Sim *s, const uint8_t *cells, int64_t len, int64_t head, int state, int64_t target) {
  int64_t nz = 0; for (int64_t i = 0; i < len; i++) nz += cells[i] != 0;
  int64_t cur = sim_score(s);
  for (;;) {
    if (!s->halted && s->state == state && cur == nz) {
      int ok = 1;
      int64_t base = s->pos - head;
      if (base < 0 || base + len > s->cap) { ok = 0;
        // cells outside allocated area are blank
        ok = 1;
        for (int64_t i = 0; i < len && ok; i++) { int64_t p = base + i; int v = (p < 0 || p >= s->cap) ? 0 : s->tape[p]; if (v != cells[i]) ok = 0; }
      } else ok = memcmp(s->tape + base, cells, len) == 0;
      if (ok) return 1;   // equal number of non-zeros => nothing outside
    }
    if (s->halted || s->steps >= target) return 0;
    int64_t p0 = s->pos, o0 = s->origin; int before = s->tape[p0] != 0;
    sim_run(s, s->steps + 1);
    int64_t q = p0 + (s->origin - o0);
    cur += (s->tape[q] != 0) - before;
  }
}

// run n steps recording the cell index used at each step; returns number recorded (less if it halts)
int64_t sim_seq(Sim *s, int64_t n, uint16_t *out) {
  int64_t i = 0;
  for (; i < n && !s->halted; i++) { out[i] = s->state * s->nsym + s->tape[s->pos]; sim_run(s, s->steps + 1); }
  return i;
}
