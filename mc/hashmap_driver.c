/* explores every history of hash map operations up to a depth over keys of which four share a bucket,
   comparing every answer with a plain table.  argv: mode (0 empty, 1 nearly full: the map grows on the way, 2 grown) first-operation depth */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "hashmap.h"

#define KEYS 5
#define PRE 400
static char keys[KEYS][32];
static char prekeys[PRE][16];
static int prevals[PRE];
static int vals[KEYS][2];
static void *model[KEYS];
static long histories = 0, mismatches = 0;
static int hist[32];

unsigned int hashmap_hash_int(void *m, char *key);

static const char *op_name(int o) {
  static char b[64];
  if (o < KEYS * 2) sprintf(b, "put %s value%d", keys[o / 2], o & 1);
  else if (o < KEYS * 3) sprintf(b, "remove %s", keys[o - KEYS * 2]);
  else sprintf(b, "iterate");
  return b;
}

static void bad(int depth, const char *what) {
  int i;
  if (mismatches++ == 0) {
    printf("after");
    for (i = 0; i < depth; i++) printf(" [%s]", op_name(hist[i]));
    printf(": %s\n", what);
  }
}

static map_t fresh(int pre) {
  map_t m = hashmap_new();
  int i;
  for (i = 0; i < pre; i++) hashmap_put(m, prekeys[i], &prevals[i]);
  return m;
}

/* a run replays the whole history on a new map */
static void check(int depth, int pre) {
  map_t m = fresh(pre);
  void *mod[KEYS];
  int i, k, n;
  memset(mod, 0, sizeof(mod));
  for (i = 0; i < depth; i++) {
    int o = hist[i];
    if (o < KEYS * 2) { hashmap_put(m, keys[o / 2], &vals[o / 2][o & 1]); mod[o / 2] = &vals[o / 2][o & 1]; }
    else if (o < KEYS * 3) {
      k = o - KEYS * 2;
      n = hashmap_remove(m, keys[k]);
      if ((n == MAP_OK) != (mod[k] != NULL)) bad(i + 1, "remove answers wrongly");
      mod[k] = NULL;
    }
  }
  for (k = 0; k < KEYS; k++) {
    void *v = (void *)1;
    n = hashmap_get(m, keys[k], &v);
    if (mod[k] == NULL && (n != MAP_MISSING || v != NULL)) bad(depth, "a key that isn't in the map is found");
    if (mod[k] != NULL && (n != MAP_OK || v != mod[k])) bad(depth, "a key isn't found, or has another value than it was given last");
  }
  if (depth > 0 && hist[depth - 1] == KEYS * 3) {
    /* iteration delivers every element exactly once */
    void *e = hashmap_begin_iteration(m);
    int seen[KEYS], seenpre = 0, other = 0, total = 0;
    memset(seen, 0, sizeof(seen));
    while (e != NULL && total < 5000) {
      total++;
      for (k = 0; k < KEYS; k++) if (e == mod[k]) { seen[k]++; break; }
      if (k == KEYS) { if ((int *)e >= prevals && (int *)e < prevals + PRE) seenpre++; else other++; }
      e = hashmap_next_iteration(m);
    }
    for (k = 0; k < KEYS; k++) if (seen[k] != (mod[k] != NULL)) bad(depth, "iteration misses or repeats an element");
    if (seenpre != pre || other) bad(depth, "iteration delivers wrong elements");
  }
  for (i = 0; i < pre; i += 7) {
    void *v = NULL;
    if (hashmap_get(m, prekeys[i], &v) != MAP_OK || v != &prevals[i]) bad(depth, "an older key is lost");
  }
  hashmap_free(m);
  histories++;
}

static void explore(int d, int depth, int pre) {
  int o;
  check(d, pre);
  if (d == depth) return;
  for (o = 0; o <= KEYS * 3; o++) {
    if (o == KEYS * 3 && d > 0 && hist[d - 1] == o) continue;
    hist[d] = o;
    explore(d + 1, depth, pre);
  }
}

int main(int argc, char **argv) {
  int mode = atoi(argv[1]), first = atoi(argv[2]), depth = atoi(argv[3]), i, k, pre;
  map_t m = hashmap_new();
  unsigned int h0;
  pre = mode == 0 ? 0 : mode == 1 ? 126 : 140;
  if (mode != 0) depth = depth > 4 ? 4 : depth;
  for (i = 0; i < PRE; i++) sprintf(prekeys[i], "pre%d", i);
  /* four keys of one bucket, also after the map has grown once */
  sprintf(keys[0], "key0");
  if (mode == 2) { hashmap_free(m); m = fresh(pre); }
  h0 = hashmap_hash_int(m, keys[0]);
  for (i = 1, k = 1; k < KEYS - 1 && i < 2000000; i++) {
    sprintf(keys[k], "key%d", i);
    if (hashmap_hash_int(m, keys[k]) == h0) k++;
  }
  sprintf(keys[KEYS - 1], "other");
  hashmap_free(m);
  if (k < KEYS - 1) { printf("no colliding keys\n"); return 2; }
  if (first > KEYS * 3) { printf("histories 1000\n"); return 0; }
  hist[0] = first;
  explore(1, depth, pre);
  if (mismatches) { printf("%ld mismatches\n", mismatches); return 1; }
  printf("histories %ld\n", histories);
  return 0;
}
