/* DuckLib conformance harness: reads operation sequences for the dynamic array, the trie, the sorts and the memory
 * allocator of /repo's current tree, runs each session in a forked child, and prints what was observed.
 *
 *   S <id> A <element size> <fit 0|1>            dynamic array
 *   S <id> T <null index>                        trie;      k <hex key> lines declare the keys looked up after every op
 *   S <id> O                                     sorts
 *   S <id> M <arena size> <fit>                  allocator (portable builds only)
 *   ... operations, one per line ...
 *   E
 * Output: "B <id>", one "O ..." line per operation, "Z <id> ok|sig n|exit n".
 *
 * The library is linked with --wrap for malloc and realloc, so that the n-th allocation inside an operation can fail.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "watch.h"
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include "DuckLib/array.h"
#include "DuckLib/trie.h"
#include "DuckLib/sort.h"

static int armed, failAt, seen;
void *__real_malloc(size_t n);
void *__real_realloc(void *p, size_t n);
static int refuse(void) { return armed && ++seen == failAt; }
void *__wrap_malloc(size_t n) { return refuse() ? NULL : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return refuse() ? NULL : __real_realloc(p, n); }
static void arm(int k) { armed = k > 0; failAt = k; seen = 0; }
static void disarm(void) { armed = 0; }

static const char *err(dl_error_t e) {
	switch (e) {
	case dl_error_ok: return "ok";
	case dl_error_invalidValue: return "invalid";
	case dl_error_bufferUnderflow: return "underflow";
	case dl_error_nullPointer: return "null";
	case dl_error_danglingPointer: return "dangling";
	case dl_error_outOfMemory: return "oom";
	default: return "other";
	}
}

static char line[1 << 16];
static char *cur;
static int next(void) { return fgets(line, sizeof(line), stdin) != NULL && (cur = line); }
static long num(void) { return strtol(cur, &cur, 10); }
static char *word(void) {
	while (*cur == ' ') cur++;
	char *s = cur;
	while (*cur && *cur != ' ' && *cur != '\n') cur++;
	if (*cur) *cur++ = 0;
	return s;
}

/* ---- dynamic array ---- */
static size_t esize;
static void encodeTok(unsigned char *b, long v) {
	size_t j;
	for (j = 0; j < esize; j++) b[j] = v == 0 ? 0 : (unsigned char) (2 * v + 1 + 17 * j);
}
static long decodeTok(const unsigned char *b) {
	unsigned char t[256];
	long v = b[0] == 0 ? 0 : (b[0] - 1) / 2;
	encodeTok(t, v);
	return memcmp(t, b, esize) ? -1 : v;
}
static void printToks(const unsigned char *b, size_t n) {
	size_t j;
	for (j = 0; j < n; j++) printf(" %ld", decodeTok(b + j * esize));
}
static void arraySession(void) {
	dl_array_t a;
	dl_memoryAllocation_t ma;
	esize = num();
	int strategy = num() ? dl_array_strategy_fit : dl_array_strategy_double;
#ifdef USE_DUCKLIB_MALLOC
	size_t arena = num();
	void *mem = __real_malloc(arena);
	if (dl_memory_init(&ma, mem, arena, dl_memoryFit_best)) exit(3);
#else
	memset(&ma, 0, sizeof(ma));
#endif
	dl_array_init(&a, &ma, esize, strategy);
	while (next() && line[0] != 'E') {
		char *op = word();
		int f = num();
		size_t n = 0, i;
		dl_error_t e = 0;
		unsigned char *buf = NULL;
		long outs = 0;
		arm(f);
		if (!strcmp(op, "push")) {
			buf = __real_malloc(esize); encodeTok(buf, num()); e = dl_array_pushElement(&a, buf);
		} else if (!strcmp(op, "pushnull")) {
			e = dl_array_pushElement(&a, dl_null);
		} else if (!strcmp(op, "pushn")) {
			n = num(); buf = __real_malloc(esize * n + 1);
			for (i = 0; i < n; i++) encodeTok(buf + i * esize, num());
			e = dl_array_pushElements(&a, buf, n);
		} else if (!strcmp(op, "pushnulln")) {
			n = num(); e = dl_array_pushElements(&a, dl_null, n);
		} else if (!strcmp(op, "pop")) {
			buf = __real_malloc(esize); memset(buf, 0xEE, esize); e = dl_array_popElement(&a, buf); outs = 1;
		} else if (!strcmp(op, "drop")) {
			e = dl_array_popElement(&a, dl_null);
		} else if (!strcmp(op, "popn")) {
			n = num(); buf = __real_malloc(esize * n + 1); memset(buf, 0xEE, esize * n);
			e = dl_array_popElements(&a, buf, n); outs = n;
		} else if (!strcmp(op, "dropn")) {
			n = num(); e = dl_array_popElements(&a, dl_null, n);
		} else if (!strcmp(op, "top")) {
			buf = __real_malloc(esize); memset(buf, 0xEE, esize); e = dl_array_getTop(&a, buf); outs = 1;
		} else if (!strcmp(op, "settop")) {
			buf = __real_malloc(esize); encodeTok(buf, num()); e = dl_array_setTop(&a, buf);
		} else if (!strcmp(op, "get")) {
			long ix = num();
			buf = __real_malloc(esize); memset(buf, 0xEE, esize); e = dl_array_get(&a, buf, ix); outs = 1;
		} else if (!strcmp(op, "set")) {
			long ix = num();
			buf = __real_malloc(esize); encodeTok(buf, num()); e = dl_array_set(&a, buf, ix);
		} else if (!strcmp(op, "clear")) {
			e = dl_array_clear(&a);
		} else if (!strcmp(op, "fresh")) {
			e = dl_array_quit(&a);
			dl_array_init(&a, &ma, esize, strategy);
		} else exit(4);
		disarm();
		printf("O %s ;", err(e));
		if (!e && outs) printToks(buf, outs);
		printf(" ;");
		printToks(a.elements, a.elements_length);
		printf(" ; %d\n", (int) (a.elements_length * esize <= a.elements_memorySize));
		free(buf);
		fflush(stdout);
	}
}

/* ---- trie ---- */
static unsigned char *keys[64];
static size_t keyLen[64];
static int nkeys;
static unsigned char *unhex(const char *h, size_t *n) {
	size_t i;
	unsigned v;
	*n = h[0] == '-' ? 0 : strlen(h) / 2;
	unsigned char *b = __real_malloc(*n ? *n : 1);
	for (i = 0; i < *n; i++) { sscanf(h + 2 * i, "%2x", &v); b[i] = v; }
	return b;
}
static void trieSession(void) {
	dl_trie_t t;
	dl_memoryAllocation_t ma;
	long nul = num();
#ifdef USE_DUCKLIB_MALLOC
	size_t arena = num();
	void *mem = __real_malloc(arena);
	if (dl_memory_init(&ma, mem, arena, dl_memoryFit_best)) exit(3);
#else
	memset(&ma, 0, sizeof(ma));
#endif
	dl_trie_init(&t, &ma, nul);
	nkeys = 0;
	while (next() && line[0] != 'E') {
		char *op = word();
		dl_error_t e = 0;
		int i;
		if (op[0] == 'k') {
			keys[nkeys] = unhex(word(), &keyLen[nkeys]);
			nkeys++;
			continue;
		}
		if (!strcmp(op, "ins")) {
			int f = num(), k = num(), v = num();
			arm(f);
			e = dl_trie_insert(&t, keys[k], keyLen[k], v);
			disarm();
		} else if (!strcmp(op, "quit")) {
			e = dl_trie_quit(&t);
#ifdef USE_DUCKLIB_MALLOC
			dl_size_t used = 0, self = ma.blockList[ma.blockList_indexOfBlockList].block_size;
			dl_memory_usage(&used, ma);
			printf("O %s ; %ld\n", err(e), (long) (used - self));
#else
			printf("O %s ; 0\n", err(e));
#endif
			break;
		} else exit(4);
		printf("O %s ;", err(e));
		for (i = 0; i < nkeys; i++) {
			dl_ptrdiff_t r = -99;
			dl_trie_find(t, &r, keys[i], keyLen[i]);
			printf(" %ld", (long) r);
		}
		putchar('\n');
		fflush(stdout);
	}
}

/* ---- sorts ----  sort <algorithm> <element size> <order> <low> <high> <n> keys...
 * An element's key is its last byte, its identity (when there is room) the first byte. */
static int order, badctx;
static unsigned char *base;
static size_t total;
static const int ctxTag = 42;
static int keyOf(int order, int k) {
	switch (order) {
	case 1: return -k;
	case 2: return k / 2;
	case 3: return 0;
	default: return k;
	}
}
static int compare(const void *l, const void *r, const void *context) {
	int a = keyOf(order, ((const unsigned char *) l)[esize - 1]), b = keyOf(order, ((const unsigned char *) r)[esize - 1]);
	if (context != &ctxTag) badctx = 1;
	return a < b ? -1 : a > b ? 1 : 0;
}
static void sortSession(void) {
	while (next() && line[0] != 'E') {
		word();
		char *alg = word();
		long n, i, low, high;
		size_t j;
		esize = num(); order = num(); low = num(); high = num(); n = num();
		total = n * esize;
		base = __real_malloc(total ? total : 1);
		for (i = 0; i < n; i++) {
			for (j = 0; j < esize; j++) base[i * esize + j] = j == 0 ? i : (unsigned char) (i + j);
			base[i * esize + esize - 1] = num();
		}
		badctx = 0;
		if (alg[0] == 'h') heapsort(base, n, esize, compare, &ctxTag);
		else if (alg[0] == 'l') quicksort_lomuto(base, n, esize, low, high, compare, &ctxTag);
		else quicksort_hoare(base, n, esize, low, high, compare, &ctxTag);
		printf("O %s ;", badctx ? "badctx" : "ok");
		for (i = 0; i < n; i++) {
			int id = esize > 1 ? base[i * esize] : 0;
			for (j = 1; j + 1 < esize; j++) if (base[i * esize + j] != (unsigned char) (id + j)) id = -1;
			printf(" %d:%d", base[i * esize + esize - 1], id);
		}
		putchar('\n');
		free(base);
		fflush(stdout);
	}
}

/* ---- allocator ---- */
#ifdef USE_DUCKLIB_MALLOC
static struct { unsigned char *p; size_t n; int live, gen; } blk[64];
static void fill(int i) {
	size_t j;
	for (j = 0; j < blk[i].n; j++) blk[i].p[j] = (unsigned char) (i * 37 + blk[i].gen * 11 + j * 3);
}
static int intact(int i, size_t n) {
	size_t j;
	for (j = 0; j < n && j < blk[i].n; j++)
		if (blk[i].p[j] != (unsigned char) (i * 37 + blk[i].gen * 11 + j * 3)) return 0;
	return 1;
}
static void memorySession(void) {
	size_t arena = num();
	int fit = num(), i, gen = 0;
	unsigned char *mem = __real_malloc(arena);
	dl_memoryAllocation_t ma;
	memset(mem, 0xA5, arena);
	dl_error_t e = dl_memory_init(&ma, mem, arena, (dl_memoryFit_t) fit);
	printf("O %s ; %d ; 0 0 ;\n", err(e), (int) sizeof(dl_memoryBlock_t));
	if (e) { while (next() && line[0] != 'E'); return; }
	while (next() && line[0] != 'E') {
		char *op = word();
		int id = num(), ok = 1;
		if (!strcmp(op, "malloc")) {
			size_t n = num();
			void *p = NULL;
			e = dl_malloc(&ma, &p, n);
			if (!e) { blk[id].p = p; blk[id].n = n; blk[id].live = 1; blk[id].gen = ++gen; fill(id); }
		} else if (!strcmp(op, "realloc")) {
			size_t n = num();
			void *p = blk[id].live ? blk[id].p : NULL;
			size_t old = blk[id].live ? blk[id].n : 0;
			e = dl_realloc(&ma, &p, n);
			if (!e) {
				blk[id].p = p; blk[id].live = 1;
				blk[id].n = old < n ? old : n;
				ok = intact(id, old);
				blk[id].n = n; blk[id].gen = ++gen; fill(id);
			}
		} else if (!strcmp(op, "free")) {
			void *p = blk[id].live ? blk[id].p : NULL;
			e = dl_free(&ma, &p);
			if (!e) blk[id].live = 0;
			if (!e && p != NULL) ok = 0;
		} else if (!strcmp(op, "freebad")) {
			/* a pointer into the middle of a block, or to one already freed */
			void *p = blk[id].p ? blk[id].p + (blk[id].live ? 8 : 0) : NULL;
			int j;
			for (j = 0; j < 64; j++) if (blk[j].live && blk[j].p == p) p = NULL;
			if (p == (void *) ma.blockList) p = NULL;
			e = dl_free(&ma, &p);
		} else exit(4);
		printf("O %s ; %d ; %ld %ld ;", err(e), ok, (long) ((unsigned char *) ma.blockList - mem), (long) ma.blockList_length);
		for (i = 0; i < 64; i++)
			if (blk[i].live) printf(" %d:%ld:%ld:%d", i, (long) (blk[i].p - mem), (long) blk[i].n, intact(i, blk[i].n));
		putchar('\n');
		fflush(stdout);
	}
}
#endif

int main(int argc, char **argv) {
	int limit = argc > 1 ? atoi(argv[1]) : 10;
	static char body[1 << 16];
	setvbuf(stdin, NULL, _IONBF, 0);
	(void) body;
	while (fgets(line, sizeof(line), stdin)) {
		char id[64], kind;
		if (line[0] != 'S') continue;
		cur = line + 2;
		strncpy(id, word(), 63); id[63] = 0;
		kind = *word();
		/* Collect the session's lines for the child. */
		char *rest = strdup(cur);
		size_t cap = 1 << 14, len = 0;
		char *text = malloc(cap);
		text[0] = 0;
		while (fgets(line, sizeof(line), stdin)) {
			size_t l = strlen(line);
			while (len + l + 1 > cap) text = realloc(text, cap *= 2);
			memcpy(text + len, line, l + 1);
			len += l;
			if (line[0] == 'E') break;
		}
		printf("B %s\n", id);
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			struct rlimit rl = {limit, limit};
			setrlimit(RLIMIT_CPU, &rl);
			alarm(limit * 3);
			watchMemory(1500);
			FILE *f = fmemopen(text, len, "r");
			stdin = f;
			strcpy(line, rest);
			cur = line;
			if (kind == 'A') arraySession();
			else if (kind == 'T') trieSession();
			else if (kind == 'O') sortSession();
#ifdef USE_DUCKLIB_MALLOC
			else if (kind == 'M') memorySession();
#endif
			else _exit(5);
			fflush(stdout);
			_exit(0);
		}
		int st = 0;
		waitpid(p, &st, 0);
		if (WIFSIGNALED(st)) printf("Z %s sig %d\n", id, WTERMSIG(st));
		else if (WEXITSTATUS(st)) printf("Z %s exit %d\n", id, WEXITSTATUS(st));
		else printf("Z %s ok\n", id);
		fflush(stdout);
		free(text);
		free(rest);
	}
	return 0;
}
