/* duck-lisp conformance harness: session driver.
 *
 * Reads sessions on stdin, runs each in a forked child through the public C API of /repo's current tree, and writes
 * one line per observation on stdout.
 *
 * Input (line oriented, chunk bodies are byte counted):
 *   S <id> <runtime objects> <comptime objects> <flags>
 *        flags: 'i' infer parentheses, 'I' only in U and u texts (only with USE_PARENTHESIS_INFERENCE), 'k' keep bytecode buffers alive,
 *               'g' collect before every emit, 'x'/'y' collect at every / a third of all allocations (DUCK_VERIFY builds)
 *   X <nbytes>\n<bytes>\n   load and execute one source chunk
 *   C <nbytes>\n<bytes>\n   load only
 *   U / u <nbytes>\n<bytes>\n   as X / C, for texts outside the specification: what they show is bracketed by U< and U>
 *   R   soft reset           G   collect            P   pop all
 *   E   end of session
 * Output per session:
 *   B <id>
 *   X ok|<error>            compile status of a chunk
 *   V <canonical value>     a value emitted by the program at run time (v: at compile time)
 *   D <n>                   user object <n> destroyed
 *   Q ok <canonical value> | Q err <code> <messages?>
 *   L <stack length>
 *   W                       soft reset done...
 *   Z <id> ok|sig <n>|exit <n>
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <stdint.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "watch.h"
#include "duckLisp.h"
#include "duckVM.h"
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include "DuckLib/array.h"

static duckLisp_t dl;
static duckVM_t vm;
static dl_memoryAllocation_t ma;
static const char *flags = "";
static int budget;
static int canonFail;

static void canonTop(duckVM_t *v, int depth);

static void canonErr(void) { canonFail = 1; fputs("!E", stdout); }

static const char *typeName(dl_size_t t) {
	switch (t) {
	case duckVM_object_type_none: return "none";
	case duckVM_object_type_bool: return "bool";
	case duckVM_object_type_integer: return "integer";
	case duckVM_object_type_float: return "float";
	case duckVM_object_type_string: return "string";
	case duckVM_object_type_list: return "list";
	case duckVM_object_type_symbol: return "symbol";
	case duckVM_object_type_function: return "function";
	case duckVM_object_type_closure: return "closure";
	case duckVM_object_type_vector: return "vector";
	case duckVM_object_type_type: return "type";
	case duckVM_object_type_composite: return "composite";
	case duckVM_object_type_user: return "user";
	case duckVM_object_type_cons: return "cons";
	default: return NULL;
	}
}

#ifdef DUCK_VERIFY
/* Flag x: collect at every allocation; flag y: at a pseudo-random third of them. */
int duckVM_verify_collectNow(duckVM_t *v) {
	static unsigned rnd = 1;
	(void) v;
	if (strchr(flags, 'x')) return 1;
	if (strchr(flags, 'y')) { rnd = rnd * 1103515245u + 12345u; return (rnd >> 16) % 3 == 0; }
	return 0;
}
#endif

/* User types are named by the order in which they are first printed. */
static struct { dl_size_t t[256]; int n; } typesSeen[2];
static void printTypeId(duckVM_t *v, dl_size_t t) {
	const char *n = typeName(t);
	if (n) { printf("t%s", n); return; }
	int w = v != &vm, i;
	for (i = 0; i < typesSeen[w].n; i++) if (typesSeen[w].t[i] == t) break;
	if (i == typesSeen[w].n && i < 256) typesSeen[w].t[typesSeen[w].n++] = t;
	printf("T%d", i + 1);
}

static void printBytes(const dl_uint8_t *s, dl_size_t n) {
	/* letters, digits and a few marks stand for themselves; everything else is %xx */
	for (dl_size_t i = 0; i < n; i++) {
		unsigned c = s[i];
		if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '*' || c == '+' || c == '?') putchar((int) c);
		else printf("%%%02x", c);
	}
}

/* Print the canonical form of the value on top of the stack; leaves the stack as it was. */
static void canonTop(duckVM_t *v, int depth) {
	dl_error_t e;
	duckVM_object_type_t type;
	if (--budget < 0 || depth > 40) { fputs("~", stdout); return; }
	e = duckVM_typeOf(v, &type);
	if (e) { canonErr(); return; }
	switch (type) {
	case duckVM_object_type_bool: {
		dl_bool_t b; if ((e = duckVM_copyBoolean(v, &b))) { canonErr(); return; }
		fputs(b ? "bt" : "bf", stdout); return;
	}
	case duckVM_object_type_integer: {
		dl_ptrdiff_t i; if ((e = duckVM_copySignedInteger(v, &i))) { canonErr(); return; }
		printf("i%ld", (long) i); return;
	}
	case duckVM_object_type_float: {
		double d; if ((e = duckVM_copyFloat(v, &d))) { canonErr(); return; }
		/* exact: mantissa and exponent of the normalised dyadic rational */
		if (d != d) { fputs("fnan", stdout); return; }
		if (d == 0.0) { fputs("f0", stdout); return; }
		if (d > 1e308 || d < -1e308) { fputs(d > 0 ? "finf" : "f-inf", stdout); return; }
		int ex = 0;
		while (d != (double)(long long) d && ex < 1100) { d *= 2; ex++; }
		if (ex < 1100 && d < 9e15 && d > -9e15) {
			long long m = (long long) d;
			while (m % 2 == 0) { m /= 2; ex--; }
			printf("f%lldp%d", m, -ex);
		}
		else printf("f~%.17g", d);
		return;
	}
	case duckVM_object_type_string: {
		dl_uint8_t *s = NULL; dl_size_t n = 0;
		e = duckVM_copyString(v, &s, &n);
		if (e) { canonErr(); return; }
		fputs("s'", stdout); printBytes(s, n); putchar('\'');
		if (s != NULL) (void) DL_FREE(v->memoryAllocation, &s);
		return;
	}
	case duckVM_object_type_symbol: {
		dl_uint8_t *s = NULL; dl_size_t n = 0;
		e = duckVM_copySymbolName(v, &s, &n);
		if (e) { canonErr(); return; }
		putchar('y'); printBytes(s, n);
		if (s != NULL) (void) DL_FREE(v->memoryAllocation, &s);
		return;
	}
	case duckVM_object_type_function: fputs("F", stdout); return;
	case duckVM_object_type_closure: {
		dl_uint8_t a; dl_bool_t va;
		if (duckVM_copyClosureArity(v, &a) || duckVM_copyClosureIsVariadic(v, &va)) { canonErr(); return; }
		printf("c%u%s", (unsigned) a, va ? "v" : ""); return;
	}
	case duckVM_object_type_type: {
		dl_size_t t; if (duckVM_copyType(v, &t)) { canonErr(); return; }
		printTypeId(v, t); return;
	}
	case duckVM_object_type_composite: {
		dl_size_t t; if (duckVM_copyCompositeType(v, &t)) { canonErr(); return; }
		putchar('<'); printTypeId(v, t); putchar(' ');
		if (duckVM_pushCompositeValue(v)) { canonErr(); return; }
		canonTop(v, depth + 1); (void) duckVM_pop(v);
		putchar(' ');
		if (duckVM_pushCompositeFunction(v)) { canonErr(); return; }
		canonTop(v, depth + 1); (void) duckVM_pop(v);
		putchar('>'); return;
	}
	case duckVM_object_type_user: {
		fputs("u", stdout); return;
	}
	case duckVM_object_type_vector: {
		dl_size_t n = 0;
		if (duckVM_length(v, &n)) { canonErr(); return; }
		putchar('[');
		for (dl_size_t i = 0; i < n && i < 64; i++) {
			if (i) putchar(' ');
			if (duckVM_pushElement(v, (dl_ptrdiff_t) i)) { canonErr(); break; }
			canonTop(v, depth + 1); (void) duckVM_pop(v);
		}
		putchar(']'); return;
	}
	case duckVM_object_type_list:
	case duckVM_object_type_cons: {
		dl_bool_t nil = dl_false;
		if (duckVM_isNil(v, &nil)) { canonErr(); return; }
		if (nil) { putchar('n'); return; }
		/* (a b . c): walk the spine with one scratch slot above the value */
		putchar('(');
		if (duckVM_push(v, -1)) { canonErr(); return; }
		int first = 1;
		for (;;) {
			/* stack: list spine */
			if (!first) putchar(' ');
			first = 0;
			if (duckVM_pushCar(v)) { canonErr(); break; }
			canonTop(v, depth + 1); (void) duckVM_pop(v);
			if (duckVM_pushCdr(v)) { canonErr(); break; }
			/* stack: list spine rest */
			if (duckVM_copyFromTop(v, -2)) { canonErr(); (void) duckVM_pop(v); break; }
			(void) duckVM_pop(v);
			if (duckVM_typeOf(v, &type)) { canonErr(); break; }
			if (type != duckVM_object_type_list && type != duckVM_object_type_cons) {
				fputs(" . ", stdout); canonTop(v, depth + 1); break;
			}
			if (duckVM_isNil(v, &nil)) { canonErr(); break; }
			if (nil) break;
			if (--budget < 0) { fputs(" ~", stdout); break; }
		}
		(void) duckVM_pop(v);
		putchar(')'); return;
	}
	default: printf("?%d", (int) type); return;
	}
}

static void canon(duckVM_t *v) { budget = 400; canonTop(v, 0); }

/* ---- host callbacks ---- */

/* A program that shows more than the specification follows is stopped like one that takes too long. */
static void shown(void) { static int k; fflush(stdout); if (++k > 20000) raise(SIGXCPU); }

static dl_error_t cb_emit(duckVM_t *v) {
	/* stack: value */
	if (strchr(flags, 'g')) { dl_error_t e = duckVM_garbageCollect(v); if (e) return e; }
	fputs(v == &vm ? "V " : "v ", stdout); canon(v); putchar('\n'); shown();
	return dl_error_ok;
}
static dl_error_t cb_gc(duckVM_t *v) {
	dl_error_t e = duckVM_garbageCollect(v);
	if (e) return e;
	return duckVM_pushNil(v);
}
/* (host-call f a): call a duck-lisp function back from C */
static dl_error_t cb_call1(duckVM_t *v) {
	dl_error_t e;
	/* C's own stack bounds how deep calls back may nest. */
	static int nested = 0;
	if (nested >= 1000) return dl_error_bufferOverflow;
	/* stack: f a */
	e = duckVM_push(v, -2); if (e) return e;      /* f a f */
	e = duckVM_push(v, -2); if (e) return e;      /* f a f a */
	dl_size_t before = duckVM_stackLength(v);
	nested++;
	e = duckVM_call(v, -2, 1);
	nested--;
	if (e) return e;
	/* Leave the result where `f` was, whatever the call left below it. */
	dl_size_t now = duckVM_stackLength(v);
	if (now + 3 < before) return dl_error_bufferUnderflow;
	dl_size_t extra = now + 3 - before;
	if (extra == 0) return dl_error_ok;
	e = duckVM_copyFromTop(v, -(dl_ptrdiff_t) extra - 1); if (e) return e;
	return duckVM_popSeveral(v, extra);
}
static dl_error_t cb_fail(duckVM_t *v) {
	dl_error_t e = duckVM_error_pushRuntime(v, DL_STR("host-fail: requested."));
	return e ? e : dl_error_invalidValue;
}
static dl_error_t user_destructor(duckVM_gclist_t *g, duckVM_object_t *o) {
	(void) g;
	printf("D %ld\n", (long) (intptr_t) o->value.user.data); fflush(stdout);
	return dl_error_ok;
}
static dl_error_t user_marker(duckVM_gclist_t *g, dl_array_t *d, duckVM_object_t *o) {
	(void) g; (void) d; (void) o; return dl_error_ok;
}
/* (user n): a host object carrying n */
static dl_error_t cb_user(duckVM_t *v) {
	dl_error_t e; dl_ptrdiff_t n;
	e = duckVM_copySignedInteger(v, &n); if (e) return e;
	e = duckVM_pop(v); if (e) return e;
	duckVM_object_t o = duckVM_object_makeUser((void *) (intptr_t) n, user_destructor, user_marker);
	return duckVM_object_push(v, &o);
}
/* (host-args a b c): order of arguments as seen by C */
static dl_error_t cb_args3(duckVM_t *v) {
	/* stack: a b c -> (a b c) printed by the canonical printer as one event per argument */
	dl_error_t e;
	fputs(v == &vm ? "V " : "v ", stdout);
	for (int i = -3; i < 0; i++) {
		e = duckVM_push(v, i < -1 ? i : -1); if (e) return e;
		canon(v); if (i < -1) putchar(',');
		e = duckVM_pop(v); if (e) return e;
	}
	putchar('\n'); shown();
	e = duckVM_popSeveral(v, 3); if (e) return e;
	return duckVM_pushNil(v);
}

static struct { const char *name; dl_error_t (*cb)(duckVM_t *); const char *type; } callbacks[] = {
	{"emit", cb_emit, "(I)"},
	{"host-gc", cb_gc, "()"},
	{"host-fail", cb_fail, "()"},
	{"host-user", cb_user, "(I)"},
	{"host-args", cb_args3, "(I I I)"},
	{"host-call", cb_call1, "(I I)"},
};
#define NCB (sizeof callbacks / sizeof *callbacks)

/* ---- sessions ---- */

static char *readBody(FILE *in, size_t n) {
	char *b = malloc(n + 1);
	if (fread(b, 1, n, in) != n) { free(b); return NULL; }
	b[n] = 0;
	int c = fgetc(in); (void) c;
	return b;
}

static void clearErrors(dl_array_t *a) { dl_uint8_t c; while (a->elements_length) { if (dl_array_popElement(a, &c)) break; } }

static void showErrors(dl_array_t *a) {
	if (!getenv("DLH_VERBOSE")) return;
	fputs("M ", stdout);
	for (dl_size_t i = 0; i < a->elements_length; i++) { int c = ((dl_uint8_t *) a->elements)[i]; putchar(c == '\n' ? '|' : c); }
	putchar('\n');
}

struct op { char k; size_t n; char *body; struct op *next; };

static void runSession(long maxRun, long maxComp, struct op *ops) {
	dl_error_t e;
	size_t poolSize = 16u * 1024 * 1024;
	void *pool = malloc(poolSize);
	struct { dl_uint8_t *b; void *next; } *dummy = NULL; (void) dummy;
	e = dl_memory_init(&ma, pool, poolSize, dl_memoryFit_best);
	if (e) { printf("I memory %d\n", e); return; }
	e = duckLisp_init(&dl, &ma, (dl_size_t) maxComp
#ifdef USE_PARENTHESIS_INFERENCE
	                  , (dl_size_t) maxComp
#endif
	                  );
	if (e) { printf("I compiler %d\n", e); return; }
	e = duckVM_init(&vm, &ma, (dl_size_t) maxRun);
	if (e) { printf("I vm %d\n", e); return; }
	for (size_t i = 0; i < NCB; i++) {
		e = duckLisp_linkCFunction(&dl, callbacks[i].cb, (dl_uint8_t *) callbacks[i].name, strlen(callbacks[i].name)
#ifdef USE_PARENTHESIS_INFERENCE
		                           , (dl_uint8_t *) callbacks[i].type, strlen(callbacks[i].type)
#endif
		                           );
		if (e) { printf("I link %d\n", e); return; }
		e = duckVM_linkCFunction(&vm, duckLisp_symbol_nameToValue(&dl, (dl_uint8_t *) callbacks[i].name, strlen(callbacks[i].name)), callbacks[i].cb);
		if (e) { printf("I vmlink %d\n", e); return; }
	}
	clearErrors(&dl.errors); clearErrors(&vm.errors);
	for (struct op *o = ops; o; o = o->next) {
		switch (o->k) {
		case 'X': case 'C': case 'U': case 'u': {
			if (o->k == 'U' || o->k == 'u') { printf("U<\n"); fflush(stdout); }
			dl_uint8_t *bc = NULL; dl_size_t bclen = 0;
			/* exact-size copy so that reads past the source are visible to ASAN */
			dl_uint8_t *src = malloc(o->n ? o->n : 1); memcpy(src, o->body, o->n);
			e = duckLisp_loadString(&dl,
#ifdef USE_PARENTHESIS_INFERENCE
			                        (strchr(flags, 'i') || (strchr(flags, 'I') && (o->k == 'U' || o->k == 'u'))) ? dl_true : dl_false,
#endif
			                        &bc, &bclen, src, o->n, DL_STR("chunk"));
			memset(src, 0x5A, o->n); free(src);
			if (e) printf("X %d %d\n", e, dl.errors.elements_length > 0);
			else { printf("X ok\n"); if (getenv("DLH_VERBOSE")) printf("N %lu\n", (unsigned long) bclen); }
			fflush(stdout);
			showErrors(&dl.errors); clearErrors(&dl.errors);
			if (!e && (o->k == 'X' || o->k == 'U')) {
				dl_error_t re = duckVM_execute(&vm, bc, bclen);
				if (bc && !strchr(flags, 'k')) { memset(bc, 0xFF, bclen); (void) dl_free(&ma, (void **) &bc); }
				if (re) {
					printf("Q err %d %d\n", re, vm.errors.elements_length > 0); fflush(stdout);
					showErrors(&vm.errors);
				}
				else {
					fputs("Q ok ", stdout);
					if (duckVM_stackLength(&vm) > 0) canon(&vm); else fputs("none", stdout);
					putchar('\n'); fflush(stdout);
				}
				printf("L %lu %lu\n", (unsigned long) duckVM_stackLength(&vm), (unsigned long) vm.call_stack.elements_length); fflush(stdout);
				clearErrors(&vm.errors);
			}
			if (o->k == 'U' || o->k == 'u') { typesSeen[0].n = typesSeen[1].n = 0; printf("U>\n"); fflush(stdout); }
			break;
		}
		case 'R': e = duckVM_softReset(&vm); printf("R %d %lu\n", e, (unsigned long) duckVM_stackLength(&vm)); fflush(stdout); break;
		case 'G': e = duckVM_garbageCollect(&vm); printf("G %d\n", e); fflush(stdout); break;
		case 'P': e = duckVM_popAll(&vm); printf("P %d %lu\n", e, (unsigned long) duckVM_stackLength(&vm)); fflush(stdout); break;
		}
	}
	printf("K\n"); fflush(stdout);
	duckVM_quit(&vm);
	duckLisp_quit(&dl);
	dl_memory_quit(&ma);
	free(pool);
}

int main(int argc, char *argv[]) {
	FILE *in = stdin;
	char line[256];
	int tmo = argc > 1 ? atoi(argv[1]) : 10;
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	while (fgets(line, sizeof line, in)) {
		char id[64], fl[32] = ""; long mr, mc;
		if (line[0] != 'S') continue;
		if (sscanf(line, "S %63s %ld %ld %31s", id, &mr, &mc, fl) < 3) return 2;
		struct op *head = NULL, **tail = &head;
		while (fgets(line, sizeof line, in)) {
			if (line[0] == 'E') break;
			struct op *o = calloc(1, sizeof *o); o->k = line[0];
			if (strchr("XCUu", o->k)) { o->n = (size_t) atol(line + 2); o->body = readBody(in, o->n); if (!o->body) return 2; }
			*tail = o; tail = &o->next;
		}
		printf("B %s\n", id); fflush(stdout);
		flags = fl;
		pid_t p = fork();
		if (p == 0) {
			struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
			rl.rlim_cur = tmo; rl.rlim_max = tmo + 1; setrlimit(RLIMIT_CPU, &rl);
			rl.rlim_cur = 100 << 20; rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_STACK, &rl);
			alarm((unsigned) (tmo * 6));
			watchMemory(1500);
			runSession(mr, mc, head);
			fflush(stdout); _exit(0);
		}
		int st = 0; waitpid(p, &st, 0);
		if (WIFSIGNALED(st)) printf("Z %s sig %d\n", id, WTERMSIG(st));
		else if (WEXITSTATUS(st)) printf("Z %s exit %d\n", id, WEXITSTATUS(st));
		else printf("Z %s ok\n", id);
		fflush(stdout);
		while (head) { struct op *n = head->next; free(head->body); free(head); head = n; }
	}
	return 0;
}
