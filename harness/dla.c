/* duck-lisp conformance harness: the embedding interface as a stack machine.
 *
 * Input:   S <id> <heap objects> <collect: 0 never forced, 1 at every allocation, n one allocation in n>
 *          <operation> <arguments>          one line each; strings are byte lists "1.2.3" or "-"
 *          E
 * Output:  S <id>
 *          O <ok|err|oom> <result or -> <destructor calls d:n,... or -> <stack tokens>      after every operation
 *          Q <destructor calls>             after duckVM_quit
 *          E <id> <how the process ended>
 * A token describes one value; the objects a value refers to are numbered in the order a walk from the bottom of the
 * stack meets them and are described after their first mention, depth first.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/wait.h>
#include "watch.h"
#include "duckLisp.h"
#include "duckVM.h"

static duckLisp_t dl;
static dl_memoryAllocation_t cma;
static duckVM_t *VM;
static unsigned char *setup;
static dl_size_t setupLength;

/* ---- collections ---- */
static unsigned gcEvery, gcState;
int duckVM_verify_collectNow(duckVM_t *v) {
	(void) v;
	if (gcEvery == 0) return 0;
	gcState = gcState * 1103515245u + 12345u;
	return (gcState >> 16) % gcEvery == 0;
}

/* ---- host objects ---- */
#define USERS 64
static struct user { int id; duckVM_object_t *held; int destroyed; } users[USERS];
static dl_error_t userMark(duckVM_gclist_t *g, dl_array_t *dispatch, duckVM_object_t *o) {
	struct user *u = o->value.user.data;
	(void) g;
	return u->held ? dl_array_pushElement(dispatch, &u->held) : dl_error_ok;
}
static dl_error_t userDestroy(duckVM_gclist_t *g, duckVM_object_t *o) {
	struct user *u = o->value.user.data;
	(void) g;
	u->destroyed++;
	return dl_error_ok;
}
static void sayUsers(void) {
	int any = 0;
	for (int i = 0; i < USERS; i++) if (users[i].destroyed) { printf("%s%d:%d", any ? "," : "", i, users[i].destroyed); any = 1; }
	if (!any) putchar('-');
}

/* ---- C functions ---- */
static dl_error_t h0(duckVM_t *v) { dl_error_t e = duckVM_pushInteger(v); return e ? e : duckVM_setInteger(v, 42); }
/* x -> (x . x) */
static dl_error_t h1(duckVM_t *v) {
	dl_error_t e;
	if ((e = duckVM_pushCons(v))) return e;
	if ((e = duckVM_push(v, -2))) return e;
	if ((e = duckVM_setCar(v, -2))) return e;
	if ((e = duckVM_setCdr(v, -2))) return e;
	if ((e = duckVM_pop(v))) return e;
	if ((e = duckVM_copyFromTop(v, -2))) return e;
	return duckVM_pop(v);
}
/* fails, leaving something behind */
static dl_error_t h2(duckVM_t *v) {
	dl_error_t e;
	if ((e = duckVM_pushNil(v))) return e;
	if ((e = duckVM_pushNil(v))) return e;
	e = duckVM_error_pushRuntime(v, DL_STR("h2"));
	return e ? e : dl_error_invalidValue;
}
/* f x -> result of (f x), or false if that fails */
static dl_error_t h3(duckVM_t *v) {
	dl_error_t e;
	dl_size_t n = duckVM_stackLength(v);
	static int depth;
	if (n < 2 || depth > 40) return dl_error_bufferUnderflow;
	if ((e = duckVM_push(v, -2))) return e;
	if ((e = duckVM_push(v, -2))) return e;
	depth++;
	dl_error_t f = duckVM_call(v, -2, 1);
	depth--;
	if (f == dl_error_outOfMemory) return f;
	if (!f) { if ((e = duckVM_copyFromTop(v, (dl_ptrdiff_t) n - 2))) return e; }
	if (duckVM_stackLength(v) < n) return dl_error_bufferUnderflow;
	if ((e = duckVM_popSeveral(v, duckVM_stackLength(v) - (n - (f ? 2 : 1))))) return e;
	if (f) { if ((e = duckVM_pushBoolean(v))) return e; }
	return dl_error_ok;
}
static struct { const char *n, *t; dl_error_t (*f)(duckVM_t *); } cfun[] =
	{{"h0", "()", h0}, {"h1", "(I)", h1}, {"h2", "()", h2}, {"h3", "(I I)", h3}};
#define NC 4

static const char *source =
	"(()"
	"(global g0 ()) (global g1 ()) (global g2 ())"
	"(global f0 (lambda (a) a))"
	"(global f1 (lambda (a b) (cons a b)))"
	"(global f2 (lambda (a &rest r) (cons a r)))"
	"(global f3 (lambda (v) (setq g0 v) v))"
	"(global f4 (lambda () g0))"
	"(global f5 (lambda (n) (lambda (m) (var o n) (setq n m) o)))"
	"(global f6 (lambda (x) (cons 1 (car 5))))"
	"(global f7 (lambda (f x) (funcall f x)))"
	"(global f8 (lambda (a b) (lambda () (cons a b))))"
	"(global f9 (lambda (c v) (set-car c v)))"
	"(global f10 (lambda (f x) (list 1 (h3 f x) 2)))"
	"(global f11 (lambda (c) (cons (car c) (cdr c))))"
	"(global f12 (lambda (x) (var y x) (setq g1 (lambda () y)) (setq y 9) (cons 1 (car 5))))"
	"())";

/* ---- the stack as tokens ---- */
static duckVM_object_t *nodes[20000];
static int nnodes;
static int node(duckVM_object_t *p, int *fresh) {
	for (int i = 0; i < nnodes; i++) if (nodes[i] == p) { *fresh = 0; return i + 1; }
	if (nnodes == 20000) { *fresh = 0; return 0; }
	nodes[nnodes++] = p;
	*fresh = 1;
	return nnodes;
}
static void bytes(const unsigned char *s, size_t n) { for (size_t i = 0; i < n; i++) printf("%s%d", i ? "." : "", s[i]); }

static duckVM_object_t *work[100000];
static duckVM_object_t tmp;
static int nwork;
static duckVM_object_t *deepest(duckVM_object_t *u) {      /* the variable behind an upvalue */
	while (u && u->type == duckVM_object_type_upvalue && u->value.upvalue.type == duckVM_upvalue_type_heap_upvalue) u = u->value.upvalue.value.heap_upvalue;
	return u;
}

static void token(duckVM_object_t *o) {
	int fresh = 0;
	if (o == NULL) { printf(" L"); return; }
	switch (o->type) {
	case duckVM_object_type_bool: printf(" b%d", o->value.boolean); return;
	case duckVM_object_type_integer: printf(" i%lld", (long long) o->value.integer); return;
	case duckVM_object_type_float: { uint64_t u; memcpy(&u, &o->value.floatingPoint, 8); printf(" f%016llx", (unsigned long long) u); return; }
	case duckVM_object_type_string: {
		dl_size_t off = o->value.string.offset, len = o->value.string.length;
		printf(" s");
		if (len > off) bytes(o->value.string.internalString->value.internalString.value + off, len - off);
		return;
	}
	case duckVM_object_type_symbol:
		printf(" y%lu", (unsigned long) o->value.symbol.id);
		if (o->value.symbol.internalString) { putchar(':'); bytes(o->value.symbol.internalString->value.internalString.value, o->value.symbol.internalString->value.internalString.value_length); }
		return;
	case duckVM_object_type_type: printf(" t%lu", (unsigned long) o->value.type); return;
	case duckVM_object_type_function:
		for (int i = 0; i < NC; i++) if (cfun[i].f == o->value.function.callback) { printf(" h%d", i); return; }
		printf(" h?"); return;
	case duckVM_object_type_user: {
		struct user *u = o->value.user.data;
		printf(" u%d", u->id);
		tmp.type = duckVM_object_type_list;
		return;
	}
	case duckVM_object_type_list:
		if (o->value.list == NULL) { printf(" L"); return; }
		o = o->value.list;
		if (o->type == duckVM_object_type_list) { token(o); return; }
		/* fall through */
	case duckVM_object_type_cons: {
		int k = node(o, &fresh);
		printf(" c%d", k);
		if (fresh) { work[nwork++] = o->value.cons.cdr; work[nwork++] = o->value.cons.car; }
		return;
	}
	case duckVM_object_type_vector: {
		duckVM_object_t *iv = o->value.vector.internal_vector;
		if (iv == NULL || (dl_size_t) o->value.vector.offset >= iv->value.internal_vector.length) { printf(" v0"); return; }
		int k = node(iv, &fresh);
		printf(" v%d+%ld", k, (long) o->value.vector.offset);
		if (fresh) {
			printf(" #%lu", (unsigned long) iv->value.internal_vector.length);
			for (long i = (long) iv->value.internal_vector.length - 1; i >= 0; i--) work[nwork++] = iv->value.internal_vector.values[i];
		}
		return;
	}
	case duckVM_object_type_composite: {
		duckVM_object_t *ic = o->value.composite;
		int k = node(ic, &fresh);
		printf(" m%d", k);
		if (fresh) { printf(" t%lu", (unsigned long) ic->value.internalComposite.type); work[nwork++] = ic->value.internalComposite.function; work[nwork++] = ic->value.internalComposite.value; }
		return;
	}
	case duckVM_object_type_closure: {
		duckVM_object_t *ua = o->value.closure.upvalue_array;
		dl_size_t n = ua ? ua->value.upvalue_array.length : 0;
		printf(" k%d%s", o->value.closure.arity, o->value.closure.variadic ? "r" : "");
		if (n == 0) { printf("/0"); return; }
		int k = node(ua, &fresh);
		printf("/%d", k);
		if (!fresh) return;
		printf(" #%lu", (unsigned long) n);
		for (long i = (long) n - 1; i >= 0; i--) work[nwork++] = deepest(ua->value.upvalue_array.upvalues[i]);
		return;
	}
	case duckVM_object_type_upvalue: {
		int k = node(o, &fresh);
		printf(" @%d", k);
		if (!fresh) return;
		if (o->value.upvalue.type == duckVM_upvalue_type_heap_object) work[nwork++] = o->value.upvalue.value.heap_object;
		else printf(" open");
		return;
	}
	default: printf(" ?%d", o->type); return;
	}
}
static void sayStack(void) {
	nnodes = 0;
	for (dl_size_t i = 0; i < VM->stack.elements_length; i++) {
		nwork = 0;
		work[nwork++] = &((duckVM_object_t *) VM->stack.elements)[i];
		while (nwork > 0 && nwork < 90000) { duckVM_object_t *o = work[--nwork]; token(o); }
	}
}

/* ---- operations ---- */
static char out[4000];
static unsigned char *readBytes(const char *s, size_t *n) {
	unsigned char *b = malloc(strlen(s) + 1);
	*n = 0;
	if (*s == '-') return b;
	while (*s) { b[(*n)++] = (unsigned char) strtol(s, (char **) &s, 10); if (*s == '.') s++; }
	/* exact size, so that reads past the end are seen */
	return realloc(b, *n ? *n : 1);
}
static void outBytes(unsigned char *s, size_t n) {
	char *p = out;
	*p = 0;
	p += sprintf(p, "s");
	for (size_t i = 0; i < n && i < 900; i++) p += sprintf(p, "%s%d", i ? "." : "", s[i]);
	if (s) (void) DL_FREE(VM->memoryAllocation, &s);
}
static const char *typeName(duckVM_object_type_t t) {
	switch (t) {
	case duckVM_object_type_bool: return "bool"; case duckVM_object_type_integer: return "integer"; case duckVM_object_type_float: return "float";
	case duckVM_object_type_string: return "string"; case duckVM_object_type_list: return "list"; case duckVM_object_type_symbol: return "symbol";
	case duckVM_object_type_function: return "function"; case duckVM_object_type_closure: return "closure"; case duckVM_object_type_vector: return "vector";
	case duckVM_object_type_type: return "type"; case duckVM_object_type_composite: return "composite"; case duckVM_object_type_user: return "user";
	case duckVM_object_type_bytecode: return "bytecode"; default: return "other";
	}
}

#define IS(x) if (!strcmp(op, x))
#define PRED(x) IS(#x) { dl_bool_t b = 77; e = duckVM_##x(VM, &b); if (!e) sprintf(out, b == 1 ? "true" : b == 0 ? "false" : "odd"); return e; }
static dl_error_t operate(const char *op, long a, long b, const char *s) {
	dl_error_t e;
	IS("push") return duckVM_push(VM, a);
	IS("pop") return duckVM_pop(VM);
	IS("popSeveral") return duckVM_popSeveral(VM, a);
	IS("copyFromTop") return duckVM_copyFromTop(VM, a);
	IS("popAll") return duckVM_popAll(VM);
	IS("softReset") return duckVM_softReset(VM);
	IS("typeOf") { duckVM_object_type_t t; e = duckVM_typeOf(VM, &t); if (!e) sprintf(out, "%s", typeName(t)); return e; }
	IS("stackLength") { sprintf(out, "%lu", (unsigned long) duckVM_stackLength(VM)); return dl_error_ok; }
	IS("pushBoolean") return duckVM_pushBoolean(VM);
	IS("setBoolean") return duckVM_setBoolean(VM, a);
	IS("copyBoolean") { dl_bool_t x; e = duckVM_copyBoolean(VM, &x); if (!e) sprintf(out, "b%d", x); return e; }
	IS("pushInteger") return duckVM_pushInteger(VM);
	IS("setInteger") return duckVM_setInteger(VM, strtoll(s, NULL, 10));
	IS("copySignedInteger") { dl_ptrdiff_t x; e = duckVM_copySignedInteger(VM, &x); if (!e) sprintf(out, "i%lld", (long long) x); return e; }
	IS("copyUnsignedInteger") { dl_size_t x; e = duckVM_copyUnsignedInteger(VM, &x); if (!e) sprintf(out, "i%llu", (unsigned long long) x); return e; }
	IS("pushFloat") return duckVM_pushFloat(VM);
	IS("setFloat") { uint64_t u = strtoull(s, NULL, 16); double d; memcpy(&d, &u, 8); return duckVM_setFloat(VM, d); }
	IS("copyFloat") { double d; uint64_t u; e = duckVM_copyFloat(VM, &d); memcpy(&u, &d, 8); if (!e) sprintf(out, "f%016llx", (unsigned long long) u); return e; }
	IS("pushString") { size_t n; unsigned char *x = readBytes(s, &n); e = duckVM_pushString(VM, x, n); memset(x, 90, n); free(x); return e; }
	IS("copyString") { unsigned char *x = NULL; dl_size_t n = 99; e = duckVM_copyString(VM, &x, &n); if (!e) outBytes(x, n); return e; }
	IS("pushSymbol") { size_t n; unsigned char *x = readBytes(s, &n); e = duckVM_pushSymbol(VM, a, x, n); memset(x, 90, n); free(x); return e; }
	IS("pushCompressedSymbol") return duckVM_pushCompressedSymbol(VM, a);
	IS("copySymbolName") { unsigned char *x = NULL; dl_size_t n = 99; e = duckVM_copySymbolName(VM, &x, &n); if (!e) outBytes(x, n); return e; }
	IS("copySymbolId") { dl_size_t x; e = duckVM_copySymbolId(VM, &x); if (!e) sprintf(out, "i%lu", (unsigned long) x); return e; }
	IS("pushNewType") return duckVM_pushNewType(VM);
	IS("pushExistingType") return duckVM_pushExistingType(VM, a);
	IS("copyType") { dl_size_t x; e = duckVM_copyType(VM, &x); if (!e) sprintf(out, "t%lu", (unsigned long) x); return e; }
	IS("pushComposite") return duckVM_pushComposite(VM, a);
	IS("copyCompositeType") { dl_size_t x; e = duckVM_copyCompositeType(VM, &x); if (!e) sprintf(out, "t%lu", (unsigned long) x); return e; }
	IS("pushCompositeValue") return duckVM_pushCompositeValue(VM);
	IS("pushCompositeFunction") return duckVM_pushCompositeFunction(VM);
	IS("setCompositeValue") return duckVM_setCompositeValue(VM, a);
	IS("setCompositeFunction") return duckVM_setCompositeFunction(VM, a);
	IS("pushNil") return duckVM_pushNil(VM);
	IS("pushCons") return duckVM_pushCons(VM);
	IS("pushVector") return duckVM_pushVector(VM, a);
	IS("copyClosureName") { dl_ptrdiff_t x; return duckVM_copyClosureName(VM, &x); }
	IS("closureBytecode") {
		duckVM_object_type_t t;
		if ((e = duckVM_pushClosureBytecode(VM))) return e;
		if ((e = duckVM_typeOf(VM, &t))) return e;
		sprintf(out, "%s", typeName(t));
		return duckVM_pop(VM);
	}
	IS("copyClosureArity") { dl_uint8_t x; e = duckVM_copyClosureArity(VM, &x); if (!e) sprintf(out, "i%d", x); return e; }
	IS("copyClosureIsVariadic") { dl_bool_t x; e = duckVM_copyClosureIsVariadic(VM, &x); if (!e) sprintf(out, x ? "true" : "false"); return e; }
	IS("pushCar") return duckVM_pushCar(VM);
	IS("pushFirst") return duckVM_pushFirst(VM);
	IS("pushCdr") return duckVM_pushCdr(VM);
	IS("pushRest") return duckVM_pushRest(VM);
	IS("setCar") return duckVM_setCar(VM, a);
	IS("setFirst") return duckVM_setFirst(VM, a);
	IS("setCdr") return duckVM_setCdr(VM, a);
	IS("setRest") return duckVM_setRest(VM, a);
	IS("pushElement") return duckVM_pushElement(VM, a);
	IS("setElement") return duckVM_setElement(VM, a, b);
	IS("length") { dl_size_t x; e = duckVM_length(VM, &x); if (!e) sprintf(out, "i%lu", (unsigned long) x); return e; }
	PRED(isNone) PRED(isBoolean) PRED(isInteger) PRED(isFloat) PRED(isString) PRED(isSymbol) PRED(isType) PRED(isComposite) PRED(isList)
	PRED(isNil) PRED(isCons) PRED(isVector) PRED(isClosure) PRED(isUser) PRED(isEmpty)
	IS("pushGlobal") return duckVM_pushGlobal(VM, duckLisp_symbol_nameToValue(&dl, (dl_uint8_t *) s, strlen(s)));
	IS("setGlobal") return duckVM_setGlobal(VM, duckLisp_symbol_nameToValue(&dl, (dl_uint8_t *) s, strlen(s)));
	IS("call") {
		return duckVM_call(VM, -1 - b, a);
	}
	IS("pushUser") {
		duckVM_object_t top;
		users[a].id = a;
		users[a].held = NULL;
		if (b) {
			dl_bool_t isCons = 0;
			e = duckVM_isCons(VM, &isCons);
			if (e) return e;
			if (!isCons) return dl_error_invalidValue;
			top = ((duckVM_object_t *) VM->stack.elements)[VM->stack.elements_length - 1];
			users[a].held = top.value.list;
		}
		top = duckVM_object_makeUser(&users[a], userMark, userDestroy);
		return duckVM_object_push(VM, &top);
	}
	IS("pushHeld") {      /* what the host object on top refers to */
		dl_bool_t isUser = 0;
		e = duckVM_isUser(VM, &isUser);
		if (e) return e;
		if (!isUser) return dl_error_invalidValue;
		struct user *u = ((duckVM_object_t *) VM->stack.elements)[VM->stack.elements_length - 1].value.user.data;
		duckVM_object_t l = duckVM_object_makeList(u->held);
		return duckVM_object_push(VM, &l);
	}
	IS("gc") return duckVM_garbageCollect(VM);
	fprintf(stderr, "unknown operation %s\n", op);
	exit(2);
}

static void clearErrors(dl_array_t *a) { dl_uint8_t c; while (a->elements_length) { if (dl_array_popElement(a, &c)) break; } }

static char (*lines)[4096];
static int nlines;

static int session(const char *id, long objects) {
	static duckVM_t vm;
	static dl_memoryAllocation_t ma;
	size_t pool = 8u << 20;
	dl_error_t e;
	char op[64], s[4000];
	(void) id;
	if (dl_memory_init(&ma, malloc(pool), pool, dl_memoryFit_best)) return 3;
	if (duckVM_init(&vm, &ma, objects)) return 3;
	VM = &vm;
	for (int i = 0; i < NC; i++) if (duckVM_linkCFunction(&vm, duckLisp_symbol_nameToValue(&dl, (dl_uint8_t *) cfun[i].n, 2), cfun[i].f)) return 3;
	if (duckVM_execute(&vm, setup, setupLength)) return 3;
	if (duckVM_popAll(&vm)) return 3;
	/* type numbers from here on belong to the session */
	printf("B %d\n", duckVM_object_type_last);
	for (int i = 0; i < nlines; i++) {
		long a = 0, b = 0;
		*s = 0; *out = 0;
		sscanf(lines[i], "%63s %ld %ld %3999s", op, &a, &b, s);
		e = operate(op, a, b, s);
		printf("O %s %s ", e == dl_error_ok ? "ok" : e == dl_error_outOfMemory ? "oom" : "err", *out ? out : "-");
		sayUsers();
		sayStack();
		putchar('\n');
		fflush(stdout);
		clearErrors(&vm.errors);
	}
	duckVM_quit(&vm);
	(void) dl_memory_quit(&ma);
	printf("Q ");
	sayUsers();
	putchar('\n');
	fflush(stdout);
	return 0;
}

int main(int argc, char **argv) {
	static char line[4096];
	char id[64];
	long objects;
	size_t pool = 64u << 20;
	unsigned tmo = argc > 1 ? (unsigned) atoi(argv[1]) : 20;
	lines = malloc(5000 * sizeof *lines);
	if (dl_memory_init(&cma, malloc(pool), pool, dl_memoryFit_best)) return 3;
	if (duckLisp_init(&dl, &cma, 4000
#ifdef USE_PARENTHESIS_INFERENCE
	                  , 4000
#endif
	                  )) return 3;
	for (int i = 0; i < NC; i++) if (duckLisp_linkCFunction(&dl, cfun[i].f, (dl_uint8_t *) cfun[i].n, 2
#ifdef USE_PARENTHESIS_INFERENCE
		                           , (dl_uint8_t *) cfun[i].t, strlen(cfun[i].t)
#endif
		                           )) return 3;
	if (duckLisp_loadString(&dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                        dl_false,
#endif
	                        &setup, &setupLength, (dl_uint8_t *) source, strlen(source), (const dl_uint8_t *) "setup", 5)) return 3;
	while (fgets(line, sizeof line, stdin)) {
		if (sscanf(line, "S %63s %ld %u", id, &objects, &gcEvery) != 3) return 2;
		nlines = 0;
		while (fgets(line, sizeof line, stdin) && line[0] != 'E') { if (nlines == 5000) return 2; strcpy(lines[nlines++], line); }
		printf("S %s\n", id);
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) { alarm(tmo); watchMemory(1500); gcState = 12345; exit(session(id, objects)); }
		int st = 0;
		waitpid(p, &st, 0);
		printf("E %s %s\n", id, WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "ok" : WIFSIGNALED(st) && WTERMSIG(st) == 14 ? "endless" : "crash");
		fflush(stdout);
	}
	printf("Z\n");
	return 0;
}
