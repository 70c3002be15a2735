/* duck-lisp conformance harness: arithmetic driver.
 *
 * Input:   P <id> <a> <alit> <b> <blit> <wide>    (values: i<decimal>, f<16 hex digits>, b0, b1; literals: text or -)
 * Output:  R <id> <op> <form> <value or err>       Z at the end
 * Every operator is applied to the operands however programs can name them: results of calls, local variables, captured
 * variables, variables far down the stack, literals, parameters.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include "watch.h"
#include "duckLisp.h"
#include "duckVM.h"

static duckLisp_t dl;
static duckVM_t vm;
static dl_memoryAllocation_t ma;
static char operand[2][64];

static dl_error_t pushArg(duckVM_t *v, int i) {
	const char *s = operand[i];
	dl_error_t e;
	if (*s == 'b') {
		if ((e = duckVM_pushBoolean(v))) return e;
		return duckVM_setBoolean(v, s[1] == '1');
	}
	if (*s == 'i') {
		if ((e = duckVM_pushInteger(v))) return e;
		return duckVM_setInteger(v, strtoll(s + 1, NULL, 10));
	}
	uint64_t u = strtoull(s + 1, NULL, 16);
	double d;
	memcpy(&d, &u, 8);
	if ((e = duckVM_pushFloat(v))) return e;
	return duckVM_setFloat(v, d);
}
static dl_error_t arg0(duckVM_t *v) { return pushArg(v, 0); }
static dl_error_t arg1(duckVM_t *v) { return pushArg(v, 1); }

static const char *ops[] = {"+", "-", "*", "/", "=", "<", ">", "not"};
enum { NOPS = 8, NFORMS = 9, LIT1 = 6, LIT2 = 7 };
static unsigned char *code[NOPS][NFORMS];
static dl_size_t codeLen[NOPS][NFORMS];

static char *src;
static size_t srcLen;
static void put(const char *s) { size_t n = strlen(s); memcpy(src + srcLen, s, n + 1); srcLen += n; }

static int compile(unsigned char **c, dl_size_t *n) {
	dl_error_t e = duckLisp_loadString(&dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                                   dl_false,
#endif
	                                   c, n, (dl_uint8_t *) src, srcLen, (const dl_uint8_t *) "t", 1);
	dl_uint8_t x;
	while (dl.errors.elements_length) { if (dl_array_popElement(&dl.errors, &x)) break; }
	return e != 0;
}

static void say(const char *id, int o, int f, dl_error_t e) {
	duckVM_object_type_t t;
	printf("R %s %s %d ", id, ops[o], f);
	if (e) { printf("err\n"); }
	else if (duckVM_typeOf(&vm, &t)) printf("?\n");
	else if (t == duckVM_object_type_bool) { dl_bool_t b; printf("%s\n", duckVM_copyBoolean(&vm, &b) ? "?" : b == 1 ? "b1" : b ? "b2" : "b0"); }
	else if (t == duckVM_object_type_integer) { dl_ptrdiff_t i; if (duckVM_copySignedInteger(&vm, &i)) printf("?\n"); else printf("i%lld\n", (long long) i); }
	else if (t == duckVM_object_type_float) { double d; uint64_t u; if (duckVM_copyFloat(&vm, &d)) printf("?\n"); else { memcpy(&u, &d, 8); printf("f%016llx\n", (unsigned long long) u); } }
	else printf("?%d\n", t);
	dl_uint8_t x;
	(void) duckVM_softReset(&vm);
	while (vm.errors.elements_length) { if (dl_array_popElement(&vm.errors, &x)) break; }
}

static void pad(int n) { char b[64]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "(var p%d 0)", i); put(b); } }

int main(int argc, char **argv) {
	char line[512], id[32], la[128], lb[128];
	int wide;
	size_t pool = 400u << 20;
	(void) argc;
	src = malloc(4 << 20);
	if (dl_memory_init(&ma, malloc(pool), pool, dl_memoryFit_best)) return 3;
	if (duckLisp_init(&dl, &ma, 2000
#ifdef USE_PARENTHESIS_INFERENCE
	                  , 2000
#endif
	                  )) return 3;
	if (duckVM_init(&vm, &ma, 2000)) return 3;
	struct { const char *n; dl_error_t (*f)(duckVM_t *); } cb[] = {{"arg0", arg0}, {"arg1", arg1}};
	for (int i = 0; i < 2; i++) {
		if (duckLisp_linkCFunction(&dl, cb[i].f, (dl_uint8_t *) cb[i].n, 4
#ifdef USE_PARENTHESIS_INFERENCE
		                           , (dl_uint8_t *) "()", 2
#endif
		                           )) return 3;
		if (duckVM_linkCFunction(&vm, duckLisp_symbol_nameToValue(&dl, (dl_uint8_t *) cb[i].n, 4), cb[i].f)) return 3;
	}
	int hugeDone = 0;
	while (fgets(line, sizeof line, stdin)) {
		if (sscanf(line, "P %31s %63s %127s %63s %127s %d", id, operand[0], la, operand[1], lb, &wide) != 6) return 2;
		alarm((unsigned) atoi(argv[1]));
		watchMemory(1500);
		for (int o = 0; o < NOPS; o++) {
			int unary = o == NOPS - 1;
			for (int f = 0; f < NFORMS; f++) {
				if (f == 4 && !wide) continue;
				if ((f == LIT1 && !strcmp(la, "-")) || (f == LIT2 && (unary || !strcmp(lb, "-")))) continue;
				char b[600];
				if (code[o][f] == NULL || f == LIT1 || f == LIT2) {
					srcLen = 0;
					switch (f) {
					case 0: snprintf(b, sizeof b, unary ? "(%s (arg0))" : "(%s (arg0) (arg1))", ops[o]); put(b); break;
					case 1: snprintf(b, sizeof b, unary ? "(() (var a (arg0)) (%s a))" : "(() (var a (arg0)) (var b (arg1)) (%s a b))", ops[o]); put(b); break;
					case 2: snprintf(b, sizeof b, unary ? "(funcall (lambda (x) (funcall (lambda () (%s x)))) (arg0))" : "(funcall (lambda (x y) (funcall (lambda () (%s x y)))) (arg0) (arg1))", ops[o]); put(b); break;
					case 3: case 4:
						put("(() (var a (arg0))"); pad(f == 3 ? 300 : 66000);
						snprintf(b, sizeof b, unary ? "(%s a))" : "(var b (arg1)) (%s a b))", ops[o]); put(b);
						break;
					case 5: snprintf(b, sizeof b, unary ? "(() (var a (arg0)) (setq a (%s a)) a)" : "(() (global g (arg0)) (var r (arg1)) (setq r (%s g r)) r)", ops[o]); put(b); break;
					case LIT1: snprintf(b, sizeof b, unary ? "(%s %s)" : "(%s %s (arg1))", ops[o], la); put(b); break;
					case LIT2: snprintf(b, sizeof b, "(() (var a (arg0)) (%s a %s))", ops[o], lb); put(b); break;
					case 8: snprintf(b, sizeof b, unary ? "(funcall (lambda (&rest x) (%s (car x))) (arg0))" : "(funcall (lambda (x &rest y) (%s x (car y))) (arg0) (arg1))", ops[o]); put(b); break;
					}
					code[o][f] = NULL;
					if (compile(&code[o][f], &codeLen[o][f])) { printf("R %s %s %d reject\n", id, ops[o], f); continue; }
				}
				/* the arity of a unary operator in the second operand's place makes no sense */
				dl_error_t e = duckVM_execute(&vm, code[o][f], codeLen[o][f]);
				say(id, o, f, e);
				if (f == LIT1 || f == LIT2) { (void) DL_FREE(&ma, &code[o][f]); code[o][f] = NULL; }
			}
		}
		(void) hugeDone;
	}
	printf("Z\n");
	return 0;
}
