/* duck-lisp conformance harness: reader driver.
 *
 * Input:   T <nbytes>\n<bytes>\n       (repeated)
 * Output, one line per text:  O <reading> ; <reading with other bytes behind the text> ; <value of (quote text)>
 * A reading is the canonical notation of the first form, "rej", or "crash"; every text is read by a forked child.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "watch.h"
#include "duckLisp.h"
#include "duckVM.h"
#include "parser.h"

static duckLisp_t dl;
static duckVM_t vm;
static dl_memoryAllocation_t ma;

static void printBytes(const dl_uint8_t *s, dl_size_t n) {
	for (dl_size_t i = 0; i < n; i++) {
		unsigned c = s[i];
		if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '*' || c == '+' || c == '?') putchar((int) c);
		else printf("%%%02x", c);
	}
}

/* 15 significant digits: what a decimal literal of up to 15 digits must come back as. */
static void printFloat(double d) {
	char b[64], *e, *p;
	int x;
	snprintf(b, sizeof b, "%.14e", d);
	if (!(e = strchr(b, 'e'))) { printf("f%s", b); return; }
	x = atoi(e + 1);
	*e = 0;
	putchar('f');
	p = b;
	if (*p == '-') { putchar('-'); p++; }
	char g[32]; int n = 0;
	for (; *p; p++) if (*p != '.') g[n++] = *p;
	while (n > 0 && g[n - 1] == '0') n--;
	if (n == 0) { fputs("0e0", stdout); return; }
	g[n] = 0;
	printf("%se%d", g, x - (n - 1));
}

static void printAst(duckLisp_ast_compoundExpression_t *a) {
	switch (a->type) {
	case duckLisp_ast_type_bool: fputs(a->value.boolean.value ? "bt" : "bf", stdout); break;
	case duckLisp_ast_type_int: printf("i%ld", (long) a->value.integer.value); break;
	case duckLisp_ast_type_float: printFloat(a->value.floatingPoint.value); break;
	case duckLisp_ast_type_string:
		fputs("s'", stdout); printBytes(a->value.string.value, a->value.string.value_length); putchar('\'');
		break;
	case duckLisp_ast_type_identifier:
		putchar('y'); printBytes(a->value.identifier.value, a->value.identifier.value_length);
		break;
	case duckLisp_ast_type_expression:
		if (a->value.expression.compoundExpressions_length == 0) { putchar('n'); break; }
		for (dl_size_t i = 0; i < a->value.expression.compoundExpressions_length; i++) {
			putchar(i ? ' ' : '(');
			printAst(&a->value.expression.compoundExpressions[i]);
		}
		putchar(')');
		break;
	default: printf("?%d", a->type);
	}
}

static void clearErrors(dl_array_t *a) { dl_uint8_t c; while (a->elements_length) { if (dl_array_popElement(a, &c)) break; } }

static void readIt(const dl_uint8_t *b, size_t n) {
	duckLisp_ast_compoundExpression_t ast;
	memset(&ast, 0, sizeof ast);
	dl_error_t e = duckLisp_read(&dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                             dl_false, 1000, NULL,
#endif
	                             (const dl_uint8_t *) "t", 1, b, n, &ast, 0, dl_true);
	if (e) fputs("rej", stdout);
	else printAst(&ast);
	clearErrors(&dl.errors);
}

static void canonTop(int depth) {
	duckVM_object_type_t type;
	dl_bool_t nil;
	if (depth > 1000) { fputs("~", stdout); return; }
	if (duckVM_typeOf(&vm, &type)) { fputs("!E", stdout); return; }
	switch (type) {
	case duckVM_object_type_bool: { dl_bool_t b; fputs(duckVM_copyBoolean(&vm, &b) ? "!E" : b ? "bt" : "bf", stdout); return; }
	case duckVM_object_type_integer: { dl_ptrdiff_t i; if (duckVM_copySignedInteger(&vm, &i)) { fputs("!E", stdout); return; } printf("i%ld", (long) i); return; }
	case duckVM_object_type_float: { double d; if (duckVM_copyFloat(&vm, &d)) { fputs("!E", stdout); return; } printFloat(d); return; }
	case duckVM_object_type_string: {
		dl_uint8_t *s = NULL; dl_size_t n = 0;
		if (duckVM_copyString(&vm, &s, &n)) { fputs("!E", stdout); return; }
		fputs("s'", stdout); printBytes(s, n); putchar('\'');
		if (s != NULL) (void) DL_FREE(vm.memoryAllocation, &s);
		return;
	}
	case duckVM_object_type_symbol: {
		dl_uint8_t *s = NULL; dl_size_t n = 0;
		if (duckVM_copySymbolName(&vm, &s, &n)) { fputs("!E", stdout); return; }
		putchar('y'); printBytes(s, n);
		if (s != NULL) (void) DL_FREE(vm.memoryAllocation, &s);
		return;
	}
	case duckVM_object_type_list:
	case duckVM_object_type_cons:
		if (duckVM_isNil(&vm, &nil)) { fputs("!E", stdout); return; }
		if (nil) { putchar('n'); return; }
		putchar('(');
		if (duckVM_push(&vm, -1)) { fputs("!E", stdout); return; }
		for (int first = 1; ; first = 0) {
			if (!first) putchar(' ');
			if (duckVM_pushCar(&vm)) { fputs("!E", stdout); break; }
			canonTop(depth + 1); (void) duckVM_pop(&vm);
			if (duckVM_pushCdr(&vm)) { fputs("!E", stdout); break; }
			if (duckVM_copyFromTop(&vm, -2) || duckVM_pop(&vm)) { fputs("!E", stdout); break; }
			if (duckVM_typeOf(&vm, &type)) { fputs("!E", stdout); break; }
			if (type != duckVM_object_type_list && type != duckVM_object_type_cons) { fputs(" . ", stdout); canonTop(depth + 1); break; }
			if (duckVM_isNil(&vm, &nil)) { fputs("!E", stdout); break; }
			if (nil) break;
		}
		putchar(')'); (void) duckVM_pop(&vm);
		return;
	default: printf("?%d", type);
	}
}

static void evalIt(const dl_uint8_t *b, size_t n) {
	unsigned char *code = NULL;
	dl_size_t len = 0;
	size_t m = n + 10;
	dl_uint8_t *src = malloc(m);
	memcpy(src, "(quote ", 7); memcpy(src + 7, b, n); src[7 + n] = '\n'; src[8 + n] = ')'; src[9 + n] = 0;
	dl_error_t e = duckLisp_loadString(&dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                                   dl_false,
#endif
	                                   &code, &len, src, n + 9, (const dl_uint8_t *) "t", 1);
	if (e) fputs("rej", stdout);
	else {
		e = duckVM_execute(&vm, code, len);
		if (e) fputs("err", stdout);
		else canonTop(0);
	}
	duckVM_softReset(&vm);
	clearErrors(&dl.errors); clearErrors(&vm.errors);
	free(src);
}

static struct text { size_t n; char *b; } *T;
static size_t nT;

int main(int argc, char **argv) {
	char line[64];
	volatile size_t *at = mmap(NULL, 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	size_t cap = 0;
	(void) argc;
	while (fgets(line, sizeof line, stdin)) {
		size_t n;
		if (sscanf(line, "T %zu", &n) != 1) return 2;
		if (nT == cap) { cap = cap ? 2 * cap : 64; T = realloc(T, cap * sizeof *T); }
		T[nT].n = n; T[nT].b = malloc(n + 1);
		if (fread(T[nT].b, 1, n, stdin) != n) return 2;
		fgetc(stdin);
		nT++;
	}
	*at = 0;
	while (*at < nT) {
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			size_t start = *at;
			watchMemory(1500);
			for (; *at < nT && *at < start + 200; (*at)++) {
				struct rlimit rl = {0, 0};
				struct text *t = &T[*at];
				alarm((unsigned) atoi(argv[1]));
				if (*at == start) {
					size_t pool = 24u << 20;
					(void) rl;
					if (dl_memory_init(&ma, malloc(pool), pool, dl_memoryFit_best)) _exit(3);
					if (duckLisp_init(&dl, &ma, 2000
#ifdef USE_PARENTHESIS_INFERENCE
					                  , 2000
#endif
					                  )) _exit(3);
					if (duckVM_init(&vm, &ma, 20000)) _exit(3);
					clearErrors(&dl.errors); clearErrors(&vm.errors);
				}
				/* exactly the text, so that one byte further is not ours */
				dl_uint8_t *b = malloc(t->n ? t->n : 1);
				memcpy(b, t->b, t->n);
				fputs("O ", stdout);
				readIt(b, t->n);
				free(b);
				fputs(" ; ", stdout);
				/* behind it, what would change the reading if it were looked at */
				static const char *behind[] = {"1", ")", "e5", ".5", "a", "\"", "\\", " ", ";", "(", "x", "ue", "se"};
				const char *z = behind[(*at * 7 + t->n) % (sizeof behind / sizeof *behind)];
				b = malloc(t->n + 16);
				memcpy(b, t->b, t->n);
				strcpy((char *) b + t->n, z);
				readIt(b, t->n);
				free(b);
				fputs(" ; ", stdout);
				evalIt((dl_uint8_t *) t->b, t->n);
				putchar('\n');
				fflush(stdout);
			}
			_exit(0);
		}
		int st = 0;
		waitpid(p, &st, 0);
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			printf("\nC %zu %d %d\n", *at, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0);
			(*at)++;
		}
	}
	return 0;
}
