// Operation scripts over the embedding interface.  Uses cora.h only, as a host
// program does; what a value is, is printed by vtDump of vt.c.
#include "cora.h"
#include <stdlib.h>
#include <string.h>

void vtDump(FILE *f, Obj o);

#define NR 8
static Cora *co;
static FILE *out;
static int quiet, depth;

// Registers are globals of the program, so that the collector sees them.
static Obj
regSym(int i) {
	char name[32];
	snprintf(name, sizeof name, "emb#r%d", i);
	return coraMakeSymbol(name);
}

static Obj
reg(int i) {
	return coraSymbolGet(co, regSym(i));
}

static void
setReg(int i, Obj v) {
	coraPrimSet(co, regSym(i), v);
}

static void
called(const char *name, int n, Obj *R) {
	if (quiet) {
		return;
	}
	fprintf(out, "[%s", name);
	for (int i = 1; i <= n; i++) {
		fputc(' ', out);
		vtDump(out, R[i]);
	}
	fprintf(out, "]\n");
	fflush(out);
}

static Obj
listOf(Cora *c, int n, Obj *R) {
	Obj l = Nil;
	for (int i = n; i > 0; i--) {
		l = coraMakeCons(c, R[i], l);
	}
	return l;
}

#define NATIVE(N) \
	static void native##N(Cora *c, int label, Obj *R) { \
		called("n" #N, N, R); \
		coraReturn(c, listOf(c, N, R)); \
	}
NATIVE(0)
NATIVE(1)
NATIVE(2)
NATIVE(3)
NATIVE(4)
NATIVE(7)

static void
nativePick(Cora *c, int label, Obj *R) { // (pick a b c) -> b
	coraReturn(c, R[2]);
}

static void
nativeSum(Cora *c, int label, Obj *R) {
	int s = 0;
	for (Obj l = R[1]; l != Nil; l = coraCdr(l)) {
		if (coraIsNumber(coraCar(l))) {
			s += coraFixnum(coraCar(l));
		}
	}
	coraReturn(c, coraMakeNumber(s));
}

static void
nativeFill(Cora *c, int label, Obj *R) { // (fill n x)
	int n = coraFixnum(R[1]);
	Obj v = coraMakeVector(c, n, n + 1);
	for (int i = 0; i < n; i++) {
		coraVectorSet(c, v, i, R[2]);
	}
	coraReturn(c, v);
}

// A native that calls back.  Nothing it was given is used after the call.
static void
nativeCall(Cora *c, int label, Obj *R) { // (ncall f x)
	Obj a[1] = {R[2]};
	called("ncall", 0, R);
	coraCall(c, R[1], 1, a);
	coraRun(c);
	coraReturn(c, coraGetResult(c));
}

static void
nativeCall2(Cora *c, int label, Obj *R) { // (ncall2 f x y) -> (f x y), then reversed if a list
	Obj a[2] = {R[2], R[3]};
	coraCall(c, R[1], 2, a);
	coraRun(c);
	Obj r = coraGetResult(c);
	called("ncall2", 1, &r - 1);
	coraReturn(c, r);
}

// (nmap f l): calls f on every element; keeps its state in globals.
static void
nativeMap(Cora *c, int label, Obj *R) {
	char n[3][32];
	depth++;
	for (int i = 0; i < 3; i++) {
		snprintf(n[i], sizeof n[i], "emb#map%d-%d", depth, i);
	}
	coraPrimSet(c, coraMakeSymbol(n[0]), R[1]);
	coraPrimSet(c, coraMakeSymbol(n[1]), R[2]);
	coraPrimSet(c, coraMakeSymbol(n[2]), Nil);
	while (coraSymbolGet(c, coraMakeSymbol(n[1])) != Nil) {
		Obj l = coraSymbolGet(c, coraMakeSymbol(n[1]));
		Obj a[1] = {coraCar(l)};
		coraPrimSet(c, coraMakeSymbol(n[1]), coraCdr(l));
		coraCall(c, coraSymbolGet(c, coraMakeSymbol(n[0])), 1, a);
		coraRun(c);
		coraPrimSet(c, coraMakeSymbol(n[2]),
			coraMakeCons(c, coraGetResult(c), coraSymbolGet(c, coraMakeSymbol(n[2]))));
	}
	depth--;
	coraReturn(c, coraReverse(c, coraSymbolGet(c, coraMakeSymbol(n[2]))));
}

static void
nativeReg(Cora *c, int label, Obj *R) {
	coraReturn(c, reg(coraFixnum(R[1])));
}

static void
nativeSetReg(Cora *c, int label, Obj *R) {
	setReg(coraFixnum(R[1]), R[2]);
	coraReturn(c, R[2]);
}

void
embBoot(Cora *c) {
	co = c;
	coraRegisterAPI(c, "emb", "n0", native0, 0);
	coraRegisterAPI(c, "emb", "n1", native1, 1);
	coraRegisterAPI(c, "emb", "n2", native2, 2);
	coraRegisterAPI(c, "emb", "n3", native3, 3);
	coraRegisterAPI(c, "emb", "n4", native4, 4);
	coraRegisterAPI(c, NULL, "emb-n7", native7, 7);
	coraRegisterAPI(c, "emb", "pick", nativePick, 3);
	coraRegisterAPI(c, "emb", "sum", nativeSum, 1);
	coraRegisterAPI(c, "emb", "fill", nativeFill, 2);
	coraRegisterAPI(c, "emb", "ncall", nativeCall, 2);
	coraRegisterAPI(c, "emb", "ncall2", nativeCall2, 3);
	coraRegisterAPI(c, "emb", "nmap", nativeMap, 2);
	coraRegisterAPI(c, NULL, "emb-reg", nativeReg, 1);
	coraRegisterAPI(c, "emb", "set-reg", nativeSetReg, 2);
}

static int
unhex(char *h, char *p) {
	int n = 0;
	for (; h[0] && h[0] != '\''; h += 2) {
		unsigned x;
		sscanf(h, "%2x", &x);
		p[n++] = x;
	}
	return n;
}

static long
rss(void) {
	long pages = 0, dummy;
	FILE *f = fopen("/proc/self/statm", "r");
	if (f == NULL || fscanf(f, "%ld %ld", &dummy, &pages) != 2) {
		pages = 0;
	}
	if (f) {
		fclose(f);
	}
	return pages * 4;
}

static void
showReg(int i) {
	vtDump(out, reg(i));
	fputc('\n', out);
	fflush(out);
}

void
embScript(char *path, FILE *log) {
	FILE *f = fopen(path, "r");
	char op[32];
	static char line[70000], blob[35000];
	out = log;
	for (int i = 0; i < NR; i++) {
		setReg(i, Nil);
	}
	while (fgets(line, sizeof line, f)) {
		int d = 0, a[8] = {0}, n = 0, used = 0, len = 0;
		if (sscanf(line, "%31s %d%n", op, &d, &used) < 2) {
			continue;
		}
		char *p = line + used;
		while (n < 8 && strcmp(op, "str") && strcmp(op, "cstr") && strcmp(op, "bytes") && sscanf(p, " %d%n", &a[n], &used) == 1) {
			p += used;
			n++;
		}
		char *q = strchr(p, '\'');
		if (q) {
			len = unhex(q + 1, blob);
		}
		char *z = strchr(p, '~'); // ~START STEP LENGTH
		int c0, c1;
		if (z && sscanf(z + 1, "%d %d %d", &c0, &c1, &len) == 3) {
			for (int i = 0, j = 0; j < len; i++) {
				blob[j] = c0 + i * c1;
				j += z[-1] != '0' || blob[j] != 0; // 0~ leaves zeros out
			}
		}
		char *s = malloc(len + 1); // exact, so that an overread can be seen
		memcpy(s, blob, len);
		s[len] = 0;
#define IS(x) (!strcmp(op, x))
		if (IS("num")) {
			setReg(d, coraMakeNumber(a[0]));
		} else if (IS("const")) {
			setReg(d, a[0] == 0 ? True : a[0] == 1 ? False : Nil);
		} else if (IS("str")) {
			setReg(d, coraMakeString(co, s, len));
		} else if (IS("cstr")) {
			setReg(d, coraMakeCString(co, s));
		} else if (IS("sym")) {
			setReg(d, coraMakeSymbol(s));
		} else if (IS("gensym")) {
			setReg(d, coraPrimGenSym(co));
		} else if (IS("bytes")) {
			Obj b = coraMakeBytes(co, len);
			memcpy(coraBytesData(b), s, len);
			setReg(d, b);
		} else if (IS("cons")) {
			setReg(d, coraMakeCons(co, reg(a[0]), reg(a[1])));
		} else if (IS("list")) {
			Obj l = Nil;
			for (int i = n - 1; i >= 0; i--) {
				l = coraMakeCons(co, reg(a[i]), l);
			}
			setReg(d, l);
		} else if (IS("range")) { // list of a[0]..a[1]
			Obj l = Nil;
			for (int i = a[1]; i >= a[0]; i--) {
				l = coraMakeCons(co, coraMakeNumber(i), l);
			}
			setReg(d, l);
		} else if (IS("car")) {
			setReg(d, coraCar(reg(a[0])));
		} else if (IS("cdr")) {
			setReg(d, coraCdr(reg(a[0])));
		} else if (IS("rev")) {
			setReg(d, coraReverse(co, reg(a[0])));
		} else if (IS("vec")) { // vec d size cap fill
			Obj v = coraMakeVector(co, a[0], a[1]);
			for (int i = 0; i < a[0]; i++) {
				coraVectorSet(co, v, i, reg(a[2]));
			}
			setReg(d, v);
		} else if (IS("vset")) { // vset d i x, result kept
			setReg(d, coraVectorSet(co, reg(d), a[0], reg(a[1])));
		} else if (IS("vref")) {
			setReg(d, coraVectorRef(reg(a[0]), a[1]));
		} else if (IS("vapp")) {
			for (int i = 0; i < a[1]; i++) {
				setReg(d, coraVectorAppend(co, reg(d), reg(a[0])));
			}
		} else if (IS("same")) { // the identity of two registers
			fprintf(out, "%s ", reg(a[0]) == reg(a[1]) ? "same" : "differ");
		} else if (IS("probe")) { // what the interface says of a value
			Obj o = reg(a[0]);
			fprintf(out, "%d %d ", coraIsNumber(o) ? 1 : 0, coraIsVector(o) ? 1 : 0);
			if (coraIsNumber(o)) {
				fprintf(out, "%d ", coraFixnum(o));
			}
			if (coraIsVector(o)) {
				fprintf(out, "%d ", coraVectorLength(o));
			}
			if (a[1]) {
				int m = coraBytesLen(o);
				fprintf(out, "%d ", m);
				for (int i = 0; i < m; i++) {
					fprintf(out, "%02x", coraBytesData(o)[i] & 255);
				}
				fprintf(out, "%d ", coraBytesData(o)[m]);
			}
		} else if (IS("get")) {
			setReg(d, coraSymbolGet(co, reg(a[0])));
		} else if (IS("set")) {
			setReg(d, coraPrimSet(co, reg(a[0]), reg(a[1])));
		} else if (IS("fun")) { // the function named by the blob
			setReg(d, coraSymbolGet(co, coraMakeSymbol(s)));
		} else if (IS("call")) { // call d f args...
			Obj args[8];
			for (int i = 1; i < n; i++) {
				args[i - 1] = reg(a[i]);
			}
			coraCall(co, reg(a[0]), n - 1, args);
			coraRun(co);
			setReg(d, coraGetResult(co));
		} else if (IS("loop")) { // loop d f x times: memory stays
			quiet = 1;
			long before = 0, times = a[2];
			for (long i = 0; i < times; i++) {
				Obj args[1] = {reg(a[1])};
				if (i == 1000) {
					before = rss();
				}
				coraCall(co, reg(a[0]), 1, args);
				coraRun(co);
			}
			setReg(d, coraGetResult(co));
			quiet = 0;
			long grown = rss() - before;
			fprintf(out, "%s ", grown > 6000 ? "GROWS" : "steady");
		} else {
			fprintf(out, "BAD OP %s\n", op);
		}
		free(s);
		showReg(d);
	}
	fclose(f);
	for (int i = 0; i < NR; i++) {
		showReg(i);
	}
	fprintf(out, "end\n");
}
