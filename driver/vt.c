// Driver for the checks in /verif: boots cora the way main.c does, then runs
// commands from a script.  Generated programs report through the natives
//   (vt#case id thunk)   run thunk in a child process, record its outcome
//   (vt#emit x)          append a value to the current case's event log
// Results go to the file named by VT_RESULTS, one record per case:
//   #case ID STATUS LEN\n<LEN bytes>\n
#define _GNU_SOURCE
#include "reader.h"
#include "runtime.h"
#include "types.h"
#include "gc.h"
#include "str.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef CORA_VERIF_HOOKS
extern size_t coraVerifGCLimit, coraVerifGCCount;
extern int coraVerifGCSteps, coraVerifGCPoison;
#endif

static FILE *results;
static FILE *ev; // event log of the running case (child only)
static int caseCpu = 10, caseWall = 60;
static long caseMem = 0;

// The file in memory: a child that exits must not move the parent's position.
static FILE *
openCopy(const char *path) {
	FILE *f = fopen(path, "r");
	if (f == NULL) {
		return NULL;
	}
	fseek(f, 0, SEEK_END);
	long n = ftell(f);
	rewind(f);
	char *p = malloc(n + 1);
	n = fread(p, 1, n, f);
	fclose(f);
	if (n == 0) {
		p[n++] = '\n';
	}
	return fmemopen(p, n, "r");
}

struct buf {
	char *p;
	size_t len, cap;
};

static void
put(FILE *f, const char *s, size_t n) {
	fwrite(s, 1, n, f);
}

static void
dumpBytes(FILE *f, const char *s, int n) {
	fputc('"', f);
	for (int i = 0; i < n; i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') {
			fprintf(f, "\\%c", c);
		} else if (c >= 32 && c < 127) {
			fputc(c, f);
		} else {
			fprintf(f, "\\x%02x", c);
		}
	}
	fputc('"', f);
}

// Canonical text of a value.  Independent of the repository's printer.
static void
dump(FILE *f, Obj o, int depth) {
	if (isNumber(o)) {
		double d;
		memcpy(&d, &o, sizeof d);
		if (d == (double)(int64_t)d) {
			fprintf(f, "%lld", (long long)d);
		} else {
			fprintf(f, "#float:%g", d);
		}
		return;
	}
	if (o == True) {
		put(f, "true", 4);
		return;
	}
	if (o == False) {
		put(f, "false", 5);
		return;
	}
	if (o == Nil) {
		put(f, "()", 2);
		return;
	}
	if (o == Undef) {
		put(f, "#undef", 6);
		return;
	}
	if (depth <= 0) {
		put(f, "#deep", 5);
		return;
	}
	switch (tag(o)) {
	case TAG_COBJ:
		put(f, "#cobj", 5);
		return;
	case TAG_SYMBOL: {
		char *s = toCStr(ptr(o));
		put(f, s, strlen(s));
		return;
	}
	case TAG_BYTES:
		dumpBytes(f, bytesData(o), bytesLen(o));
		return;
	case TAG_NATIVE:
		put(f, "#fn", 3);
		return;
	case TAG_CONS: {
		fputc('(', f);
		for (int first = 1;; first = 0) {
			if (!first) {
				fputc(' ', f);
			}
			dump(f, car(o), depth - 1);
			o = cdr(o);
			if (o == Nil) {
				break;
			}
			if (!iscons(o)) {
				put(f, " . ", 3);
				dump(f, o, depth - 1);
				break;
			}
		}
		fputc(')', f);
		return;
	}
	case TAG_PTR: {
		scmHead *h = ptr(o);
		if (h->type == scmHeadSymbol) {
			put(f, "#g", 2);
			return;
		}
		if (h->type == scmHeadVector) {
			put(f, "#(", 2);
			int n = vectorLength(o);
			for (int i = 0; i < n; i++) {
				if (i) {
					fputc(' ', f);
				}
				dump(f, vectorRef(o, i), depth - 1);
			}
			fputc(')', f);
			return;
		}
		fprintf(f, "#ptr%d", h->type);
		return;
	}
	}
	put(f, "#?", 2);
}

static void
record(const char *id, const char *status, const char *data, size_t n) {
	fprintf(results, "#case %s %s %zu\n", id, status, n);
	fwrite(data, 1, n, results);
	fputc('\n', results);
	fflush(results);
}

static void
limits(void) {
	struct rlimit r = {caseCpu, caseCpu + 2};
	setrlimit(RLIMIT_CPU, &r);
	if (caseMem) {
		struct rlimit m = {caseMem, caseMem};
		setrlimit(RLIMIT_AS, &m);
	}
	struct rlimit c = {0, 0};
	setrlimit(RLIMIT_CORE, &c);
	alarm(caseWall);
}

// Run body in a child; everything it writes to `ev` is its record.
static void
forkCase(const char *id, void (*body)(void *), void *arg) {
	int fd[2];
	fflush(NULL);
	if (getenv("VT_NOFORK") && !strcmp(getenv("VT_NOFORK"), id)) { // for debugging
		ev = stderr;
		body(arg);
		exit(0);
	}
	if (pipe(fd) != 0) {
		perror("pipe");
		exit(3);
	}
	pid_t pid = fork();
	if (pid < 0) {
		perror("fork");
		exit(3);
	}
	if (pid == 0) {
		close(fd[0]);
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 1);
		if (!getenv("VT_STDERR")) {
			dup2(dn, 2);
		}
		limits();
		ev = fdopen(fd[1], "w");
		body(arg);
		fflush(ev);
		_exit(0);
	}
	close(fd[1]);
	struct buf b = {malloc(4096), 0, 4096};
	while (1) {
		if (b.len == b.cap) {
			b.cap *= 2;
			b.p = realloc(b.p, b.cap);
		}
		ssize_t n = read(fd[0], b.p + b.len, b.cap - b.len);
		if (n < 0 && errno == EINTR) {
			continue;
		}
		if (n <= 0) {
			break;
		}
		b.len += n;
		if (b.len > 64 << 20) {
			kill(pid, SIGKILL);
			break;
		}
	}
	close(fd[0]);
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	char status[32];
	if (WIFEXITED(st)) {
		snprintf(status, sizeof status, "exit:%d", WEXITSTATUS(st));
	} else if (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU) {
		snprintf(status, sizeof status, "timeout:%d", WTERMSIG(st));
	} else {
		snprintf(status, sizeof status, "signal:%d", WTERMSIG(st));
	}
	record(id, status, b.p, b.len);
	free(b.p);
}

struct callArg {
	Cora *co;
	Obj fn;
};

static void
callThunk(void *p) {
	struct callArg *a = p;
	coraCall(a->co, a->fn, 0, NULL);
	coraRun(a->co);
	fputs("=> ", ev);
	dump(ev, a->co->res, 100000);
	fputc('\n', ev);
}

static void
vtCase(Cora *co, int label, Obj *R) {
	char id[64];
	snprintf(id, sizeof id, "%lld", (long long)fixnum(R[1]));
	struct callArg a = {co, R[2]};
	forkCase(id, callThunk, &a);
	coraReturn(co, Nil);
}

static void
vtEmit(Cora *co, int label, Obj *R) {
	if (ev != NULL) {
		dump(ev, R[1], 100000);
		fputc('\n', ev);
		fflush(ev);
	}
	coraReturn(co, R[1]);
}

// (vt#rss) resident set in KB, for the memory properties.
static void
vtRss(Cora *co, int label, Obj *R) {
	long pages = 0, dummy;
	FILE *f = fopen("/proc/self/statm", "r");
	if (f == NULL || fscanf(f, "%ld %ld", &dummy, &pages) != 2) {
		pages = -1;
	}
	if (f) {
		fclose(f);
	}
	coraReturn(co, makeNumber(pages * 4));
}

// (vt#mark n) logs "rss KB"; returns n
static void
vtMark(Cora *co, int label, Obj *R) {
	long pages = 0, dummy;
	Obj n = R[1];
	FILE *f = fopen("/proc/self/statm", "r");
	if (f == NULL || fscanf(f, "%ld %ld", &dummy, &pages) != 2) {
		pages = -1;
	}
	if (f) {
		fclose(f);
	}
	if (ev != NULL) {
		fprintf(ev, "rss %ld\n", pages * 4);
		fflush(ev);
	}
	coraReturn(co, n);
}

// (vt#gc limit steps poison) sets the collector's test hooks
static void
vtGC(Cora *co, int label, Obj *R) {
#ifdef CORA_VERIF_HOOKS
	coraVerifGCLimit = fixnum(R[1]);
	coraVerifGCSteps = fixnum(R[2]);
	coraVerifGCPoison = fixnum(R[3]);
#endif
	coraReturn(co, Nil);
}

static void
vtStr(Cora *co, int label, Obj *R) {
	// (vt#bytes list) -> string with exactly these bytes
	Obj l = R[1];
	int n = 0;
	for (Obj p = l; p != Nil; p = cdr(p)) {
		n++;
	}
	char *b = malloc(n + 1);
	int i = 0;
	for (Obj p = l; p != Nil; p = cdr(p)) {
		b[i++] = (char)fixnum(car(p));
	}
	Obj s = makeString(co->gc, b, n);
	free(b);
	coraReturn(co, s);
}

static void
import1(Cora *co, char *pkg) {
	Obj fn = symbolGet(co, intern("import"));
	Obj args[1] = {makeCString(co->gc, pkg)};
	coraCall(co, fn, 1, args);
	coraRun(co);
}

static Cora *CO;
static int booted;

static void
boot(int level) {
	if (booted == 0) {
		CO = coraInit();
		coraRegisterAPI(CO, "vt", "case", vtCase, 2);
		coraRegisterAPI(CO, "vt", "emit", vtEmit, 1);
		coraRegisterAPI(CO, "vt", "rss", vtRss, 0);
		coraRegisterAPI(CO, "vt", "mark", vtMark, 1);
		coraRegisterAPI(CO, "vt", "bytes", vtStr, 1);
		coraRegisterAPI(CO, "vt", "gc", vtGC, 3);
		import1(CO, "cora/init");
		import1(CO, "cora/lib/toc");
		booted = 1;
	}
	if (booted == 1 && level > 1) {
		import1(CO, "cora/lib/eval");
		booted = 2;
	}
}

static void
evalFile(const char *path, int how) {
	FILE *f = openCopy(path);
	if (f == NULL) {
		perror(path);
		exit(3);
	}
	int err = 0;
	while (1) {
		Obj exp = sexpRead(CO->gc, f, &err);
		if (err != 0) {
			break;
		}
		Obj a1[1] = {exp};
		coraCall(CO, symbolGet(CO, intern("macroexpand")), 1, a1);
		coraRun(CO);
		exp = CO->res;
		Obj a2[2] = {exp, Nil};
		coraCall(CO, symbolGet(CO, intern("cora/lib/eval#eval")), 2, a2);
		coraRun(CO);
	}
	fclose(f);
}

static void
compileTo(char *from, char *to) {
	Obj fn = symbolGet(CO, intern("cora/lib/toc#compile-to-c"));
	Obj a[2] = {makeCString(CO->gc, from), makeCString(CO->gc, to)};
	coraCall(CO, fn, 2, a);
	coraRun(CO);
}

static void
loadSo(char *so) {
	Obj fn = symbolGet(CO, intern("load-so"));
	Obj a[2] = {makeCString(CO->gc, so), makeCString(CO->gc, "")};
	coraCall(CO, fn, 2, a);
	coraRun(CO);
	if (isNumber(CO->res)) {
		fprintf(stderr, "load-so failed: %s\n", so);
		exit(3);
	}
}

static int readBack;

static char *
dumped(Obj o) {
	char *p = NULL;
	size_t n = 0;
	FILE *m = open_memstream(&p, &n);
	dump(m, o, 1 << 30);
	fclose(m);
	return p;
}

// Read every datum of a file; record canonical values, then the end marker.
// With readBack, also print every datum and read what was printed.
static void
readAll(void *p) {
	FILE *f = fopen(p, "r");
	int err = 0;
	if (CO == NULL) {
		CO = coraInit();
	}
	for (int i = 0; i < 1000000; i++) {
		Obj o = sexpRead(CO->gc, f, &err);
		if (err != 0) {
			fprintf(ev, "end\n");
			return;
		}
		char *d = dumped(o);
		fprintf(ev, "datum %s\n", d);
		fflush(ev);
		if (readBack) {
			char *w = NULL;
			size_t n = 0;
			FILE *m = open_memstream(&w, &n);
			sexpWrite(m, o);
			fclose(m);
			int e2 = 0;
			if (n == 0) {
				fprintf(ev, "PRINTED NOTHING\n");
				continue;
			}
			m = fmemopen(w, n, "r");
			Obj b = sexpRead(CO->gc, m, &e2);
			char *d2 = dumped(b);
			if (e2 != 0 || strcmp(d, d2) != 0) {
				fprintf(ev, "PRINTED %s READS %d %s\n", w, e2, d2);
			}
			sexpRead(CO->gc, m, &e2);
			if (e2 == 0) {
				fprintf(ev, "PRINTED MORE %s\n", w);
			}
			fclose(m);
			free(w);
			free(d2);
		}
		free(d);
	}
	fprintf(ev, "toomany\n");
}

#include "heap.c"

// emb.c
void embBoot(Cora *co);
void embScript(char *path, FILE *log);

void
vtDump(FILE *f, Obj o) {
	dump(f, o, 100000);
}

static void
embCase(void *p) {
	embScript(p, ev);
}

int
main(int argc, char *argv[]) {
	char *rp = getenv("VT_RESULTS");
	results = fopen(rp ? rp : "/dev/null", "a");
	FILE *s = openCopy(argv[1]);
	char line[4096], a[2048], b[2048], c[2048], d[2048];
	setvbuf(stdout, NULL, _IOLBF, 0);
	while (fgets(line, sizeof line, s)) {
		a[0] = b[0] = c[0] = d[0] = 0;
		sscanf(line, "%2047s %2047s %2047s %2047s", a, b, c, d);
		if (!strcmp(a, "compile")) {
			boot(2);
			compileTo(b, c);
		} else if (!strcmp(a, "compile0")) {
			boot(1);
			compileTo(b, c);
		} else if (!strcmp(a, "eval")) {
			boot(2);
			evalFile(b, 0);
		} else if (!strcmp(a, "loadso")) {
			boot(2);
			loadSo(b);
		} else if (!strcmp(a, "import")) {
			boot(2);
			import1(CO, b);
		} else if (!strcmp(a, "read")) { // read ID FILE
			readBack = !strcmp(d, "back");
			forkCase(b, readAll, c);
		} else if (!strcmp(a, "heap")) { // heap ID FILE
			forkCase(b, heapScript, c);
		} else if (!strcmp(a, "embboot")) {
			boot(2);
			embBoot(CO);
		} else if (!strcmp(a, "emb")) { // emb ID FILE
			forkCase(b, embCase, c);
		} else if (!strcmp(a, "limit")) { // limit CPU WALL
			caseCpu = atoi(b);
			caseWall = atoi(c);
		} else if (!strcmp(a, "mem")) {
			caseMem = atol(b);
		} else if (!strcmp(a, "gclimit")) {
#ifdef CORA_VERIF_HOOKS
			boot(2);
			coraVerifGCLimit = atol(b);
			coraVerifGCSteps = atoi(c);
			coraVerifGCPoison = atoi(d);
#else
			fprintf(stderr, "built without hooks\n");
			exit(3);
#endif
		} else if (a[0]) {
			fprintf(stderr, "bad command %s\n", a);
			exit(3);
		}
	}
	record("done", "exit:0", "", 0);
	return 0;
}
