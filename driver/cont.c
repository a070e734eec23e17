// Runs operation scripts over the runtime's native containers (str.h, map.h,
// vector.h).  cont FILE...: each FILE in a child, its output in FILE.out, its
// end status in FILE.st.
#include "map.h"
#include "str.h"
#include "vector.h"
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

strBuf strBufReserve(strBuf s, int cap);

#define NR 6
static strBuf R[NR];

typedef struct {
	char tag;
	int64_t a, b, c;
} Val;
typedef struct {
	int64_t hash;
	int64_t id;
} Key;

static map(Key, Val) m1;
static map(str, strBuf) m2;
static map(int, short) m3;
static int badHash;

static uint64_t
keyHash(void *k) {
	return ((Key *)k)->hash;
}
static bool
keyEq(void *a, void *b) {
	return ((Key *)a)->id == ((Key *)b)->id;
}
static uint64_t
strHash(void *k) {
	str s = *(str *)k;
	return badHash ? (uint64_t)s.len << 60 : fnv1a64(s.str, s.len);
}
static bool
strEq(void *a, void *b) {
	return strCmp(*(str *)a, *(str *)b) == 0;
}
static uint64_t
intHash(void *k) {
	return badHash == 1 ? 0 : badHash == 2 ? mix64(*(int *)k) : lowbias32(*(int *)k);
}
static bool
intEq(void *a, void *b) {
	return *(int *)a == *(int *)b;
}

static vector(char) v0;
static vector(int) v1;
static vector(Val) v2;
static vector(void *) v3;

static str
hex(char *h) {
	// an exact-size heap copy, so that reading past its end is seen
	int n = strlen(h) / 2;
	char *p = malloc(n > 0 ? n : 1);
	for (int i = 0; i < n; i++) {
		unsigned x;
		sscanf(h + 2 * i, "%2x", &x);
		p[i] = x;
	}
	return (str){p, n};
}

static void
put(const char *p, int n) {
	putchar('"');
	for (int i = 0; i < n; i++) {
		printf("%02x", (unsigned char)p[i]);
	}
	putchar('"');
	putchar('\n');
}

static void
show(int r) {
	str s = toStr(R[r]);
	put(s.str, s.len);
	char *c = toCStr(R[r]);
	if (c != s.str || c[s.len] != 0) {
		printf("NOT TERMINATED\n");
	}
}

static void
run(char *file) {
	FILE *f = fopen(file, "r");
	char *line = NULL;
	size_t cap = 0;
	char op[32], h[1 << 16];
	long a, b, c, d;
	for (int i = 0; i < NR; i++) {
		R[i] = strNew(1);
	}
	while (getline(&line, &cap, f) > 0) {
		h[0] = 0;
		a = b = c = d = 0;
		int n = sscanf(line, "%31s %ld %ld %ld %ld", op, &a, &b, &c, &d);
		(void)n;
		char *q = strchr(line, '\'');
		if (q) {
			snprintf(h, sizeof h, "%s", q + 1);
			h[strcspn(h, "'\n")] = 0;
		}
		str s = hex(h);
#define IS(x) (!strcmp(op, x))
		if (IS("new")) {
			strFree(R[a]);
			R[a] = strNew(b);
			show(a);
		} else if (IS("blk")) {
			strFree(R[a]);
			R[a] = fromBlk(s.str, s.len);
			show(a);
		} else if (IS("cstr")) {
			char *z = malloc(s.len + 1);
			memcpy(z, s.str, s.len);
			z[s.len] = 0;
			str t = cstr(z);
			printf("%d\n", strLen(t));
			strFree(R[a]);
			R[a] = fromCStr(z);
			free(z);
			show(a);
		} else if (IS("dup")) {
			strBuf t = strDup(toStr(R[b]));
			strFree(R[a]);
			R[a] = t;
			show(a);
		} else if (IS("cpy")) {
			R[a] = strCpy(R[a], s);
			show(a);
		} else if (IS("cpyr")) {
			R[a] = strCpy(R[a], toStr(R[b]));
			show(a);
		} else if (IS("cat")) {
			R[a] = strCat(R[a], s);
			show(a);
		} else if (IS("catr")) {
			R[a] = strCat(R[a], toStr(R[b]));
			show(a);
		} else if (IS("app")) {
			for (int i = 0; i < s.len; i++) {
				R[a] = strAppend(R[a], s.str[i]);
			}
			show(a);
		} else if (IS("many")) {
			for (int i = 0; i < b; i++) {
				R[a] = strAppend(R[a], (char)(c + i * d));
			}
			show(a);
		} else if (IS("shrink")) {
			R[a] = strShrink(R[a], b);
			show(a);
		} else if (IS("reserve")) {
			R[a] = strBufReserve(R[a], b);
			show(a);
		} else if (IS("sub")) {
			str t = strSub(toStr(R[a]), b, c);
			put(t.str, t.len);
		} else if (IS("subx")) {
			str t = strSub(s, b, c);
			put(t.str, t.len);
		} else if (IS("str")) {
			printf("%d\n", strStr(toStr(R[a]), s));
		} else if (IS("strr")) {
			printf("%d\n", strStr(toStr(R[a]), toStr(R[b])));
		} else if (IS("strx")) { // both operands exact-size
			str t = strSub(toStr(R[a]), b, c);
			char *e = malloc(t.len ? t.len : 1);
			memcpy(e, t.str ? t.str : "", t.len);
			printf("%d\n", strStr((str){e, t.len}, s));
			free(e);
		} else if (IS("chr")) {
			printf("%d\n", strChr(s, (char)b));
		} else if (IS("rchr")) {
			printf("%d\n", strRchr(s, (char)b));
		} else if (IS("cmp")) {
			str t = toStr(R[a]);
			int x = strCmp(t, s), y = strCmp(s, t);
			printf("%d %d\n", (x > 0) - (x < 0), (y > 0) - (y < 0));
		} else if (IS("len")) {
			printf("%d\n", strLen(s));
		} else if (IS("minit")) {
			mapInit(&m1, keyHash, keyEq);
			mapInit(&m2, strHash, strEq);
			mapInit(&m3, intHash, intEq);
			badHash = a;
		} else if (IS("mset")) {
			Key k = {a, b};
			Val v = {'v', c, ~c, d};
			mapSet(&m1, k, v);
		} else if (IS("mget")) {
			Key k = {a, b};
			Val *v = mapGet(&m1, k);
			if (v == NULL) {
				printf("none\n");
			} else {
				printf("%c %ld %ld %ld\n", v->tag, (long)v->a, (long)v->b, (long)v->c);
			}
		} else if (IS("sset")) {
			char *keep = malloc(s.len ? s.len : 1);
			memcpy(keep, s.str, s.len);
			strBuf x = fromBlk(keep, s.len);
			x = strAppend(x, '0' + a);
			str k = {keep, s.len};
			mapSet(&m2, k, x);
		} else if (IS("sget")) {
			strBuf *x = mapGet(&m2, s);
			if (x == NULL) {
				printf("none\n");
			} else {
				put(toStr(*x).str, toStr(*x).len);
			}
		} else if (IS("iset")) {
			int k = a;
			short v = b;
			mapSet(&m3, k, v);
		} else if (IS("iget")) {
			int k = a;
			short *v = mapGet(&m3, k);
			if (v == NULL) {
				printf("none\n");
			} else {
				printf("%d\n", *v);
			}
		} else if (IS("vinit")) {
			vecInit(&v0, a);
			vecInit(&v1, a);
			vecInit(&v2, a);
			vecInit(&v3, a);
		} else if (IS("vfree")) {
			vecFree(&v0);
			vecFree(&v1);
			vecFree(&v2);
			vecFree(&v3);
		} else if (IS("vapp")) {
			Val w = {'w', a, a * 3, -a};
			vecAppend(&v0, (char)a);
			vecAppend(&v1, a);
			vecAppend(&v2, w);
			vecAppend(&v3, (void *)a);
		} else if (IS("vset")) {
			Val w = {'s', b, b * 3, -b};
			vecSet(&v0, a, (char)b);
			vecSet(&v1, a, b);
			vecSet(&v2, a, w);
			vecSet(&v3, a, (void *)b);
		} else if (IS("vref")) {
			*vecRef(&v1, a) += 1;
			*vecRef(&v3, a) = (void *)((long)vecGet(&v3, a) + 1);
		} else if (IS("vpop")) {
			char c0 = vecPop(&v0);
			int c1 = vecPop(&v1);
			Val c2 = vecPop(&v2);
			long c3 = (long)vecPop(&v3);
			printf("%d %d %c %ld %ld %ld %ld\n", c0, c1, c2.tag, (long)c2.a, (long)c2.b, (long)c2.c, c3);
		} else if (IS("vget")) {
			Val w = vecGet(&v2, a);
			printf("%d %d %c %ld %ld %ld %ld\n", vecGet(&v0, a), vecGet(&v1, a), w.tag, (long)w.a, (long)w.b, (long)w.c, (long)vecGet(&v3, a));
		} else if (IS("vlen")) {
			printf("%d %d %d %d %d\n", vecLen(&v0), vecLen(&v1), vecLen(&v2), vecLen(&v3),
				vecCap(&v0) >= vecLen(&v0) && vecCap(&v2) >= vecLen(&v2));
		} else {
			printf("BAD OP %s\n", op);
		}
		free(s.str);
	}
	for (int i = 0; i < NR; i++) {
		show(i);
		strFree(R[i]);
	}
	printf("end\n");
	fflush(stdout);
}

int
main(int argc, char *argv[]) {
	for (int i = 1; i < argc; i++) {
		char out[4096];
		fflush(NULL);
		pid_t pid = fork();
		if (pid == 0) {
			snprintf(out, sizeof out, "%s.out", argv[i]);
			int fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
			dup2(fd, 1);
			snprintf(out, sizeof out, "%s.err", argv[i]);
			fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
			dup2(fd, 2);
			alarm(30);
			run(argv[i]);
			_exit(0);
		}
		int st;
		waitpid(pid, &st, 0);
		snprintf(out, sizeof out, "%s.st", argv[i]);
		FILE *f = fopen(out, "w");
		if (WIFEXITED(st)) {
			fprintf(f, "exit:%d", WEXITSTATUS(st));
		} else if (WTERMSIG(st) == SIGALRM) {
			fprintf(f, "timeout:14");
		} else {
			fprintf(f, "signal:%d", WTERMSIG(st));
		}
		fclose(f);
	}
	return 0;
}
