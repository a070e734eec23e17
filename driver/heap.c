// Model-based test of the heap through the C interface: every operation is done
// on real objects and on a shadow graph held outside the collected heap, and
// "V" compares everything reachable from the roots.  Included by vt.c.

extern Obj coraSymbolGet(Cora *co, Obj sym);
extern Obj coraPrimSet(Cora *co, Obj key, Obj val);
extern Obj coraPrimGenSym(Cora *co);
extern Obj coraGetResult(Cora *co);

enum { hCons, hBytes, hVec, hCell, hClo };

struct sh;
struct fld {
	struct sh *s; // NULL: the number n
	long n;
};
struct sh {
	int kind, len, cap, nf;
	unsigned seed;
	Obj obj;
	struct fld *f;
	int mark;
};

#define HROOTS 12
static struct fld hroot[HROOTS];
static Obj hsym[HROOTS];
static struct sh **hall;
static int hn, hcap, hepoch;
static Cora *hco;
static long hchecked, hticks;

static void
hfail(const char *what, struct sh *s, int i) {
	fprintf(ev, "BAD %s kind=%d len=%d at=%d\n", what, s ? s->kind : -1, s ? s->len : 0, i);
	fflush(ev);
	_exit(0);
}

static struct sh *
hnew(int kind, int len, int nf) {
	struct sh *s = calloc(1, sizeof *s);
	s->kind = kind;
	s->len = len;
	s->nf = nf;
	s->f = calloc(nf + 1, sizeof *s->f);
	if (hn == hcap) {
		hcap = hcap ? hcap * 2 : 1024;
		hall = realloc(hall, hcap * sizeof *hall);
	}
	hall[hn++] = s;
	return s;
}

static Obj
hval(struct fld f) {
	return f.s ? f.s->obj : makeNumber(f.n);
}

static unsigned char
hbyte(unsigned seed, int i) {
	return (seed * 31 + i * 7 + (i >> 8)) & 255;
}

// r<root>.<i>.<i>... or a number
static struct fld
hparse(const char *p) {
	struct fld v = {NULL, 0};
	if (*p != 'r') {
		v.n = atol(p);
		return v;
	}
	v = hroot[strtol(p + 1, (char **)&p, 10) % HROOTS];
	while (*p == '.') {
		int i = strtol(p + 1, (char **)&p, 10);
		if (v.s == NULL || v.s->nf == 0) {
			break;
		}
		v = v.s->f[i % v.s->nf];
	}
	if (v.s == NULL && v.n == -99) { // never an element without a value
		v.n = 0;
	}
	return v;
}

static void
hset(int r, struct fld v) {
	hroot[r] = v;
	coraPrimSet(hco, hsym[r], hval(v));
}

static void
hnop(Cora *co, int label, Obj *R) {
	coraReturn(co, R[1]);
}

static void
hdummy(Cora *co, int label, Obj *R) {
	coraReturn(co, Nil);
}

static void
htick(Obj x) {
	static Obj nop = 0;
	if (!nop) {
		nop = coraSymbolGet(hco, intern("vt#nop"));
	}
	Obj a[1] = {x};
	coraCall(hco, nop, 1, a);
	coraRun(hco);
	hticks++;
	if (coraGetResult(hco) != x) {
		hfail("result of a call", NULL, 0);
	}
}

static Obj
hnative(Obj *d, int n) {
	GC *gc = hco->gc;
	switch (n) {
	case 0: return makeNative(gc, 4, hdummy, 1, 0);
	case 1: return makeNative(gc, 4, hdummy, 1, 1, d[0]);
	case 2: return makeNative(gc, 4, hdummy, 1, 2, d[0], d[1]);
	case 3: return makeNative(gc, 4, hdummy, 1, 3, d[0], d[1], d[2]);
	case 4: return makeNative(gc, 4, hdummy, 1, 4, d[0], d[1], d[2], d[3]);
	default: return makeNative(gc, 4, hdummy, 1, 5, d[0], d[1], d[2], d[3], d[4]);
	}
}

struct range {
	uintptr_t a, b;
	struct sh *s;
};

static int
hcmp(const void *x, const void *y) {
	const struct range *p = x, *q = y;
	return p->a < q->a ? -1 : p->a > q->a;
}

static void
hcheckField(struct sh *s, int i, Obj o) {
	if (o != hval(s->f[i])) {
		hfail("field", s, i);
	}
}

static void
hverify(void) {
	struct sh **todo = malloc((hn + HROOTS + 1) * sizeof *todo);
	struct range *rg = malloc((hn + 1) * sizeof *rg);
	int n = 0, k = 0, got;
	hepoch++;
	for (int r = 0; r < HROOTS; r++) {
		if (coraSymbolGet(hco, hsym[r]) != hval(hroot[r])) {
			hfail("root", hroot[r].s, r);
		}
		if (hroot[r].s && hroot[r].s->mark != hepoch) {
			hroot[r].s->mark = hepoch;
			todo[n++] = hroot[r].s;
		}
	}
	for (; k < n; k++) {
		struct sh *s = todo[k];
		Obj o = s->obj;
		size_t size = 16;
		hchecked++;
		switch (s->kind) {
		case hCons:
			if (!iscons(o) || ((scmHead *)ptr(o))->type != scmHeadCons) {
				hfail("type", s, 0);
			}
			hcheckField(s, 0, car(o));
			hcheckField(s, 1, cdr(o));
			size = sizeof(struct scmCons);
			break;
		case hBytes:
			if (!isBytes(o) || ((scmHead *)ptr(o))->type != scmHeadBytes) {
				hfail("type", s, 0);
			}
			got = bytesLen(o);
			if (got != s->len) {
				hfail("length", s, got);
			}
			unsigned char *d = (unsigned char *)bytesData(o);
			for (int i = 0; i < s->len; i++) {
				if (d[i] != hbyte(s->seed, i)) {
					hfail("byte", s, i);
				}
			}
			if (d[s->len] != 0) {
				hfail("terminator", s, s->len);
			}
			size = sizeof(struct scmBytes) + s->len + 1;
			break;
		case hVec:
			if (!isvector(o)) {
				hfail("type", s, 0);
			}
			got = vectorLength(o);
			if (got != s->nf) {
				hfail("length", s, got);
			}
			for (int i = 0; i < s->nf; i++) {
				Obj x = vectorRef(o, i);
				if (s->f[i].s == NULL && s->f[i].n == -99) {
					if (x != Undef) {
						hfail("undefined element", s, i);
					}
				} else {
					hcheckField(s, i, x);
				}
			}
			size = sizeof(struct scmVector) + sizeof(Obj) * s->cap;
			break;
		case hCell:
			if (!issymbol(o) || ((scmHead *)ptr(o))->type != scmHeadSymbol) {
				hfail("type", s, 0);
			}
			hcheckField(s, 0, coraSymbolGet(hco, o));
			size = sizeof(struct scmSymbol);
			break;
		case hClo:
			if (tag(o) != TAG_NATIVE || ((scmHead *)ptr(o))->type != scmHeadNative) {
				hfail("type", s, 0);
			}
			if (nativeCaptured(o) != s->nf || nativeRequired(o) != 1 || nativeFn(o) != hdummy) {
				hfail("closure", s, 0);
			}
			for (int i = 0; i < s->nf; i++) {
				hcheckField(s, i, nativeData(o)[i]);
			}
			size = sizeof(struct scmNative) + sizeof(Obj) * s->nf;
			break;
		}
		rg[k].a = (uintptr_t)ptr(o);
		rg[k].b = rg[k].a + size;
		rg[k].s = s;
		for (int i = 0; i < s->nf; i++) {
			struct sh *c = s->f[i].s;
			if (c && c->mark != hepoch) {
				c->mark = hepoch;
				todo[n++] = c;
			}
		}
	}
	qsort(rg, n, sizeof *rg, hcmp);
	for (int i = 0; i + 1 < n; i++) {
		if (rg[i].b > rg[i + 1].a) {
			hfail("overlap", rg[i].s, i);
		}
	}
	free(todo);
	free(rg);
}

static void
heapScript(void *file) {
	FILE *f = fopen(file, "r");
	char line[512], t[12][40];
	hco = coraInit();
	coraRegisterAPI(hco, "vt", "nop", hnop, 1);
	for (int r = 0; r < HROOTS; r++) {
		char name[32];
		snprintf(name, sizeof name, "vt#r%d", r);
		hsym[r] = intern(name);
		coraPrimSet(hco, hsym[r], makeNumber(0));
	}
	while (fgets(line, sizeof line, f)) {
		int n = 0;
		memset(t, 0, sizeof t);
		for (char *p = strtok(line, " \n"); p && n < 12; p = strtok(NULL, " \n")) {
			snprintf(t[n++], sizeof t[0], "%s", p);
		}
		if (n == 0) {
			continue;
		}
		GC *gc = hco->gc;
		int r = atoi(t[1]) % HROOTS;
		switch (t[0][0]) {
		case 'A': { // A root kind p q seed f...
			int kind = atoi(t[2]), p = atoi(t[3]), q = atoi(t[4]);
			struct sh *s = NULL;
			if (kind == hCons) {
				s = hnew(kind, 0, 2);
				s->f[0] = hparse(t[6]);
				s->f[1] = hparse(t[7]);
				s->obj = makeCons(gc, hval(s->f[0]), hval(s->f[1]));
			} else if (kind == hBytes) {
				s = hnew(kind, p, 0);
				s->seed = atoi(t[5]);
				char *b = malloc(p + 1);
				for (int i = 0; i < p; i++) {
					b[i] = hbyte(s->seed, i);
				}
				if (q & 1) {
					s->obj = makeString(gc, b, p);
				} else {
					s->obj = makeBytes(gc, p);
					memcpy(bytesData(s->obj), b, p);
					bytesData(s->obj)[p] = 0;
				}
				free(b);
			} else if (kind == hVec) {
				// p elements, room for p+q; every third slot set from the fields
				s = hnew(kind, p, p);
				s->cap = p + q;
				s->obj = makeVector(gc, p, p + q);
				for (int i = 0; i < p; i++) {
					s->f[i].n = -99;
					if (i < 3 || i % 3 == atoi(t[5]) % 3) {
						s->f[i] = hparse(t[6 + i % 3]);
						vectorSet(gc, s->obj, i, hval(s->f[i]));
					}
				}
			} else if (kind == hCell) {
				s = hnew(kind, 0, 1);
				s->obj = coraPrimGenSym(hco);
				s->f[0] = hparse(t[6]);
				coraPrimSet(hco, s->obj, hval(s->f[0]));
			} else {
				s = hnew(hClo, 0, p % 6);
				Obj d[6];
				for (int i = 0; i < s->nf; i++) {
					s->f[i] = hparse(t[6 + i % 3]);
					d[i] = hval(s->f[i]);
				}
				s->obj = hnative(d, s->nf);
			}
			hset(r, (struct fld){s, 0});
			break;
		}
		case 'S': { // S path index value
			struct fld a = hparse(t[1]), v = hparse(t[3]);
			if (a.s && a.s->kind == hVec && a.s->nf) {
				int i = atoi(t[2]) % a.s->nf;
				a.s->f[i] = v;
				vectorSet(gc, a.s->obj, i, hval(v));
			} else if (a.s && a.s->kind == hCell) {
				a.s->f[0] = v;
				coraPrimSet(hco, a.s->obj, hval(v));
			}
			break;
		}
		case 'P': { // P root path value: append, the result goes to the root
			struct fld a = hparse(t[2]), v = hparse(t[3]);
			if (!a.s || a.s->kind != hVec || a.s->cap == 0) {
				break;
			}
			Obj o = vectorAppend(gc, a.s->obj, hval(v));
			struct sh *s = a.s;
			if (a.s->nf < a.s->cap) {
				if (o != a.s->obj) {
					hfail("append moved a vector with room", s, 0);
				}
				s->f = realloc(s->f, (s->nf + 2) * sizeof *s->f);
				s->f[s->nf++] = v;
			} else {
				if (o == a.s->obj) {
					hfail("append to a full vector", s, 0);
				}
				s = hnew(hVec, a.s->nf + 1, a.s->nf + 1);
				s->cap = a.s->nf + 1;
				memcpy(s->f, a.s->f, a.s->nf * sizeof *s->f);
				s->f[a.s->nf] = v;
				s->obj = o;
				struct scmVector *vv = ptr(o);
				if (vv->cap > s->cap) {
					s->cap = vv->cap;
				}
			}
			hset(r, (struct fld){s, 0});
			break;
		}
		case 'W': { // W root count seed: a vector of as many new objects
			int p = atoi(t[2]);
			struct sh *s = hnew(hVec, p, p);
			s->cap = p;
			s->obj = makeVector(gc, p, p);
			for (int i = 0; i < p; i++) {
				struct sh *c = (i + atoi(t[3])) % 3 ? hnew(hCons, 0, 2) : hnew(hCell, 0, 1);
				c->f[0].n = i;
				if (c->kind == hCons) {
					c->obj = makeCons(gc, makeNumber(i), makeNumber(0));
				} else {
					c->obj = coraPrimGenSym(hco);
					coraPrimSet(hco, c->obj, makeNumber(i));
				}
				s->f[i].s = c;
				vectorSet(gc, s->obj, i, c->obj);
			}
			hset(r, (struct fld){s, 0});
			break;
		}
		case 'L': { // L root count value: a long list
			struct fld l = hparse(t[3]);
			for (int i = atoi(t[2]); i > 0; i--) {
				struct sh *c = hnew(hCons, 0, 2);
				c->f[0].n = i;
				c->f[1] = l;
				c->obj = makeCons(gc, makeNumber(i), hval(l));
				l = (struct fld){c, 0};
			}
			hset(r, l);
			break;
		}
		case 'M': // M root value
			hset(r, hparse(t[2]));
			break;
		case 'G': { // G kind size count: garbage
			int kind = atoi(t[1]), size = atoi(t[2]), count = atoi(t[3]);
			for (int i = 0; i < count; i++) {
				if (kind == 0) {
					makeCons(gc, makeNumber(i), Nil);
				} else if (kind == 1) {
					Obj o = makeBytes(gc, size);
					memset(bytesData(o), 0xee, size);
				} else {
					makeVector(gc, size / 8, size / 8);
				}
				if (i % 16 == 15) {
					htick(Nil);
				}
			}
			break;
		}
		case 'T': // T count value: calls; collections start here
			for (int i = atoi(t[1]); i > 0; i--) {
				htick(hval(hparse(t[2])));
			}
			break;
		case 'H': // H limit steps poison
#ifdef CORA_VERIF_HOOKS
			coraVerifGCLimit = atol(t[1]);
			coraVerifGCSteps = atoi(t[2]);
			coraVerifGCPoison = atoi(t[3]);
#endif
			break;
		case 'V':
			hverify();
			break;
		}
	}
	hverify();
	size_t cycles = 0;
#ifdef CORA_VERIF_HOOKS
	cycles = coraVerifGCCount;
#endif
	fprintf(ev, "OK %zu cycles %ld checked\n", cycles, hchecked);
}
