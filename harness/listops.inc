/* The list operations for one flavour. FL: suffix, LT: list type, KT: link
 * type, MB: member of struct E, DBL: double linked, CNT: counted */
#define C2(a, b) a##b
#define C1(a, b) C2(a, b)
#define F(n) C1(n, FL)
static LT F(lists)[NL];
static struct KT * F(lk)(int e) { return &el[e - 1].MB; }
static int F(id)(int l, struct KT * k)
{
	if (k == LIST_end(&F(lists)[l]))
		return 0;
	for (int i = 0; i < NE; ++i)
		if (k == &el[i].MB)
			return i + 1;
	return 99; /* not a link of anything known */
}
/* an element which has been taken out: its link is undefined */
static void F(out)(int e) { if (e > 0 && e <= NE) memset(F(lk)(e), 0xee, sizeof(struct KT)); }
static const char * F(dump)(int l, int variant, bool rev)
{
	static char buf[16][200];
	static int nb;
	char * b = buf[nb++ % 16];
	int n = 0, k = 0;
	*b = 0;
#define PUT(x) if (k >= 12) break; n += sprintf(b + n, "%s%d", k++ ? "," : "", (x))
	LT * L = &F(lists)[l];
	struct KT * link, * nx;
	struct E * it;
#if DBL
	if (rev) {
		if (variant == 0) {
			LIST_foreachRev(L, link) { PUT(F(id)(l, link)); }
		} else if (variant == 1) {
			LIST_foreachItemRev(L, it, MB) { PUT(it->id); }
		} else if (variant == 2) {
			LIST_foreachRevSafe(L, link, nx) { PUT(F(id)(l, link)); }
		} else
			for (link = LIST_prev(LIST_end(L)); link != LIST_end(L); link = LIST_prev(link)) { PUT(F(id)(l, link)); }
		return b;
	}
#endif
	switch (variant) {
	case 0: LIST_foreach(L, link) { PUT(F(id)(l, link)); } break;
	case 1: LIST_foreachItem(L, it, MB) { PUT(it->id); } break;
	case 2: LIST_foreachSafe(L, link, nx) { PUT(F(id)(l, link)); } break;
	case 3:
		for (int i = 0; LIST_at(L, i) != LIST_end(L); ++i) { PUT(F(id)(l, LIST_at(L, i))); }
		break;
	case 4:
		for (int i = 1; LIST_forward(LIST_end(L), i) != LIST_end(L); ++i) { PUT(F(id)(l, LIST_forward(LIST_end(L), i))); }
		break;
	default:
		for (link = LIST_begin(L); (it = LIST_itemSafe(L, link, struct E, MB)); link = LIST_next(link)) { PUT(it->id); }
	}
	return b;
}
static void F(state)(int variant)
{
	char f[400] = "", b[400] = "";
	for (int l = 0; l < NL; ++l) {
		sprintf(f + strlen(f), "%s[%s]", l ? "," : "", F(dump)(l, variant % 6, false));
#if DBL
		sprintf(b + strlen(b), "%s[%s]", l ? "," : "", F(dump)(l, variant % 4, true));
#endif
	}
#if DBL
	sim_ev("\"e\":\"st\",\"f\":[%s],\"b\":[%s]", f, b);
#else
	sim_ev("\"e\":\"st\",\"f\":[%s]", f);
#endif
}
static void F(op)(const char * o, int a, int x, int y)
{
	LT * L = &F(lists)[a];
	if (getenv("SIM_STDOUT"))
		fprintf(stderr, "%s %d %d %d\n", o, a, x, y);
	char r[200] = "0";
	struct KT * link = NULL, * nx = NULL;
	struct E * it = NULL;
	if (!strcmp(o, "init")) {
		LIST_foreachSafe(L, link, nx) F(out)(F(id)(a, link));
		LIST_init(L);
	} else if (!strcmp(o, "push")) LIST_push(L, F(lk)(x));
	else if (!strcmp(o, "unshift")) LIST_unshift(L, F(lk)(x));
	else if (!strcmp(o, "shift")) {
		int e = F(id)(a, LIST_shift(L));
		F(out)(e);
		sprintf(r, "%d", e);
	} else if (!strcmp(o, "empty")) sprintf(r, "%d", LIST_empty(L));
	else if (!strcmp(o, "begin")) sprintf(r, "%d", F(id)(a, LIST_begin(L)));
	else if (!strcmp(o, "at")) sprintf(r, "%d", F(id)(a, LIST_at(L, x)));
	else if (!strcmp(o, "next")) sprintf(r, "%d", F(id)(a, LIST_next(x ? F(lk)(x) : LIST_end(L))));
	else if (!strcmp(o, "cpush")) { LIST_concatenatePush(L, &F(lists)[x]); }
	else if (!strcmp(o, "cunshift")) { LIST_concatenateUnshift(L, &F(lists)[x]); }
	else if (!strcmp(o, "vec")) { /* y elements from x on */
		memset(L, 0xdd, sizeof *L);
		LIST_fromVector(L, &el[x - 1], MB, y);
	} else if (!strcmp(o, "cont")) { /* the items after the given one */
		int n = 0, k = 0;
		it = LIST_item(F(lk)(x), struct E, MB);
		*r = 0;
		LIST_foreachItem_continue(L, it, MB) { if (k >= 12) break; n += sprintf(r + n, "%s%d", k++ ? "," : "", it->id); }
	}
#if CNT
	else if (!strcmp(o, "length")) sprintf(r, "%zu", LIST_length(L));
#endif
#if DBL
	else if (!strcmp(o, "pop")) {
		int e = F(id)(a, LIST_pop(L));
		F(out)(e);
		sprintf(r, "%d", e);
	} else if (!strcmp(o, "last")) sprintf(r, "%d", F(id)(a, LIST_beginRev(L)));
	else if (!strcmp(o, "prev")) sprintf(r, "%d", F(id)(a, LIST_prev(x ? F(lk)(x) : LIST_end(L))));
	else if (!strcmp(o, "rewind")) sprintf(r, "%d", F(id)(a, LIST_rewind(LIST_end(L), x)));
	else if (!strcmp(o, "unlink")) {
		LIST_unlink(L, x ? F(lk)(x) : LIST_end(L));
		F(out)(x);
	} else if (!strcmp(o, "insert")) LIST_insert(L, y ? F(lk)(y) : LIST_end(L), F(lk)(x));
	else if (!strcmp(o, "from") || (!CNT && !strcmp(o, "lfrom"))) {
		memset(&F(lists)[x], 0xdd, sizeof *L);
		LIST_separateFrom(L, &F(lists)[x], y ? F(lk)(y) : LIST_end(L));
	} else if (!strcmp(o, "until") || (!CNT && !strcmp(o, "luntil"))) {
		memset(&F(lists)[x], 0xdd, sizeof *L);
		LIST_separateUntil(L, &F(lists)[x], y ? F(lk)(y) : LIST_end(L));
	}
#if CNT
	else if (!strcmp(o, "lfrom")) { /* not counted until asked for */
		memset(&F(lists)[x], 0xdd, sizeof *L);
		C1(LIST_separateFrom, FL)(L, &F(lists)[x], y ? F(lk)(y) : LIST_end(L));
	} else if (!strcmp(o, "luntil")) {
		memset(&F(lists)[x], 0xdd, sizeof *L);
		C1(LIST_separateUntil, FL)(L, &F(lists)[x], y ? F(lk)(y) : LIST_end(L));
	}
#endif
	else if (!strcmp(o, "rcont")) {
		int n = 0, k = 0;
		it = LIST_item(F(lk)(x), struct E, MB);
		*r = 0;
		LIST_foreachItemRev_continue(L, it, MB) { if (k >= 12) break; n += sprintf(r + n, "%s%d", k++ ? "," : "", it->id); }
	} else if (!strcmp(o, "purge")) { /* take out the elements of the set x while iterating */
		int n = 0, k = 0;
		*r = 0;
		if (y)
			LIST_foreachRevSafe(L, link, nx) {
				int e = F(id)(a, link);
				if (k >= 12) break;
				n += sprintf(r + n, "%s%d", k++ ? "," : "", e);
				if (x >> (e - 1) & 1) { LIST_unlink(L, link); F(out)(e); }
			}
		else
			LIST_foreachSafe(L, link, nx) {
				int e = F(id)(a, link);
				if (k >= 12) break;
				n += sprintf(r + n, "%s%d", k++ ? "," : "", e);
				if (x >> (e - 1) & 1) { LIST_unlink(L, link); F(out)(e); }
			}
	}
#endif
	else
		return; /* not an operation of this flavour */
	sim_ev("\"e\":\"op\",\"o\":\"%s\",\"a\":%d,\"x\":%d,\"y\":%d,\"r\":[%s]", o, a + 1, x, y, r);
}
static void F(start)(void)
{
	for (int l = 0; l < NL; ++l) {
		/* the two ways of creating an empty list */
		if (l & 1)
			memset(&F(lists)[l], 0xdd, sizeof F(lists)[l]);
		LIST_init(&F(lists)[l]);
	}
	LT stat = INI(stat);
	sim_ev("\"e\":\"empty\",\"r\":%d", LIST_empty(&stat) && LIST_begin(&stat) == LIST_end(&stat));
#if CNT
	sim_ev("\"e\":\"empty\",\"r\":%d", LIST_length(&stat) == 0);
#endif
	LIST_push(&stat, F(lk)(1));
	LIST_push(&stat, F(lk)(2));
	sim_ev("\"e\":\"empty\",\"r\":%d", LIST_at(&stat, 0) == F(lk)(1) && LIST_at(&stat, 1) == F(lk)(2) && LIST_at(&stat, 2) == LIST_end(&stat));
}
#undef F
#undef FL
#undef LT
#undef KT
#undef MB
#undef DBL
#undef CNT
#undef INI
#undef PUT
