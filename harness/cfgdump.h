/* The options of some sections as JSON: their description, values and flags.
 * secs and NSECS have to be defined before. */
static int hex(char * o, const char * s, size_t n)
{
	return sprintf(o, "%s", sim_bytes(s, n));
}
/* decimal digits without zeros at either end, and the power of ten */
static int dbl(char * o, double d)
{
	if (d == 0)
		return sprintf(o, "[0,[],0]");
	if (!isfinite(d))
		return sprintf(o, "[9,[],0]");
	char b[60];
	for (int p = 0; p < 18; ++p) {
		sprintf(b, "%.*e", p, d);
		if (strtod(b, NULL) == d)
			break;
	}
	char * e = strchr(b, 'e');
	int x = atoi(e + 1), n = 0;
	char dg[40];
	for (char * q = b; q < e; ++q)
		if (*q >= '0' && *q <= '9')
			dg[n++] = *q - '0';
	x -= n - 1;
	while (n && dg[n - 1] == 0)
		--n, ++x;
	int k = sprintf(o, "[%d,[", d < 0);
	for (int i = 0; i < n; ++i)
		k += sprintf(o + k, "%s%d", i ? "," : "", dg[i]);
	return k + sprintf(o + k, "],%d]", x);
}
static int value(char * o, const struct CFG_Option * p)
{
	switch (p->type) {
	case CFG_VALUE_TYPE_STRING: {
		size_t n = strnlen(p->var, p->maxlen);
		if (n == p->maxlen)
			return sprintf(o, "[-1]"); /* not terminated */
		return hex(o, p->var, n);
	}
	case CFG_VALUE_TYPE_INT:
	case CFG_VALUE_TYPE_PORT: {
		char b[30];
		if (p->type == CFG_VALUE_TYPE_INT)
			sprintf(b, "%u", *(uint32_t *)p->var);
		else
			sprintf(b, "%lu", (unsigned long)*(uint_fast16_t *)p->var);
		return hex(o, b, strlen(b));
	}
	case CFG_VALUE_TYPE_BOOL:
		return sprintf(o, "[%d]", *(uint8_t *)p->var);
	case CFG_VALUE_TYPE_DOUBLE:
		return dbl(o, *(double *)p->var);
	}
	return 0;
}
/* all values and flags */
static const char * all(void)
{
	static char o[8000];
	int n = sprintf(o, "\"v\":[");
	for (int s = 0; s < NSECS; ++s)
		for (int i = 0; i < secs[s]->n_opt; ++i) {
			if (s || i)
				o[n++] = ',';
			n += value(o + n, &secs[s]->options[i]);
		}
	n += sprintf(o + n, "],\"g\":[");
	for (int s = 0; s < NSECS; ++s)
		for (int i = 0; i < secs[s]->n_opt; ++i)
			n += sprintf(o + n, "%s%d", s || i ? "," : "", secs[s]->options[i].given ? *secs[s]->options[i].given : 0);
	n += sprintf(o + n, "]");
	return o;
}
static void meta(void)
{
	static char o[20000];
	int n = sprintf(o, "\"opts\":[");
	static const char * const tn[] = { [CFG_VALUE_TYPE_STRING] = "str", [CFG_VALUE_TYPE_INT] = "int", [CFG_VALUE_TYPE_PORT] = "port",
		[CFG_VALUE_TYPE_BOOL] = "bool", [CFG_VALUE_TYPE_DOUBLE] = "dbl" };
	for (int s = 0; s < NSECS; ++s)
		for (int i = 0; i < secs[s]->n_opt; ++i) {
			const struct CFG_Option * p = &secs[s]->options[i];
			n += sprintf(o + n, "%s{\"sec\":", s || i ? "," : "");
			n += hex(o + n, secs[s]->name, strlen(secs[s]->name));
			n += sprintf(o + n, ",\"name\":");
			n += hex(o + n, p->name, strlen(p->name));
			n += sprintf(o + n, ",\"type\":\"%s\",\"max\":%zu,\"giv\":%d,\"dempty\":%d,\"def\":", tn[p->type], p->maxlen, p->given != NULL, p->defaultEmpty);
			char tmp[64];
			union CFG_Value d = p->def;
			struct CFG_Option q = *p;
			q.var = &d;
			if (p->type == CFG_VALUE_TYPE_STRING) {
				memset(tmp, 0, sizeof tmp);
				if (p->def.string)
					strcpy(tmp, p->def.string);
				q.var = tmp;
			}
			n += value(o + n, &q);
			n += sprintf(o + n, "}");
		}
	sim_meta("%s]", o);
}
