// C library functions, executed symbolically.
#include <stddef.h>
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int memcmp(const void* a, const void* b, size_t n)
{
	const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
	for (size_t i = 0; i < n; ++i)
		if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
	return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* a, int c, size_t n) 
{
	const unsigned char* x = (const unsigned char*)a;
	for (size_t i = 0; i < n; ++i) if (x[i] == (unsigned char)c) return (void*)(x + i);
	return 0;
}
int strcmp(const char* a, const char* b)
{
	for (;; ++a, ++b)
	{
		if ((unsigned char)*a != (unsigned char)*b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
		if (!*a) return 0;
	}
}
int strncmp(const char* a, const char* b, size_t n)
{
	for (; n; ++a, ++b, --n)
	{
		if ((unsigned char)*a != (unsigned char)*b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
		if (!*a) return 0;
	}
	return 0;
}
double sqrt(double);
double hypot(double, double);
double _Complex csqrt(double _Complex z)
{
	double x = __real__ z, y = __imag__ z, t;
	double _Complex r;
	if (y == 0)
	{
		if (x >= 0) { __real__ r = sqrt(x); __imag__ r = 0; }
		else { __real__ r = 0; __imag__ r = sqrt(-x); }
		return r;
	}
	t = hypot(x, y);
	t = sqrt(x >= 0 ? (t + x) / 2 : (t - x) / 2);
	if (x >= 0) { __real__ r = t; __imag__ r = y / (2 * t); }
	else { __real__ r = (y < 0 ? -y : y) / (2 * t); __imag__ r = y < 0 ? -t : t; }
	return r;
}
// character classes of the C locale and number conversions
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int sv_errno;
int* __errno_location(void) { return &sv_errno; }
unsigned long strtoul(const char* s, char** e, int base)
{
	const char* p = s;
	unsigned long v = 0;
	int neg = 0, any = 0, over = 0;
	while (isspace(*p)) ++p;
	if (*p == '-' || *p == '+') neg = *p++ == '-';
	for (; *p >= '0' && *p <= '9'; ++p)
	{
		unsigned long d = (unsigned long)(*p - '0');
		any = 1;
		if (v > ~0ul / 10 || v * 10 > ~0ul - d) over = 1;
		else v = v * 10 + d;
	}
	if (e) *e = (char*)(any ? p : s);
	if (over) { sv_errno = 34; return ~0ul; }
	return neg ? 0 - v : v;
}
long strtol(const char* s, char** e, int base)
{
	const char* p = s;
	unsigned long v = 0, m = ~0ul >> 1;
	int neg = 0, any = 0, over = 0;
	while (isspace(*p)) ++p;
	if (*p == '-' || *p == '+') neg = *p++ == '-';
	for (; *p >= '0' && *p <= '9'; ++p)
	{
		unsigned long d = (unsigned long)(*p - '0');
		any = 1;
		if (v > ~0ul / 10 || v * 10 > ~0ul - d) over = 1;
		else v = v * 10 + d;
	}
	if (e) *e = (char*)(any ? p : s);
	if (over || v > m + neg) { sv_errno = 34; return neg ? -(long)m - 1 : (long)m; }
	return neg ? (long)(0 - v) : (long)v;
}
unsigned long long strtoull(const char* s, char** e, int base) { return strtoul(s, e, base); }
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
double sv_parse_dec_(const char* p, unsigned long n);
double strtod(const char* s, char** e)
{
	const char *p = s, *b, *q;
	int any = 0;
	while (isspace(*p)) ++p;
	b = p;
	if (*p == '-' || *p == '+') ++p;
	for (; *p >= '0' && *p <= '9'; ++p) any = 1;
	if (*p == '.') for (++p; *p >= '0' && *p <= '9'; ++p) any = 1;
	if (!any) { if (e) *e = (char*)s; return 0; }
	if (*p == 'e' || *p == 'E')
	{
		q = p + 1;
		if (*q == '-' || *q == '+') ++q;
		if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') ++q; p = q; }
	}
	if (e) *e = (char*)p;
	return sv_parse_dec_(b, (unsigned long)(p - b));
}
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, 0); }
size_t strspn(const char* s, const char* set)
{
	size_t n = 0;
	for (; s[n]; ++n)
	{
		const char* p = set;
		while (*p && *p != s[n]) ++p;
		if (!*p) break;
	}
	return n;
}
size_t strcspn(const char* s, const char* set)
{
	size_t n = 0;
	for (; s[n]; ++n)
	{
		const char* p = set;
		while (*p && *p != s[n]) ++p;
		if (*p) break;
	}
	return n;
}
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
double ldexp(double x, int e) { for (; e > 0; --e) x *= 2; for (; e < 0; ++e) x /= 2; return x; }
double scalbn(double x, int e) { return ldexp(x, e); }
long __isoc23_strtol(const char* s, char** e, int base) { return strtol(s, e, base); }
long long __isoc23_strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
unsigned long __isoc23_strtoul(const char* s, char** e, int base) { return strtoul(s, e, base); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int base) { return strtoul(s, e, base); }
