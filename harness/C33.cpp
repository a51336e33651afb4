// C33: combinatorial helpers
// SV: {"entry":"small_i8","quick":[[]],"bound":"8 bit signed: every n and k"}
// SV: {"entry":"small_u8","quick":[[]],"bound":"8 bit unsigned: every n and k"}
// SV: {"entry":"table_i32","quick":[[34]],"thorough":[[70]],"bound":"32 bit signed: n up to the parameter, every k up to n + 3 and the largest k"}
// SV: {"entry":"table_u32","quick":[[34]],"thorough":[[70]],"bound":"32 bit unsigned: n up to the parameter"}
// SV: {"entry":"table_u64","quick":[[20]],"thorough":[[100]],"bound":"64 bit unsigned: n up to the parameter"}
// SV: {"entry":"table_i64","quick":[[20]],"thorough":[[100]],"bound":"64 bit signed: n up to the parameter"}
// SV: {"entry":"wide_i32","quick":[[]],"bound":"32 bit signed: every n, k up to 2 or at least n - 2"}
// SV: {"entry":"wide_u64","quick":[[]],"bound":"64 bit unsigned: n up to 2^32, k up to 2 or at least n - 2"}
// SV: {"entry":"cubic_i32","quick":[[2345]],"thorough":[[2345]],"bound":"32 bit signed: k = 3, n up to the parameter","timeout":1500}
// SV: {"entry":"real_n","quick":[[8]],"thorough":[[12]],"bound":"floating point: every n, k up to the parameter"}
// SV: {"entry":"real_fp","quick":[[12]],"thorough":[[40]],"mode":"fp","bound":"floating point with rounding: quarter steps of n up to the parameter, k up to 6"}
// SV: {"entry":"facs","quick":[[]],"bound":"factorial: every argument of 8 to 64 bit types whose result fits"}
// SV: {"entry":"signs","quick":[[]],"bound":"alternating sign: every argument of all integer types"}
// SV: {"entry":"minmax","quick":[[]],"bound":"all pairs of integers and reals"}
#include "common.h"
#include "Utils.h"
using namespace NS;
typedef unsigned __int128 u128;
// mathematical value, saturated
static u128 pascal(unsigned n, unsigned k)
{
	if (k > n) return 0;
	u128 row[160];
	const u128 cap = (u128)1 << 100;
	for (unsigned j = 0; j <= n; ++j) row[j] = 0;
	row[0] = 1;
	for (unsigned i = 1; i <= n; ++i)
		for (unsigned j = i; j > 0; --j) { row[j] = row[j] + row[j - 1]; if (row[j] > cap) row[j] = cap; }
	return row[k];
}
template<class T> static void one(T n, unsigned long k)
{
	typedef typename std::make_unsigned<T>::type U;
	u128 v = pascal((unsigned)n, (unsigned)(k > 150 ? 150 : k));
	if (v > (u128)std::numeric_limits<T>::max()) return;
	sv::check((u128)Math::binom(n, (U)k) == v, "binomial coefficient");
}
template<class T> static void table()
{
	T n = (T)sv::conc(sv::u64("n", 0, sv::param(0)));
	typedef typename std::make_unsigned<T>::type U;
	unsigned long k = sv::conc(sv::u64("k", 0, (unsigned long)n + 4));
	if (k == (unsigned long)n + 4) k = std::numeric_limits<U>::max();
	one(n, k);
	sv::reach("end");
}
template<class T> static void small()
{
	typedef typename std::make_unsigned<T>::type U;
	unsigned long n = sv::conc(sv::u64("n", 0, std::numeric_limits<T>::max()));
	if (n > 10)
	{
		// only few choices (or nearly all) fit
		unsigned long k = sv::conc(sv::u64("k", 0, 10));
		switch (k)
		{
		case 3: k = n - 2; break;
		case 4: k = n - 1; break;
		case 5: k = n; break;
		case 6: k = n + 1 > std::numeric_limits<U>::max() ? n : n + 1; break;
		case 7: k = std::numeric_limits<U>::max(); if (k == n) k = 0; break;
		case 8: k = std::numeric_limits<T>::max(); break;
		}
		if (k <= 3 || k + 3 >= n) { unsigned long m = k > n ? 0 : (k <= 3 ? k : n - k); u128 p = 1; for (unsigned long i = 0; i < m; ++i) p = p * (n - i) / (i + 1); if (k > n) p = 0; if (p <= (u128)std::numeric_limits<T>::max()) sv::check((u128)Math::binom((T)n, (U)k) == p, "binomial coefficient"); }
	}
	else
	{
		unsigned long k = sv::conc(sv::u64("k", 0, std::numeric_limits<U>::max()));
		one((T)n, k);
	}
	sv::reach("end");
}
SV_ENTRY(small_i8) { small<int8>(); }
SV_ENTRY(small_u8) { small<uint8>(); }
SV_ENTRY(table_i32) { table<int>(); }
SV_ENTRY(table_u32) { table<unsigned>(); }
SV_ENTRY(table_i64) { table<long>(); }
SV_ENTRY(table_u64) { table<unsigned long>(); }
template<class T> static void wide(unsigned long lim)
{
	typedef typename std::make_unsigned<T>::type U;
	T n = (T)sv::u64("n", 0, lim);
	unsigned long nn = (unsigned long)n;
	switch (sv::choice(8))
	{
	case 0: sv::check(Math::binom(n, (U)0) == 1, "no element"); sv::check(Math::binom(n, (U)n) == 1, "all elements"); break;
	case 1: if (nn >= 1) sv::check(Math::binom(n, (U)1) == n, "one element"); break;
	case 2: if (nn >= 1) sv::check(Math::binom(n, (U)(n - 1)) == n, "all but one"); break;
	case 3: if (nn >= 2 && nn <= 65536) sv::check((unsigned long)Math::binom(n, (U)2) == nn * (nn - 1) / 2, "two elements"); break;
	case 4: if (nn >= 2 && nn <= 65536) sv::check((unsigned long)Math::binom(n, (U)(n - 2)) == nn * (nn - 1) / 2, "all but two"); break;
	case 5: sv::check(Math::binom(n, (U)((U)n + 1)) == ((U)((U)n + 1) == 0 ? 1 : 0), "one too many"); break;
	case 6: { U k = (U)sv::u64("k", 0, std::numeric_limits<U>::max()); sv::assume(k > (U)n); sv::check(Math::binom(n, k) == 0, "more than available"); break; }
	case 7: { U k = std::numeric_limits<U>::max(); if (k > (U)n) sv::check(Math::binom(n, k) == 0, "more than available"); break; }
	}
	sv::reach("end");
}
SV_ENTRY(wide_i32) { wide<int>(0x7fffffff); }
SV_ENTRY(wide_u64) { wide<unsigned long>(1ul << 32); }
SV_ENTRY(cubic_i32)
{
	int n = (int)sv::u64("n", 6, sv::param(0));
	long m = n;
	sv::check((long)Math::binom(n, 3u) * 6 == m * (m - 1) * (m - 2), "three elements");
	sv::reach("end");
}
template<class T> static void realN()
{
	unsigned k = (unsigned)sv::choice(sv::param(0) + 1);
	T n = sym<T>("n");
	sv::assume(n <= T(1000) && n >= T(-1000));
	T e = T(1), f = T(1);
	for (unsigned i = 0; i < k; ++i) { e = e * (n - T((int)i)); f = f * T((int)i + 1); }
	T v = Math::binom(n, k), d = v * f - e, a = e < T(0) ? -e : e;
	const T tol = sizeof(T) == 8 ? T(1e-12) : T(1e-5);
	sv::check(d <= tol * a && -d <= tol * a, "generalised binomial coefficient");
}
SV_ENTRY(real_n)
{
	if (sv::choice(2)) realN<double>(); else realN<float>();
	// integer arguments: exactly zero when there are not enough elements
	unsigned n = (unsigned)sv::choice(4), k = n + 1 + (unsigned)sv::choice(3);
	sv::check(Math::binom((double)n, k) == 0.0, "more than available");
	sv::reach("end");
}
// with machine rounding: single operations only lose the last digits
SV_ENTRY(real_fp)
{
	long q = (long)sv::conc(sv::u64("q", 0, 4 * sv::param(0)));
	unsigned k = (unsigned)sv::choice(7);
	double n = q / 4.0, e = 1, f = 1;
	for (unsigned i = 0; i < k; ++i) { e *= n - i; f *= i + 1; }
	double d = Math::binom(n, k) - e / f, a = e / f < 0 ? -e / f : e / f;
	sv::check(d <= 1e-13 * a && -d <= 1e-13 * a, "binomial coefficient in double precision");
	sv::reach("end");
}
template<class T> static void fac(unsigned long top)
{
	unsigned long k = sv::conc(sv::u64("k", 0, top)), e = 1;
	T v = Math::factorial((T)k);
	for (unsigned long i = 2; i <= top; ++i) if (i <= k) e *= i;
	sv::check((unsigned long)v == e, "factorial");
}
SV_ENTRY(facs)
{
	switch (sv::choice(8))
	{
	case 0: fac<int8>(5); break;
	case 1: fac<uint8>(5); break;
	case 2: fac<int16>(7); break;
	case 3: fac<uint16>(8); break;
	case 4: fac<int>(12); break;
	case 5: fac<unsigned>(12); break;
	case 6: fac<long>(20); break;
	case 7: fac<unsigned long>(20); break;
	}
	sv::reach("end");
}
template<class T> static void sgn()
{
	T k = (T)sv::u64("k", 0, ~0ul);
	sv::check(Math::sign_pow(k) == (((unsigned long)k & 1) ? -1 : 1), "alternating sign");
}
SV_ENTRY(signs)
{
	switch (sv::choice(8))
	{
	case 0: sgn<int8>(); break;
	case 1: sgn<uint8>(); break;
	case 2: sgn<int16>(); break;
	case 3: sgn<uint16>(); break;
	case 4: sgn<int>(); break;
	case 5: sgn<unsigned>(); break;
	case 6: sgn<long>(); break;
	case 7: sgn<unsigned long>(); break;
	}
	sv::reach("end");
}
template<class T> static void mm(T a, T b)
{
	T lo = t_min(a, b), hi = t_max(a, b);
	sv::check(lo <= a && lo <= b && (lo == a || lo == b), "smaller of two");
	sv::check(hi >= a && hi >= b && (hi == a || hi == b), "larger of two");
}
SV_ENTRY(minmax)
{
	switch (sv::choice(5))
	{
	case 0: mm(sv::real("a"), sv::real("b")); break;
	case 1: mm(sym<float>("a"), sym<float>("b")); break;
	case 2: mm((int)sv::u64("a", 0, 0xffffffffu), (int)sv::u64("b", 0, 0xffffffffu)); break;
	case 3: mm(sv::u64("a", 0, ~0ul), sv::u64("b", 0, ~0ul)); break;
	case 4: mm((int8)sv::u64("a", 0, 255), (int8)sv::u64("b", 0, 255)); break;
	}
	sv::reach("end");
}
