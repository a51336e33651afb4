// Helpers shared by the harnesses. Only public API of the library is used.
#pragma once
#include "sv.h"
#include <complex>
#include <vector>
#include <initializer_list>
#include <string>
#include <functional>
#include <memory>
#include <cstdlib>
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <limits>
typedef std::complex<double> cd;
template<class T> struct Sym;
template<> struct Sym<double> { static double get(const char* n) { return sv::real(n); } };
template<> struct Sym<float> { static float get(const char* n) { return sv_f32_(n); } };
template<> struct Sym<cd> { static cd get(const char* n) { double a = sv::real(n); double b = sv::real(n); return cd(a, b); } };
template<class T> T sym(const char* n = "x") { return Sym<T>::get(n); }
inline void ceq(double a, double b, const char* m) { sv::eq(a, b, m); }
inline void ceq(float a, float b, const char* m) { sv::eq(a, b, m); }
inline void ceq(const cd& a, const cd& b, const char* m)
{
	sv::eq(a.real(), b.real(), m);
	sv::eq(a.imag(), b.imag(), m);
}
inline double cj(double a) { return a; }
inline float cj(float a) { return a; }
inline cd cj(const cd& a) { return cd(a.real(), -a.imag()); }
// products written without the compiler's NaN-recovering complex multiplication
inline double mulx(double a, double b) { return a * b; }
inline float mulx(float a, float b) { return a * b; }
inline cd mulx(const cd& a, const cd& b) { return cd(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
// reference matrix: plain array, definitions only
template<class T> struct Ref
{
	size_t r, c;
	std::vector<T> v;
	Ref(size_t r_ = 0, size_t c_ = 0) : r(r_), c(c_), v(r_ * c_, T(0)) {}
	T& operator()(size_t i, size_t j) { return v[i * c + j]; }
	const T& operator()(size_t i, size_t j) const { return v[i * c + j]; }
};
template<class T> Ref<T> symRef(size_t r, size_t c, const char* n = "a")
{
	Ref<T> m(r, c);
	for (size_t i = 0; i < r * c; ++i)
		m.v[i] = sym<T>(n);
	return m;
}
template<class T> Ref<T> mulRef(const Ref<T>& a, const Ref<T>& b)
{
	Ref<T> m(a.r, b.c);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < b.c; ++j)
		{
			T s(0);
			for (size_t k = 0; k < a.c; ++k)
				s += mulx(a(i, k), b(k, j));
			m(i, j) = s;
		}
	return m;
}
// fixed patterns of positions for larger matrices
inline bool pattern(size_t id, size_t i, size_t j, size_t R, size_t C)
{
	switch (id)
	{
	case 0: return true;
	case 1: return j == i || j == i + 1;
	case 2: return (i + j) % 2 == 1;
	case 3: return i == R - 1 || j == C - 1 || i == j;
	case 4: return (7 * i + 5 * j + i * j) % 3 == 0;
	case 5: return i == 0 || j == 0;
	case 6: return i == R / 2;
	case 7: return j == C / 2;
	default: return i + j + 1 == R || i + j == R;
	}
}
// positive symbolic values in a pattern
template<class T> Ref<T> patRef(size_t R, size_t C, size_t id, const char* n = "a")
{
	Ref<T> m(R, C);
	for (size_t i = 0; i < R; ++i)
		for (size_t j = 0; j < C; ++j)
			if (pattern(id, i, j, R, C))
			{
				m(i, j) = sym<T>(n);
				sv::assume(std::real(m(i, j)) > 0);
			}
	return m;
}
template<class M, class T> void load(M& m, const Ref<T>& r)
{
	for (size_t i = 0; i < r.r; ++i)
		for (size_t j = 0; j < r.c; ++j)
			m.set(i, j, r(i, j));
}
template<class M, class T> void same(const M& m, const Ref<T>& r, const char* msg)
{
	sv::check(m.rows() == r.r && m.columns() == r.c, msg);
	for (size_t i = 0; i < r.r; ++i)
		for (size_t j = 0; j < r.c; ++j)
			ceq(m.at(i, j), r(i, j), msg);
}
template<class V, class T> void sameVec(const V& m, const std::vector<T>& r, const char* msg)
{
	sv::check(m.size() == r.size(), msg);
	for (size_t i = 0; i < r.size(); ++i)
		ceq(m.linear_at(i), r[i], msg);
}
// presence and counts of a sparse matrix agree with its values
template<class S> void consistent(const S& m, const char* msg)
{
	typedef typename S::value_type T;
	size_t n = 0;
	for (size_t i = 0; i < m.rows(); ++i)
	{
		size_t k = 0;
		for (size_t j = 0; j < m.columns(); ++j)
		{
			bool nz = m.at(i, j) != T(0);
			sv::check(m.has(i, j) == nz, msg);
			T v;
			sv::check(m.has(i, j, v) == nz, msg);
			ceq(v, m.at(i, j), msg);
			if (nz) ++k;
		}
		sv::check(m.row_filled_count(i) == k, msg);
		n += k;
	}
	sv::check(m.filled_count() == n, msg);
	sv::check(m.empty() == (n == 0), msg);
	sv::check(m.has_zero() == (n != m.size()), msg);
}
// rows of L U in any order: L unit lower with entries of magnitude up to one half, so that the pivots are known
inline void half(double v) { sv::assume(v <= 0.5); sv::assume(v >= -0.5); }
inline void half(const cd& v) { half(v.real()); half(v.imag()); }
template<class T> Ref<T> pluInput(size_t n, size_t free, double& det, Ref<T>* lo_ = nullptr, Ref<T>* up_ = nullptr, std::vector<size_t>* order = nullptr)
{
	static const double diag[6] = {4, -2, 3, 8, -5, 1}, lo[4] = {0.25, -0.5, 0.125, 0.375}, hi[4] = {1, -2, 0.5, 3};
	Ref<T> l(n, n), u(n, n), a(n, n);
	det = 1;
	for (size_t i = 0; i < n; ++i)
	{
		l(i, i) = 1;
		u(i, i) = diag[i];
		det *= diag[i];
		for (size_t j = 0; j < i; ++j)
			if (free ? i - j <= free : i == n - 1 && j == 0)
			{
				l(i, j) = sym<T>("l");
				half(l(i, j));
			}
			else l(i, j) = lo[(i + j) % 4];
		for (size_t j = i + 1; j < n; ++j)
			if (j + std::max<size_t>(free, 1) >= n + i) u(i, j) = sym<T>("u");
			else u(i, j) = hi[(i + 2 * j) % 4];
	}
	Ref<T> p = mulRef(l, u);
	std::vector<size_t> left;
	for (size_t i = 0; i < n; ++i) left.push_back(i);
	for (size_t i = 0; i < n; ++i)
	{
		size_t k = sv::choice(left.size(), "row");
		if (k % 2) det = -det;
		for (size_t j = 0; j < n; ++j) a(i, j) = p(left[k], j);
		if (order) order->push_back(left[k]);
		left.erase(left.begin() + k);
	}
	if (lo_) *lo_ = l;
	if (up_) *up_ = u;
	return a;
}
