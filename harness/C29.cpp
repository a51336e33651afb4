// C29: Gauss-Legendre rules
// SV: {"entry":"q11","quick":[[]],"bound":"interval, order 1: all polynomials of degree 1 with coefficients up to 1000"}
// SV: {"entry":"q12","quick":[[]],"bound":"interval, order 2: all polynomials of degree 3"}
// SV: {"entry":"q13","quick":[[]],"bound":"interval, order 3: all polynomials of degree 5"}
// SV: {"entry":"q21","quick":[[]],"bound":"triangle, order 1: all polynomials of degree 1"}
// SV: {"entry":"q22","quick":[[]],"bound":"triangle, order 2: all polynomials of degree 2"}
// SV: {"entry":"q23","quick":[[]],"bound":"triangle, order 3: all polynomials of degree 3"}
// SV: {"entry":"f23","quick":[[]],"bound":"single precision; triangle, order 3"}
// SV: {"entry":"f13","quick":[[]],"bound":"single precision; interval, order 3"}
// SV: {"entry":"other","quick":[[]],"bound":"complex and vector valued integrands with any values"}
#include "common.h"
#include "quadrature/Quadrature.h"
using namespace NS;
static double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
template<class T, Dimension K, Dimension O> static void run(int degree)
{
	GaussLegendreQuadrature<T, K, O> q;
	GaussLegendreQuadratureFactory<T, K, O> fac;
	const std::vector<FixedVector<T, K>>& pts = fac.getQuadraturePoints();
	const std::vector<T>& w = fac.getQuadratureWeights();
	sv::check(pts.size() == w.size() && !pts.empty(), "one weight per point");
	T vol = T(0);
	const T tol = sizeof(T) == 8 ? T(1e-13) : T(1e-6);
	for (size_t i = 0; i < pts.size(); ++i)
	{
		T s = T(0);
		for (size_t c = 0; c < K; ++c) { s += pts[i][c]; sv::check(pts[i][c] >= T(0), "point inside the domain"); }
		sv::check(s <= T(1), "point inside the domain");
		vol += w[i];
		for (size_t j = 0; j < i; ++j)
		{
			bool differs = false;
			for (size_t c = 0; c < K; ++c) differs = differs || pts[i][c] != pts[j][c];
			sv::check(differs, "points are distinct");
		}
	}
	sv::check(vol * T(fact(K)) - T(1) <= T(4) * tol && T(1) - vol * T(fact(K)) <= T(4) * tol, "weights add up to the volume");
	// arbitrary integrand: one value per point
	std::vector<T> val;
	for (size_t i = 0; i < pts.size(); ++i) val.push_back(sym<T>("f"));
	T start = sym<T>("s");
	std::vector<size_t> calls(pts.size(), 0), icalls(pts.size(), 0);
	auto at = [&](const FixedVector<T, K>& x) -> size_t {
		for (size_t i = 0; i < pts.size(); ++i)
		{
			bool is = true;
			for (size_t c = 0; c < K; ++c) is = is && pts[i][c] == x[c];
			if (is) return i;
		}
		sv::fail("evaluated at a quadrature point");
	};
	T r = q.eval([&](const FixedVector<T, K>& x) -> T { size_t i = at(x); calls[i]++; return val[i]; }, start);
	T ri = q.eval_index([&](Index k, const FixedVector<T, K>& x) -> T { size_t i = at(x); sv::check(k == i, "index of the point"); icalls[i]++; return val[i]; }, start);
	T r0 = q.eval([&](const FixedVector<T, K>& x) -> T { return val[at(x)]; });
	T ri0 = q.eval_index([&](Index k, const FixedVector<T, K>&) -> T { return val[k]; });
	T e = T(0);
	for (size_t i = 0; i < pts.size(); ++i)
	{
		e += w[i] * val[i];
		sv::check(calls[i] == 1 && icalls[i] == 1, "one evaluation per point");
	}
	if (sizeof(T) == 8 || sv::symbolic())
	{
		ceq(r, start + e, "weighted sum on top of the start value");
		ceq(ri, start + e, "weighted sum on top of the start value");
		ceq(r0, e, "weighted sum");
		ceq(ri0, e, "weighted sum");
	}
	// all polynomials of the degree
	std::vector<T> c;
	std::vector<std::pair<int, int>> ex;
	for (int a = 0; a <= degree; ++a)
		for (int b = 0; b <= (K == 2 ? degree - a : 0); ++b)
		{
			ex.push_back({a, b});
			c.push_back(sym<T>("c"));
			sv::assume(c.back() <= T(1000) && c.back() >= T(-1000));
		}
	auto poly = [&](const FixedVector<T, K>& x) -> T {
		T s = T(0);
		for (size_t k = 0; k < c.size(); ++k)
		{
			T m = T(1);
			for (int z = 0; z < ex[k].first; ++z) m = m * x[0];
			for (int z = 0; z < ex[k].second; ++z) m = m * x[K - 1];
			s += c[k] * m;
		}
		return s;
	};
	T got = q.eval(poly, start), want = T(0);
	for (size_t k = 0; k < c.size(); ++k)
		want += c[k] * T(fact(ex[k].first) * fact(ex[k].second) / fact(ex[k].first + ex[k].second + (int)K));
	if (sizeof(T) == 8 || sv::symbolic())
	{
		sv::assume(start <= T(1000) && start >= T(-1000));
		T d = got - start - want;
		const T lim = T(1000) * T((int)c.size()) * T(8) * tol;
		sv::check(d <= lim && d >= -lim, "polynomials of the degree are integrated exactly");
	}
	sv::reach("end");
}
SV_ENTRY(q11) { run<double, 1, 1>(1); }
SV_ENTRY(q12) { run<double, 1, 2>(3); }
SV_ENTRY(q13) { run<double, 1, 3>(5); }
SV_ENTRY(q21) { run<double, 2, 1>(1); }
SV_ENTRY(q22) { run<double, 2, 2>(2); }
SV_ENTRY(q23) { run<double, 2, 3>(3); }
SV_ENTRY(f23) { run<float, 2, 3>(3); }
SV_ENTRY(f13) { run<float, 1, 3>(5); }
SV_ENTRY(other)
{
	GaussLegendreQuadrature<double, 2, 3> q;
	GaussLegendreQuadratureFactory<double, 2, 3> fac;
	std::vector<cd> v;
	cd s = sym<cd>("s"), e = s;
	std::vector<FixedVector<double, 2>> u;
	FixedVector<double, 2> fs, fe;
	fs[0] = sv::real("s"); fs[1] = sv::real("s");
	fe = fs;
	for (size_t i = 0; i < 4; ++i)
	{
		v.push_back(sym<cd>("f"));
		e += fac.getQuadratureWeights()[i] * v[i];
		FixedVector<double, 2> x;
		x[0] = sv::real("u"); x[1] = sv::real("u");
		u.push_back(x);
		for (size_t c = 0; c < 2; ++c) fe[c] += fac.getQuadratureWeights()[i] * x[c];
	}
	size_t n = 0;
	ceq(q.eval([&](const FixedVector<double, 2>&) -> cd { return v[n++]; }, s), e, "complex integrand");
	ceq(q.eval_index([&](Index i, const FixedVector<double, 2>&) -> cd { return v[i]; }, s), e, "complex integrand");
	auto g = q.eval_index([&](Index i, const FixedVector<double, 2>&) -> FixedVector<double, 2> { return u[i]; }, fs);
	ceq(g[0], fe[0], "vector integrand");
	ceq(g[1], fe[1], "vector integrand");
	sv::reach("end");
}
