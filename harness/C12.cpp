// C12: Cuthill-McKee orderings
// SV: {"entry":"sym","quick":[[1],[2],[3],[4]],"bound":"all symmetric patterns (diagonal included) of the given size, all nonzero values"}
// SV: {"entry":"symdiag","quick":[[5]],"thorough":[[6]],"bound":"all symmetric patterns with full diagonal"}
// SV: {"entry":"tree","quick":[[5,0],[6,1]],"thorough":[[6,0],[7,1]],"bound":"size, kind: all trees with parents before children, numbered from either end; kind 0 with one further edge or none and any diagonal, kind 1 with none, all or one diagonal entry","timeout":1500}
// SV: {"entry":"nosym","quick":[[2],[3]],"bound":"all square patterns","thorough":[[4]]}
#include "common.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixOrder.h"
using namespace NS;
static double nz() { double v = sv::real("a"); sv::assume(v != 0); return v; }
static std::vector<size_t> perm(const SparseMatrix<double>& S, const Ref<double>& a, bool levels)
{
	size_t n = S.rows();
	DynamicVector<Index> R = cuthill_mckee(S), Q = r_cuthill_mckee(S);
	sv::check(R.size() == n && Q.size() == n, "length of the ordering");
	std::vector<size_t> pos(n, n);
	for (size_t i = 0; i < n; ++i)
	{
		size_t v = R.at(i);
		sv::check(v < n, "ordering holds valid indices");
		sv::check(pos[v] == n, "ordering holds each index once");
		pos[v] = i;
		sv::check(Q.at(n - 1 - i) == v, "reverse ordering is the plain one backwards");
	}
	same(S, a, "matrix unchanged");
	consistent(S, "matrix bookkeeping unchanged");
	return pos;
}
static void ordered(const Ref<double>& a)
{
	size_t n = a.r;
	SparseMatrix<double> S(n, n);
	load(S, a);
	std::vector<size_t> pos = perm(S, a, true), order(n), deg(n, 0), par(n, n), comp(n);
	for (size_t v = 0; v < n; ++v) order[pos[v]] = v;
	for (size_t v = 0; v < n; ++v)
		for (size_t w = 0; w < n; ++w)
			if (a(v, w) != 0)
			{
				++deg[v];
				// earliest numbered neighbour that comes before
				if (v != w && pos[w] < pos[v] && pos[w] < par[v]) par[v] = pos[w];
			}
	for (size_t v = 0; v < n; ++v) comp[v] = v;
	for (size_t k = 0; k < n; ++k)
		for (size_t v = 0; v < n; ++v)
			for (size_t w = 0; w < n; ++w)
				if (a(v, w) != 0 && comp[w] < comp[v]) comp[v] = comp[w];
	for (size_t i = 0; i < n; ++i)
	{
		size_t v = order[i];
		if (i == 0 || comp[order[i - 1]] != comp[v])
		{
			// a new part of the graph
			for (size_t j = i + 1; j < n; ++j)
				sv::check(deg[v] <= deg[order[j]], "each part starts with the lowest degree left");
			for (size_t j = 0; j < i; ++j) sv::check(comp[order[j]] != comp[v], "parts are numbered one after the other");
		}
		else
		{
			sv::check(par[v] < n, "every other vertex has a numbered neighbour");
			size_t u = order[i - 1];
			if (par[u] < n)
			{
				sv::check(par[u] <= par[v], "vertices are numbered breadth first");
				if (par[u] == par[v]) sv::check(deg[u] <= deg[v], "neighbours are numbered by increasing degree");
			}
		}
	}
	sv::reach("end");
}
static void symm(bool diag)
{
	size_t n = sv::param(0);
	Ref<double> a(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j <= i; ++j)
			a(i, j) = a(j, i) = diag && i == j ? nz() : sv::real("a");
	ordered(a);
}
SV_ENTRY(tree)
{
	size_t n = sv::param(0);
	bool back = sv::choice(2);
	Ref<double> a(n, n);
	auto put = [&](size_t i, size_t j) { if (back) { i = n - 1 - i; j = n - 1 - j; } a(i, j) = a(j, i) = 1 + (double)(i + j); };
	bool some = sv::param(1);
	size_t d = some ? sv::choice(n + 2) : 0;
	for (size_t i = 0; i < n; ++i)
	{
		if (i) put(i, sv::choice(i));
		if (some ? d == i || d == n : sv::choice(2)) put(i, i);
	}
	if (!some) if (size_t k = sv::choice(n - 1)) put(k - 1, n - 1);
	ordered(a);
}
SV_ENTRY(sym) { symm(false); }
SV_ENTRY(symdiag) { symm(true); }
SV_ENTRY(nosym)
{
	size_t n = sv::param(0);
	SparseMatrix<double> S(n, n);
	Ref<double> a(n, n);
	for (auto& x : a.v) x = sv::real("a");
	load(S, a);
	perm(S, a, false);
	sv::reach("end");
}
