// Multivariate polynomials over Q and rational functions with factored denominators.
// Exact normal forms for the "exact arithmetic" reading of float/double code.
#pragma once
#include <gmpxx.h>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <functional>

typedef std::vector<std::pair<uint32_t, uint32_t>> Mono; // (variable, exponent), variables ascending

// lexicographic, lower variable index is the bigger variable; returns <0,0,>0
inline int monoCmp(const Mono& a, const Mono& b)
{
	size_t i = 0;
	for (; i < a.size() && i < b.size(); ++i)
	{
		if (a[i].first != b[i].first)
			return a[i].first < b[i].first ? 1 : -1;
		if (a[i].second != b[i].second)
			return a[i].second > b[i].second ? 1 : -1;
	}
	if (i < a.size()) return 1;
	if (i < b.size()) return -1;
	return 0;
}
struct MonoGreater
{
	bool operator()(const Mono& a, const Mono& b) const { return monoCmp(a, b) > 0; }
};
inline Mono monoMul(const Mono& a, const Mono& b)
{
	Mono r;
	r.reserve(a.size() + b.size());
	size_t i = 0, j = 0;
	while (i < a.size() || j < b.size())
	{
		if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
		else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
		else { r.emplace_back(a[i].first, a[i].second + b[j].second); ++i; ++j; }
	}
	return r;
}
// a / b, false when not divisible
inline bool monoDiv(const Mono& a, const Mono& b, Mono& r)
{
	r.clear();
	size_t i = 0;
	for (size_t j = 0; j < b.size(); ++j)
	{
		while (i < a.size() && a[i].first < b[j].first) r.push_back(a[i++]);
		if (i >= a.size() || a[i].first != b[j].first || a[i].second < b[j].second) return false;
		if (a[i].second > b[j].second) r.emplace_back(a[i].first, a[i].second - b[j].second);
		++i;
	}
	while (i < a.size()) r.push_back(a[i++]);
	return true;
}

struct Term { Mono m; mpq_class c; };

struct Poly
{
	std::vector<Term> t; // descending
	uint32_t id = 0;      // set when interned
	bool isZero() const { return t.empty(); }
	bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m.empty()); }
	mpq_class constVal() const { return t.empty() ? mpq_class(0) : t[0].c; }
	size_t hash() const
	{
		size_t h = 1469598103934665603ull;
		auto mix = [&](size_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; };
		for (auto& x : t)
		{
			for (auto& p : x.m) mix(p.first * 1000003u + p.second);
			mix(mpz_get_ui(x.c.get_num_mpz_t()) * 31 + mpz_sgn(x.c.get_num_mpz_t()));
			mix(mpz_get_ui(x.c.get_den_mpz_t()));
		}
		return h;
	}
	bool operator==(const Poly& o) const
	{
		if (t.size() != o.t.size()) return false;
		for (size_t i = 0; i < t.size(); ++i)
			if (t[i].m != o.t[i].m || t[i].c != o.t[i].c) return false;
		return true;
	}
	uint32_t degree() const
	{
		uint32_t d = 0;
		for (auto& x : t) { uint32_t s = 0; for (auto& p : x.m) s += p.second; d = std::max(d, s); }
		return d;
	}
};
typedef std::shared_ptr<const Poly> PP;

inline PP mkPoly(Poly&& p) { return std::make_shared<const Poly>(std::move(p)); }
inline PP polyConst(const mpq_class& c)
{
	Poly p;
	if (c != 0) p.t.push_back({Mono(), c});
	return mkPoly(std::move(p));
}
inline PP polyVar(uint32_t v)
{
	Poly p;
	p.t.push_back({Mono{{v, 1u}}, mpq_class(1)});
	return mkPoly(std::move(p));
}
inline PP polyAdd(const PP& a, const PP& b, bool sub = false)
{
	if (b->isZero()) return a;
	Poly r;
	r.t.reserve(a->t.size() + b->t.size());
	size_t i = 0, j = 0;
	while (i < a->t.size() || j < b->t.size())
	{
		int c;
		if (j >= b->t.size()) c = 1;
		else if (i >= a->t.size()) c = -1;
		else c = monoCmp(a->t[i].m, b->t[j].m);
		if (c > 0) r.t.push_back(a->t[i++]);
		else if (c < 0)
		{
			r.t.push_back(b->t[j++]);
			if (sub) r.t.back().c = -r.t.back().c;
		}
		else
		{
			mpq_class s = sub ? mpq_class(a->t[i].c - b->t[j].c) : mpq_class(a->t[i].c + b->t[j].c);
			if (s != 0) r.t.push_back({a->t[i].m, s});
			++i; ++j;
		}
	}
	return mkPoly(std::move(r));
}
inline PP polyScale(const PP& a, const mpq_class& c)
{
	if (c == 0) return polyConst(0);
	if (c == 1) return a;
	Poly r(*a);
	r.id = 0;
	for (auto& x : r.t) x.c *= c;
	return mkPoly(std::move(r));
}
struct PolyLimit {};
extern size_t gPolyTermLimit;
inline PP polyMul(const PP& a, const PP& b)
{
	if (a->isZero() || b->isZero()) return polyConst(0);
	if (a->isConst()) return polyScale(b, a->constVal());
	if (b->isConst()) return polyScale(a, b->constVal());
	if (a->t.size() == 1 || b->t.size() == 1)
	{
		const Poly& m = a->t.size() == 1 ? *a : *b;
		const Poly& o = a->t.size() == 1 ? *b : *a;
		Poly r;
		r.t.reserve(o.t.size());
		for (auto& x : o.t) r.t.push_back({monoMul(x.m, m.t[0].m), mpq_class(x.c * m.t[0].c)});
		return mkPoly(std::move(r)); // monomial order is multiplicative
	}
	if (a->t.size() * b->t.size() > gPolyTermLimit) throw PolyLimit();
	std::map<Mono, mpq_class, MonoGreater> acc;
	for (auto& x : a->t)
		for (auto& y : b->t)
		{
			auto& s = acc[monoMul(x.m, y.m)];
			s += x.c * y.c;
		}
	Poly r;
	for (auto& kv : acc)
		if (kv.second != 0) r.t.push_back({kv.first, kv.second});
	return mkPoly(std::move(r));
}
inline void polyDegrees(const Poly& p, std::map<uint32_t, uint32_t>& d)
{
	for (auto& x : p.t)
		for (auto& q : x.m) { auto& e = d[q.first]; if (q.second > e) e = q.second; }
}
// exact division; null when d does not divide n
inline PP polyDiv(const PP& n, const PP& d)
{
	if (n->isZero()) return n;
	if (d->isConst()) return polyScale(n, 1 / d->constVal());
	if (n->isConst()) return nullptr;
	{
		std::map<uint32_t, uint32_t> dn, dd;
		polyDegrees(*n, dn);
		polyDegrees(*d, dd);
		for (auto& k : dd)
		{
			auto it = dn.find(k.first);
			if (it == dn.end() || it->second < k.second) return nullptr;
		}
	}
	Mono q, q2;
	if (!monoDiv(n->t.front().m, d->t.front().m, q) || !monoDiv(n->t.back().m, d->t.back().m, q2)) return nullptr;
	std::map<Mono, mpq_class, MonoGreater> r;
	for (auto& x : n->t) r.emplace(x.m, x.c);
	Poly out;
	while (!r.empty())
	{
		auto it = r.begin();
		if (!monoDiv(it->first, d->t[0].m, q)) return nullptr;
		mpq_class c = it->second / d->t[0].c;
		out.t.push_back({q, c});
		for (auto& y : d->t)
		{
			Mono m = monoMul(q, y.m);
			auto jt = r.find(m);
			if (jt == r.end()) r.emplace(std::move(m), mpq_class(-c * y.c));
			else
			{
				jt->second -= c * y.c;
				if (jt->second == 0) r.erase(jt);
			}
		}
		if (r.size() > 200000) throw PolyLimit();
	}
	return mkPoly(std::move(out));
}

// Interning of normalised (leading coefficient 1) polynomials.
struct PolyTable
{
	std::unordered_multimap<size_t, PP> tab;
	std::vector<PP> byId{nullptr};
	PP intern(const PP& p)
	{
		if (p->id) return p;
		size_t h = p->hash();
		auto r = tab.equal_range(h);
		for (auto it = r.first; it != r.second; ++it)
			if (*it->second == *p) return it->second;
		auto q = std::make_shared<Poly>(*p);
		q->id = (uint32_t)byId.size();
		PP c = q;
		byId.push_back(c);
		tab.emplace(h, c);
		return c;
	}
	// p = scale * result
	PP normal(const PP& p, mpq_class& scale)
	{
		if (p->isZero()) { scale = 1; return intern(p); }
		scale = p->t[0].c;
		if (scale == 1) return intern(p);
		return intern(polyScale(p, 1 / scale));
	}
};
extern PolyTable gPolys;

// num / prod(den_i ^ e_i), den factors interned and normalised, sorted by id
struct RatFun
{
	PP num;
	std::vector<std::pair<PP, int>> den;
	bool isConst() const { return den.empty() && num->isConst(); }
	bool isZero() const { return num->isZero(); }
	mpq_class constVal() const { return num->constVal(); }
};
inline RatFun ratConst(const mpq_class& c) { return RatFun{polyConst(c), {}}; }
inline PP polyPow(const PP& p, int e)
{
	PP r = polyConst(1);
	while (e-- > 0) r = polyMul(r, p);
	return r;
}
inline void ratCancel(RatFun& r)
{
	if (r.num->isZero()) { r.den.clear(); return; }
	for (size_t i = 0; i < r.den.size();)
	{
		while (r.den[i].second > 0)
		{
			PP q = polyDiv(r.num, r.den[i].first);
			if (!q) break;
			r.num = q;
			r.den[i].second--;
		}
		if (r.den[i].second == 0) r.den.erase(r.den.begin() + i);
		else ++i;
	}
}
// symbolic square roots: variable -> radicand
struct SqrtVars
{
	std::map<uint32_t, RatFun> arg;
};
extern SqrtVars gSqrt;
RatFun ratReduce(RatFun r); // s^2 -> radicand

inline RatFun ratAdd(const RatFun& a, const RatFun& b, bool sub = false)
{
	if (b.num->isZero()) return a;
	if (a.num->isZero() && !sub) return b;
	RatFun r;
	if (a.den.empty() && b.den.empty())
	{
		r.num = polyAdd(a.num, b.num, sub);
		return r;
	}
	PP ca = polyConst(1), cb = polyConst(1);
	size_t i = 0, j = 0;
	bool same = true;
	while (i < a.den.size() || j < b.den.size())
	{
		if (j >= b.den.size() || (i < a.den.size() && a.den[i].first->id < b.den[j].first->id))
		{ cb = polyMul(cb, polyPow(a.den[i].first, a.den[i].second)); r.den.push_back(a.den[i++]); same = false; }
		else if (i >= a.den.size() || b.den[j].first->id < a.den[i].first->id)
		{ ca = polyMul(ca, polyPow(b.den[j].first, b.den[j].second)); r.den.push_back(b.den[j++]); same = false; }
		else
		{
			int e = std::max(a.den[i].second, b.den[j].second);
			if (a.den[i].second < e) { ca = polyMul(ca, polyPow(a.den[i].first, e - a.den[i].second)); same = false; }
			if (b.den[j].second < e) { cb = polyMul(cb, polyPow(a.den[i].first, e - b.den[j].second)); same = false; }
			r.den.emplace_back(a.den[i].first, e);
			++i; ++j;
		}
	}
	(void)same;
	r.num = polyAdd(polyMul(a.num, ca), polyMul(b.num, cb), sub);
	r = ratReduce(std::move(r));
	ratCancel(r);
	return r;
}
inline RatFun ratMul(RatFun a, RatFun b)
{
	if (a.num->isZero() || b.num->isZero()) return ratConst(0);
	auto cross = [](PP& n, std::vector<std::pair<PP, int>>& den) {
		for (size_t i = 0; i < den.size();)
		{
			while (den[i].second > 0)
			{
				PP q = polyDiv(n, den[i].first);
				if (!q) break;
				n = q;
				den[i].second--;
			}
			if (den[i].second == 0) den.erase(den.begin() + i);
			else ++i;
		}
	};
	if (!b.den.empty()) cross(a.num, b.den);
	if (!a.den.empty()) cross(b.num, a.den);
	RatFun r;
	r.num = polyMul(a.num, b.num);
	size_t i = 0, j = 0;
	while (i < a.den.size() || j < b.den.size())
	{
		if (j >= b.den.size() || (i < a.den.size() && a.den[i].first->id < b.den[j].first->id)) r.den.push_back(a.den[i++]);
		else if (i >= a.den.size() || b.den[j].first->id < a.den[i].first->id) r.den.push_back(b.den[j++]);
		else { r.den.emplace_back(a.den[i].first, a.den[i].second + b.den[j].second); ++i; ++j; }
	}
	return ratReduce(std::move(r));
}
extern std::vector<PP> gKnownFactors;
// split p (non-constant) into known factors, variables and a rest; all interned
inline void polySplit(const PP& p0, mpq_class& c, std::vector<std::pair<PP, int>>& out)
{
	mpq_class s;
	PP p = gPolys.normal(p0, s);
	c = s;
	std::map<uint32_t, std::pair<PP, int>> f;
	auto add = [&](const PP& q, int e) {
		auto& x = f[q->id];
		x.first = q;
		x.second += e;
	};
	// monomial content
	std::map<uint32_t, uint32_t> mn;
	bool first = true;
	for (auto& t : p->t)
	{
		if (first) { for (auto& q : t.m) mn[q.first] = q.second; first = false; }
		else
		{
			for (auto it = mn.begin(); it != mn.end();)
			{
				uint32_t e = 0;
				for (auto& q : t.m) if (q.first == it->first) e = q.second;
				it->second = std::min(it->second, e);
				if (it->second == 0) it = mn.erase(it); else ++it;
			}
		}
		if (mn.empty()) break;
	}
	if (!mn.empty() && !(p->t.size() == 1 && p->t[0].m.size() == 1 && p->t[0].m[0].second == 1))
	{
		Mono m(mn.begin(), mn.end());
		Poly r;
		Mono q;
		for (auto& t : p->t) { monoDiv(t.m, m, q); r.t.push_back({q, t.c}); }
		for (auto& k : mn) add(gPolys.intern(polyVar(k.first)), (int)k.second);
		p = gPolys.intern(mkPoly(std::move(r)));
	}
	if (!p->isConst())
	{
		for (auto& k : gKnownFactors)
		{
			if (k->id == p->id) break;
			while (!p->isConst())
			{
				PP q = polyDiv(p, k);
				if (!q) break;
				mpq_class s2;
				p = gPolys.normal(q, s2);
				c *= s2;
				add(k, 1);
			}
			if (p->isConst()) break;
		}
	}
	if (!p->isConst())
	{
		bool known = false;
		for (auto& k : gKnownFactors) if (k->id == p->id) known = true;
		if (!known && p->t.size() > 1) gKnownFactors.push_back(p);
		add(p, 1);
	}
	out.clear();
	for (auto& k : f) out.push_back(k.second);
}
inline RatFun ratInv(const RatFun& a)
{
	RatFun r;
	mpq_class c;
	std::vector<std::pair<PP, int>> f;
	if (a.num->isConst()) c = a.num->constVal();
	else polySplit(a.num, c, f);
	r.num = polyConst(1 / c);
	for (auto& d : a.den) r.num = polyMul(r.num, polyPow(d.first, d.second));
	r.den = f;
	return r;
}
inline bool ratSame(const RatFun& a, const RatFun& b)
{
	return ratAdd(a, b, true).num->isZero();
}
