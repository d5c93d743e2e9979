#include "common.hpp"
#include "utils.hpp"
static vector<double> draws; static size_t dpos;
struct Fn{
	static double rand_uniform(){ double d = dpos < draws.size() ? draws[dpos] : 0.5; dpos++; return d; }
	static double log(double x){ return std::log(x); }
	static double exp(double x){ return std::exp(x); }
};
static void c06(){
	int n = rng.coin(3) ? rng.in(1, 4) : rng.integer(1, 300);
	vector<double> w(n + 2); double tot = 0;
	for(int i = 0; i < n + 2; ++i) w[i] = rng.coin(3) ? 0 : floor(rng.num(0, 40)) / 4;
	w[0] = w[n + 1] = -77; if(rng.coin(4)) w[1] = 0;
	bool any = false; for(int i = 1; i <= n; ++i) any |= w[i] > 0; if(!any) w[1 + rng.below(n)] = 1;
	for(int i = 1; i <= n; ++i) tot += w[i];
	double given = rng.coin() ? tot * (rng.coin() ? 1 : 2) : -1 - (double)rng.below(3); if(given < 0 && rng.coin(3)) given = -0.25;
	CASE("turn_array_into_probability([%s], %d, %.17g)", join(&w[1], min(n, 40)).c_str(), n, given);
	vector<double> v = w; bool def = given == -1;
	if(def) Utils::turn_array_into_probability(&v[1], n); else Utils::turn_array_into_probability(&v[1], n, given);
	double t = given >= 0 ? given : tot, acc = 0;
	for(int i = 1; i <= n; ++i){ acc += w[i]; if(!close_to(v[i], acc / t, 1e-9)) FAIL("turn", "value[%d] = %.17g, expected %.17g", i - 1, v[i], acc / t); }
	if(v[0] != -77 || v[n + 1] != -77) FAIL("turn-outside", "wrote outside the array");
	// pick
	vector<double> p(n); acc = 0; for(int i = 0; i < n; ++i){ acc += w[i + 1]; p[i] = acc / tot; }
	for(int q = 0; q < 6; ++q){
		double u; int k = rng.below(5); if(k == 0) u = 0; else if(k == 1){ u = p[rng.below(n)]; } else if(k == 2) u = nextafter(p[rng.below(n)], 0); else u = rng.unit();
		if(u >= 1) u = nextafter(1, 0); if(u < 0) u = 0;
		draws = {u, 0.9, 0.9}; dpos = 0;
		vector<double> pp = p; int m = n; if(rng.coin(5)){ m = rng.in(0, n); }
		CASE("pick_from_distribution([%s], %d) draw %.17g", join(p.data(), min(n, 40)).c_str(), m, u);
		int r = Utils::pick_from_distribution<Fn>(pp.data(), m), e = 0;
		while(e < m && !(p[e] > u)) ++e;
		if(r != e) FAIL("pick", "picked %d, expected %d", r, e);
		if(dpos != 1) FAIL("pick-draws", "%zu draws", dpos);
		if(pp != p) FAIL("pick-array", "array changed");
	}
	double u = rng.coin(6) ? 0 : rng.unit(), r = 0.01 + rng.num(0, 50); draws = {u}; dpos = 0;
	CASE("rand_exponential(%.17g) draw %.17g", r, u);
	double g = Utils::rand_exponential<Fn>(r), e = -std::log(1 - u) / r;
	if(!close_to(g, e, 1e-9)) FAIL("expo", "%.17g, expected %.17g", g, e);
	NONTRIVIAL();
}
template<class T> void arrays(){
	int n = rng.coin() ? rng.in(1, 6) : rng.integer(1, 400);
	vector<T> a(n + 2); int range = 1 + rng.below(20);
	for(auto& x : a) x = (T)(rng.coin(8) ? rng.num(-1000, 1000) : (double)rng.in(-range, range));
	if(rng.coin(3)) for(auto& x : a) if(x > 0) x = -x;     // all negative: the maximum is not positive
	vector<T> c = a;
	CASE("index_max/shuffle<%s> size %d", typeid(T).name(), n); for(int i = 1; i <= min(n, 40); ++i) MORE(" %g", (double)a[i]);
	int r = Utils::index_max(&a[1], n), e = 0; for(int i = 1; i < n; ++i) if(c[1 + i] > c[1 + e]) e = i;
	if(r != e) FAIL("index_max", "%d, expected %d", r, e);
	if(a != c) FAIL("index_max-array", "array changed");
	draws.clear(); dpos = 0; for(int i = 0; i < n + 2; ++i) draws.push_back(rng.coin(6) ? 1.0 : rng.coin(6) ? 0.0 : rng.unit());
	Utils::shuffle<Fn>(&a[1], n);
	if(a[0] != c[0] || a[n + 1] != c[n + 1]) FAIL("shuffle-outside", "wrote outside the array");
	auto s = a, t = c; sort(s.begin() + 1, s.end() - 1); sort(t.begin() + 1, t.end() - 1);
	if(s != t) FAIL("shuffle", "not a permutation");
	NONTRIVIAL();
}
static void arith(){
	int a = rng.integer(-2000000000, 2000000000), b = rng.coin(3) ? a : rng.integer(-2000000000, 2000000000); double x = rng.num(-1e6, 1e6), y = rng.coin(3) ? x : rng.num(-1e6, 1e6);
	if(rng.coin()){ a = rng.in(-10, 10); b = rng.in(-10, 10); }
	if(rng.coin(4)) x = rng.in(-2000, 2000) + 0.5;
	CASE("arith a=%d b=%d x=%.17g y=%.17g", a, b, x, y);
	if(Utils::min(a, b) != std::min(a, b) || Utils::min(x, y) != std::min(x, y)) FAIL("min", "min");
	if(Utils::max(a, b) != std::max(a, b) || Utils::max(x, y) != std::max(x, y)) FAIL("max", "max");
	if(Utils::abs(a) != std::abs(a) || Utils::abs(x) != std::fabs(x)) FAIL("abs", "abs");
	if(Utils::round(x) != (int)std::round(x)) FAIL("round", "round(x) = %d", Utils::round(x));
	if(Utils::round(a) != a) FAIL("round", "round(a) = %d", Utils::round(a));
	if(b != 0){ double q = Utils::div_int<int>(a, b); if(q != (double)(a / b)) FAIL("div_int", "div_int = %.17g, expected %d", q, a / b); }
}
void run(){
	while(more_time()) for(int i = 0; i < 200; ++i){
#if PID == 6
		c06();
#else
		arrays<double>(); arrays<int>(); for(int k = 0; k < 20; ++k) arith();
#endif
	}
}
