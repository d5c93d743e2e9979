#include "common.hpp"
#include "reservoir_sampling.hpp"
static vector<double> draws; static size_t dpos;
struct Fn{
	static double random(){ double d = dpos < draws.size() ? draws[dpos] : 0.5; dpos++; return d; }
	template<class T> static int floor(T const x){ return (int)std::floor(x); }
};
static double draw(double bound){
	switch(rng.below(6)){ case 0: return 0; case 1: return 1; case 2: return bound <= 1 ? bound : 1; case 3: return min(1.0, max(0.0, nextafter(bound, 0))); default: return rng.unit(); }
}
template<size_t K> struct Go{ static void go(){
	typedef 
#if PID == 10
	ReservoirSampling<int, K, Fn>
#else
	ExponentialReservoirSampling<int, K, Fn>
#endif
	Res;
	struct Box { long a[4]; Res r; long b[4]; };
	auto box = make_unique<Box>(); for(auto& x : box->a) x = 77; for(auto& x : box->b) x = 77;
	Res& r = box->r; vector<int> m(K, 0); for(size_t i = 0; i < K; ++i) r[i] = m[i] = -1 - (int)i;
	unsigned n = 0; int steps = rng.coin(6) ? (int)K * 6 + 20 : (int)K + rng.in(0, 2 * K + 6);
	CASE("k=%zu", K);
	if(r.count() != 0) FAIL("new", "count of a new reservoir is %u", (unsigned)r.count());
	for(int s = 0; s < steps; ++s){
		int e = rng.integer(-1000000, 1000000); bool raw = rng.coin(5);
		double t = PID == 10 ? (double)K / (n + 1) : (double)n / K, u1 = draw(t), u2 = rng.coin(3) ? min(1.0, (double)rng.below(K + 1) / K) : draw(0.999999);
		draws = {u1, u2, 0.25}; dpos = 0; MORE(" %s(%d|%.17g,%.17g)", raw ? "index" : "add", e, u1, u2);
		int got = raw ? r.sample_index() : r.add(e), want; 
		if(PID == 10){
			if(n < K) want = n; else if(u1 < t) want = min((int)K - 1, (int)floor(u2 * K)); else want = -1;
			n++;
		} else {
			if(n == K || u1 < t) want = min((int)n - 1, (int)floor(u2 * n)); else want = n++;
		}
		if(got != want) FAIL("index", "returned %d, expected %d", got, want);
		if(!raw && want >= 0) m[want] = e;
		if(raw && want >= 0 && rng.coin()) r[want] = m[want] = e;
		if((unsigned)r.count() != n) FAIL("count", "count %u, expected %u", (unsigned)r.count(), n);
		const Res& c = r;
		for(size_t i = 0; i < K; ++i) if(c[i] != m[i] || r[i] != m[i]) FAIL("slot", "slot %zu holds %d, expected %d", i, c[i], m[i]);
		for(auto x : box->a) if(x != 77) FAIL("outside", "wrote outside"); for(auto x : box->b) if(x != 77) FAIL("outside", "wrote outside");
	}
	NONTRIVIAL();
} };
void run(){ while(more_time()) ForSizes<Go, 1, 2, 3, 5, 8, 13, 40 MORE_SIZES>::go(); }
