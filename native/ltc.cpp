#include "common.hpp"
#include "ltc.hpp"
typedef __int128 Big;
struct Q{ Big n, d; bool operator<(Q const& o) const { return n * o.d < o.n * d; } double v() const { return (double)n / (double)d; } };
struct P{ long t, v; };
template<class V, class T, int EPS, int MX, int MN, int TUD> void one(){
	LTC<V, T, EPS, MX, MN, TUD> c;
	bool unit = rng.coin(3), small = rng.coin(); int n = rng.in(2, small ? 12 : 60); long t = rng.in(-50, 50), v = 0;
	CASE("epsilon=%d range=[%d,%d] unit=%d:", EPS, MN, MX, TUD);
	vector<P> seg, old; P kept{}; bool first = true, known = true, have = false; P last{}; int shape = rng.below(4); long slope = rng.in(-6, 6);
	auto clampv = [&](long x){ return max((long)MN, min((long)MX, x)); };
	for(int i = 0; i < n; ++i){
		if(i) t += unit ? 1 : rng.coin(5) ? rng.in(1, 300) : rng.in(1, 7);
		if(rng.coin(9)) slope = rng.in(-20, 20);
		v = shape == 0 ? rng.integer(max(MN, -200), min(MX, 200)) : shape == 1 ? v + rng.in(-2 * EPS - 1, 2 * EPS + 1) : shape == 2 ? v + slope : rng.coin(7) ? rng.integer(MN, MX) : v + rng.in(-1, 1);
		v = clampv(v);
		MORE(" (%ld,%ld)", t, v);
		bool r = c.add(t, v);
		if(first){ if(r) FAIL("first", "the first point is a transmission"); kept = {t, v}; first = false; continue; }
		if(i == 1 && r) FAIL("second", "the second point is a transmission");
		if(!r){ seg.push_back({t, v}); continue; }
		T rt; V rv; c.get_value_to_transmit(rt, rv); MORE(" ->(%ld,%ld)", (long)rt, (long)rv); NONTRIVIAL();
		if(known && (rt != kept.t || rv != kept.v)) FAIL("transmitted", "the first transmission is (%ld,%ld), the first point is (%ld,%ld)", (long)rt, (long)rv, kept.t, kept.v);
		if(have && rt <= last.t) FAIL("times", "the transmitted time %ld is not after %ld", (long)rt, last.t);
		kept = {(long)rt, (long)rv};
		if(have) for(P p : old){ if(p.t <= last.t || p.t > kept.t) continue;
			double x = last.v + (double)(kept.v - last.v) * (p.t - last.t) / (kept.t - last.t);
			if(fabs(x - p.v) > EPS + 1 + 1e-6) FAIL("tolerance", "the line from (%ld,%ld) to (%ld,%ld) passes at %g at time %ld where %ld was added", last.t, last.v, kept.t, kept.v, x, p.t, p.v); }
		// replay the cone from the kept point, now that it is known
		seg.push_back({t, v}); Q su{}, sl{};
		for(size_t k = 0; k < seg.size(); ++k){ P p = seg[k]; bool sent = k + 1 == seg.size();
			if(p.t <= kept.t) FAIL("kept-time", "the kept point is at %ld, not before the point at %ld that follows it", kept.t, p.t);
			long u = clampv(p.v + EPS), l = clampv(p.v - EPS);
			Q nu{u - kept.v, p.t - kept.t}, nl{l - kept.v, p.t - kept.t};
			if(k == 0){ su = nu; sl = nl; continue; }
			bool apart = su < nl || nu < sl; double gap = min(fabs(su.v() - nl.v()), fabs(nu.v() - sl.v())), mag = max(max(fabs(su.v()), fabs(sl.v())), max(fabs(nu.v()), fabs(nl.v())));
			if(apart != sent && (k == 1 || gap > 1e-7 * (1 + mag) / TUD)) FAIL("when", "the point at %ld is %sa transmission, the slopes are [%g,%g] and [%g,%g] from (%ld,%ld)", p.t, sent ? "" : "not ", sl.v(), su.v(), nl.v(), nu.v(), kept.t, kept.v);
			if(nu < su) su = nu; if(sl < nl) sl = nl;
		}
		seg.pop_back(); old = seg; seg.clear(); seg.push_back({t, v}); last = kept; have = true; known = false;
	}
}
template<size_t N> struct More{ static void go(){ if(N >= 1 && N <= 100000){ one<int, int, 2, (int)N, -(int)N, 1>(); if(N < 2000) one<int, int, (int)N, 32767, -32768, 1>(); if(N < 1000) one<int, int, 3, 500, -500, (int)N>(); } } };
void run(){ while(more_time()){ one<int,int,3,100,-100,1>(); one<int,int,0,32767,-32768,1>(); one<int,int,1,20,0,1>(); one<int,int,10,32767,-32768,1>(); one<int,int,2,100,-100,2>(); one<int,int,5,1000,-1000,10>(); one<int,long,4,300,-300,1>(); one<int,long,30,100000,-100000,3>(); ForSizes<More, 3 MORE_SIZES>::go(); } }
