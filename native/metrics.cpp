#include "common.hpp"
#include "metrics.hpp"
template<bool R> void err(){
	ErrorMetrics<R> m; long n = 0, w = 0;
	CASE("ErrorMetrics<%d>:", R);
	int ops = 1 + rng.below(40);
	for(int o = 0; o < ops; ++o){
		int k = rng.below(12);
		if(k == 0 && rng.coin()){ MORE(" reset"); m.reset(); n = w = 0; }
		else if(k == 1){ int c = rng.coin() ? -1 : rng.integer(0, 100000); MORE(" increase_error(%d)", c); if(c < 0){ m.increase_error(); c = 1; } else m.increase_error(c); n += c; w += c; }
		else { int a = rng.integer(-5, 1000), b = rng.coin() ? a : rng.integer(-5, 1000); MORE(" update(%d,%d)", a, b); m.update(a, b); n++; w += a != b; }
		if(n == 0) continue;
		int ts = rng.integer(1, 1000); if(rng.coin(5)) ts = -1;
		for(int inv = 0; inv < 2; ++inv){
			double e = inv ? (double)(n - w) / n : (double)w / n; if(R) e = inv ? e / ts : e * ts;
			double g = m.score(inv, ts);
			if(!close_to(e, g)) FAIL("score", "score(%d,%d) = %.17g, expected %.17g", inv, ts, g, e);
		}
		double e = (double)w / n; if(R) e = -e;
		if(!close_to(e, m.score())) FAIL("score", "score() = %.17g, expected %.17g", m.score(), e);
		if(m.ratio() != R) FAIL("ratio", "ratio()");
	}
	NONTRIVIAL();
}
template<int L, bool R> void kap(){
	typedef KappaMetrics<L, R> K;
	alignas(K) static unsigned char mem[sizeof(K)]; memset(mem, 0x55, sizeof mem);
	K* m = new (mem) K();
	vector<vector<double>> c(L, vector<double>(L, 0)); double n = 0;
	CASE("KappaMetrics<%d,%d>:", L, R);
	auto check = [&](K& q){
		if(n == 0) return;
		double D = 0, S = 0;
		for(int i = 0; i < L; ++i){ D += c[i][i]; double a = 0, b = 0; for(int j = 0; j < L; ++j){ a += c[i][j]; b += c[j][i]; } S += a * b; }
		if(n * n == S) return;
		double k = (n * D - S) / (n * n - S);
		if(!close_to(k, q.template kappa<false>(), 1e-9)) FAIL("kappa", "kappa() = %.17g, expected %.17g", q.template kappa<false>(), k);
		int ts = rng.integer(1, 500); if(rng.coin(5)) ts = -1;
		for(int inv = 0; inv < 2; ++inv){
			double e = inv ? (1 + k) / 2 : (1 - k) / 2; if(R) e = inv ? e / ts : e * ts;
			if(!close_to(e, q.score(inv, ts), 1e-9)) FAIL("score", "score(%d,%d) = %.17g, expected %.17g", inv, ts, q.score(inv, ts), e);
		}
		double e = (1 - k) / 2; if(R) e = -e;
		if(!close_to(e, q.score(), 1e-9)) FAIL("score", "score() = %.17g, expected %.17g", q.score(), e);
		if(q.ratio() != R) FAIL("ratio", "ratio()");
	};
	int ops = 1 + rng.below(60);
	for(int o = 0; o < ops; ++o){
		int k = rng.below(20);
		if(k == 0 && rng.coin()){ MORE(" reset"); m->reset(); for(auto& r : c) fill(r.begin(), r.end(), 0); n = 0; m->update(0, L - 1); c[0][L - 1]++; n++; }
		else if(k == 1 && L > 2){
			// adding errors: c wrong predictions in one cell
			int q = rng.coin() ? -1 : rng.integer(0, 3000); MORE(" increase_error(%d)", q); if(q < 0){ m->increase_error(); q = 1; } else m->increase_error(q);
			c[0][1] += q; n += q; }
		else if(k == 2){ MORE(" copy"); alignas(K) unsigned char m2[sizeof(K)]; memset(m2, 0x77, sizeof m2); K* q = new (m2) K(); for(int i = rng.below(4); i > 0; --i) q->update(rng.below(L), rng.below(L)); *q = *m; check(*q); check(*m); *m = *m; check(*m); m->update(0, 0); q->update(0, 0); c[0][0]++; n++; check(*q); }
		else if(k == 3){ int a = rng.below(L), b = rng.below(L), t = rng.below(200); MORE(" %dx update(%d,%d)", t, a, b); for(int i = 0; i < t; ++i) m->update(a, b); c[a][b] += t; n += t; }
		else { int a = rng.below(L), b = rng.coin() ? a : rng.below(L); MORE(" update(%d,%d)", a, b); m->update(a, b); c[a][b]++; n++; }
		check(*m);
	}
	NONTRIVIAL();
}
template<size_t N> struct Sz{ static void go(){ kap<N, false>(); kap<N, true>(); } };
void run(){
	while(more_time()){
#if PID == 14
		for(int i = 0; i < 50; ++i){ err<false>(); err<true>(); }
#else
		for(int i = 0; i < 20; ++i) ForSizes<Sz, 2,3,4,5,7,10,17,33 MORE_SIZES>::go();
#endif
	}
}
