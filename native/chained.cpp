#include "common.hpp"
#include "chained_reservoir.hpp"
static deque<double> g_draws; static Rng g_r; static int g_mode; static double g_tie; static vector<void*> g_blocks;
struct Fn{
	static double random(){ double d = g_tie > 0 && g_r.coin(3) ? g_tie : g_mode == 1 ? (g_r.coin(5) ? 1.0 : g_r.coin(5) ? 0.0 : g_r.unit()) : g_mode == 2 ? g_r.unit() * 0.2 : g_r.unit(); g_draws.push_back(d); return d; }
	static void* malloc(unsigned long n){ void* p = ::malloc(n); memset(p, 0xA5, n); g_blocks.push_back(p); return p; }
};
struct E{ int v; unsigned t; };
template<unsigned K> void one(){
	for(void* p : g_blocks) free(p); g_blocks.clear();
	typedef ChainedReservoirSampling<int, K, Fn> C; auto own = make_unique<C>(); C& c = *own; C const& cc = c;
	g_r.s = rng.next(); g_mode = rng.below(4); int n = rng.in(1, rng.coin() ? 4 * K + 4 : 12 * K + 30); bool zero = rng.coin(), drop = !rng.coin(3), any = rng.coin(3); unsigned t = 0; int x = 0;
	CASE("size=%u draws=%d:", K, g_mode);
	vector<vector<E>> ch(K); vector<unsigned> nx(K, 0xfffffffe); unsigned cnt = 0;
	auto rd = [&](double d){ return (unsigned)(int)(d * (K - 1) + 0.5); };
	auto cmp = [&](const char* key){ for(unsigned j = 0; j < min(cnt, K); ++j){ int a = rng.coin() ? c[j] : cc[j]; if(a != ch[j][0].v) FAIL(key, "slot %u holds %d, expected %d", j, a, ch[j][0].v); } };
	auto obs = [&](unsigned T){ MORE(" obsolete(%u)", T); c.obsolete(T);
		for(auto& h : ch){ size_t k = 0; while(k < h.size() && h[k].t <= T) ++k; if(k && k < h.size()){ h.erase(h.begin(), h.begin() + k); NONTRIVIAL(); } } cmp("obsolete"); };
	for(int i = 0; i < n; ++i){
		if(drop && cnt && rng.coin(6)) obs(rng.coin(4) ? t + 2 : t >= 1 ? rng.in(t > 3 * K ? t - 3 * K : 0, t) : 0);
		t += (i || !zero) ? rng.in(1, rng.coin(4) ? 3 : 1) : 0; ++x; if(any) t = rng.in(1, 40); MORE(" +%d@%u", x, t); g_draws.clear(); g_tie = (K & (K - 1)) == 0 && ((cnt + 1) & cnt) == 0 && cnt >= K ? (double)K / (cnt + 1) : 0;
		vector<int> was(K); for(unsigned j = 0; j < min(cnt, K); ++j) was[j] = c[j];
		c.add(x, t); size_t d = 0; auto dr = [&]{ return d < g_draws.size() ? g_draws[d++] : 0.0; };
		int slot = -1;
		if(cnt < K){ slot = cnt; if(c[slot] != x) FAIL("fill", "element %u is not in slot %u", cnt, cnt); }
		else { double u = dr(), th = (double)K / (double)(cnt + 1); bool acc = u < th; int hits = 0; for(unsigned j = 0; j < K; ++j) if(c[j] == x){ slot = j; ++hits; }
			if(fabs(u - th) < 1e-12 && u != g_tie) return;
			if(acc && hits != 1) FAIL("accept", "draw %.17g is below %u/%u but %d slots hold the element", u, K, cnt + 1, hits);
			if(!acc && hits) FAIL("reject", "draw %.17g is not below %u/%u but the element is in slot %d", u, K, cnt + 1, slot);
			if(acc) dr(); }
		if(slot >= 0){ ch[slot].assign(1, E{x, t}); nx[slot] = cnt + 1 + rd(dr()); NONTRIVIAL(); }
		for(unsigned j = 0; j < K; ++j) if(nx[j] == cnt && (int)j != slot){ ch[j].push_back({x, t}); nx[j] = cnt + 1 + rd(dr()); NONTRIVIAL(); }
		++cnt; cmp("add");
	}
	// drain: every chain shows its successors in order
	for(unsigned T = 0; T <= max(t, 40u) + 1 && T < 400; ++T) obs(T);
}
template<size_t N> struct More{ static void go(){ if(N >= 1 && N <= 300) one<(unsigned)N>(); } };
void run(){ while(more_time()){ one<1>(); one<2>(); one<3>(); one<4>(); one<7>(); one<20>(); one<100>(); ForSizes<More, 5 MORE_SIZES>::go(); } }
