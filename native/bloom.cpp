#include "common.hpp"
#include "bloom_filter.hpp"
// executable contract of the Bloom filter: a bit-set model driven by the same hash functions
static unsigned g_mod = 1, g_mult[64], g_add[64];
static int g_mode = 0;
template<int k> unsigned H(int* e){ unsigned x = (unsigned)*e;
	if(g_mode == 1) return g_mult[k] % g_mod;                      // all elements on the same position
	if(g_mode == 2) return (x + k * g_add[k]) % g_mod;              // neighbouring positions
	if(g_mode == 3) return (g_mod - 1) - (x * 7u + k) % min(g_mod, 3u); // end of the array
	return (x * g_mult[k] + g_add[k]) % g_mod; }
template<size_t... I> static void fill(unsigned (**h)(int*), index_sequence<I...>){ unsigned (*a[])(int*) = {H<I>...}; for(size_t i = 0; i < sizeof...(I); ++i) h[i] = a[i]; }
template<int N, int K> void one(){
	typedef BloomFilter<int, N, K> BF;
	g_mod = N; g_mode = rng.below(5);
	for(int i = 0; i < K; ++i){ g_mult[i] = rng.next() | 1; g_add[i] = rng.next(); }
	unsigned (*h[K])(int*); fill(h, make_index_sequence<K>());
	if(rng.coin(3)) for(int i = 0; i < K; ++i) if(rng.coin()) h[i] = h[rng.below(K)];
	CASE("BloomFilter<int,%d,%d> hash mode %d mult0 %u add0 %u:", N, K, g_mode, g_mult[0], g_add[0]);
	// placement on dirty memory: a new filter must be empty whatever was there
	alignas(BF) static unsigned char mem[sizeof(BF)]; memset(mem, 0xff, sizeof mem);
	BF* b = new (mem) BF(h);
	vector<unsigned char> m(N, 0);
	int range = 1 + rng.below(4 * N + 8);
	auto expect = [&](int x){ for(int i = 0; i < K; ++i) if(!(m[h[i](&x)] & 1)) return false; return true; };
	auto check = [&](int x){
		int y = x; bool w = expect(x);
		bool r = rng.coin() ? b->lookup(&y) : b->lookup(x);
		if(r != w && (PID == 2 || w)) FAIL(w ? "forgets" : "false-yes", "lookup(%d) = %d, expected %d", x, r, w);
		if(y != x) FAIL("element", "lookup changed the element");
	};
	int ops = 1 + rng.below(60);
	for(int o = 0; o < ops; ++o){
		int x = rng.integer(-range, range), k = rng.below(20);
		if(k < 8){
			int y = x; MORE(" add%s(%d)", k & 1 ? "" : "*", x);
			if(k & 1) b->add(x); else b->add(&y);
			if(y != x) FAIL("element", "add changed the element");
			for(int i = 0; i < K; ++i) m[h[i](&x)] |= 1;
			check(x);
		} else if(k == 8){ MORE(" clear()"); b->clear(); fill_n(m.begin(), N, 0); }
		else if(k == 9){
			vector<unsigned char> n(N); for(auto& v : n) v = rng.coin(3);
			MORE(" set(...)"); vector<unsigned char> c = n; b->set(c.data());
			if(c != n) FAIL("set-arg", "set changed its argument");
			m = n;
		} else { MORE(" lookup(%d)", x); check(x); }
		if(rng.coin(6)) for(int q = 0; q < min(range, 60); ++q) check((int)rng.integer(-range, range));
	}
	for(int x = -min(range, 300); x <= min(range, 300); ++x) check(x);
	b->~BF();
	NONTRIVIAL();
}
template<size_t N> struct Sz{ static void go(){ if(more_time()){ one<N,(N % 4) + 1>(); } } };
void run(){
	do { ForSizes<Sz, 1,2,3,8,9,17,31,64,257,1000 MORE_SIZES>::go(); } while(more_time());
	one<65536 + 7, 3>(); one<5, 40>(); one<33, 13>();
}
