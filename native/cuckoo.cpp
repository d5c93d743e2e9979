#include "common.hpp"
#include "cuckoo_filter.hpp"
static int g_top, g_ev, g_bc, g_const; static uint64_t g_salt; static Rng g_draw; static int g_draws;
static uint64_t mix(uint64_t x){ Rng r; r.s = x ^ g_salt; return r.next(); }
struct Fn{
	static unsigned char fingerprint(int const* e){ int f = mix(*e) % g_top; if(f == g_ev) f = (f + 1) % g_top; return f; }
	static unsigned int hash(int const* e){ return mix(*e * 31ull + 7) % g_bc; }
	static unsigned int hash(unsigned char f){ return g_const >= 0 ? g_const : mix(f * 1000003ull + 5) % g_bc; }
};
static double rnd(){ g_draws++; return g_draw.coin(9) ? 0 : g_draw.coin(9) ? 0.9999999999 : g_draw.unit(); }
template<int BC, int BS, int ES, int EV> void one(){
	if((EV >> ES) != 0) return;
	typedef CuckooFilter<int, BC, BS, ES, Fn, rnd, EV> C;
	g_top = 1 << ES; g_ev = EV; g_bc = BC; g_salt = rng.next(); g_const = rng.coin() ? (int)rng.below(BC) : -1; g_draw.s = rng.next();
	auto own = make_unique<C>(); C* c = own.get(); int universe = rng.coin() ? rng.in(1, 12) : rng.in(4, 4 * BC * BS + 4), n = rng.in(1, 3 * BC * BS + 6); bool fill = rng.coin();
	CASE("buckets=%d size=%d bits=%d empty=%d salt=%llu hash=%d:", BC, BS, ES, EV, (unsigned long long)g_salt, g_const);
	typedef array<int, 2> Cls; map<Cls, int> copies; map<int, int> pairs; int total = 0;
	auto cls = [&](int x){ unsigned char f = Fn::fingerprint(&x); int h = Fn::hash(&x), h2 = h ^ Fn::hash(f); return Cls{f, min(h, h2)}; };
	auto cap = [&](int x){ unsigned char f = Fn::fingerprint(&x); return Fn::hash(f) == 0 ? BS : 2 * BS; };
	auto look = [&](int x){ int v = x; bool r = rng.coin() ? c->lookup(&v) : c->lookup(v); if(v != x) FAIL("element", "the element changed"); return r; };
	auto all = [&](const char* key){ for(int k = 0; k < 12; ++k){ int x = rng.below(universe); bool e = copies[cls(x)] > 0; vector<unsigned char> img((unsigned char*)c, (unsigned char*)c + sizeof(C)); bool r = look(x); if(memcmp(&img[0], (void*)c, sizeof(C))) FAIL("lookup-writes", "looking up changed the filter"); if(r != e) FAIL(key, "lookup(%d) says %d, %d copies are stored", x, r, copies[cls(x)]); } };
	all("new");
	for(int t = 0; t < n; ++t){
		int op = rng.below(fill ? 12 : 6), x = rng.below(universe);
		if(op == 0 || (op == 1 && !fill)){ int v = x; MORE(" -%d", x); bool had = copies[cls(x)] > 0; vector<unsigned char> img((unsigned char*)c, (unsigned char*)c + sizeof(C));
			if(rng.coin()) c->remove(&v); else c->remove(v);
			if(!had && memcmp(&img[0], (void*)c, sizeof(C))) FAIL("remove-absent", "removing an absent element changed the filter");
			if(had){ copies[cls(x)]--; pairs[cls(x)[1]]--; total--; } all("remove"); NONTRIVIAL();
		} else if(op == 2 && rng.coin(8)){ MORE(" clear"); c->clear(); copies.clear(); pairs.clear(); total = 0; all("clear"); }
		else { int v = x; MORE(" +%d", x); g_draws = 0; bool must = total < BS || (g_const >= 0 && pairs[cls(x)[1]] < cap(x));
			bool r = rng.coin() ? c->add(&v) : c->add(v); if(v != x) FAIL("element", "the element changed");
			if(!r && must) FAIL("add-free", "add(%d) fails although a candidate bucket has room", x);
			if(g_const >= 0 && r && pairs[cls(x)[1]] >= cap(x)) FAIL("add-full", "add(%d) reports success with %d entries in two buckets of %d", x, pairs[cls(x)[1]], BS);
			if(!r){ NONTRIVIAL(); return; }
			copies[cls(x)]++; pairs[cls(x)[1]]++; total++; all("add"); NONTRIVIAL(); }
	}
	// drain: every stored copy can be removed exactly once
	if(!rng.coin(3)){ MORE(" drain"); for(int x = 0; x < universe; ++x){ auto k = cls(x); int m = 0; while(look(x)){ c->remove(x); if(++m > copies[k]) FAIL("copies", "more than %d copies of %d", copies[k], x); } if(m != copies[k]) FAIL("copies", "%d copies of %d found, %d stored", m, x, copies[k]); copies[k] = 0; } }
}
template<size_t N> struct More{ static void go(){ if(N >= 1 && N <= 64){ one<4, N, 5, 2>(); if((N & (N - 1)) == 0) one<N, 3, 6, 1>(); if(N < 256) one<4, 2, 8, N>(); } } };
void run(){ while(more_time()){ one<8,4,7,0>(); one<16,2,8,0>(); one<4,1,3,5>(); one<1,2,2,1>(); one<2,3,4,15>(); one<8,4,5,31>(); one<32,3,6,9>(); one<4,8,8,255>(); one<8,2,1,0>(); one<16,4,7,127>(); ForSizes<More, 3 MORE_SIZES>::go(); } }
