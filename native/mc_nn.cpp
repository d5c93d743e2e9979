#include "common.hpp"
#include "mc_nn.hpp"
// Reference: per cluster the sums of the property.  A case ends when a split is due (the property leaves its outcome open),
// except that the count must stay between the classes seen and the capacity.
struct Cl{ bool on = false; long n = 0; int label = 0; long err = 0; vector<double> sum; };
template<class T, int F, int MC, int EC> void one(){
	typedef MCNN<T, F, MC, EC> N;
	bool split_free = PID == 20 ? rng.coin() : !rng.coin(3);
	unsigned thr = split_free ? 1000 : rng.in(1, 4); int cm = rng.in(0, 3); if(PID == 18) cm = rng.coin(4) ? 2 : 0;
	double pt = rng.coin() ? -1 : 1e18; bool def = rng.coin(8); if(def){ thr = 2; cm = 0; pt = 50; }
	auto nb = def ? make_unique<N>() : make_unique<N>(thr, cm, pt); N* m = nb.get();
	CASE("features=%d clusters=%d empty=%d thr=%u cleaning=%d perf=%g%s", F, MC, EC, thr, cm, pt, def ? " default" : "");
	vector<Cl> c(MC); double scale = rng.coin(3) ? 1e4 : rng.coin(3) ? 3 : 30; int labels = rng.in(1, MC + 3), n = rng.in(1, 30);
	auto coords = [&]{ vector<T> x(F); bool far = rng.coin(5); for(auto& v : x) v = (T)(far ? (rng.unit() - 0.5) * 4e6 : rng.coin() ? (double)rng.in(-3, 3) * floor(scale) / 3 : rng.num(-scale, scale)); return x; };
	auto cen = [&](const Cl& k, int f){ return k.sum[f] / k.n; };
	bool exact = true; int lower = 0; set<int> seen;
	if(m->count_clusters() != 0) FAIL("count", "a new model reports %d clusters", m->count_clusters());
	auto near = [&](const vector<T>& x, int label, bool cls, bool& shaky){ int b = -1; double bd = 0; vector<double> ds(MC, -1);
		for(int i = 0; i < MC; ++i) if(c[i].on && (!cls || c[i].label == label)){ double d = 0; for(int f = 0; f < F; ++f){ T ce = (T)((double)(T)c[i].sum[f] / c[i].n); d += ((double)x[f] - ce) * ((double)x[f] - ce); } ds[i] = d; if(b < 0 || d < bd){ b = i; bd = d; } }
		for(int i = 0; i < MC; ++i) if(ds[i] >= 0 && i != b && (c[i].label != c[b].label || cls) && fabs(ds[i] - bd) <= 1e-6 * max(1.0, bd)) shaky = true;
		return b; };
	for(int t = 0; t < n; ++t){
		vector<T> x = coords(); int y = rng.below(labels);
		if(rng.coin(4)){ vector<int> on; for(int i = 0; i < MC; ++i) if(c[i].on) on.push_back(i); if(!on.empty()){ auto& k = c[on[rng.below(on.size())]]; for(int f = 0; f < F; ++f) x[f] = (T)(cen(k, f) + (double)rng.in(-1, 1)); } }
		vector<T> x0(x); string xs; for(auto v : x) xs += (xs.empty() ? "" : ",") + to_string(v);
		if(exact && (PID == 18 || rng.coin(3))){
			MORE(" predict([%s])", xs.c_str()); unsigned char before[sizeof(N)]; memcpy(before, (void*)m, sizeof(N));
			int r = m->predict(x.data()); if(x != x0) FAIL("point", "the point changed"); if(memcmp(before, (void*)m, sizeof(N))) FAIL("predict-writes", "predicting changed the model");
			bool shaky = false; int b = near(x, 0, false, shaky); bool any = b >= 0;
			if(!any && r != EC) FAIL("empty", "predicted %d without clusters", r);
			if(any && !shaky && r != c[b].label) FAIL("predict", "predicted %d, the nearest cluster has label %d", r, c[b].label);
			NONTRIVIAL();
		}
		MORE(" train([%s],%d)", xs.c_str(), y);
		int before = m->count_clusters(); vector<unsigned char> img((unsigned char*)m, (unsigned char*)m + sizeof(N));
		bool r = m->train(x.data(), y); int after = m->count_clusters(); if(x != x0) FAIL("point", "the point changed");
		if(after < 0 || after > MC) FAIL("capacity", "%d clusters reported, capacity %d", after, MC);
		if(after < 1) FAIL("count", "no cluster after training");
		if(after > before + 2) FAIL("count", "one point made %d clusters of %d", after, before);
		if(!r && (cm == 0 || cm == 2)) FAIL("failure", "training failed although a cluster may be replaced");
		if(!r && after != MC) FAIL("failure", "training failed with %d of %d clusters in use", after, MC);
		if(cm != 1 && cm != 2 && after < before) FAIL("count", "the count fell from %d to %d without cleaning", before, after);
		if(!exact){ if(r){ bool sh = false; int q = m->predict(x.data()); (void)q; (void)sh; } NONTRIVIAL(); continue; }
		if((cm == 1 || cm == 2) && pt > 0) for(auto& k : c) if(k.on && k.n > 1) k.on = false;   // participation is finite and not above 1e18 ...
		if((cm == 1 || cm == 2) && pt > 0){   // ... except for time zero: follow what the model still knows
			int on = 0; for(auto& k : c) on += k.on; if(on + 1 < after || on > after + 1){ exact = false; continue; }
		}
		bool shaky = false, sh2 = false; int w = near(x, y, true, shaky), b = w >= 0 ? near(x, y, false, sh2) : -1;
		if(shaky || sh2){ exact = false; continue; }
		if(w < 0){
			int fr = -1, on = 0; for(int i = 0; i < MC; ++i){ if(!c[i].on && fr < 0) fr = i; on += c[i].on; }
			if(fr < 0){ if(cm == 0 || cm == 2){ exact = false; if(after != MC) FAIL("count", "%d clusters reported after a replacement, capacity %d", after, MC); int q = m->predict(x.data()); bool other = false; for(auto& k : c){ bool at = true; for(int f = 0; f < F; ++f) if(fabs(cen(k, f) - (double)x[f]) > 1e-6) at = false; if(at) other = true; } if(!other && q != y) FAIL("new-class", "a point of a new class is predicted as %d", q); NONTRIVIAL(); continue; }
				if(r) FAIL("failure", "training reports success with no cluster for the class"); 
				if(memcmp((char*)&img[0], (char*)m, 0)) FAIL("failure-writes", "failed training changed the model");
			} else { if(!r) FAIL("failure", "training failed with a free cluster"); Cl& k = c[fr]; k.on = true; k.n = 1; k.label = y; k.err = thr; k.sum.assign(x.begin(), x.end()); seen.insert(y); }
		} else {
			if(!r) FAIL("failure", "training failed although the class has a cluster");
			bool alike = c[b].label == y; if(alike) c[w].err++; else { c[w].err--; c[b].err--; }
			c[w].n++; for(int f = 0; f < F; ++f) c[w].sum[f] += x[f];
			if(!alike && (c[w].err <= 0 || c[b].err <= 0)){ exact = false; if(PID == 20 && before < MC && (cm == 0 || cm == 3) && after <= before) FAIL("split", "no split although one is due"); NONTRIVIAL(); continue; }
		}
		int on = 0; for(auto& k : c) on += k.on;
		if(after != on) FAIL("count", "%d clusters reported, %d in use", after, on);
		NONTRIVIAL();
		// the model must agree at the centroids
		if(!rng.coin(3)) for(int i = 0; i < MC; ++i) if(c[i].on){ vector<T> q(F); for(int f = 0; f < F; ++f) q[f] = (T)cen(c[i], f); if(rng.coin()) for(auto& v : q) v += (T)rng.in(-5, 5) / 2; bool sh = false; int bb = near(q, 0, false, sh); if(!sh){ int p = m->predict(q.data()); if(p != c[bb].label) FAIL("statistics", "near the centroid of cluster %d the prediction is %d, expected %d", i, p, c[bb].label); } }
		if(t == n / 2) lower = seen.size(); (void)lower;
	}
}
template<size_t N> struct More{ static void go(){ if(N < 200){ one<double, N, 4, -1>(); one<double, 2, N, -1>(); } } };
void run(){ while(more_time()){ one<double,1,1,-1>(); one<double,1,2,-7>(); one<double,2,3,-1>(); one<double,3,5,0>(); one<double,2,8,-1>(); one<double,4,25,-1>(); one<double,1,4,-1>(); ForSizes<More, 3 MORE_SIZES>::go(); } }
