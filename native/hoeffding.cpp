#include "common.hpp"

#include "hoeffding_tree.hpp"
struct Fn{
	static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } static bool isnan(double x){ return std::isnan(x); }
};
template<int FC, int LC, int MS> struct Run{
	typedef HoeffdingTree<double, FC, LC, MS, Fn> Tree;
	struct N{ bool leaf = true; int f = 0; double v = 0; int kid[2] = {0, 0}; vector<int> c[LC]; long n = 0; vector<double> lim, sum; double lo[FC], hi[FC]; };
	vector<N> nodes; int size[FC], start[FC + 1]; double delta;
	int NL() const { return start[FC] - FC; }
	void fresh(N& x){ for(auto& v : x.c) v.assign(start[FC], 0); x.lim.assign(NL(), 0); x.sum.assign(NL(), 0); x.n = 0; for(int f = 0; f < FC; ++f){ x.lo[f] = INFINITY; x.hi[f] = -INFINITY; } }
	bool sorted(const N& x) const { for(int f = 0; f < FC; ++f) for(int i = 1; i < size[f] - 1; ++i) if(!(x.lim[start[f] - f + i - 1] <= x.lim[start[f] - f + i])) return false; return true; }
	static double ent(const double* p){ double t = 0, h = 0; for(int l = 0; l < LC; ++l) t += p[l]; for(int l = 0; l < LC; ++l) if(p[l] > 0) h -= p[l] / t * std::log2(p[l] / t); return h; }
	// the textbook gain of every candidate
	vector<double> gains(const N& x) const {
		vector<double> g(NL());
		for(int f = 0; f < FC; ++f) for(int i = 0; i < size[f] - 1; ++i){
			double side[2][LC] = {}, all[LC] = {}, t[2] = {};
			for(int l = 0; l < LC; ++l) for(int b = 0; b < size[f]; ++b){ side[b > i][l] += x.c[l][start[f] + b]; all[l] += x.c[l][start[f] + b]; t[b > i] += x.c[l][start[f] + b]; }
			double h = ent(all); for(int s : {0, 1}) if(t[s] > 0) h -= t[s] / (t[0] + t[1]) * ent(side[s]);
			g[start[f] - f + i] = h;
		}
		return g;
	}
	int feature_of(int i) const { int f = 0; while(i >= start[f + 1] - (f + 1)) f++; return f; }
	bool close = false;        // the decision is within rounding of going the other way
	int train(N& x, const double* p, int label, double& v){
		x.n++;
		for(int f = 0; f < FC; ++f){
			x.lo[f] = min(x.lo[f], p[f]); x.hi[f] = max(x.hi[f], p[f]);
			int b = 0; while(b < size[f] - 1 && !(p[f] < x.lim[start[f] - f + b])) b++;
			x.c[label][start[f] + b]++;
		}
		auto g = gains(x); int a = -1, s = -1;
		for(int i = 0; i < NL(); ++i){ x.sum[i] += g[i]; if(a < 0 || x.sum[i] > x.sum[a]){ s = a; a = i; } else if(s < 0 || x.sum[i] > x.sum[s]) s = i; }
		double ga = x.sum[a] / x.n, gs = x.sum[s] / x.n, eps = 4 * std::log(1 / delta) / (2. * x.n), d = (ga - gs) * (ga - gs);
		close = fabs(d - eps) < 1e-9 || (fabs(ga) < 1e-9 && d > eps - 1e-9);
		if(d > eps && ga > 0){ v = x.lim[a]; return feature_of(a); }
		return -1;
	}
	int leaf_of(const double* p) const { int a = 0; while(!nodes[a].leaf) a = nodes[a].kid[!(p[nodes[a].f] <= nodes[a].v)]; return a; }
	void split(int a, int f, double v){
		nodes[a].leaf = false; nodes[a].f = f; nodes[a].v = v;
		for(int s : {0, 1}){
			N k; fresh(k); memcpy(k.lo, nodes[a].lo, sizeof k.lo); memcpy(k.hi, nodes[a].hi, sizeof k.hi);
			(s ? k.lo : k.hi)[f] = v;
			for(int g = 0; g < FC; ++g) for(int i = 1; i < size[g]; ++i) k.lim[start[g] - g + i - 1] = k.lo[g] + i * ((k.hi[g] - k.lo[g]) / size[g]);
			nodes[a].kid[s] = nodes.size(); nodes.push_back(k);
		}
	}
	void predicted(const char* when, const N& x, int r, const double* s){
		if(r < 0 || r >= LC) FAIL("label", "%s: predicted label %d of %d", when, r, LC);
		double t = 0; long c[LC]; int best = 0;
		for(int l = 0; l < LC; ++l){ c[l] = 0; for(int b = 0; b < size[0]; ++b) c[l] += x.c[l][b]; t += c[l]; if(c[l] > c[best]) best = l; }
		if(t == 0) return;
		if(r != best) FAIL("label", "%s: predicted label %d, the first most frequent is %d", when, r, best);
		for(int l = 0; l < LC && s; ++l) if(!close_to(s[l], c[l] / t)) FAIL("share", "%s: label %d has share %.17g, expected %.17g", when, l, s[l], c[l] / t);
	}
	void go(){
		int total = 0; for(int f = 0; f < FC; ++f){ size[f] = rng.coin(5) ? 1 : rng.in(2, 6); start[f] = total; total += size[f]; }
		start[FC] = total;
		if(NL() < 2){ size[FC - 1] += 3; start[FC] += 3; }
		delta = rng.coin(3) ? 0.9 + 0.09 * rng.unit() : rng.coin() ? 0.5 : 0.05;
		struct Box { long a[4]; Tree t; long b[4]; Box(double d, int* s) : t(d, s){} };
		long T = 4 + 16L * NL() + 4L * start[FC] * LC, room = sizeof(typename Tree::Node) + T;
		if(room + 16 > MS) return;
		CASE("features=%d labels=%d buffer=%d delta=%.17g bins=%s", FC, LC, MS, delta, joini(size, FC).c_str());
		auto box = make_unique<Box>(delta, size); for(auto& v : box->a) v = 77; for(auto& v : box->b) v = 77;
		Tree& t = box->t; nodes.assign(1, N()); fresh(nodes[0]);
		vector<double> lim(NL());
		if(!rng.coin(6)){
			for(int f = 0; f < FC; ++f){ vector<double> v; for(int i = 0; i < size[f] - 1; ++i) v.push_back(rng.num(-10, 10)); sort(v.begin(), v.end()); for(int i = 0; i < size[f] - 1; ++i) lim[start[f] - f + i] = v[i]; }
			t.get_root()->set_limits(lim.data()); nodes[0].lim = lim; MORE(" limits=%s", join(lim.data(), NL()).c_str());
		}
		bool easy = rng.coin(); int splits = 0;
		for(int step = rng.in(1, 120); step > 0; --step){
			double p[FC]; for(auto& v : p) v = rng.num(-12, 12);
			if(rng.coin(5) && NL()){ int i = rng.below(NL()); p[feature_of(i)] = nodes[0].lim[i]; }
			int label = easy ? (p[FC - 1] > 1 ? LC - 1 : 0) : rng.below(LC);
			MORE("; train(%s|%d)", join(p, FC).c_str(), label);
			int a = leaf_of(p); double v = -7, w = -7;
			if(!sorted(nodes[a])) return;
			if(a == 0 && rng.coin(3)){
				MORE(" at the root");
				int r = t.get_root()->train(p, label, v), m = train(nodes[0], p, label, w);
				if(close) return;
				if(PID == 27 && (r >= 0) != (m >= 0)) FAIL("decision", "a split is %ssuggested", r >= 0 ? "" : "not ");
				if(PID == 27 && r >= FC) FAIL("decision", "suggested feature %d", r);
				if(PID == 27 && r >= 0){       // any limit as good as the best will do
					double best = 0; for(double g : nodes[0].sum) best = max(best, g);
					bool ok = false; for(int i = start[r] - r; i < start[r] - r + size[r] - 1; ++i) ok |= nodes[0].sum[i] > best - 1e-9 && nodes[0].lim[i] == v;
					if(!ok) FAIL("decision", "suggested feature %d and value %.17g, which is not the best limit", r, v);
				}
			} else {
				int m = train(nodes[a], p, label, w);
				if(close) return;
				bool ok = t.train(p, label), fits = (long)(nodes.size() + 2) * room + 64 < MS;
				if(PID == 27 && m < 0 && !ok) FAIL("failure", "the training failed although no split is due");
				if(PID == 27 && m >= 0 && !ok && fits) FAIL("failure", "the split failed although there is room");
				if(PID == 27 && m >= 0 && ok && (long)(nodes.size() + 2) * sizeof(typename Tree::Node) + (long)(nodes.size() / 2 + 2) * T > MS) FAIL("failure", "a split is reported although there is no room for its nodes");
				if(m >= 0 && ok){
					split(a, m, w); splits++; int k = leaf_of(p); double z;
					if(!sorted(nodes[k])) return;
					train(nodes[k], p, label, z);
				}
			}
			for(auto x : box->a) if(x != 77) FAIL("outside", "wrote outside the tree"); for(auto x : box->b) if(x != 77) FAIL("outside", "wrote outside the tree");
#if PID == 25
			{
				typename Tree::Node* d = t.get_root(); int k = 0;
				while(!nodes[k].leaf){ bool right = !(p[nodes[k].f] <= nodes[k].v); if(d->is_leaf()) return; d = right ? d->get_right_child() : d->get_left_child(); k = nodes[k].kid[right]; }
				if(!d->is_leaf()) return;
				int* n; double *li, *su; d->get_informations(n, li, su); N& x = nodes[k];
				int got; memcpy(&got, n, 4); if(got != x.n) FAIL("count", "the leaf counts %d points, expected %ld", got, x.n);
				for(int l = 0; l < LC; ++l){ int* c = d->get_counters(l); for(int b = 0; b < start[FC]; ++b) if(c[b] != x.c[l][b]) FAIL("counter", "label %d, bin %d holds %d, expected %d", l, b, c[b], x.c[l][b]); }
				for(int i = 0; i < NL(); ++i) if(k == 0 && li[i] != x.lim[i]) FAIL("limit", "limit %d is %.17g, expected %.17g", i, li[i], x.lim[i]);
				for(int f = 0; f < FC; ++f) if(d->l_box[f] != x.lo[f] || d->u_box[f] != x.hi[f]) FAIL("box", "feature %d: box %.17g..%.17g, expected %.17g..%.17g", f, d->l_box[f], d->u_box[f], x.lo[f], x.hi[f]);
			}
#endif
			if(PID == 26 && nodes[0].leaf){
				vector<double> out(NL() + 1, 55); t.get_root()->compute_information_gain(out.data()); auto g = gains(nodes[0]);
				for(int i = 0; i < NL(); ++i) if(!close_to(out[i], g[i], 1e-9)) FAIL("gain", "limit %d has gain %.17g, expected %.17g", i, out[i], g[i]);
				if(out[NL()] != 55) FAIL("gain", "wrote past the output");
			}
			if(PID == 24 || (PID == 27 && step % 5 == 0)) for(int q = 0; q < 3; ++q){
				double z[FC]; for(int f = 0; f < FC; ++f) z[f] = q ? rng.num(-12, 12) : p[f];
				if(q == 2 && nodes.size() > 1){ auto& x = nodes[rng.below(nodes.size())]; if(!x.leaf) z[x.f] = x.v; }
				double s[LC + 1]; s[LC] = 55; MORE(q ? " predict(%s)" : " predict", join(z, FC).c_str());
				int r = t.predict(z, s); predicted(PID == 24 ? "prediction" : "structure", nodes[leaf_of(z)], r, s);
				if(s[LC] != 55) FAIL("share", "wrote past the scores");
				if(PID == 24){
					if(t.predict(z) != r) FAIL("label", "the answer without scores differs");
					if(nodes[0].leaf){ double s2[LC]; int r2 = t.get_root()->predict(z, s2); predicted("leaf prediction", nodes[0], r2, s2); }
				}
			}
		}
		if(splits || PID != 27) NONTRIVIAL();
	}
};
void run(){ while(more_time()){
	Run<1, 2, 2000>().go(); Run<2, 3, 1500>().go(); Run<2, 2, 20000>().go(); Run<3, 2, 4000>().go(); Run<3, 4, 60000>().go(); Run<5, 3, 8000>().go(); Run<2, 1, 2500>().go();
} }
