#include "common.hpp"

struct Fn{
	static double rand_uniform(){
		switch(rng.below(8)){ case 0: return 0; case 1: return 0.75; case 2: return 1 - 1.0 / 9007199254740992.0; case 3: return 0.5; case 4: return rng.unit() * 1e-3; default: return rng.unit(); }
	}
	static double log(double x){ return std::log(x); }
	static double exp(double x){ return std::exp(x); }
};
// both headers define the class Utils
namespace bounded{
#include "mondrian.hpp"
}
namespace unlimited{
#include "mondrian_unbound.hpp"
}
using bounded::MondrianForest; using unlimited::MondrianForestUnbound;

struct Nd{ const void* id; bool leaf; int dim; double val, tau; vector<double> lo, hi; vector<long> c; int l = -1, r = -1; bool linked = true; };
typedef vector<Nd> Tr;

// one tree of either forest as a list of nodes, the root first
template<int F, int L, class M> void view(M& m, int t, Tr& out){
	function<int(int, int)> go = [&](int i, int parent) -> int {
		if(i < 0 || i >= m.MAX_NODE) FAIL("structure", "node %d of a tree is not in the pool", i);
		auto& n = m.nodes[i]; Nd d; d.id = &n; d.leaf = n.split_dimension == -1; d.dim = n.split_dimension; d.val = n.split_value; d.tau = n.tau;
		d.lo.assign(n.bound_lower, n.bound_lower + F); d.hi.assign(n.bound_upper, n.bound_upper + F); d.c.assign(n.counters, n.counters + L);
		d.linked = n.parent == parent;
		for(auto& x : out) if(x.id == d.id) FAIL("structure", "a node is reached twice");
		int me = out.size(); out.push_back(d);
		if(!d.leaf){ int a = go(n.child_left, i), b = go(n.child_right, i); out[me].l = a; out[me].r = b; }
		return me;
	};
	out.clear(); if(m.roots[t] != -1) go(m.roots[t], -1);
}
template<int F, int L> void view(MondrianForestUnbound<double, Fn, F, L>& m, int t, Tr& out){
	typedef MondrianForestUnbound<double, Fn, F, L> M;
	function<int(typename M::MondrianNode*, typename M::MondrianNode*)> go = [&](typename M::MondrianNode* n, typename M::MondrianNode* parent) -> int {
		if(!n) FAIL("structure", "an internal node misses a child");
		Nd d; d.id = n; d.leaf = n->is_leaf(); d.tau = n->tau; d.dim = -1; d.val = 0;
		for(int f = 0; f < F; ++f){ d.lo.push_back(n->get_lower_bound(f)); d.hi.push_back(n->get_upper_bound(f)); }
		for(int l = 0; l < L; ++l) d.c.push_back(n->get_counters(l));
		d.linked = n->parent == parent;
		for(auto& x : out) if(x.id == d.id) FAIL("structure", "a node is reached twice");
		int me = out.size(); out.push_back(d);
		if(!d.leaf){ auto* q = dynamic_cast<typename M::InternalNode*>(n); out[me].dim = q->get_split_dimension(); out[me].val = q->get_split_value(); int a = go(q->child_left, n), b = go(q->child_right, n); out[me].l = a; out[me].r = b; }
		return me;
	};
	out.clear(); if(m.roots[t]) go(m.roots[t], nullptr);
}

template<int T, int F, int L, class M> void drive(M& m, double lifetime){
	vector<Tr> tr(T), old(T); vector<vector<double>> pts; vector<long> seen(L, 0);
	bool grid = rng.coin();
	for(int step = rng.in(1, 40); step > 0; --step){
		double p[F];
		for(int f = 0; f < F; ++f){
			p[f] = grid ? rng.in(-2, 3) : rng.num(-10, 10);
			if(!pts.empty() && rng.coin(4)){ p[f] = pts[rng.below(pts.size())][f]; if(rng.coin()) p[f] = nextafter(p[f], rng.coin() ? 100 : -100); }
		}
		if(PID == 30 || rng.coin(6)){
			double z[F], s[L + 1], avg[L] = {}, avg2[L] = {}; for(int f = 0; f < F; ++f) z[f] = rng.coin() ? p[f] : rng.num(-10, 10);
			MORE("; predict(%s)", join(z, F).c_str());
			for(int t = 0; t < T; ++t) view<F, L>(m, t, old[t]);
			bool give = rng.coin(); s[L] = 55; for(int l = 0; l < L; ++l) s[l] = 44;
			int r = give ? m.predict(z, s) : m.predict(z);
			for(int t = 0; t < T; ++t) view<F, L>(m, t, tr[t]);
			if(PID == 30){
				if(r < 0 || r >= L) FAIL("label", "predicted label %d", r);
				for(int t = 0; t < T; ++t){ double q[L]; m.predict_tree(z, t, q); for(int l = 0; l < L; ++l) avg[l] += q[l]; }
				bool nan = false; for(int l = 0; l < L; ++l){ avg[l] /= T; nan |= !std::isfinite(avg[l]); }
				for(int l = 0; l < L && !nan; ++l){
					if(avg[l] > avg[r] + 1e-9) FAIL("label", "predicted label %d with score %.17g, label %d has %.17g", r, avg[r], l, avg[l]);
					if(l < r && avg[l] == avg[r]) FAIL("label", "predicted label %d, label %d has the same score", r, l);
					if(give && !close_to(s[l], avg[l], 1e-9)) FAIL("score", "label %d: score %.17g, the average is %.17g", l, s[l], avg[l]);
				}
				if(give && s[L] != 55) FAIL("score", "wrote past the scores");
				for(int t = 0; t < T; ++t){
					if(tr[t].size() != old[t].size()) FAIL("changed", "predicting changed the structure of tree %d", t);
					for(size_t i = 0; i < tr[t].size(); ++i){
						Nd &a = old[t][i], &b = tr[t][i];
						if(a.id != b.id || a.leaf != b.leaf || a.l != b.l || a.r != b.r || a.linked != b.linked || a.tau != b.tau) FAIL("changed", "predicting changed the structure of tree %d", t);
						if(!a.leaf && (a.dim != b.dim || a.val != b.val)) FAIL("changed", "predicting changed a split of tree %d", t);
						if(a.lo != b.lo || a.hi != b.hi) FAIL("changed", "predicting changed a box of tree %d", t);
						if(a.leaf && a.c != b.c) FAIL("changed", "predicting changed a leaf of tree %d", t);
					}
				}
				if(!pts.empty()) NONTRIVIAL();
			}
		}
		int label = rng.below(L);
		for(int t = 0; t < T; ++t) view<F, L>(m, t, old[t]);
		MORE("; train(%s|%d)", join(p, F).c_str(), label);
		bool ok = m.train(p, label); pts.push_back(vector<double>(p, p + F)); seen[label]++;
		for(int t = 0; t < T; ++t) view<F, L>(m, t, tr[t]);
		if(PID == 28){
			if(!ok) FAIL("success", "the training reports a failure");
			for(int t = 0; t < T; ++t){
				map<const void*, vector<long>> b; for(auto& n : old[t]) if(n.leaf) b[n.id] = n.c;
				vector<long> tot(L, 0); long more = 0;
				for(auto& n : tr[t]) if(n.leaf) for(int l = 0; l < L; ++l){
					tot[l] += n.c[l]; long d = n.c[l] - (b.count(n.id) ? b[n.id][l] : 0);
					if(d && (l != label || d != 1)) FAIL("count", "tree %d: a leaf went from %ld to %ld points of label %d", t, n.c[l] - d, n.c[l], l);
					more += d;
				}
				if(more != 1) FAIL("count", "tree %d: %ld leaves counted the point", t, more);
				for(int l = 0; l < L; ++l) if(tot[l] != seen[l]) FAIL("count", "tree %d: the leaves count %ld points of label %d, expected %ld", t, tot[l], l, seen[l]);
				if(tr[t].size() > 1) NONTRIVIAL();
			}
		}
		if(PID == 29) for(int t = 0; t < T; ++t){
			for(auto& n : tr[t]){
				if(!n.linked) FAIL("structure", "tree %d: a child does not refer to its parent", t);
				if(n.tau > lifetime) FAIL("time", "tree %d: splitting time %.17g beyond the lifetime", t, n.tau);
				if(n.leaf) continue;
				if(n.dim < 0 || n.dim >= F) FAIL("split", "tree %d: split dimension %d", t, n.dim);
				Nd &a = tr[t][n.l], &b = tr[t][n.r];
				if(a.tau < n.tau || b.tau < n.tau) FAIL("time", "tree %d: a child splits at %.17g, its parent at %.17g", t, min(a.tau, b.tau), n.tau);
				for(int f = 0; f < F; ++f) for(Nd* k : {&a, &b}) if(k->lo[f] < n.lo[f] || k->hi[f] > n.hi[f]) FAIL("box", "tree %d: the box of a node does not contain that of its child along %d", t, f);
				if(!(a.hi[n.dim] <= n.val && n.val < b.lo[n.dim])) FAIL("split", "tree %d: the split at %.17g of dimension %d does not separate %.17g and %.17g", t, n.val, n.dim, a.hi[n.dim], b.lo[n.dim]);
			}
			for(auto& q : pts) for(int i = 0; ; ){
				Nd& n = tr[t][i];
				for(int f = 0; f < F; ++f) if(q[f] < n.lo[f] || q[f] > n.hi[f]) FAIL("box", "tree %d: a box does not contain the point %s trained through it", t, join(q.data(), F).c_str());
				if(n.leaf) break;
				i = q[n.dim] <= n.val ? n.l : n.r;
			}
			// splits added by this point separate it from the box before
			map<const void*, Nd*> b; for(auto& n : old[t]) b[n.id] = &n;
			for(auto& n : tr[t]) if(!n.leaf && !b.count(n.id)){
				for(int k : {n.l, n.r}) if(b.count(tr[t][k].id)){
					Nd& o = *b[tr[t][k].id]; double x = p[n.dim];
					if(!((x <= n.val && n.val < o.lo[n.dim]) || (o.hi[n.dim] <= n.val && n.val < x))) FAIL("split", "tree %d: the new split at %.17g of dimension %d does not separate the point from the box %.17g..%.17g", t, n.val, n.dim, o.lo[n.dim], o.hi[n.dim]);
				}
			}
			if(tr[t].size() > 1) NONTRIVIAL();
		}
		if(!ok && PID != 28) return;
	}
}
template<int T, int F, int L, int K> void pooled(){
	double life = rng.coin(4) ? 0 : rng.coin() ? rng.unit() : 20 * rng.unit(), base = rng.coin() ? 0.5 : rng.unit(), disc = rng.coin(4) ? 0 : rng.unit();
	CASE("trees=%d features=%d labels=%d nodes=%d lifetime=%.17g base=%.17g discount=%.17g", T, F, L, K, life, base, disc);
	typedef MondrianForest<double, Fn, T, F, L, K * (int)sizeof(typename MondrianForest<double, Fn, T, F, L, 100000>::Node) + 3> M;
	struct Box { long a[4]; M m; long b[4]; Box(double x, double y, double z) : m(x, y, z){} };
	auto box = make_unique<Box>(life, base, disc); for(auto& v : box->a) v = 77; for(auto& v : box->b) v = 77;
	drive<T, F, L>(box->m, life);
	for(auto x : box->a) if(x != 77) FAIL("outside", "wrote outside the forest"); for(auto x : box->b) if(x != 77) FAIL("outside", "wrote outside the forest");
}
template<int T, int F, int L> void unbound(){
	double life = rng.coin(4) ? 0 : rng.coin() ? rng.unit() : 20 * rng.unit(), base = rng.coin() ? 0.5 : rng.unit(), disc = rng.coin(4) ? 0 : rng.unit();
	CASE("unbound trees=%d features=%d labels=%d lifetime=%.17g base=%.17g discount=%.17g", T, F, L, life, base, disc);
	MondrianForestUnbound<double, Fn, F, L> m(life, base, disc, T);
	drive<T, F, L>(m, life);
}
void run(){
	while(more_time()){
		pooled<1, 2, 2, 1>(); pooled<1, 1, 2, 2>(); pooled<2, 2, 3, 3>(); pooled<1, 2, 2, 9>(); pooled<3, 2, 2, 20>(); pooled<2, 3, 4, 200>(); pooled<3, 1, 1, 4>();
		unbound<1, 2, 2>(); unbound<2, 1, 3>(); unbound<3, 3, 4>();
	}
}
