#include "common.hpp"
#include "perceptron.hpp"
static Rng g_draw; static vector<double> g_drawn; static int g_act = 0;
struct Fn{
	static double random(){ double v = g_draw.unit(); g_drawn.push_back(v); return v; }
	static double activation(double x){ return g_act == 0 ? 1 / (1 + std::exp(-x)) : g_act == 1 ? x : g_act == 2 ? x * 0.5 + 0.25 : x > 0 ? x : 0; }
	static double derivative(double y){ return g_act == 0 ? y * (1 - y) : g_act == 1 ? 1.0 : g_act == 2 ? y * y + 0.125 : y > 0 ? 1 : 0; }
};
template<int LC, int MS> void one(){
	typedef MultiLayerPerceptron<LC, MS, Fn> P;
	const int TC = ((MS + (int)sizeof(double) - MS % (int)sizeof(double)) / (int)sizeof(double)) / 2;
	int n[LC], wb[LC + 1]; g_act = rng.below(4);
	for(int k = 0; ; ++k){
		int m = k < 20 ? 7 : k < 40 ? 3 : 1; for(auto& v : n) v = rng.in(1, m); if(PID != 23 && rng.coin(3)) for(auto& v : n) v = rng.in(1, 2);
		wb[1] = 0; int o = n[0]; for(int l = 1; l < LC; ++l){ wb[l + 1] = wb[l] + (n[l - 1] + 1) * n[l]; o += n[l]; }
		if(wb[LC] <= TC && o <= TC) break;
		if(k > 60) return;
	}
	int T = wb[LC]; bool def = rng.coin(3); double rate = def ? 0.1 : rng.coin(4) ? 1.0 : rng.num(0.001, 2);
	g_draw.s = rng.next(); g_drawn.clear(); int sz[LC]; copy(n, n + LC, sz);
	CASE("layers [%s] activation %d rate %.17g buffer %d:", joini(n, LC).c_str(), g_act, rate, MS);
	unique_ptr<P> p(def ? new P(sz) : new P(sz, rate));
	vector<double> w(p->get_weights(), p->get_weights() + TC);
	if(PID == 22){
		if((int)g_drawn.size() < T) FAIL("draws", "%zu weights drawn, the network has %d", g_drawn.size(), T);
		for(int i = 0; i < T; ++i) if(count(g_drawn.begin(), g_drawn.end(), w[i]) < 1) FAIL("draws", "weight %d is not a draw", i);
		if(!equal(n, n + LC, sz)) FAIL("sizes", "the layer sizes were changed");
	}
	fill(sz, sz + LC, 99);
	auto val = [&]{ return rng.coin(3) ? (double)rng.in(-3, 3) : (rng.unit() - 0.5) * 3; };
	auto forward = [&](const vector<double>& in, vector<vector<double>>& out){
		out.assign(LC, {}); out[0] = in;
		for(int l = 1; l < LC; ++l) for(int m = 0; m < n[l]; ++m){ double s = 0; const double* q = &w[wb[l] + m * (n[l - 1] + 1)]; for(int c = 0; c < n[l - 1]; ++c) s += q[c] * out[l - 1][c]; out[l].push_back(Fn::activation(s + q[n[l - 1]])); }
	};
	auto same = [&](const char* key, const char* what, bool exact){ const double* g = p->get_weights(); for(int i = 0; i < TC; ++i) if(exact ? g[i] != w[i] : !close_to(g[i], w[i], 1e-9)) FAIL(key, "after %s weight %d is %.17g, expected %.17g", what, i, g[i], w[i]); };
	vector<vector<double>> outs; int steps = rng.in(1, PID == 22 ? 8 : 6);
	for(int t = 0; t < steps; ++t){
		int op = PID == 22 ? rng.below(5) : PID == 21 ? (rng.coin() ? 3 : rng.below(3)) : t == 0 ? rng.below(4) : rng.in(2, 4);
		if(op == 0){ int l = rng.in(1, LC - 1), m = rng.below(n[l]), k = n[l - 1] + 1; vector<double> v(k); for(auto& x : v) x = val(); vector<double> v0(v);
			MORE(" set(%d,%d)", l, m); p->set_weights(l, m, v.data()); if(v != v0) FAIL("argument", "the given weights changed"); copy(v.begin(), v.end(), w.begin() + wb[l] + m * k); same("set-neuron", "setting a neuron", true);
		} else if(op == 1){ int l = rng.in(1, LC - 1), k = (n[l - 1] + 1) * n[l]; vector<double> v(k); for(auto& x : v) x = val(); vector<double> v0(v);
			MORE(" set(%d)", l); p->set_weights(l, v.data()); if(v != v0) FAIL("argument", "the given weights changed"); copy(v.begin(), v.end(), w.begin() + wb[l]); same("set-layer", "setting a layer", true);
		} else if(op == 2){ vector<double> v(T); for(auto& x : v) x = val(); vector<double> v0(v);
			MORE(" set()"); p->set_weights(v.data()); if(v != v0) FAIL("argument", "the given weights changed"); copy(v.begin(), v.end(), w.begin()); same("set-network", "setting the network", true);
		}
		if(op >= 3 || PID == 21 || (PID == 22 && rng.coin())){
			vector<double> in(n[0]), in0; for(auto& x : in) x = val(); in0 = in; vector<double> out(n[LC - 1] + 2, -77);
			MORE(" forward([%s])", join(in.data(), n[0]).c_str()); p->feed_forward(in.data(), &out[1]); forward(in0, outs);
			if(in != in0) FAIL("argument", "the input changed"); if(out[0] != -77 || out.back() != -77) FAIL("output-outside", "wrote outside the output");
			for(int m = 0; m < n[LC - 1]; ++m) if(!close_to(out[m + 1], outs[LC - 1][m], 1e-9)) FAIL("output", "output %d is %.17g, expected %.17g", m, out[m + 1], outs[LC - 1][m]);
			same("forward-writes", "a forward pass", true);
			if(PID == 23 || (PID == 22 && rng.coin(3))){
				vector<double> ex(n[LC - 1]), ex0; for(auto& x : ex) x = val(); ex0 = ex; MORE(" back([%s])", join(ex.data(), ex.size()).c_str());
				double r = p->backpropagate(ex.data()); if(ex != ex0) FAIL("argument", "the expectation changed");
				double e = 0; vector<vector<double>> d(LC); vector<double> w0(w);
				for(int m = 0; m < n[LC - 1]; ++m){ double o = outs[LC - 1][m]; e += (o - ex[m]) * (o - ex[m]); d[LC - 1].push_back(Fn::derivative(o) * (o - ex[m])); }
				for(int l = LC - 2; l >= 1; --l) for(int m = 0; m < n[l]; ++m){ double s = 0; for(int k = 0; k < n[l + 1]; ++k) s += d[l + 1][k] * w0[wb[l + 1] + k * (n[l] + 1) + m]; d[l].push_back(s * Fn::derivative(outs[l][m])); }
				for(int l = 1; l < LC; ++l) for(int m = 0; m < n[l]; ++m) for(int c = 0; c <= n[l - 1]; ++c) w[wb[l] + m * (n[l - 1] + 1) + c] -= rate * (c < n[l - 1] ? outs[l - 1][c] : 1) * d[l][m];
				same("update", "backpropagation", false); copy(p->get_weights(), p->get_weights() + TC, w.begin());
				if(!close_to(r, e / n[LC - 1], 1e-9)) FAIL("mse", "returned %.17g, expected %.17g", r, e / n[LC - 1]);
				bool big = false; for(double x : w) if(!(fabs(x) < 1e3)) big = true; if(big) break;
			}
			NONTRIVIAL();
		}
	}
}
template<size_t N> struct More{ static void go(){ if(N >= 2 && N < 40) one<(int)N, 8192>(); } };
void run(){ while(more_time()){ one<2,1024>(); one<3,2048>(); one<3,333>(); one<4,2048>(); one<5,4096>(); one<2,128>(); ForSizes<More, 3 MORE_SIZES>::go(); } }
