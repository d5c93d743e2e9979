#include "common.hpp"
#include "naive_bayes.hpp"
struct Fn{ static double log(double x){ return std::log(x); } static double sqrt(double x){ return std::sqrt(x); } };
template<int L, int F> void one(){
	typedef NaiveBayes<double, L, F, Fn> NB;
	auto nb = make_unique<NB>(); NB* keep = nb.get(); bool def = rng.coin();
	if(!def){ nb.reset(new NB(0.5)); keep = nb.get(); }
	vector<vector<double>> X; vector<int> Y; vector<double> W;
	int n = rng.coin(4) ? rng.in(1, 3) : rng.in(1, 30), grid = rng.coin(); bool only = rng.coin(4), wt = rng.coin();
	CASE("labels=%d features=%d", L, F);
	for(int t = 0; t <= n; ++t){
		if(t){
			vector<double> x(F); for(auto& v : x) v = grid ? rng.in(-2, 2) : rng.num(-20, 20);
			int y = only ? (int)rng.below(max(1, L - 1)) : (int)rng.below(L); double w = !wt ? 1 : rng.coin(3) ? 1 : rng.coin() ? 0.25 : 0.1 + rng.unit() * 3;
			MORE(" train([%s],%d,%.17g)", join(x.data(), F).c_str(), y, w);
			vector<double> xx(x);
			bool r = (w == 1 && rng.coin()) ? keep->train(xx.data(), y) : keep->train(xx.data(), y, w);
			if(!r) FAIL("train-result", "training reported failure"); if(xx != x) FAIL("train-features", "features changed");
			X.push_back(x); Y.push_back(y); W.push_back(w);
		} else continue;
		if(PID == 16 && t != n && !rng.coin(3)) continue;
		// reference model from the whole history
		double tot = 0; vector<double> lw(L, 0), sc(L); for(size_t i = 0; i < X.size(); ++i){ tot += W[i]; lw[Y[i]] += W[i]; }
		vector<double> q(F); if(rng.coin()) q = X[rng.below(X.size())]; else for(auto& v : q) v = grid ? rng.in(-2, 2) : rng.num(-20, 20);
		bool shaky = false;
		for(int l = 0; l < L; ++l){
			sc[l] = log(lw[l] / tot);
			for(int f = 0; f < F; ++f){
				double m = 0, v = 0, wm = 0; bool all = true; double first = NAN;
				for(size_t i = 0; i < X.size(); ++i) if(Y[i] == l){ m += W[i] * X[i][f]; wm += W[i]; if(std::isnan(first)) first = X[i][f]; else if(first != X[i][f]) all = false; }
				double d;
				if(wm <= 0) d = 0; else {
					m /= wm; if(all){ m = first; v = 0; } else for(size_t i = 0; i < X.size(); ++i) if(Y[i] == l) v += W[i] * (X[i][f] - m) * (X[i][f] - m);
					double var = wm > 1 ? v / (wm - 1) : 0; double sd = sqrt(var);
					if(wm <= 1 && !all) shaky = true;         // mean compared exactly
					if(fabs(wm - 1) < 1e-9 && wm != 1) shaky = true;
					if(sd > 0 && sd < 1e-5) shaky = true;
					double df = q[f] - m; d = sd > 0 ? exp(-(df * df / (2 * sd * sd))) / (2.50663 * sd) : (q[f] == m ? 1.0 : 0.0);
					if(d > 0 && d < 1e-290) shaky = true; if(sd > 0 && d < 1e-290) shaky = true;
				}
				sc[l] += log(d);
			}
		}
		if(shaky) continue;
		MORE(" predict([%s])", join(q.data(), F).c_str());
		vector<double> got(L + 2, -77), qq(q); unsigned char before[sizeof(NB)]; memcpy(before, (void*)keep, sizeof(NB));
		bool ask = rng.coin(4) ? false : true; int r = ask ? keep->predict(qq.data(), &got[1]) : keep->predict(qq.data()); int r2 = keep->predict(qq.data());
		if(memcmp(before, (void*)keep, sizeof(NB))) FAIL("predict-writes", "predicting changed the model");
		if(r != r2) FAIL("predict-mode", "asking for the scores changes the prediction: %d, %d", r, r2);
		if(qq != q) FAIL("predict-features", "features changed"); if(got[0] != -77 || got[L + 1] != -77) FAIL("predict-outside", "wrote outside the scores");
		int e = 0; for(int l = 1; l < L; ++l) if(sc[l] > sc[e]) e = l;
		if(ask) for(int l = 0; l < L; ++l){
			if(std::isinf(sc[l]) ? got[l + 1] != sc[l] : !(fabs(got[l + 1] - sc[l]) <= 1e-5 * F + 1e-6 * max(1.0, fabs(sc[l])))) FAIL("score", "score of label %d is %.17g, expected %.17g", l, got[l + 1], sc[l]);
		}
		bool tie = false; for(int l = 0; l < L; ++l) if(l != e && !std::isinf(sc[l]) && fabs(sc[l] - sc[e]) < 1e-6 * max(1.0, fabs(sc[e]))) tie = true;
		if(ask){ int e2 = 0; for(int l = 1; l < L; ++l) if(got[l + 1] > got[e2 + 1]) e2 = l; if(r != e2) FAIL("argmax", "predicted %d, the first greatest reported score is at %d", r, e2); }
		if(!tie && r != e) FAIL("argmax", "predicted %d, expected %d", r, e);
		NONTRIVIAL();
	}
}
template<size_t N> struct More{ static void go(){ one<2, N>(); if(N < 100) one<(int)N, 2>(); } };
void run(){ while(more_time()){ one<1,1>(); one<2,1>(); one<2,3>(); one<3,2>(); one<5,4>(); one<4,7>(); one<2,12>(); one<9,2>(); ForSizes<More, 3 MORE_SIZES>::go(); } }
