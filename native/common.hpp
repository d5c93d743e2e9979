// Executable contracts: shared machinery.  Each harness includes the real header from /repo/src,
// drives the public API with generated inputs, and compares with the contract's right-hand side.
#pragma once
#include <bits/stdc++.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
using namespace std;
extern "C" void __sanitizer_set_death_callback(void (*)(void));

#ifndef LITS
#define LITS 0
#endif
static vector<double> g_lits = {LITS};
static char g_case[8192];
static long g_cases = 0, g_nontrivial = 0;
static int g_samples = 0;
static double g_end;
static int g_part = 0, g_parts = 1;

static double now(){ struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

struct Rng{
	uint64_t s;
	uint64_t next(){ s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n){ return n ? next() % n : 0; }
	long in(long a, long b){ return a + (long)below((uint64_t)(b - a + 1)); }
	double unit(){ return (next() >> 11) * (1.0 / 9007199254740992.0); }
	bool coin(int n = 2){ return below(n) == 0; }
	// a double: small grid values, literals of the source, or uniform
	double num(double lo, double hi){
		int k = below(8);
		if(k == 0 && !g_lits.empty()){ double v = g_lits[below(g_lits.size())] * (coin() ? 1 : -1); if(coin(3)) v += in(-1,1); if(v >= lo && v <= hi) return v; }
		if(k <= 3) return floor(lo + (hi - lo) * unit());
		if(k == 4){ double v = floor((lo + (hi - lo) * unit()) * 4) / 4; return v < lo ? lo : v; }
		return lo + (hi - lo) * unit();
	}
	long integer(long lo, long hi){
		if(below(4) == 0 && !g_lits.empty()){ double d = g_lits[below(g_lits.size())]; long v = (long)d * (coin(4) ? -1 : 1) + in(-1,1); if(v >= lo && v <= hi) return v; }
		if(below(4) == 0){ long s = lo < 0 ? max(lo, -3L) : lo; return in(s, min(hi, s + 5)); }
		return in(lo, hi);
	}
};
static Rng rng;

static void on_death(){ printf("\nFAIL [crash] undefined behaviour or a failed assertion\n  case: %s\n", g_case); fflush(stdout); }
static void on_signal(int s){
	const char* m = s == SIGALRM ? "\nFAIL [hang] the call does not return\n  case: " : s == SIGABRT ? "\nFAIL [crash] assertion failed\n  case: " : "\nFAIL [crash] signal\n  case: ";
	if(write(1, m, strlen(m))); if(write(1, g_case, strlen(g_case))); if(write(1, "\n", 1)); _exit(98);
}
static void CASE(const char* f, ...){
	va_list a; va_start(a, f); vsnprintf(g_case, sizeof g_case, f, a); va_end(a);
	g_cases++; alarm(20);
}
static void MORE(const char* f, ...){
	size_t n = strlen(g_case); if(n + 400 > sizeof g_case){ memmove(g_case + 200, g_case + n - 3000, 3001); memcpy(g_case + 190, " ... ", 5); n = strlen(g_case); }
	va_list a; va_start(a, f); vsnprintf(g_case + n, sizeof g_case - n, f, a); va_end(a);
}
static void NONTRIVIAL(){ g_nontrivial++; if(g_samples < 2){ g_samples++; printf("SAMPLE %.280s\n", g_case); } }
static void FAIL(const char* key, const char* f, ...){
	char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	printf("FAIL [%s] %s\n  case: %s\n", key, b, g_case); fflush(stdout); _exit(1);
}
static bool close_to(double a, double b, double tol = 1e-7){
	if(a == b) return true;
	if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	return fabs(a - b) <= tol * max(1.0, max(fabs(a), fabs(b)));
}
static bool more_time(){ return now() < g_end; }
static string join(const double* p, size_t n){ string s; char b[40]; for(size_t i = 0; i < n; ++i){ snprintf(b, 40, "%s%.17g", i ? "," : "", p[i]); s += b; } return s; }
template<class T> static string joini(const T* p, size_t n){ string s; for(size_t i = 0; i < n; ++i) s += (i ? "," : "") + to_string((long)p[i]); return s; }

void run();
int main(int c, char** v){
	rng.s = c > 1 ? strtoull(v[1], 0, 10) * 7919 + 17 : 1;
	g_end = now() + (c > 2 ? atof(v[2]) : 3);
	if(c > 4){ g_part = atoi(v[3]); g_parts = atoi(v[4]); }
	__sanitizer_set_death_callback(on_death);
	signal(SIGABRT, on_signal); signal(SIGALRM, on_signal); signal(SIGFPE, on_signal); signal(SIGSEGV, on_signal);
	run();
	alarm(0);
	printf("CASES %ld\nNONTRIVIAL %ld\n", g_cases, g_nontrivial);
	return 0;
}
// run a template for a list of sizes: ForSizes<F, 1,2,3>::go()
template<template<size_t> class F, size_t... N> struct ForSizes{ static void go(){ (F<N>::go(), ...); } };
