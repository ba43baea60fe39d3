// Exact algebra: rational functions over atoms (variables, exp/log/special-function atoms, pi, primes),
// kept factored.  Everything is interned; ids are process-local and inherited through fork.
#pragma once
#include <gmpxx.h>
#include <map>
#include <vector>
#include <string>
#include <unordered_map>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <functional>
typedef mpq_class Q;
struct Frac { long n, d; // d>0, reduced
    Frac(long a=0,long b=1):n(a),d(b){ if(d<0){n=-n;d=-d;} long g=std::__gcd(n<0?-n:n,d); if(g>1){n/=g;d/=g;} if(n==0)d=1; }
    Frac operator+(const Frac&o)const{ return Frac(n*o.d+o.n*d,d*o.d);} Frac operator-(const Frac&o)const{ return Frac(n*o.d-o.n*d,d*o.d);}
    Frac operator*(const Frac&o)const{ return Frac(n*o.n,d*o.d);} 
    bool operator==(const Frac&o)const{return n==o.n&&d==o.d;} bool operator!=(const Frac&o)const{return !(*this==o);}
    bool operator<(const Frac&o)const{ return n*o.d<o.n*d; }
    bool isint()const{return d==1;} long fl()const{ return n>=0? n/d : -((-n+d-1)/d);} };
typedef std::vector<std::pair<int,Frac>> Mono;   // sorted by atom id
typedef std::map<Mono,Q> Poly;                   // nonzero coefficients
struct Factored { Q c; Mono m; std::vector<std::pair<int,Frac>> f; // c * m * prod poly_f^e ; multi-term primitive polys
    bool operator<(const Factored&o)const{ if(c!=o.c) return c<o.c; if(m!=o.m) return m<o.m; return f<o.f; } };
enum AKind { A_VAR, A_PI, A_PRIME, A_LOG, A_EXP, A_POW, A_FN };
struct Atom { AKind k; std::string name; std::vector<int> args; /* RF ids (LOG/EXP/FN), poly id (POW) */ mpz_class prime; int var=-1;
    bool positive=false, nonneg=false; };
struct TooComplex { const char *why; };
// sign masks
enum { NEG=1, ZER=2, POS=4 };
