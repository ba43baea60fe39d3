#pragma once
#include "alg.h"
typedef Factored RF;
extern std::vector<Atom> atoms; extern std::vector<Poly> polys; extern std::vector<RF> rfs;
int intern_poly(const Poly&); int intern_rf(const RF&); int intern_atom(AKind,const std::string&,const std::vector<int>&);
RF rf_const(const Q&); bool rf_is_const(const RF&); RF rf_atom(int); RF rf_mul(const RF&,const RF&); RF rf_inv(const RF&); RF rf_neg(const RF&);
RF rf_add(const RF&,const RF&); RF rf_sub(const RF&,const RF&); RF rf_powi(const RF&,long); RF rf_qpow(const Q&,Frac);
void factor_int(mpz_class n,std::vector<std::pair<mpz_class,long>>&out);
