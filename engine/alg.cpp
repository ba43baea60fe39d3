#include "alg.h"
#include "rt.h"
std::vector<Atom> atoms;
std::vector<Poly> polys; static std::map<Poly,int> poly_ix;
std::vector<Factored> rfs; static std::map<Factored,int> rf_ix;
static std::map<std::pair<std::string,std::vector<int>>,int> atom_ix;
size_t max_terms = 60000;

static bool operator_lt_dummy;
int intern_poly(const Poly&p){ auto it=poly_ix.find(p); if(it!=poly_ix.end()) return it->second; if(p.size()>max_terms) throw TooComplex{"poly terms"}; polys.push_back(p); poly_ix[p]=polys.size()-1; return polys.size()-1; }
int intern_rf(const Factored&r){ auto it=rf_ix.find(r); if(it!=rf_ix.end()) return it->second; rfs.push_back(r); rf_ix[r]=rfs.size()-1; return rfs.size()-1; }
int intern_atom(AKind k,const std::string&name,const std::vector<int>&args){
    auto key=std::make_pair(std::to_string((int)k)+name,args); auto it=atom_ix.find(key); if(it!=atom_ix.end()) return it->second;
    Atom a; a.k=k; a.name=name; a.args=args; if(k==A_PI||k==A_PRIME||k==A_EXP) a.positive=a.nonneg=true; if(k==A_POW) a.nonneg=true;
    if(k==A_PRIME) a.prime=mpz_class(name);
    atoms.push_back(a); atom_ix[key]=atoms.size()-1; return atoms.size()-1; }

RF rf_const(const Q&q){ RF r; r.c=q; return r; }
bool rf_is_const(const RF&r){ return r.c==0 || (r.m.empty() && r.f.empty()); }
RF rf_atom(int a){ RF r; r.c=1; r.m.push_back({a,Frac(1)}); return r; }
static std::vector<std::pair<int,Frac>> merge(const std::vector<std::pair<int,Frac>>&a,const std::vector<std::pair<int,Frac>>&b){
    std::vector<std::pair<int,Frac>> r; size_t i=0,j=0;
    while(i<a.size()||j<b.size()){ if(j>=b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i>=a.size()||b[j].first<a[i].first) r.push_back(b[j++]);
        else { Frac e=a[i].second+b[j].second; if(e.n) r.push_back({a[i].first,e}); i++;j++; } }
    return r; }
static Q qpow(const mpz_class&b,long e){ mpz_class r; mpz_pow_ui(r.get_mpz_t(),b.get_mpz_t(),e<0?-e:e); return e<0?Q(1,1)/Q(r):Q(r); }
static Q qpowq(const Q&b,long e){ Q r; Q x=e<0?Q(1)/b:b; unsigned long n=e<0?-e:e; if(n>4000) throw TooComplex{"power"}; mpz_class nn,dd; mpz_pow_ui(nn.get_mpz_t(),x.get_num().get_mpz_t(),n); mpz_pow_ui(dd.get_mpz_t(),x.get_den().get_mpz_t(),n); return Q(nn)/Q(dd); }
// fold integer parts of PRIME atoms into c; POW atoms never live in a Factored's m (they become factors)
static void fixm(Factored&r){
    if(r.c==0){ r.m.clear(); r.f.clear(); return; }
    bool any=false; for(auto&p:r.m) if(atoms[p.first].k==A_PRIME||atoms[p.first].k==A_POW) any=true;
    if(!any) return; Mono m; std::vector<std::pair<int,Frac>> extra;
    for(auto&p:r.m){ Atom&a=atoms[p.first];
        if(a.k==A_PRIME){ long k=p.second.fl(); if(k) r.c*=qpow(a.prime,k); Frac e=p.second-Frac(k); if(e.n) m.push_back({p.first,e}); }
        else if(a.k==A_POW){ std::vector<std::pair<int,Frac>> one={{a.args[0],p.second}}; extra=merge(extra,one); }
        else m.push_back(p); }
    r.m=m; if(!extra.empty()) r.f=merge(r.f,extra); }
RF rf_mul(const RF&a,const RF&b){ RF r; if(a.c==0||b.c==0){ r.c=0; return r; } r.c=a.c*b.c; r.m=merge(a.m,b.m); r.f=merge(a.f,b.f); fixm(r); return r; }
RF rf_inv(const RF&a){ RF r=a; r.c=Q(1)/a.c; for(auto&p:r.m) p.second=Frac(0)-p.second; for(auto&p:r.f) p.second=Frac(0)-p.second; fixm(r); return r; }
RF rf_neg(const RF&a){ RF r=a; r.c=-r.c; return r; }

// --- expanded polynomials (atoms incl. PRIME/POW with exponents in (0,1))
static void addterm(Poly&p,const Mono&m,const Q&c){ if(c==0) return; auto it=p.find(m); if(it==p.end()) p.emplace(m,c); else { it->second+=c; if(it->second==0) p.erase(it); } }
static Poly pmul(const Poly&a,const Poly&b);
static void addmono_norm(Poly&out,Mono m,Q c){ // normalise PRIME/POW exponents
    Mono r; std::vector<std::pair<int,long>> ex;
    for(auto&p:m){ Atom&a=atoms[p.first];
        if(a.k==A_PRIME){ long k=p.second.fl(); if(k) c*=qpow(a.prime,k); Frac e=p.second-Frac(k); if(e.n) r.push_back({p.first,e}); }
        else if(a.k==A_POW){ long k=p.second.fl(); Frac e=p.second-Frac(k); if(e.n) r.push_back({p.first,e}); if(k) ex.push_back({a.args[0],k}); }
        else r.push_back(p); }
    if(ex.empty()){ addterm(out,r,c); return; }
    Poly t; t.emplace(r,c); for(auto&x:ex){ if(x.second<0) throw TooComplex{"negative pow atom"}; for(long i=0;i<x.second;i++) t=pmul(t,polys[x.first]); }
    for(auto&q:t) addterm(out,q.first,q.second); }
static bool special(const Poly&p){ for(auto&t:p) for(auto&x:t.first){ AKind k=atoms[x.first].k; if(k==A_PRIME||k==A_POW) return true; } return false; }
static Poly pmul(const Poly&a,const Poly&b){ Poly r; if(a.size()*b.size()>max_terms*20) throw TooComplex{"product"};
    bool s=special(a)&&special(b);
    for(auto&x:a) for(auto&y:b){ Mono m=merge(x.first,y.first); if(s) addmono_norm(r,m,x.second*y.second); else addterm(r,m,x.second*y.second); }
    if(r.size()>max_terms) throw TooComplex{"product terms"};
    return r; }
static Poly ppow(const Poly&p,long n){ Poly r; r.emplace(Mono(),Q(1)); for(long i=0;i<n;i++) r=pmul(r,p); return r; }
// exact division p/d under lex order on leading (largest) monomials; returns false when not divisible. integer exponents only
static bool pdiv(const Poly&p,const Poly&d,Poly&q){
    if(p.size()<d.size()) { if(p.size()<1) return false; }
    if(special(p)||special(d)) return false;
    // true lex order on exponent vectors
    std::vector<int> vs; for(auto&t:d) for(auto&x:t.first){ if(!x.second.isint()) return false; vs.push_back(x.first);} for(auto&t:p) for(auto&x:t.first){ if(!x.second.isint()) return false; vs.push_back(x.first);} 
    std::sort(vs.begin(),vs.end()); vs.erase(std::unique(vs.begin(),vs.end()),vs.end());
    std::map<int,int> ix; for(size_t i=0;i<vs.size();i++) ix[vs[i]]=i;
    typedef std::vector<int> E; auto conv=[&](const Poly&a){ std::map<E,Q> r; for(auto&t:a){ E e(vs.size(),0); for(auto&x:t.first) e[ix[x.first]]=x.second.n; r[e]=t.second; } return r; };
    auto P=conv(p),D=conv(d); std::map<E,Q> R; auto ld=*D.rbegin(); size_t steps=0;
    // quick degree check
    { for(size_t v=0;v<vs.size();v++){ int mp=0,md=0; for(auto&t:P) mp=std::max(mp,t.first[v]); for(auto&t:D) md=std::max(md,t.first[v]); if(md>mp) return false; } }
    while(!P.empty()){ auto lp=*P.rbegin(); E e(vs.size()); for(size_t i=0;i<e.size();i++){ e[i]=lp.first[i]-ld.first[i]; if(e[i]<0) return false; }
        Q c=lp.second/ld.second; R[e]=c; if(++steps>2000 || R.size()*D.size()>200000) return false;
        for(auto&t:D){ E s(e); for(size_t i=0;i<s.size();i++) s[i]+=t.first[i]; auto it=P.find(s); if(it==P.end()) P.emplace(s,-c*t.second); else { it->second-=c*t.second; if(it->second==0) P.erase(it);} } 
        if(P.size()>max_terms) return false; }
    q.clear(); for(auto&t:R){ Mono m; for(size_t i=0;i<vs.size();i++) if(t.first[i]) m.push_back({vs[i],Frac(t.first[i])}); q.emplace(m,t.second); }
    return true; }
// multi-term poly -> content * monomial * primitive poly
static RF prim(const Poly&p0){
    RF r; if(p0.empty()){ r.c=0; return r; }
    // monomial gcd (min exponents)
    Mono g; bool first=true;
    for(auto&t:p0){ if(first){ g=t.first; first=false; } else { Mono n; size_t i=0,j=0; const Mono&b=t.first;
            while(i<g.size()||j<b.size()){ if(j>=b.size()||(i<g.size()&&g[i].first<b[j].first)){ if(g[i].second<Frac(0)) n.push_back(g[i]); i++; } else if(i>=g.size()||b[j].first<g[i].first){ if(b[j].second<Frac(0)) n.push_back(b[j]); j++; }
                else { n.push_back({g[i].first, g[i].second<b[j].second?g[i].second:b[j].second}); i++;j++; } } 
            g.clear(); for(auto&x:n) if(x.second.n) g.push_back(x); } }
    Mono gi=g; for(auto&x:gi) x.second=Frac(0)-x.second;
    if(p0.size()==1){ r.c=p0.begin()->second; r.m=p0.begin()->first; fixm(r); return r; }
    mpz_class gn=0, ld=1; for(auto&t:p0){ mpz_gcd(gn.get_mpz_t(),gn.get_mpz_t(),t.second.get_num().get_mpz_t()); mpz_lcm(ld.get_mpz_t(),ld.get_mpz_t(),t.second.get_den().get_mpz_t()); }
    Q c(gn,ld); c.canonicalize(); if(p0.rbegin()->second<0) c=-c;
    Poly p; for(auto&t:p0) p.emplace(gi.empty()?t.first:merge(t.first,gi), t.second/c);
    r.c=c; r.m=g; fixm(r); int id=intern_poly(p); std::vector<std::pair<int,Frac>> one={{id,Frac(1)}}; r.f=merge(r.f,one); return r; }
// expand a Factored with nonnegative factor exponents
static Poly expand(const RF&r){ Poly p; Mono m=r.m; std::vector<std::pair<int,long>> ints;
    for(auto&x:r.f){ long k=x.second.fl(); Frac e=x.second-Frac(k); if(k<0) throw TooComplex{"expand neg"}; if(e.n){ int a=intern_atom(A_POW,"",{x.first}); std::vector<std::pair<int,Frac>> one={{a,e}}; m=merge(m,one);} if(k) ints.push_back({x.first,k}); }
    addmono_norm(p,m,r.c); for(auto&x:ints) p=pmul(p,ppow(polys[x.first],x.second)); return p; }
RF rf_add(const RF&a,const RF&b){
    if(a.c==0) return b; if(b.c==0) return a;
    if(a.m==b.m && a.f==b.f){ RF r=a; r.c+=b.c; if(r.c==0){r.m.clear();r.f.clear();} return r; }
    // common factors: min exponents
    auto minf=[&](const std::vector<std::pair<int,Frac>>&x,const std::vector<std::pair<int,Frac>>&y){ std::vector<std::pair<int,Frac>> n; size_t i=0,j=0;
        while(i<x.size()||j<y.size()){ if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first)){ if(x[i].second<Frac(0)) n.push_back(x[i]); i++; } else if(i>=x.size()||y[j].first<x[i].first){ if(y[j].second<Frac(0)) n.push_back(y[j]); j++; }
            else { n.push_back(x[i].second<y[j].second?x[i]:y[j]); i++;j++; } } return n; };
    RF g; g.c=1; g.m=minf(a.m,b.m); g.f=minf(a.f,b.f); RF gi=rf_inv(g); // gi may fold primes into c; fine
    RF ra=rf_mul(a,gi), rb=rf_mul(b,gi);
    Poly p=expand(ra), q=expand(rb); for(auto&t:q) addterm(p,t.first,t.second);
    if(p.empty()) return rf_const(0);
    RF s=prim(p);
    RF res=rf_mul(s,g);
    // cancel against denominators
    if(s.f.size()==1 && s.f[0].second==Frac(1)){
        int id=s.f[0].first; bool changed=true; RF rest=rf_mul(g,RF{s.c,s.m,{}}); RF num; num.c=1; num.f=s.f; 
        while(changed){ changed=false; if(num.f.size()!=1) break; 
            for(auto&x:rest.f) if(x.second<Frac(0) && x.first!=num.f[0].first){ Poly qn; if(pdiv(polys[num.f[0].first],polys[x.first],qn)){ RF d; d.c=1; d.f={{x.first,Frac(1)}}; rest=rf_mul(rest,d); RF pn=prim(qn); rest=rf_mul(rest,RF{pn.c,pn.m,{}}); num=RF{Q(1),{},pn.f}; changed=true; break; } } }
        res=rf_mul(rest,num); (void)id;
    }
    return res; }
RF rf_sub(const RF&a,const RF&b){ return rf_add(a,rf_neg(b)); }
RF rf_powi(const RF&a,long n){ RF r; if(n==0) return rf_const(1); if(a.c==0) return a; r.c=qpowq(a.c,n); r.m=a.m; for(auto&x:r.m) x.second=x.second*Frac(n); r.f=a.f; for(auto&x:r.f) x.second=x.second*Frac(n); fixm(r); return r; }
void factor_int(mpz_class n,std::vector<std::pair<mpz_class,long>>&out){ for(unsigned long p=2;p<2000&&n>1;p++){ long e=0; while(mpz_divisible_ui_p(n.get_mpz_t(),p)){ n/=p; e++; } if(e) out.push_back({mpz_class(p),e}); } if(n>1) out.push_back({n,1}); }
RF rf_qpow(const Q&q,Frac e){ // q>0
    RF r; r.c=1; std::vector<std::pair<mpz_class,long>> f; factor_int(q.get_num(),f); for(auto&x:f){ RF t; t.c=1; t.m={{intern_atom(A_PRIME,x.first.get_str(),{}),Frac(x.second)*e}}; fixm(t); r=rf_mul(r,t);} 
    f.clear(); factor_int(q.get_den(),f); for(auto&x:f){ RF t; t.c=1; t.m={{intern_atom(A_PRIME,x.first.get_str(),{}),Frac(-x.second)*e}}; fixm(t); r=rf_mul(r,t);} return r; }
