#include <climits>
// SX runtime: boxed symbolic doubles, path exploration by fork(), decisions by z3.
#include "rt.h"
#include <z3++.h>
#include <set>
#include <charconv>
#include <cstring>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <semaphore.h>
#include <gsl/gsl_sf.h>
#include <gsl/gsl_math.h>
#include <gsl/gsl_cdf.h>
#include "sx.h"
extern "C" void __asan_set_death_callback(void(*)(void)) __attribute__((weak));
extern "C" const char *__asan_get_report_description() __attribute__((weak));
#define API extern "C"

// ---------------------------------------------------------------- shared state
struct Shared {
    sem_t slots; sem_t filelock;
    long paths, infeasible, abandoned, inconclusive, crashes, forks, timeouts;
    long chk_alg, chk_z3, chk_conc, chk_fail; long queries, sat, unsat, unknown; double solver_s; long max_atoms, max_depth;
    long reach[64]; char reachname[64][64]; int nreach;
    int ncov; char covname[4000][64];
    char notes[200][160]; int nnotes; int stop;
    double t0, deadline; long ce, known;
    long chklab_n; char chklab[400][80]; long chkcount[400];
};
static Shared *S;
static double now(){ struct timeval t; gettimeofday(&t,0); return t.tv_sec+t.tv_usec*1e-6; }
#define INC(f) __sync_fetch_and_add(&S->f,1)
static const char *ce_file=nullptr; static int max_ce=6;
static std::vector<std::string> trail; static std::vector<pid_t> kids; static bool im_root=true; static long branch_depth=0;
static const char *last_fn="";
static void note(const std::string&s){ sem_wait(&S->filelock); bool dup=false; for(int i=0;i<S->nnotes;i++) if(!strncmp(S->notes[i],s.c_str(),159)) dup=true; if(!dup&&S->nnotes<200) strncpy(S->notes[S->nnotes++],s.c_str(),159); sem_post(&S->filelock); }
static void collect(pid_t p,int status){ (void)p; if(WIFSIGNALED(status)){ INC(crashes); note(std::string("child killed by signal ")+std::to_string(WTERMSIG(status))); } else if(WEXITSTATUS(status)==0||WEXITSTATUS(status)==77){} else { INC(crashes); note("child exit status "+std::to_string(WEXITSTATUS(status))); } }
static void write_stats(); static bool owns_slot_f();
[[noreturn]] static void path_exit(int code){
    if(owns_slot_f()) sem_post(&S->slots);
    for(pid_t k:kids){ int st; while(waitpid(k,&st,0)<0&&errno==EINTR); collect(k,st); }
    if(im_root) write_stats();
    _exit(code); }
[[noreturn]] static void abandon(const char *why){ INC(abandoned); std::string t; for(auto&x:trail) t+=x+" "; note(std::string("abandoned: ")+why+" in "+last_fn+" ["+t.substr(0,90)+"]"); path_exit(0); }
static bool owns_slot=true;
// returns true in the process that takes the first alternative
static bool do_fork(){
    INC(forks); if(now()>S->deadline||S->stop){ INC(timeouts); path_exit(0); }
    fflush(stdout); fflush(stderr);
    if(++branch_depth>S->max_depth) S->max_depth=branch_depth;
    bool tok = sem_trywait(&S->slots)==0;
    pid_t p=fork(); if(p<0){ abandon("fork failed"); }
    if(p==0){ kids.clear(); im_root=false; owns_slot=tok; return false; }
    if(tok) kids.push_back(p);
    else { int st; while(waitpid(p,&st,0)<0&&errno==EINTR); collect(p,st); if(S->stop){ path_exit(0); } }
    return true; }

// ---------------------------------------------------------------- boxes
static const uint64_t TAG=0x7FFDull<<48, TMASK=0xFFFFull<<48;
static inline uint64_t bits(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
static inline double fromb(uint64_t u){ double d; memcpy(&d,&u,8); return d; }
static inline bool isbox(double d){ return (bits(d)&TMASK)==TAG; }
static std::unordered_map<uint64_t,Q> deccache;
static Q dec(double d){ if(d==std::floor(d)&&std::fabs(d)<9e15) return Q((long)d);
    auto it=deccache.find(bits(d)); if(it!=deccache.end()) return it->second;
    char b[64]; auto r=std::to_chars(b,b+63,d,std::chars_format::scientific); *r.ptr=0; // m.mmme[+-]xx
    char *e=strchr(b,'e'); long ex=atol(e+1); *e=0; std::string m; long frac=0; bool dot=false,neg=false; for(char*c=b;*c;c++){ if(*c=='-') neg=true; else if(*c=='.') dot=true; else { m+=*c; if(dot) frac++; } }
    mpz_class n(m,10); if(neg) n=-n; ex-=frac; mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(),10,ex<0?-ex:ex); Q q = ex<0? Q(n,t): Q(n*t); q.canonicalize(); deccache[bits(d)]=q; return q; }
static bool undec(const Q&q,double&out){ double d=q.get_d(); if(!std::isfinite(d)) return false; double c[3]={d,std::nextafter(d,INFINITY),std::nextafter(d,-INFINITY)}; for(double x:c) if(std::isfinite(x)&&dec(x)==q){ out=x; return true; } return false; }
static int PI_ATOM=-1;
// compilers fold 2*M_PI and the like; long decimal constants that are exactly the double nearest such a product are read as it
static RF rf_log(const RF&r); static RF rf_powfrac(const RF&r,Frac e);
static std::unordered_map<uint64_t,int> nccache; // bits -> rf id, or -1
static bool named_const(double d,RF&r){
    if(d==std::floor(d)) return false;
    auto it=nccache.find(bits(d)); if(it!=nccache.end()){ if(it->second<0) return false; r=rfs[it->second]; return true; }
    char b[64]; auto e=std::to_chars(b,b+63,std::fabs(d),std::chars_format::scientific); int dg=0; for(char*c=b;c!=e.ptr&&*c!='e';c++) if(*c!='.') dg++;
    bool ok=false; if(dg>=15){ for(long q=3;q<=99&&!ok;q++){ double pp=std::round(d*q); if(std::fabs(pp)<1e6&&pp!=0&&pp/q==d){ Q f((long)pp,q); f.canonicalize(); r=rf_const(f); ok=true; } }
        double x=std::fabs(d); Q sg=d<0?-1:1; static const long ns[]={1,2,3,4,8,16}, ds[]={1,2,3,4,6,8};
        if(!ok) for(long n:ns){ for(long q:ds){ Q f(n,q); f.canonicalize(); double g=(double)n/q;
            auto is=[&](double y){ return std::fabs(x-y)<=2.3e-16*x; };
            if(is(g*M_PI)){ r=rf_mul(rf_const(sg*f),rf_atom(PI_ATOM)); ok=true; break; }
            if(is(g/M_PI)){ r=rf_mul(rf_const(sg*f),rf_inv(rf_atom(PI_ATOM))); ok=true; break; }
            if(is(g*M_LNPI)){ r=rf_mul(rf_const(sg*f),rf_log(rf_atom(PI_ATOM))); ok=true; break; }
            if(is(g*M_LN2)){ r=rf_mul(rf_const(sg*f),rf_log(rf_const(2))); ok=true; break; }
            if(is(std::sqrt(g*M_PI))){ r=rf_mul(rf_const(sg),rf_powfrac(rf_mul(rf_const(f),rf_atom(PI_ATOM)),Frac(1,2))); ok=true; break; }
            if(is(1/std::sqrt(g*M_PI))){ r=rf_mul(rf_const(sg),rf_powfrac(rf_mul(rf_const(f),rf_atom(PI_ATOM)),Frac(-1,2))); ok=true; break; }
            if(is(std::log(g*M_PI))){ r=rf_mul(rf_const(sg),rf_log(rf_mul(rf_const(f),rf_atom(PI_ATOM)))); ok=true; break; }
            if(is(std::log(g*M_PI)/2)){ r=rf_mul(rf_const(sg*Q(1,2)),rf_log(rf_mul(rf_const(f),rf_atom(PI_ATOM)))); ok=true; break; }
            if(g!=1&&x==std::sqrt(g)){ r=rf_mul(rf_const(sg),rf_powfrac(rf_const(f),Frac(1,2))); ok=true; break; } } if(ok) break; } }
    nccache[bits(d)]= ok?intern_rf(r):-1; return ok; }
static RF torf(double d){ if(isbox(d)) return rfs[bits(d)&~TMASK]; RF r; if(named_const(d,r)) return r; return rf_const(dec(d)); }
static double frombox(const RF&r){ if(rf_is_const(r)){ double d; if(undec(r.c,d)) return d; }
    if(r.f.empty()&&r.m.size()==1&&r.m[0].first==PI_ATOM&&r.c==1&&r.m[0].second==Frac(1)) return M_PI;
    return fromb(TAG|(uint64_t)intern_rf(r)); }
static bool special(double d){ return !isbox(d)&&!std::isfinite(d); }
static bool nan_(double d){ return !isbox(d)&&std::isnan(d); }
#define TRY try {
#define CATCH } catch(TooComplex&e){ abandon(e.why); } catch(z3::exception&e){ abandon(e.msg()); } catch(std::exception&e){ abandon(e.what()); }

// ---------------------------------------------------------------- variables, numeric evaluation
struct Var { std::string name; double lo,hi; bool slo,shi; int atom; };
static std::vector<Var> vars; static std::map<std::string,int> vcount;
static std::vector<char> atom_const_cache; // 0 unknown 1 const 2 var
static bool rf_const_p(const RF&r);
static bool atom_const(int a){ if((int)atom_const_cache.size()<=a) atom_const_cache.resize(atoms.size()+64,0); if(atom_const_cache[a]) return atom_const_cache[a]==1;
    bool c=true; Atom A=atoms[a]; if(A.k==A_VAR) c=false; else if(A.k==A_POW){ for(auto&t:polys[A.args[0]]) for(auto&x:t.first) if(!atom_const(x.first)) c=false; } else for(int i:A.args) if(!rf_const_p(rfs[i])) c=false;
    if((int)atom_const_cache.size()<=a) atom_const_cache.resize(atoms.size()+64,0);
    atom_const_cache[a]=c?1:2; return c; }
static bool poly_const(int p){ for(auto&t:polys[p]) for(auto&x:t.first) if(!atom_const(x.first)) return false; return true; }
static bool rf_const_p(const RF&r){ for(auto&x:r.m) if(!atom_const(x.first)) return false; for(auto&x:r.f) if(!poly_const(x.first)) return false; return true; }
typedef long double LD;
typedef std::vector<LD> Env;
static LD ev_rf(const RF&r,const Env&e);
static LD ev_poly(int p,const Env&e,LD*mag=nullptr);
static LD fnum(const std::string&n,const std::vector<LD>&a);
static thread_local std::unordered_map<int,LD> evcache; static const Env*evenv=nullptr;
static LD ev_atom(int a,const Env&e){ if(evenv!=&e){ evcache.clear(); evenv=&e; } auto it=evcache.find(a); if(it!=evcache.end()) return it->second;
    Atom A=atoms[a]; LD v=0; switch(A.k){ case A_VAR: v=e[A.var]; break; case A_PI: v=3.14159265358979323846264338327950288L; break; case A_PRIME: v=A.prime.get_d(); break;
        case A_LOG: v=logl(ev_rf(rfs[A.args[0]],e)); break; case A_EXP: v=expl(ev_rf(rfs[A.args[0]],e)); break; case A_POW: v=ev_poly(A.args[0],e); break;
        case A_FN: { std::vector<LD> x; for(int i:A.args) x.push_back(ev_rf(rfs[i],e)); v=fnum(A.name,x); } }
    evcache[a]=v; return v; }
static LD ipow(LD b,Frac f){ if(f.d==1){ long n=f.n<0?-f.n:f.n; LD r=1; for(long i=0;i<n;i++) r*=b; return f.n<0?1/r:r; } return powl(b,(LD)f.n/f.d); }
static LD qld(const Q&q){ double d=q.get_d(); Q rem=q-Q(d); return (LD)d+(LD)rem.get_d(); }
static LD ev_poly(int p,const Env&e,LD*mag){ LD s=0,m=0; Poly P=polys[p]; for(auto&t:P){ LD x=qld(t.second); for(auto&y:t.first) x*=ipow(ev_atom(y.first,e),y.second); s+=x; m+=fabsl(x); } if(mag) *mag=m; return s; }
static LD ev_rf(const RF&r,const Env&e){ LD x=qld(r.c); for(auto&y:r.m) x*=ipow(ev_atom(y.first,e),y.second); for(auto&y:r.f) x*=ipow(ev_poly(y.first,e),y.second); return x; }
static LD fnum(const std::string&n,const std::vector<LD>&a){
    gsl_set_error_handler_off();
    if(n=="lgamma") return lgammal(a[0]); if(n=="psi") return a[0]==0? gsl_sf_psi(a[1]) : gsl_sf_psi_n((int)a[0],a[1]);
    if(n=="Phi") return 0.5L*erfcl(-a[0]/sqrtl(2)); if(n=="PhiInv") return gsl_cdf_ugaussian_Pinv(a[0]);
    if(n=="erf") return erfl(a[0]); if(n=="sin") return sinl(a[0]); if(n=="cos") return cosl(a[0]); if(n=="tan") return tanl(a[0]); if(n=="atan") return atanl(a[0]); if(n=="acos") return acosl(a[0]);
    if(n=="tdist_P") return gsl_cdf_tdist_P(a[0],a[1]); if(n=="chisq_P") return gsl_cdf_chisq_P(a[0],a[1]); if(n=="fdist_P") return gsl_cdf_fdist_P(a[0],a[1],a[2]);
    if(n=="tdist_Pinv") return gsl_cdf_tdist_Pinv(a[0],a[1]); if(n=="chisq_Pinv") return gsl_cdf_chisq_Pinv(a[0],a[1]); if(n=="fdist_Pinv") return gsl_cdf_fdist_Pinv(a[0],a[1],a[2]);
    if(n=="gamma_P") return gsl_cdf_gamma_P(a[0],a[1],1); if(n=="beta_P") return gsl_cdf_beta_P(a[0],a[1],a[2]);
    if(n=="gamma_Pinv") return gsl_cdf_gamma_Pinv(a[0],a[1],1); if(n=="beta_Pinv") return gsl_cdf_beta_Pinv(a[0],a[1],a[2]);
    if(n=="hzeta") return gsl_sf_hzeta(a[0],a[1]); if(n=="uf") return 0.123+0.01*a[0];
    throw TooComplex{"no numeric value for function"}; }

// ---------------------------------------------------------------- constraints
struct Con { std::vector<std::pair<int,int>> b; /* (key, power 1|2), key>=0 poly, key<0 atom ~key */ Q c; int allow; };
static std::vector<Con> pc; static std::map<int,int> facts; // key -> mask
static int base_mask(int key){ int m=7; auto it=facts.find(key); if(it!=facts.end()) m=it->second; 
    if(key<0){ Atom&a=atoms[~key]; if(a.positive) m&=POS; else if(a.nonneg) m&=(ZER|POS); if(m!=POS&&m!=NEG&&m!=ZER&&atom_const(~key)){ Env e; LD v=ev_atom(~key,e); if(v>1e-12) m=POS; else if(v<-1e-12) m=NEG; } return m; }
    if(m==POS||m==NEG||m==ZER) return m;
    if(poly_const(key)){ Env e; LD mag,v=ev_poly(key,e,&mag); if(fabsl(v)>1e-11*mag) return v>0?POS:NEG; throw TooComplex{"sign of a constant too close to zero"}; }
    // syntactic: all terms same sign
    bool allp=true,alln=true,strict=false; for(auto&t:polys[key]){ bool even=true,nz=true; for(auto&x:t.first){ int am=base_mask(~x.first); bool ev=x.second.isint()&&x.second.n%2==0; if(!ev&&(am&NEG)) even=false; if(am&ZER) nz=false; }
        if(!even){ allp=alln=false; break; } if(t.second>0) alln=false; else allp=false; if(nz) strict=true; }
    if(allp) m&=strict?POS:(ZER|POS); else if(alln) m&=strict?NEG:(NEG|ZER);
    return m; }
static int mulmask(int a,int b){ int r=0; for(int i=0;i<3;i++) if(a&(1<<i)) for(int j=0;j<3;j++) if(b&(1<<j)){ int s=(i-1)*(j-1); r|= s<0?NEG:s>0?POS:ZER; } return r; }
static void bases(const RF&r,std::vector<std::pair<int,int>>&b){ auto add=[&](int key,Frac e){ if(!e.isint()){ b.push_back({key,2}); return; } if(e.n<0){ if((-e.n)%2) b.push_back({key,1}); return; } b.push_back({key,e.n%2?1:2}); };
    for(auto&x:r.m) add(~x.first,x.second); for(auto&x:r.f) add(x.first,x.second); }
static int quick_mask(const RF&r){ if(r.c==0) return ZER; int m=r.c>0?POS:NEG; std::vector<std::pair<int,int>> b; bases(r,b); for(auto&x:b){ int bm=base_mask(x.first); if(x.second==2){ bm=((bm&(NEG|POS))?POS:0)|(bm&ZER); } m=mulmask(m,bm); } return m; }
static Con mkcon(const RF&r,int allow){ Con c; c.c=r.c; c.allow=allow; std::vector<std::pair<int,int>> b; bases(r,b);
    for(auto&x:b){ int bm=base_mask(x.first); if(bm==POS) continue; if(bm==NEG&&x.second==1){ c.c=-c.c; continue; } if(bm==NEG) continue; if(x.second==2&&!(bm&ZER)) continue; c.b.push_back(x); } return c; }
static void learn(const Con&c){ int al=c.allow; if(c.c<0) al=((al&NEG)?POS:0)|((al&POS)?NEG:0)|(al&ZER);
    if(c.b.size()==1){ int k=c.b[0].first; int cur=base_mask(k); int nm=cur; if(c.b[0].second==1) nm=cur&al; else { int t=0; if(al&POS) t|=NEG|POS; if(al&ZER) t|=ZER; nm=cur&t; } facts[k]=nm; }
    else if(!(al&ZER)) for(auto&x:c.b) facts[x.first]=base_mask(x.first)&(NEG|POS); }
static void add_con(const Con&c){ pc.push_back(c); learn(c); }

// ---------------------------------------------------------------- z3
static z3::context *Z; static long RLIMIT=12000000; static volatile bool in_z3=false, no_z3=false; // signal handlers must not re-enter the solver
static void vt_handler(int){ if(Z) Z3_interrupt(*Z); }
struct Enc { std::map<int,z3::expr> root; std::map<int,long> lcm; std::vector<int> order; std::set<int> done; std::vector<z3::expr> side; bool nonlinear=false; };
static void atoms_of_poly(int p,std::set<int>&s);
static void atoms_of_rf(const RF&r,std::set<int>&s);
static void add_atom(int a,std::set<int>&s){ if(!s.insert(a).second) return; Atom A=atoms[a]; if(A.k==A_POW) atoms_of_poly(A.args[0],s); else if(A.k!=A_VAR) for(int i:A.args) atoms_of_rf(rfs[i],s); }
static void atoms_of_poly(int p,std::set<int>&s){ Poly P=polys[p]; for(auto&t:P) for(auto&x:t.first) add_atom(x.first,s); }
static void atoms_of_rf(const RF&r,std::set<int>&s){ for(auto&x:r.m) add_atom(x.first,s); for(auto&x:r.f) atoms_of_poly(x.first,s); }
static void con_atoms(const Con&c,std::set<int>&s){ for(auto&x:c.b) if(x.first<0) add_atom(~x.first,s); else atoms_of_poly(x.first,s); }
static void con_vars(const Con&c,std::set<int>&v){ std::set<int> s; con_atoms(c,s); for(int a:s) v.insert(a); }
static z3::expr zq(const Q&q){ return Z->real_val(q.get_str().c_str()); }
static z3::expr atomroot(Enc&E,int a){ auto it=E.root.find(a); if(it!=E.root.end()) return it->second; std::string n="a"+std::to_string(a); z3::expr r=Z->real_const(n.c_str()); E.root.emplace(a,r); return r; }
static z3::expr zpow(const z3::expr&b,long n){ z3::expr r=b; for(long i=1;i<n;i++) r=r*b; return r; }
static void scan_frac(Enc&E,const std::vector<std::pair<int,Frac>>&m){ for(auto&x:m){ long&l=E.lcm[x.first]; if(l==0) l=1; l=l/std::__gcd(l,x.second.d)*x.second.d; } }
static z3::expr zmono(Enc&E,const Mono&m,const Q&c,bool&has){ z3::expr r=zq(c); long deg=0; for(auto&x:m){ long L=E.lcm[x.first]; if(!L) L=1; long n=x.second.n*(L/x.second.d); z3::expr b=atomroot(E,x.first); if(n<0) throw TooComplex{"neg exponent in query"}; deg+=n; r=r*zpow(b,n); } if(deg>1) E.nonlinear=true; has=true; return r; }
static z3::expr zpoly(Enc&E,int p){ z3::expr_vector v(*Z); bool h; for(auto&t:polys[p]) v.push_back(zmono(E,t.first,t.second,h)); return v.size()==1?v[0]:z3::sum(v); }
static z3::expr zatomval(Enc&E,int a){ long L=E.lcm[a]; if(!L) L=1; if(L>1) E.nonlinear=true; return zpow(atomroot(E,a),L); }
static z3::expr zcon(Enc&E,const Con&c){ z3::expr p=Z->real_val(c.c>0?1:-1); bool first=true; for(auto&x:c.b){ z3::expr b=x.first<0?zatomval(E,~x.first):zpoly(E,x.first); for(int i=0;i<x.second;i++){ if(first){ p=c.c>0?b:-b; first=false; } else { p=p*b; E.nonlinear=true; } } }
    switch(c.allow){ case NEG: return p<0; case ZER: return p==0; case POS: return p>0; case NEG|ZER: return p<=0; case ZER|POS: return p>=0; case NEG|POS: return p!=0; case 7: return Z->bool_val(true); default: return Z->bool_val(false);} }
// expression "rf <cmp> 0" for axioms; needs denominators of known nonzero sign -> encode through Con
static void split_frac(Enc&E,const std::set<int>&as,const std::vector<Con>&cons){ auto dop=[&](int p){ for(auto&t:polys[p]) scan_frac(E,t.first); };
    for(auto&c:cons) for(auto&x:c.b) if(x.first>=0) dop(x.first);
    for(int a:as){ Atom A=atoms[a]; if(A.k==A_POW) dop(A.args[0]); } }
static Q ldq(LD v){ double d=(double)v; return Q(d); }
static void axioms(std::set<int>&as,std::vector<Con>&out,std::vector<std::function<z3::expr(Enc&)>>&ax);
static bool contains_cmp(const Con&a,const Con&b){ return a.allow==b.allow&&a.b==b.b&&sgn(a.c)==sgn(b.c); }
struct QRes { int r; /*1 sat 0 unsat -1 unknown*/ };
static bool want_model=false; static std::map<int,double> model_vals; static double nice_bound=0;
static double qtime_limit=6;
// RF compared with constant inside axioms: returns z3 real expression numerator/denominator with positive denominator if possible
static bool zrf(Enc&E,const RF&r,z3::expr&num,z3::expr&den){ // den sign must be known positive after fix; returns false if not
    z3::expr n=zq(r.c), d=Z->real_val(1); int s=1; auto doit=[&](int key,Frac e){ z3::expr b=key<0?atomroot(E,~key):zpoly(E,key); long L=key<0?E.lcm[~key]:1; if(!L) L=1; if(key>=0&&!e.isint()) return false; if((e.n*L)%e.d) return false; long k=e.n*L/e.d; if(k>0){ n=n*zpow(b,k); if(k>1) E.nonlinear=true; } else { int m=base_mask(key); if((-k)%2){ if(m==POS); else if(m==NEG) s=-s; else return false; } d=d*zpow(b,-k); E.nonlinear=true; } return true; };
    for(auto&x:r.m) if(!doit(~x.first,x.second)) return false; for(auto&x:r.f) if(!doit(x.first,x.second)) return false;
    if(s<0){ n=-n; d=-d; } num=n; den=d; return true; }
// an expression with the sign of r, leaving out factors known to be positive
static bool zsgn(Enc&E,const RF&r,z3::expr&num){ z3::expr n=Z->real_val(r.c>0?1:r.c<0?-1:0); bool first=true; auto doit=[&](int key,Frac e){ int m=base_mask(key); if(m==POS) return true; if(!e.isint()) return false; z3::expr b=key<0?zatomval(E,~key):zpoly(E,key); if(e.n%2==0){ if(m==(NEG|POS)||m==NEG) return true; b=b*b; E.nonlinear=true; } if(m==NEG){ n=-n; return true; } if(!first) E.nonlinear=true; n=first?(n*b).simplify():n*b; first=false; return true; };
    if(r.c==0){ num=n; return true; } for(auto&x:r.m) if(!doit(~x.first,x.second)) return false; for(auto&x:r.f) if(!doit(x.first,x.second)) return false; num=n; return true; }
static void scan_rf(Enc&E,const RF&r){ scan_frac(E,r.m); for(auto&x:r.f) for(auto&t:polys[x.first]) scan_frac(E,t.first); }

static int solve(const std::vector<Con>&extra,bool slice=true,bool addax=true){
    for(auto&c:extra) if(c.b.empty()){ int m=c.c>0?POS:NEG; if(!(m&c.allow)) return 0; }
    std::set<int> rel; for(auto&c:extra) con_atoms(c,rel);
    std::vector<Con> use; std::vector<char> in(pc.size(),0); bool ch=true; if(!slice){ for(auto&c:pc) con_atoms(c,rel); }
    std::vector<std::set<int>> cat; for(auto&c:pc){ std::set<int> s; con_atoms(c,s); cat.push_back(s); }
    auto linked=[&](const std::set<int>&s){ for(int a:s) if(rel.count(a)&&!atom_const(a)) return true; return false; };
    while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]&&(!slice||linked(cat[i]))){ in[i]=1; rel.insert(cat[i].begin(),cat[i].end()); ch=true; } }
    for(size_t i=0;i<pc.size();i++) if(in[i]&&!pc[i].b.empty()) use.push_back(pc[i]);
    for(auto&c:extra) use.push_back(c);
    if((long)rel.size()>S->max_atoms) S->max_atoms=rel.size();
    Enc E; split_frac(E,rel,use); for(int a:rel){ Atom A=atoms[a]; if(A.k==A_LOG||A.k==A_EXP||A.k==A_FN) for(int i:A.args) scan_rf(E,rfs[i]); }
    z3::expr_vector as(*Z);
    for(int a:rel){ const Atom&A=atoms[a]; z3::expr r=atomroot(E,a); long L=E.lcm[a]; if(!L) L=1;
        if(A.k==A_PRIME){ z3::expr v=zpow(r,L); if(L>1) E.nonlinear=true; as.push_back(v==Z->real_val(A.prime.get_str().c_str())); as.push_back(r>0); }
        else if(A.k==A_PI){ as.push_back(r>zq(Q("314159265358979/100000000000000"))); as.push_back(r<zq(Q("314159265358980/100000000000000"))); }
        else if(A.k==A_POW){ as.push_back(zpow(r,L)==zpoly(E,A.args[0])); as.push_back(r>=0); E.nonlinear=true; }
        else { if(A.positive) as.push_back(r>0); else if(A.nonneg) as.push_back(r>=0); if(A.k!=A_VAR&&atom_const(a)&&L==1){ Env e; LD v=ev_atom(a,e); LD w=fabsl(v)*1e-11+1e-13; as.push_back(r>zq(ldq(v-w))); as.push_back(r<zq(ldq(v+w))); }
            if(A.k==A_VAR){ const Var&v=vars[A.var]; z3::expr x=zpow(r,L); if(std::isfinite(v.lo)&&!(v.lo==0&&A.nonneg)) as.push_back(v.slo?x>zq(dec(v.lo)):x>=zq(dec(v.lo))); if(std::isfinite(v.hi)) as.push_back(v.shi?x<zq(dec(v.hi)):x<=zq(dec(v.hi)));
                if(nice_bound>0){ as.push_back(x<=zq(Q(nice_bound))); as.push_back(x>=zq(Q(-nice_bound))); } } }
        auto fi=facts.find(~a); if(fi!=facts.end()){ int m=fi->second; if(m==POS) as.push_back(r>0); else if(m==NEG) as.push_back(r<0); else if(m==ZER) as.push_back(r==0); else if(m==(NEG|POS)) as.push_back(r!=0); else if(m==(ZER|POS)) as.push_back(r>=0); else if(m==(NEG|ZER)) as.push_back(r<=0); } }
    for(auto&c:use) as.push_back(zcon(E,c));
    if(addax){ // function axioms
        std::vector<int> lg,ex,fn; for(int a:rel){ if(atom_const(a)) continue; if(atoms[a].k==A_LOG) lg.push_back(a); else if(atoms[a].k==A_EXP) ex.push_back(a); else if(atoms[a].k==A_FN) fn.push_back(a); }
        z3::expr n(*Z),d(*Z),n2(*Z),d2(*Z);
        for(int a:lg){ if(!zrf(E,rfs[atoms[a].args[0]],n,d)) continue; z3::expr y=zatomval(E,a); as.push_back((y>0)==(n>d)); as.push_back((y<0)==(n<d)); as.push_back(y*d<=n-d); E.nonlinear=true; }
        for(int a:ex){ if(!zrf(E,rfs[atoms[a].args[0]],n,d)) continue; z3::expr y=zatomval(E,a); as.push_back((y>1)==(n>0)); as.push_back((y<1)==(n<0)); as.push_back((y-1)*d>=n); E.nonlinear=true; }
        auto pairs=[&](std::vector<int>&v,bool mono){ int k=0; for(size_t i=0;i<v.size();i++) for(size_t j=i+1;j<v.size();j++){ if(++k>10) return; const Atom&A=atoms[v[i]],&B=atoms[v[j]]; if(A.name!=B.name||A.args.size()!=B.args.size()) continue;
                if(mono){ if(!zrf(E,rfs[A.args[0]],n,d)||!zrf(E,rfs[B.args[0]],n2,d2)) continue; z3::expr x=zatomval(E,v[i]),y=zatomval(E,v[j]); as.push_back((n*d2<n2*d)==(x<y)); as.push_back((n*d2==n2*d)==(x==y)); }
                else { z3::expr eq=Z->bool_val(true); bool ok=true; for(size_t q=0;q<A.args.size();q++){ if(A.args[q]==B.args[q]) continue; if(!zrf(E,rfs[A.args[q]],n,d)||!zrf(E,rfs[B.args[q]],n2,d2)){ ok=false; break; } eq=eq&&(n*d2==n2*d); } if(!ok) continue; as.push_back(z3::implies(eq,zatomval(E,v[i])==zatomval(E,v[j]))); } } };
        pairs(lg,true); pairs(ex,true); pairs(fn,false);
        for(int a:fn){ const std::string&nm=atoms[a].name; z3::expr y=zatomval(E,a); if(nm=="Phi"){ as.push_back(y>0); as.push_back(y<1); if(zsgn(E,rfs[atoms[a].args[0]],n)) as.push_back((n>0)==(y>Z->real_val(1,2))); }
            else if(nm=="tdist_P"||nm=="chisq_P"||nm=="fdist_P"||nm=="gamma_P"||nm=="beta_P"){ as.push_back(y>=0); as.push_back(y<=1); if(nm=="tdist_P"&&zsgn(E,rfs[atoms[a].args[0]],n)){ as.push_back((n>0)==(y>Z->real_val(1,2))); as.push_back((n==0)==(y==Z->real_val(1,2))); } }
            else if(nm=="erf"){ as.push_back(y>-1); as.push_back(y<1); if(zsgn(E,rfs[atoms[a].args[0]],n)) as.push_back((n>0)==(y>0)); }
            else if(nm=="sin"||nm=="cos"){ as.push_back(y>=-1); as.push_back(y<=1);} }
    }
    static int dbg=-1; if(dbg<0) dbg=getenv("SX_DBG")?1:0;
    INC(queries); double t=now(); int res=-1; if(no_z3) return -1; in_z3=true;
    struct itimerval it={{0,0},{(long)qtime_limit,(long)((qtime_limit-(long)qtime_limit)*1e6)}}; 
    for(int attempt=0;attempt<2&&res<0;attempt++){
        try { z3::solver s = !E.nonlinear ? z3::solver(*Z,"QF_LRA") : attempt==0 ? (z3::tactic(*Z,"simplify")&z3::tactic(*Z,"propagate-values")&z3::tactic(*Z,"solve-eqs")&z3::tactic(*Z,"purify-arith")&z3::tactic(*Z,"elim-term-ite")&z3::tactic(*Z,"simplify")&z3::tactic(*Z,"tseitin-cnf")&z3::tactic(*Z,"nlsat")).mk_solver() : z3::solver(*Z,"QF_NRA");
            z3::params p(*Z); p.set("rlimit",(unsigned)RLIMIT); s.set(p); for(unsigned i=0;i<as.size();i++) s.add(as[i]);
            setitimer(ITIMER_VIRTUAL,&it,0); z3::check_result r=s.check(); struct itimerval off={{0,0},{0,0}}; setitimer(ITIMER_VIRTUAL,&off,0);
            if(r==z3::sat){ res=1; if(want_model){ model_vals.clear(); z3::model m=s.get_model(); for(int a:rel) if(atoms[a].k==A_VAR){ z3::expr v=m.eval(zatomval(E,a),true); std::string ds; double dv=0; if(v.is_numeral()){ ds=v.get_decimal_string(20); dv=atof(ds.c_str()); } else if(v.is_algebraic()){ ds=v.get_decimal_string(20); dv=atof(ds.c_str()); } model_vals[atoms[a].var]=dv; } } }
            else if(r==z3::unsat) res=0; 
        } catch(z3::exception&e){ struct itimerval off={{0,0},{0,0}}; setitimer(ITIMER_VIRTUAL,&off,0); if(dbg) fprintf(stderr,"z3: %s\n",e.msg()); }
        if(!E.nonlinear) break; }
    in_z3=false; double dt=now()-t; sem_wait(&S->filelock); S->solver_s+=dt; if(res==1) S->sat++; else if(res==0) S->unsat++; else S->unknown++; sem_post(&S->filelock);
    if(dbg){ fprintf(stderr,"[q %s %.2fs %zu asserts nl=%d]\n",res==1?"sat":res==0?"unsat":"UNK",dt,(size_t)as.size(),E.nonlinear); if(dt>1||res<0) for(unsigned i=0;i<as.size();i++) fprintf(stderr,"   %s\n",as[i].to_string().c_str()); }
    return res; }

// ---------------------------------------------------------------- witnesses
static bool pc_holds(const Env&e,double tol){ evenv=nullptr; for(auto&c:pc){ LD v=c.c>0?1:-1; LD mg=1; for(auto&x:c.b){ LD m=1,b=x.first<0?ev_atom(~x.first,e):ev_poly(x.first,e,&m); if(x.first<0) m=fabsl(b); if(std::isnan(b)) return false; for(int i=0;i<x.second;i++){ v*=b; mg*=std::max(m,(LD)1e-30); } }
        LD z=tol*std::max((LD)1e-300,mg); int s= v>z?POS: v<-z?NEG:ZER; if(!(s&c.allow)) return false; }
    for(auto&v:vars){ LD x=e[atoms[v.atom].var]; if(v.slo? x<=v.lo : x<v.lo) return false; if(v.shi? x>=v.hi : x>v.hi) return false; } 
    for(auto&f:facts) if(f.first<0&&atoms[~f.first].k==A_VAR){ LD x=e[atoms[~f.first].var]; int s=x>0?POS:x<0?NEG:ZER; if(!(s&f.second)) return false; }
    return true; }
static uint64_t rs=88172645463325252ull; static double rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return (rs>>11)*(1.0/9007199254740992.0); }
static double nice_sample(const Var&v,int round){ double lo=std::isfinite(v.lo)?v.lo:(std::isfinite(v.hi)?v.hi-10:-8), hi=std::isfinite(v.hi)?v.hi:(std::isfinite(v.lo)?v.lo+10:8); if(round%3==0){ double w=hi-lo; double step=w>4?1:w>1?0.25:w/16; double k=std::floor(rnd()*(w/step+1)); double x=lo+k*step; return x>hi?hi:x; } if(round%3==1){ double x=lo+std::floor(rnd()*65)/64*(hi-lo); return x; } return lo+rnd()*(hi-lo); }
// find concrete inputs satisfying the path condition and `viol` (a numeric predicate returning a margin>0 when violated)
static bool find_witness(const std::vector<Con>&extra,std::function<LD(const Env&)> viol,Env&best){
    double bestm=0; bool found=false; auto consider=[&](const Env&e){ try{ evenv=nullptr; if(!pc_holds(e,1e-9)) return; LD m=viol(e); if(m>bestm&&std::isfinite((double)m)){ bestm=m; best=e; found=true; } }catch(TooComplex&){} };
    size_t n=vars.size(); if(n==0){ Env e; consider(e); return found; }
    rs=88172645463325252ull;
    for(int r=0;r<6000&&!(found&&r>600);r++){ Env e(n); for(size_t i=0;i<n;i++) e[i]=nice_sample(vars[i],r); consider(e); }
    if(found) return true;
    want_model=true; for(double nb: {8.0,64.0,0.0}){ nice_bound=nb; int r=solve(extra,false); if(r==1){ Env e(n,0.0L); for(size_t i=0;i<n;i++){ auto it=model_vals.find(i); e[i]=it!=model_vals.end()?it->second:(std::isfinite(vars[i].lo)?vars[i].lo+(vars[i].slo?0.5:0):0.5); if(it==model_vals.end()&&std::isfinite(vars[i].lo)&&std::isfinite(vars[i].hi)) e[i]=(vars[i].lo+vars[i].hi)/2; }
            consider(e); 
            if(!found) for(int r2=0;r2<2000;r2++){ Env f=e; for(size_t i=0;i<n;i++) if(!model_vals.count(i)||rnd()<0.3) f[i]=nice_sample(vars[i],r2); consider(f); if(found&&r2>200) break; }
            if(found) break; } }
    want_model=false; nice_bound=0; return found; }
static void record_ce(const char *kind,const char *label,const Env*e,const char*detail){
    { static const char*kn=getenv("SX_KNOWN"); std::string l=label; for(auto&c:l) if(c==' ') c='_'; if(kn&&(" "+std::string(kn)+" ").find(" "+l+" ")!=std::string::npos){ if(__sync_fetch_and_add(&S->known,1)>200) return; } else { long k=INC(ce); if(k+1>=max_ce) S->stop=1; } }
    sem_wait(&S->filelock);
    FILE *f=fopen(ce_file,"a"); if(f){ fprintf(f,"CE\nkind %s\nlabel %s\ndetail %s\nfn %s\ntrail",kind,label,detail?detail:"",last_fn); for(auto&t:trail) fprintf(f," %s",t.c_str()); fprintf(f,"\nsat %d\n",e?1:0);
        for(size_t i=0;i<vars.size();i++) fprintf(f,"val %s %.17g\n",vars[i].name.c_str(),e?(double)(*e)[i]:0.0); fprintf(f,"END\n"); fclose(f); }
    sem_post(&S->filelock); }
static void count_label(const char*l){ for(int i=0;i<S->chklab_n;i++) if(!strcmp(S->chklab[i],l)){ __sync_fetch_and_add(&S->chkcount[i],1); return; } sem_wait(&S->filelock); int i; for(i=0;i<S->chklab_n;i++) if(!strcmp(S->chklab[i],l)) break; if(i==S->chklab_n&&i<400){ strncpy(S->chklab[i],l,79); S->chklab_n++; } if(i<400) S->chkcount[i]++; sem_post(&S->filelock); }

// ---------------------------------------------------------------- deciding signs, branching
// Decide whether sign(r) lies in `yes`; forks when both are possible.
static bool decide(const RF&r,int yes){
    int m=quick_mask(r); if(!(m&~yes)) return true; if(!(m&yes)) return false;
    Con a=mkcon(r,yes), b=mkcon(r,7&~yes);
    int ra=solve({a}); int rb = ra==0?1:solve({b});
    if(ra==0&&rb==0){ INC(infeasible); path_exit(0); }
    if(ra==0){ learn(b); return false; } 
    if(rb==0){ learn(a); return true; }
    if(do_fork()){ // parent
        trail.push_back("T"); add_con(a); return true; }
    trail.push_back("F"); add_con(b); return false; }
static bool owns_slot_f(){ return owns_slot; }
static int sign_of(const RF&r){ // forks as necessary; -1,0,1
    int m=quick_mask(r); if(m==NEG) return -1; if(m==ZER) return 0; if(m==POS) return 1;
    if(decide(r,POS)) return 1; if(decide(r,ZER)) return 0; return -1; }
// fork until every base with odd exponent has known sign; returns RF rewritten so that all bases are positive, and the overall sign
static bool make_positive(const RF&r,RF&out,int&sg){
    out=rf_const(abs(r.c)); sg=r.c>0?1:-1;
    std::vector<std::pair<int,Frac>> all; for(auto&x:r.m) all.push_back({~x.first,x.second}); for(auto&x:r.f) all.push_back(x);
    for(auto&x:all){ RF b; b.c=1; if(x.first<0) b.m={{~x.first,Frac(1)}}; else b.f={{x.first,Frac(1)}};
        int s=x.second.isint()?sign_of(b):1; if(s==0){ if(x.second.n>0){ out=rf_const(0); sg=0; return true; } abandon("zero denominator"); }
        RF t; t.c=1; if(s>0){ if(x.first<0) t.m={{~x.first,x.second}}; else t.f={x}; out=rf_mul(out,t); }
        else { // base negative: base = -B, B>0 primitive poly with a negative leading sign -> keep as factor of the negated poly
            long e=x.second.n; if(e%2) sg=-sg;
            if(x.first<0){ // atom negative: represent -a as the single-term factor; cannot be a factor, keep |a| through even trick
                Poly p; p[Mono{{~x.first,Frac(1)}}]=Q(-1); int id=intern_poly(p); facts[id]=POS; t.f={{id,x.second}}; }
            else { Poly p=polys[x.first]; for(auto&y:p) y.second=-y.second; int id=intern_poly(p); facts[id]=POS; t.f={{id,x.second}}; }
            out.f.size(); // plain append (negated polys are only used inside log/root atoms)
            std::vector<std::pair<int,Frac>> f=out.f; f.push_back(t.f[0]); std::sort(f.begin(),f.end(),[](auto&a,auto&b){return a.first<b.first;}); out.f=f; } }
    return true; }
static RF rf_log_atom(const RF&arg){ int id=intern_rf(arg); int a=intern_atom(A_LOG,"log",{id}); return rf_atom(a); }
static Frac tofrac(const Q&q){ if(!q.get_num().fits_slong_p()||!q.get_den().fits_slong_p()||abs(q.get_num())>1000000000||q.get_den()>1000000) throw TooComplex{"exponent"}; return Frac(q.get_num().get_si(),q.get_den().get_si()); }
static RF rf_exp(const RF&x);
// log of a positive rf
static RF rf_log(const RF&r){ RF p; int sg; make_positive(r,p,sg); RF s=rf_const(0);
    auto logq=[&](const Q&q){ RF t=rf_const(0); std::vector<std::pair<mpz_class,long>> f; factor_int(q.get_num(),f); for(auto&x:f) t=rf_add(t,rf_mul(rf_const(x.second),rf_log_atom(rf_const(Q(x.first))))); f.clear(); factor_int(q.get_den(),f); for(auto&x:f) t=rf_sub(t,rf_mul(rf_const(x.second),rf_log_atom(rf_const(Q(x.first))))); return t; };
    s=logq(p.c);
    auto fq=[](Frac f){ Q q(f.n,f.d); q.canonicalize(); return q; };
    for(auto&x:p.m){ const Atom A=atoms[x.first]; RF l; if(A.k==A_EXP) l=rfs[A.args[0]]; else if(A.k==A_PRIME) l=rf_log_atom(rf_const(Q(A.prime))); else l=rf_log_atom(rf_atom(x.first)); s=rf_add(s,rf_mul(rf_const(fq(x.second)),l)); }
    for(auto&x:p.f){ RF b; b.c=1; b.f={{x.first,Frac(1)}}; s=rf_add(s,rf_mul(rf_const(fq(x.second)),rf_log_atom(b))); }
    return s; }
static RF renorm(const RF&r){ RF o; o.c=r.c; o.m=r.m; for(auto&x:r.f){ const Poly P=polys[x.first]; RF t; t.c=1; if(x.second.isint()&&P.size()==1){ t.c=1; t=rf_powi(RF{P.begin()->second,P.begin()->first,{}},x.second.n); } else if(x.second.isint()&&P.rbegin()->second<0){ Poly q=P; for(auto&y:q) y.second=-y.second; t.c=(x.second.n%2)?Q(-1):Q(1); t.f={{intern_poly(q),x.second}}; } else t.f={x}; o=rf_mul(o,t); } return o; }
static RF rf_powfrac(const RF&r,Frac e){ // r>0 (or >=0)
    RF p; int sg; make_positive(r,p,sg); if(sg==0) return rf_const(0); RF o=rf_qpow(p.c,e); for(auto&x:p.m){ RF t; t.c=1; t.m={{x.first,x.second*e}}; o=rf_mul(o,rf_mul(t,rf_const(1))); }
    // renormalise PRIME/whole parts
    for(auto&x:p.f){ Frac ne=x.second*e; Poly&P=polys[x.first]; RF t; t.c=1;
        if(ne.isint()&&P.size()==1){ t.c= (ne.n%2)?Q(-1):Q(1); t.m=P.begin()->first; for(auto&y:t.m) y.second=y.second*ne; }
        else if(ne.isint()){ // negated primitive poly: fold the sign back
            Poly q=P; bool negd=false; if(q.rbegin()->second<0){ for(auto&y:q) y.second=-y.second; negd=true; } t.c=(negd&&ne.n%2)?Q(-1):Q(1); t.f={{intern_poly(q),ne}}; }
        else t.f={{x.first,ne}}; 
        o=rf_mul(o,t); }
    return o; }
static RF rf_exp(const RF&x){
    if(x.c==0) return rf_const(1);
    // split into terms: factors of exponent 1 are multiplied out
    std::vector<RF> terms, todo={x};
    while(!todo.empty()){ RF y=todo.back(); todo.pop_back(); int idx=-1; for(size_t i=0;i<y.f.size();i++) if(y.f[i].second==Frac(1)){ idx=i; break; }
        if(idx<0||terms.size()+todo.size()>200){ terms.push_back(y); continue; }
        RF rest=y; rest.f.erase(rest.f.begin()+idx); Poly P=polys[y.f[idx].first];
        for(auto&t:P){ RF mm; mm.c=t.second; // POW atoms become factors again
            for(auto&z:t.first){ if(atoms[z.first].k==A_POW){ mm=rf_mul(mm,RF{Q(1),{},{{atoms[z.first].args[0],z.second}}}); } else mm=rf_mul(mm,RF{Q(1),{z},{}}); } todo.push_back(rf_mul(rest,mm)); } }
    RF o=rf_const(1);
    for(auto&t:terms){ Frac c=tofrac(t.c); RF u=t; u.c=1;
        if(u.f.empty()&&u.m.size()==1&&u.m[0].second==Frac(1)&&atoms[u.m[0].first].k==A_LOG){ RF b=rfs[atoms[u.m[0].first].args[0]]; o=rf_mul(o, rf_is_const(b)?rf_qpow(b.c,c): renorm(c.isint()?rf_powi(b,c.n):rf_powfrac(b,c))); continue; }
        RF e; e.c=1; e.m={{intern_atom(A_EXP,"exp",{intern_rf(u)}),c}}; o=rf_mul(o,e); }
    return o; }
static double fnbox(const std::string&n,const std::vector<RF>&a,bool pos=false){ std::vector<int> ids; for(auto&x:a) ids.push_back(intern_rf(x)); int at=intern_atom(A_FN,n,ids); if(pos){ atoms[at].positive=atoms[at].nonneg=true; } return frombox(rf_atom(at)); }

// ---------------------------------------------------------------- arithmetic API
static bool smallint(double d){ return d==std::floor(d)&&std::fabs(d)<(1L<<25); }
API double sxm_fadd(double a,double b){ if(smallint(a)&&smallint(b)) return a+b; if(special(a)||special(b)){ if(isbox(a)) a=0; if(isbox(b)) b=0; return a+b; } TRY return frombox(rf_add(torf(a),torf(b))); CATCH }
API double sxm_fsub(double a,double b){ if(smallint(a)&&smallint(b)) return a-b; if(special(a)||special(b)){ if(isbox(a)) a=0; if(isbox(b)) b=0; return a-b; } TRY return frombox(rf_sub(torf(a),torf(b))); CATCH }
API double sxm_fneg(double a){ if(!isbox(a)) return -a; TRY return frombox(rf_neg(torf(a))); CATCH }
API double sxm_fmul(double a,double b){ if(smallint(a)&&smallint(b)) return a*b; if(special(a)||special(b)){ TRY if(nan_(a)||nan_(b)) return NAN; double i=special(a)?a:b, o=special(a)?b:a; if(special(o)) return i*o; int s=sign_of(torf(o)); return i*s; CATCH } TRY return frombox(rf_mul(torf(a),torf(b))); CATCH }
API double sxm_fdiv(double a,double b){ TRY
    if(!isbox(a)&&!isbox(b)&&(special(a)||special(b)||b==0)) return a/b;
    if(special(a)||special(b)){ if(nan_(a)||nan_(b)) return NAN; if(special(b)) return 0.0; int s=sign_of(torf(b)); return a*(s?s:1); }
    RF d=torf(b); if(isbox(b)||b==0){ int m=quick_mask(d); if(m&ZER){ if(decide(d,ZER)){ int s=sign_of(torf(a)); return s==0?NAN: s*INFINITY; } } }
    return frombox(rf_mul(torf(a),rf_inv(d))); CATCH }
API int sxm_fcmp(int pred,double a,double b){ // LLVM predicates: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
    if(nan_(a)||nan_(b)) return (pred>>3)&1; TRY
    int lt,eq,gt; 
    if((!isbox(a)&&!isbox(b))){ lt=a<b; eq=a==b; gt=a>b; return (eq&&(pred&1))||(gt&&(pred&2))||(lt&&(pred&4)); }
    if(special(a)||special(b)){ if(special(a)){ gt=a>0; lt=a<0; } else { gt=b<0; lt=b>0; } return (gt&&(pred&2))||(lt&&(pred&4)); }
    int yes=((pred&1)?ZER:0)|((pred&2)?POS:0)|((pred&4)?NEG:0); if(yes==7) return 1; if(!yes) return 0;
    RF x=torf(a), y=torf(b);
    { auto roots=[](const RF&r){ for(auto&f:r.f) if(f.second.d==2) return true; return false; }; // compare the squares of two numbers that are not negative, one a square root
      if((roots(x)||roots(y))&&!(quick_mask(x)&NEG)&&!(quick_mask(y)&NEG)){ RF x2=rf_mul(x,x), y2=rf_mul(y,y); if(!roots(x2)&&!roots(y2)){ x=x2; y=y2; } } }
    return decide(rf_sub(x,y),yes); CATCH }
API int sxm_fpclass(double a,int mask){ if(isbox(a)){ // finite
        int fin=mask&0x1f8; if(fin==0x1f8) return 1; if(fin==0) return 0; TRY int s=sign_of(torf(a)); if(s<0) return !!(mask&0x8); if(s>0) return !!(mask&0x100); return !!(mask&0x60); CATCH }
    int c; if(std::isnan(a)) c=0x3; else if(std::isinf(a)) c=a<0?0x4:0x200; else if(a==0) c=std::signbit(a)?0x20:0x40; else c=a<0?0x8:0x100; return !!(mask&c); }
// integer part: enumerate
static double floor_enum(double a){ RF r=torf(a); if(rf_const_p(r)){ Env e; LD v=ev_rf(r,e); if(rf_is_const(r)){ mpz_class q; mpz_fdiv_q(q.get_mpz_t(),r.c.get_num().get_mpz_t(),r.c.get_den().get_mpz_t()); return q.get_d(); } return (double)floorl(v); }
    long LO=LONG_MIN,HI=LONG_MAX; // values already known to be excluded by the branches taken here
    for(int it=0;it<24;it++){ // pick a feasible value
        Env w; long k; bool ok=find_witness({},[&](const Env&){return (LD)1;},w); if(!ok) throw TooComplex{"floor: no witness"}; evenv=nullptr; k=(long)floorl(ev_rf(r,w)); if(k<LO) k=LO; if(k>HI) k=HI;
        RF lo=rf_sub(r,rf_const(Q(k))), hi=rf_sub(r,rf_const(Q(k+1)));
        if(decide(lo,NEG)){ HI=k-1; continue; } if(decide(hi,ZER|POS)){ LO=k+1; continue; } return (double)k; }
    throw TooComplex{"floor: too many values"}; }
API double sxm_floor(double a){ if(!isbox(a)) return floor(a); TRY return floor_enum(a); CATCH }
API double sxm_ceil(double a){ if(!isbox(a)) return ceil(a); TRY return -floor_enum(frombox(rf_neg(torf(a)))); CATCH }
API double sxm_trunc(double a){ if(!isbox(a)) return trunc(a); TRY if(decide(torf(a),NEG)) return -floor_enum(frombox(rf_neg(torf(a)))); return floor_enum(a); CATCH }
API double sxm_round(double a){ if(!isbox(a)) return round(a); TRY if(decide(torf(a),NEG)) return -floor_enum(sxm_fsub(0.5,a)); return floor_enum(sxm_fadd(a,0.5)); CATCH }
API double sxm_rint(double a){ if(!isbox(a)) return rint(a); abandon("rint"); }
API long sxm_lround(double a){ return (long)sxm_round(a);} 
API long long sxm_llround(double a){ return (long long)sxm_round(a);} 
API double sxm_nearbyint(double a){ return sxm_rint(a); }
API long sxm_lrint(double a){ return (long)sxm_rint(a); }
API long long sxm_llrint(double a){ return (long long)sxm_rint(a); }
API double sxm_modf(double a,double*ip){ if(!isbox(a)) return modf(a,ip); double t=sxm_trunc(a); *ip=t; return sxm_fsub(a,t); }
API long sxm_fptosi(double a){ if(isbox(a)) a=sxm_trunc(a); return (long)a; }
API unsigned long sxm_fptoui(double a){ if(isbox(a)) a=sxm_trunc(a); return (unsigned long)a; }
API double sxm_u64tof(unsigned long u){ return u; }
API double sxm_fptrunc(double a){ if(isbox(a)) abandon("double to float"); return a; }
API double sxm_fmod(double a,double b){ if(!isbox(a)&&!isbox(b)) return fmod(a,b); TRY double q=sxm_trunc(sxm_fdiv(a,b)); return sxm_fsub(a,sxm_fmul(q,b)); CATCH }
API double sxm_fabs_inf(double a){ return isbox(a)?0:fabs(a); } // only to be compared with infinity
API double sxm_fabs(double a){ if(!isbox(a)) return fabs(a); TRY RF r=torf(a); int m=quick_mask(r); if(!(m&NEG)) return a; if(decide(r,NEG)) return frombox(rf_neg(r)); return a; CATCH }
API double sxm_fmax(double a,double b){ if(nan_(a)) return b; if(nan_(b)) return a; return sxm_fcmp(3,a,b)?a:b; }
API double sxm_fmin(double a,double b){ if(nan_(a)) return b; if(nan_(b)) return a; return sxm_fcmp(5,a,b)?a:b; }
API double sxm_gsl_max(double a,double b){ return sxm_fcmp(2,a,b)?a:b; } 
API double sxm_gsl_min(double a,double b){ return sxm_fcmp(4,a,b)?a:b; }
API int sxm_isnan(double a){ return nan_(a);} API int sxm_isinf(double a){ return !isbox(a)&&std::isinf(a)?(a>0?1:-1):0; } API int sxm_finite(double a){ return isbox(a)||std::isfinite(a);} API int sxm_isfinite(double a){ return isbox(a)||std::isfinite(a);}
API int sxm_gsl_isnan(double a){ return nan_(a);} API int sxm_gsl_isinf(double a){ return sxm_isinf(a);} API int sxm_gsl_finite(double a){ return sxm_finite(a);}
API int sxm_gsl_fcmp(double a,double b,double eps){ if(!isbox(a)&&!isbox(b)){ if(a==b) return 0; } double d=sxm_fsub(a,b); double m=sxm_fmax(sxm_fabs(a),sxm_fabs(b)); if(sxm_fcmp(5,sxm_fabs(d),sxm_fmul(2*eps,m))) return 0; return sxm_fcmp(4,d,0)?-1:1; }
API double sxm_log(double a){ if(nan_(a)) return a; if(special(a)) return a>0?a:NAN; TRY if(!isbox(a)){ if(a==0) return -INFINITY; if(a<0) return NAN; }
    RF r=torf(a); int s=sign_of(r); if(s<0) return NAN; if(s==0) return -INFINITY; return frombox(rf_log(r)); CATCH }
API double sxm_exp(double a){ if(special(a)) return exp(a); if(a==0) return 1; TRY return frombox(rf_exp(torf(a))); CATCH }
API double sxm_expm1(double a){ return sxm_fsub(sxm_exp(a),1);} API double sxm_log1p(double a){ return sxm_log(sxm_fadd(a,1)); } API double sxm_log10(double a){ return sxm_fdiv(sxm_log(a),sxm_log(10)); } API double sxm_log2(double a){ return sxm_fdiv(sxm_log(a),sxm_log(2)); }
API double sxm_sqrt(double); API double sxm_pow(double,double);
API double sxm_logl(double a){ return sxm_log(a);} API double sxm_expl(double a){ return sxm_exp(a);} API double sxm_sqrtl(double a){ return sxm_sqrt(a);} API double sxm_powl(double a,double b){ return sxm_pow(a,b);} API double sxm_fabsl(double a){ return sxm_fabs(a);}
API double sxm_gsl_sf_log(double a){ return sxm_log(a);} API double sxm_gsl_sf_exp(double a){ return sxm_exp(a);} API double sxm_gsl_log1p(double a){ return sxm_log1p(a);} API double sxm_gsl_expm1(double a){ return sxm_expm1(a);}
API double sxm_sqrt(double a){ if(special(a)) return sqrt(a); if(a==0) return 0; TRY RF r=torf(a); int m=quick_mask(r); if(m&NEG){ if(decide(r,NEG)) return NAN; m=quick_mask(r);} return frombox(rf_powfrac(r,Frac(1,2))); CATCH }
API double sxm_cbrt(double a){ if(special(a)) return a; TRY RF r=torf(a); int s=sign_of(r); if(s==0) return 0; return s>0?frombox(rf_powfrac(r,Frac(1,3))):frombox(rf_neg(rf_powfrac(rf_neg(r),Frac(1,3)))); CATCH }
API double sxm_pow(double a,double b){ TRY
    if(!isbox(b)&&b==0) return 1; if(!isbox(a)&&a==1) return 1;
    if(!isbox(a)&&!isbox(b)&&(special(a)||special(b))) return pow(a,b);
    if(special(b)){ abandon("pow with infinite exponent"); }
    if(special(a)){ if(nan_(a)) return a; int s=sign_of(torf(b)); if(s==0) return 1; return s>0? a: 0; }
    RF x=torf(a), y=torf(b);
    if(rf_is_const(y)&&y.c.get_den()==1){ if(!y.c.get_num().fits_slong_p()||abs(y.c.get_num())>2000) throw TooComplex{"pow exponent"}; long n=y.c.get_num().get_si(); if(n>0) return frombox(rf_powi(x,n)); return sxm_fdiv(1.0,frombox(rf_powi(x,-n))); }
    int s=sign_of(x); if(s<0){ if(rf_is_const(y)) return NAN; abandon("negative base, symbolic exponent"); }
    if(s==0){ int t=sign_of(y); return t>0?0: t==0?1: INFINITY; }
    if(rf_is_const(y)) return frombox(rf_powfrac(x,tofrac(y.c)));
    return frombox(rf_exp(rf_mul(y,rf_log(x)))); CATCH }
API double sxm_gsl_pow_int(double a,int n){ return sxm_pow(a,n);} API double sxm_gsl_pow_uint(double a,unsigned n){ return sxm_pow(a,n);} API double sxm_gsl_sf_pow_int(double a,int n){ return sxm_pow(a,n);} API double sxm_gsl_pow_2(double a){ return sxm_fmul(a,a);} API double sxm_gsl_pow_3(double a){ return sxm_pow(a,3);} API double sxm_gsl_pow_4(double a){ return sxm_pow(a,4);} 
#define UN(name,fn,key) API double sxm_##name(double a){ if(!isbox(a)) return fn(a); TRY return fnbox(key,{torf(a)}); CATCH }
API double sxm_asin(double x){ if(isbox(x)) abandon("asin of a symbolic number"); return asin(x); } API double sxm_acos(double x){ if(!isbox(x)) return acos(x); TRY RF r=torf(x); if(!decide(rf_sub(rf_mul(r,r),rf_const(1)),NEG|ZER)) return NAN; return fnbox("acos",{r}); CATCH }
static bool acos_arg(double a,RF&x){ if(!isbox(a)) return false; RF r=torf(a); if(r.c!=1||!r.f.empty()||r.m.size()!=1||!(r.m[0].second==Frac(1))) return false; const Atom&A=atoms[r.m[0].first]; if(A.k!=A_FN||A.name!="acos") return false; x=rfs[A.args[0]]; return true; }
UN(sin0,sin,"sin") UN(cos0,cos,"cos")
API double sxm_sin(double a){ RF x; if(acos_arg(a,x)){ TRY return sxm_sqrt(frombox(rf_sub(rf_const(1),rf_mul(x,x)))); CATCH } return sxm_sin0(a); } API double sxm_cos(double a){ RF x; if(acos_arg(a,x)) return frombox(x); return sxm_cos0(a); }
 UN(tan,tan,"tan") UN(atan,atan,"atan")
static RF leadneg(const RF&r,bool&neg){ neg=r.c<0; return neg?rf_neg(r):r; }
API double sxm_erf(double a){ if(special(a)) return erf(a); if(a==0) return 0; TRY bool n; RF r=leadneg(torf(a),n); double v=fnbox("erf",{r}); return n?sxm_fneg(v):v; CATCH }
API double sxm_erfc(double a){ return sxm_fsub(1,sxm_erf(a)); }
API double sxm_gsl_sf_erf(double a){ return sxm_erf(a);} API double sxm_gsl_sf_erfc(double a){ return sxm_erfc(a);} 
// shift an argument with integer constant part down while provably positive
static RF constpart(const RF&r,Q&c){ c=0; if(rf_is_const(r)){ c=r.c; return rf_const(0);} if(r.m.empty()&&r.f.size()==1&&r.f[0].second==Frac(1)){ const Poly&P=polys[r.f[0].first]; auto it=P.find(Mono()); if(it!=P.end()){ c=it->second*r.c; return rf_sub(r,rf_const(c)); } } return r; }
API double sxm_lgamma(double a){ if(special(a)) return lgamma(a); TRY RF r=torf(a);
    if(rf_is_const(r)&&r.c.get_den()==1){ if(r.c<=0) return INFINITY; if(r.c>5000) throw TooComplex{"lgamma of a large constant"}; RF s=rf_const(0); for(long k=2;k<r.c;k++) s=rf_add(s,rf_log(rf_const(k))); return frombox(s); }
    Q c; RF base=constpart(r,c); RF add=rf_const(0); int guard=0;
    while(c>=1&&guard++<200){ RF t=rf_add(base,rf_const(c-1)); if(quick_mask(t)!=POS){ Con k=mkcon(t,NEG|ZER); if(solve({k})!=0) break; learn(mkcon(t,POS)); } add=rf_add(add,rf_log(t)); c-=1; }
    RF t=rf_add(base,rf_const(c)); return sxm_fadd(frombox(add),fnbox("lgamma",{t})); CATCH }
API double sxm_gsl_sf_lngamma(double a){ return sxm_lgamma(a);} API double sxm_gsl_sf_gamma(double a){ return sxm_exp(sxm_lgamma(a)); } API double sxm_tgamma(double a){ return sxm_exp(sxm_lgamma(a)); }
API double sxm_gsl_sf_lnfact(unsigned n){ return sxm_lgamma(n+1.0);} API double sxm_gsl_sf_fact(unsigned n){ return sxm_exp(sxm_lgamma(n+1.0)); }
API double sxm_gsl_sf_lnbeta(double a,double b){ return sxm_fsub(sxm_fadd(sxm_lgamma(a),sxm_lgamma(b)),sxm_lgamma(sxm_fadd(a,b))); } API double sxm_gsl_sf_beta(double a,double b){ return sxm_exp(sxm_gsl_sf_lnbeta(a,b)); }
API double sxm_gsl_sf_lnchoose(unsigned n,unsigned m){ return sxm_fsub(sxm_fsub(sxm_lgamma(n+1.0),sxm_lgamma(m+1.0)),sxm_lgamma(n-m+1.0)); } API double sxm_gsl_sf_choose(unsigned n,unsigned m){ return sxm_exp(sxm_gsl_sf_lnchoose(n,m)); }
API double sxm_gsl_sf_psi_n(int n,double a){ TRY RF r=torf(a); Q c; RF base=constpart(r,c); RF add=rf_const(0); int guard=0; while(c>=1&&(c>1||base.c!=0)&&guard++<200){ RF t=rf_add(base,rf_const(c-1)); if(quick_mask(t)!=POS){ Con k=mkcon(t,NEG|ZER); if(solve({k})!=0) break; learn(mkcon(t,POS)); } // psi_n(x+1)=psi_n(x)+(-1)^n n! x^-(n+1)
        RF u=rf_powi(rf_inv(t),n+1); mpz_class f=1; for(int i=2;i<=n;i++) f*=i; u=rf_mul(u,rf_const(Q(f))); if(n%2) u=rf_neg(u); add=rf_add(add,u); c-=1; }
    return sxm_fadd(frombox(add),fnbox("psi",{rf_const(n),rf_add(base,rf_const(c))})); CATCH }
API double sxm_gsl_sf_psi(double a){ return sxm_gsl_sf_psi_n(0,a);} API double sxm_gsl_sf_psi_1(double a){ return sxm_gsl_sf_psi_n(1,a);} 
API double sxm_gsl_sf_zeta(double a){ TRY return fnbox("hzeta",{torf(a),rf_const(1)},true); CATCH } API double sxm_gsl_sf_hzeta(double a,double b){ TRY return fnbox("hzeta",{torf(a),torf(b)},true); CATCH }
// distribution functions
API double sxm_gsl_cdf_ugaussian_P(double a){ if(special(a)) return gsl_cdf_ugaussian_P(a); TRY RF r=torf(a); if(r.c==0) return 0.5; bool n; r=leadneg(r,n); double v=fnbox("Phi",{r},true); return n?sxm_fsub(1,v):v; CATCH }
API double sxm_gsl_cdf_ugaussian_Q(double a){ return sxm_fsub(1,sxm_gsl_cdf_ugaussian_P(a)); }
API double sxm_gsl_cdf_gaussian_P(double a,double s){ return sxm_gsl_cdf_ugaussian_P(sxm_fdiv(a,s)); } API double sxm_gsl_cdf_gaussian_Q(double a,double s){ return sxm_gsl_cdf_ugaussian_Q(sxm_fdiv(a,s)); }
API double sxm_gsl_cdf_lognormal_P(double a,double z,double s){ return sxm_gsl_cdf_ugaussian_P(sxm_fdiv(sxm_fsub(sxm_log(a),z),s)); }
API double sxm_gsl_cdf_tdist_P(double a,double nu){ if(special(a)) return a>0?1:a<0?0:NAN; TRY RF r=torf(a); if(r.c==0) return 0.5; bool n; r=leadneg(r,n); double v=fnbox("tdist_P",{r,torf(nu)},true); return n?sxm_fsub(1,v):v; CATCH }
API double sxm_gsl_cdf_tdist_Q(double a,double nu){ return sxm_fsub(1,sxm_gsl_cdf_tdist_P(a,nu)); }
#define POSCDF1(nm) API double sxm_gsl_cdf_##nm##_P(double a,double p){ if(special(a)) return a>0?1:a<0?0:NAN; TRY if(sign_of(torf(a))<=0) return 0; return fnbox(#nm "_P",{torf(a),torf(p)}); CATCH } API double sxm_gsl_cdf_##nm##_Q(double a,double p){ return sxm_fsub(1,sxm_gsl_cdf_##nm##_P(a,p)); }
POSCDF1(chisq)
API double sxm_gsl_cdf_fdist_P(double a,double p,double q){ if(special(a)) return a>0?1:a<0?0:NAN; TRY if(sign_of(torf(a))<=0) return 0; return fnbox("fdist_P",{torf(a),torf(p),torf(q)}); CATCH } API double sxm_gsl_cdf_fdist_Q(double a,double p,double q){ return sxm_fsub(1,sxm_gsl_cdf_fdist_P(a,p,q)); }
API double sxm_gsl_cdf_gamma_P(double a,double p,double q){ TRY double x=sxm_fdiv(a,q); if(special(x)) return x>0?1:x<0?0:NAN; if(sign_of(torf(x))<=0) return 0; return fnbox("gamma_P",{torf(x),torf(p)}); CATCH } API double sxm_gsl_cdf_gamma_Q(double a,double p,double q){ return sxm_fsub(1,sxm_gsl_cdf_gamma_P(a,p,q)); }
API double sxm_gsl_cdf_exponential_P(double x,double mu){ TRY if(!special(x)&&sign_of(torf(x))<=0) return 0; return sxm_fsub(1,sxm_exp(sxm_fneg(sxm_fdiv(x,mu)))); CATCH } API double sxm_gsl_cdf_exponential_Q(double x,double mu){ return sxm_fsub(1,sxm_gsl_cdf_exponential_P(x,mu)); }
API double sxm_gsl_cdf_beta_P(double x,double a,double b){ TRY if(special(x)) return x>0?1:0; if(sign_of(torf(x))<=0) return 0; if(sign_of(torf(sxm_fsub(x,1)))>=0) return 1; return fnbox("beta_P",{torf(x),torf(a),torf(b)}); CATCH } API double sxm_gsl_cdf_beta_Q(double x,double a,double b){ return sxm_fsub(1,sxm_gsl_cdf_beta_P(x,a,b)); }
API double sxm_gsl_cdf_flat_P(double x,double a,double b){ if(sxm_fcmp(4,x,a)) return 0; if(sxm_fcmp(3,x,b)) return 1; return sxm_fdiv(sxm_fsub(x,a),sxm_fsub(b,a)); }
// quantiles: inverse of the P functions (rewritten when composed)
static bool is_fn_atom(const RF&r,const char*n,Atom&A){ if(r.c==1&&r.f.empty()&&r.m.size()==1&&r.m[0].second==Frac(1)&&atoms[r.m[0].first].k==A_FN&&atoms[r.m[0].first].name==n){ A=atoms[r.m[0].first]; return true; } return false; }
API double sxm_gsl_cdf_ugaussian_Pinv(double p){ if(!isbox(p)){ if(p<=0||p>=1) return gsl_cdf_ugaussian_Pinv(p); if(p==0.5) return 0; } TRY RF r=torf(p); Atom A; if(is_fn_atom(r,"Phi",A)) return frombox(rfs[A.args[0]]); return fnbox("PhiInv",{r}); CATCH }
API double sxm_gsl_cdf_ugaussian_Qinv(double p){ return sxm_fneg(sxm_gsl_cdf_ugaussian_Pinv(p)); } API double sxm_gsl_cdf_gaussian_Pinv(double p,double s){ return sxm_fmul(s,sxm_gsl_cdf_ugaussian_Pinv(p)); }
API double sxm_gsl_cdf_tdist_Pinv(double p,double nu){ if(p==0.5) return 0; TRY return fnbox("tdist_Pinv",{torf(p),torf(nu)}); CATCH }
API double sxm_gsl_cdf_chisq_Pinv(double p,double nu){ TRY return fnbox("chisq_Pinv",{torf(p),torf(nu)}); CATCH }
API double sxm_gsl_cdf_fdist_Pinv(double p,double a,double b){ TRY return fnbox("fdist_Pinv",{torf(p),torf(a),torf(b)}); CATCH }
API double sxm_uf(double a){ TRY return fnbox("uf",{torf(a)}); CATCH }

// ---------------------------------------------------------------- differentiation
static RF d_rf(const RF&r,int var);
static RF d_poly(int p,int var){ RF s=rf_const(0); Poly P=polys[p]; extern RF d_atom(int,int); for(auto&t:P) for(auto&x:t.first){ RF da=d_atom(x.first,var); if(da.c==0) continue; RF term; term.c=t.second; RF acc=rf_const(t.second); for(auto&y:t.first){ Frac e=y.second; if(y.first==x.first){ Q q(e.n,e.d); q.canonicalize(); acc=rf_mul(acc,rf_const(q)); e=e-Frac(1);} if(e.n){ if(atoms[y.first].k==A_POW) acc=rf_mul(acc,RF{Q(1),{},{{atoms[y.first].args[0],e}}}); else acc=rf_mul(acc,rf_mul(RF{Q(1),{{y.first,e}},{}},rf_const(1))); } } s=rf_add(s,rf_mul(acc,da)); } return s; }
RF d_atom(int a,int var){ Atom A=atoms[a]; switch(A.k){ case A_VAR: return rf_const(A.var==var?1:0); case A_PI: case A_PRIME: return rf_const(0);
    case A_LOG: { RF x=rfs[A.args[0]]; RF d=d_rf(x,var); return d.c==0?d:rf_mul(d,rf_inv(x)); }
    case A_EXP: { RF d=d_rf(rfs[A.args[0]],var); return rf_mul(d,rf_atom(a)); }
    case A_POW: return d_poly(A.args[0],var);
    case A_FN: { RF s=rf_const(0); for(size_t i=0;i<A.args.size();i++){ RF x=rfs[A.args[i]]; RF d=d_rf(x,var); if(d.c==0) continue; double xb=frombox(x), v;
            if(A.name=="lgamma") v=sxm_gsl_sf_psi_n(0,xb); else if(A.name=="psi"&&i==1) v=sxm_gsl_sf_psi_n((int)rfs[A.args[0]].c.get_d()+1,xb);
            else if(A.name=="Phi") v=sxm_fdiv(sxm_exp(sxm_fdiv(sxm_fmul(xb,xb),-2)),sxm_sqrt(sxm_fmul(2,M_PI))); else if(A.name=="erf") v=sxm_fdiv(sxm_fmul(2,sxm_exp(sxm_fneg(sxm_fmul(xb,xb)))),sxm_sqrt(M_PI));
            else if(A.name=="sin") v=sxm_cos(xb); else if(A.name=="cos") v=sxm_fneg(sxm_sin(xb));
            else throw TooComplex{"derivative of an uninterpreted function"};
            s=rf_add(s,rf_mul(d,torf(v))); } return s; } } return rf_const(0); }
static RF d_rf(const RF&r,int var){ RF s=rf_const(0); if(r.c==0) return s; auto q=[](Frac f){ Q x(f.n,f.d); x.canonicalize(); return rf_const(x); };
    for(auto&x:r.m){ RF da=d_atom(x.first,var); if(da.c==0) continue; RF t=rf_mul(r,rf_inv(rf_atom(x.first))); s=rf_add(s,rf_mul(rf_mul(t,q(x.second)),da)); }
    for(auto&x:r.f){ RF dp=d_poly(x.first,var); if(dp.c==0) continue; RF b; b.c=1; b.f={{x.first,Frac(1)}}; s=rf_add(s,rf_mul(rf_mul(rf_mul(r,rf_inv(b)),q(x.second)),dp)); }
    return s; }
API double sx_deriv(double(*fn)(double,void*),void*p,double x){ TRY double y=fn(x,p); if(special(y)) return NAN; RF v=torf(x); if(!(v.c==1&&v.f.empty()&&v.m.size()==1&&atoms[v.m[0].first].k==A_VAR)) abandon("derivative with respect to a non-variable"); return frombox(d_rf(torf(y),atoms[v.m[0].first].var)); CATCH }


// Rewrite a quantity using the equalities learnt on this path (a variable is zero; a polynomial that is linear in some variable is zero).
static bool eq_rule(std::map<int,RF>&rule){ auto used=[&](int a){ return rule.count(a)>0; };
    for(auto&f:facts) if(f.second==ZER){ 
        if(f.first<0){ if(atoms[~f.first].k==A_VAR&&!used(~f.first)) rule[~f.first]=rf_const(0); continue; }
        const Poly P=polys[f.first]; std::map<int,int> cnt; for(auto&t:P){ std::set<int> s; for(auto&x:t.first) add_atom(x.first,s); for(int a:s) cnt[a]++; }
        int best=-1; for(auto&t:P) if(t.first.size()==1&&t.first[0].second==Frac(1)&&atoms[t.first[0].first].k==A_VAR&&cnt[t.first[0].first]==1&&!used(t.first[0].first)) best=t.first[0].first;
        if(best<0) continue; RF s=rf_const(0); Q lead=1; for(auto&t:P){ if(t.first.size()==1&&t.first[0].first==best){ lead=t.second; continue; } RF q=rf_const(t.second); for(auto&y:t.first){ RF b; b.c=1; if(atoms[y.first].k==A_POW) b.f={{atoms[y.first].args[0],y.second}}; else b.m={{y.first,y.second}}; q=rf_mul(q,b); } s=rf_add(s,q); }
        rule[best]=rf_mul(s,rf_const(Q(-1)/lead)); break; }
    return !rule.empty(); }
static RF sub_rf(const RF&r,const std::map<int,RF>&rule,std::map<int,RF>&memo);
static RF sub_pow(const RF&b,Frac e){ if(e.isint()){ if(b.c==0&&e.n<0) throw TooComplex{"division by zero after substitution"}; return rf_powi(b,e.n); } if(b.c==0) return rf_const(0); return rf_powfrac(b,e); }
static RF sub_poly(int p,const std::map<int,RF>&rule,std::map<int,RF>&memo);
static RF sub_atom(int a,const std::map<int,RF>&rule,std::map<int,RF>&memo){ auto it=memo.find(a); if(it!=memo.end()) return it->second; Atom A=atoms[a]; RF o=rf_atom(a); switch(A.k){ case A_VAR: { auto q=rule.find(a); if(q!=rule.end()) o=q->second; break; } case A_PI: case A_PRIME: break;
    case A_LOG: { RF x=sub_rf(rfs[A.args[0]],rule,memo); if(x.c==0) throw TooComplex{"log of zero after substitution"}; o=rf_log(x); break; } case A_EXP: o=rf_exp(sub_rf(rfs[A.args[0]],rule,memo)); break; case A_POW: o=sub_poly(A.args[0],rule,memo); break;
    case A_FN: { std::vector<RF> v; bool ch=false; for(int i:A.args){ RF x=sub_rf(rfs[i],rule,memo); if(intern_rf(x)!=i) ch=true; v.push_back(x); } if(ch){ bool odd=A.name=="Phi"||A.name=="tdist_P"||A.name=="erf",neg=false; if(odd&&v[0].c==0) o=rf_const(A.name=="erf"?Q(0):Q(1,2)); else { if(odd) v[0]=leadneg(v[0],neg); std::vector<int> ids; for(auto&x:v) ids.push_back(intern_rf(x)); int at=intern_atom(A_FN,A.name,ids); atoms[at].positive=A.positive; atoms[at].nonneg=A.nonneg; o=rf_atom(at); if(neg) o= A.name=="erf"?rf_neg(o):rf_sub(rf_const(Q(1)),o); } } break; } }
    memo[a]=o; return o; }
static RF sub_poly(int p,const std::map<int,RF>&rule,std::map<int,RF>&memo){ Poly P=polys[p]; RF s=rf_const(0); for(auto&t:P){ RF q=rf_const(t.second); for(auto&y:t.first) q=rf_mul(q,sub_pow(sub_atom(y.first,rule,memo),y.second)); s=rf_add(s,q); } return s; }
static RF sub_rf(const RF&r,const std::map<int,RF>&rule,std::map<int,RF>&memo){ RF o=rf_const(r.c); for(auto&y:r.m) o=rf_mul(o,sub_pow(sub_atom(y.first,rule,memo),y.second)); for(auto&y:r.f) o=rf_mul(o,sub_pow(sub_poly(y.first,rule,memo),y.second)); return o; }
static RF by_equalities(RF r){ for(int it=0;it<8;it++){ std::map<int,RF> rule; if(!eq_rule(rule)) return r; // one rule at a time keeps chained rules consistent
        std::map<int,RF> memo; RF n=r; bool ch=false; for(auto&x:rule){ std::map<int,RF> one{{x.first,x.second}}; memo.clear(); RF q=sub_rf(n,one,memo); if(intern_rf(q)!=intern_rf(n)){ n=q; ch=true; } } r=n; if(!ch) return r; } return r; }
// ---------------------------------------------------------------- harness API
static double mkvar(const char*name,double lo,bool slo,double hi,bool shi){ TRY int k=vcount[name]++; Var v; v.name=std::string(name)+"#"+std::to_string(k); v.lo=lo;v.hi=hi;v.slo=slo;v.shi=shi; int a=intern_atom(A_VAR,v.name,{}); atoms[a].var=vars.size(); if(lo>0||(lo==0&&slo)) atoms[a].positive=atoms[a].nonneg=true; else if(lo==0) atoms[a].nonneg=true; v.atom=a; vars.push_back(v); return frombox(rf_atom(a)); CATCH }
API double sx_real(const char*n){ return mkvar(n,-INFINITY,true,INFINITY,true);} API double sx_pos(const char*n){ return mkvar(n,0,true,INFINITY,true);} 
API double sx_in(const char*n,double lo,double hi){ return mkvar(n,lo,false,hi,false);} API double sx_open(const char*n,double lo,double hi){ return mkvar(n,lo,true,hi,true);} 
API int sx_choice(const char*name,int n){ int k=vcount[std::string("c:")+name]++; const char*fx=getenv("SX_FIX"); std::string key=std::string(name)+"#"+std::to_string(k)+"=";
    if(fx){ const char*p=strstr(fx,key.c_str()); if(p&&(p==fx||p[-1]==' ')){ int v=atoi(p+key.size()); trail.push_back(key+std::to_string(v)); return v; } }
    int i=0; for(;i<n-1;i++){ if(!do_fork()){ trail.push_back(key+std::to_string(i)); return i; } } trail.push_back(key+std::to_string(n-1)); return n-1; }
API double sx_real_or_nan(const char*n){ std::string c=std::string("nan_")+n; if(sx_choice(c.c_str(),2)) return NAN; return sx_real(n); }
API void sx_assume(int c){ if(!c){ INC(infeasible); path_exit(0); } }
static void assume_rf(const RF&r,int allow){ int m=quick_mask(r); if(!(m&allow)){ INC(infeasible); path_exit(0);} if(!(m&~allow)) return; Con c=mkcon(r,allow); int s=solve({c}); if(s==0){ INC(infeasible); path_exit(0);} add_con(c); }
API void sx_assume_lt(double a,double b){ TRY assume_rf(rf_sub(torf(a),torf(b)),NEG); CATCH } API void sx_assume_le(double a,double b){ TRY assume_rf(rf_sub(torf(a),torf(b)),NEG|ZER); CATCH } API void sx_assume_ne(double a,double b){ TRY assume_rf(rf_sub(torf(a),torf(b)),NEG|POS); CATCH } API void sx_assume_eq(double a,double b){ TRY assume_rf(rf_sub(torf(a),torf(b)),ZER); CATCH }
static void violated(const char*label,const std::vector<Con>&extra,std::function<LD(const Env&)> viol,const char*detail){
    Env w; bool ok=false; try{ ok=find_witness(extra,viol,w); }catch(TooComplex&e){ note(std::string("witness: ")+e.why);} 
    if(ok){ INC(chk_fail); record_ce("check",label,&w,detail); } else { INC(inconclusive); std::string t; for(auto&x:trail) t+=x+" "; note(std::string("inconclusive: ")+label+" ["+t.substr(0,80)+"]"); } }
API void sx_check(int c,const char*label){ count_label(label); if(c){ INC(chk_conc); return; } violated(label,{},[](const Env&){return (LD)1;},"condition false on this path"); }
static bool numeric_pair(double a,double b,const Env&e,LD&x,LD&y){ evenv=nullptr; x=isbox(a)?ev_rf(torf(a),e):a; y=isbox(b)?ev_rf(torf(b),e):b; return true; }
static void check_rel(double a,double b,int allow,const char*label){ count_label(label); TRY
    if(nan_(a)||nan_(b)){ bool ok = allow==ZER && nan_(a)&&nan_(b); if(ok) INC(chk_conc); else violated(label,{},[](const Env&){return (LD)1;},nan_(a)?"left side is NaN":"right side is NaN"); return; }
    if(special(a)||special(b)||(!isbox(a)&&!isbox(b))){ bool ok; if(isbox(a)||isbox(b)){ int s= special(a)?(a>0?POS:NEG):(b>0?NEG:POS); ok=allow&s; } else { int s=a<b?NEG:a>b?POS:ZER; ok=allow&s; if(!ok&&!special(a)&&!special(b)&&fabs(a-b)<1e-14*(fabs(a)+fabs(b))&&(allow&ZER)) ok=true; }
        if(ok) INC(chk_conc); else { char d[80]; snprintf(d,80,"left %g right %g",isbox(a)?0:a,isbox(b)?0:b); violated(label,{},[](const Env&){return (LD)1;},d); } return; }
    RF d=rf_sub(torf(a),torf(b)); int m; try{ m=quick_mask(d); }catch(TooComplex&){ m=7; }
    if(!(m&~allow)){ INC(chk_alg); return; }
    Con bad=mkcon(d,7&~allow); int s=bad.b.empty()?1:solve({bad}); if(s==0){ INC(chk_z3); return; }
    { try{ RF e=by_equalities(d); if(intern_rf(e)!=intern_rf(d)){ int me=e.c==0?ZER:quick_mask(e); if(!(me&~allow)){ INC(chk_alg); return; } Con b2=mkcon(e,7&~allow); if(!b2.b.empty()&&solve({b2})==0){ INC(chk_z3); return; } } }catch(TooComplex&){} }
    violated(label,{bad},[&](const Env&e){ LD x,y; numeric_pair(a,b,e,x,y); if(std::isnan(x)||std::isnan(y)) return (LD)0; LD df=x-y; LD tol=1e-5L*(1+std::max(fabsl(x),fabsl(y))); if(allow==ZER) return fabsl(df)>tol?fabsl(df)/(1+std::max(fabsl(x),fabsl(y))):0; if(allow&NEG) return df>tol||(!(allow&ZER)&&df>=0)?df+1e-9L:0; if(allow==(NEG|POS)) return fabsl(df)<1e-12?(LD)1:(LD)0; return (LD)0; },"relation violated");
    CATCH }
API void sx_check_eq(double a,double b,const char*l){ check_rel(a,b,ZER,l);} API void sx_check_same(double a,double b,const char*l){ check_rel(a,b,ZER,l);} API void sx_check_lt(double a,double b,const char*l){ check_rel(a,b,NEG,l);} API void sx_check_le(double a,double b,const char*l){ check_rel(a,b,NEG|ZER,l);} API void sx_check_ne(double a,double b,const char*l){ check_rel(a,b,NEG|POS,l);} 
API void sx_reach(const char*l){ for(int i=0;i<S->nreach;i++) if(!strcmp(S->reachname[i],l)){ __sync_fetch_and_add(&S->reach[i],1); return; } sem_wait(&S->filelock); int i; for(i=0;i<S->nreach;i++) if(!strcmp(S->reachname[i],l)) break; if(i==S->nreach&&i<64){ strncpy(S->reachname[i],l,63); S->nreach++; } if(i<64) S->reach[i]++; sem_post(&S->filelock); }
API int sx_symbolic(void){ return 1; }
API void sxm_trap(const char*n){ std::string s="unmodelled external "; s+=n; abandon(s.c_str()); }
API void sxm_cov(char*flag,const char*name){ last_fn=name; if(*flag) return; *flag=1; if(!S) return; sem_wait(&S->filelock); bool dup=false; for(int i=0;i<S->ncov;i++) if(!strcmp(S->covname[i],name)) dup=true; if(!dup&&S->ncov<4000){ strncpy(S->covname[S->ncov],name,63); S->ncov++; } sem_post(&S->filelock); }
API void sx_debug(const char*n,double v){ if(!isbox(v)){ fprintf(stderr,"%s = %.17g\n",n,v); return; } const RF r=torf(v); std::function<std::string(const RF&)> show; auto mono=[&](const Mono&m){ std::string s; for(auto&x:m){ const Atom&A=atoms[x.first]; s+="*"; if(A.k==A_VAR||A.k==A_PRIME) s+=A.name; else if(A.k==A_PI) s+="pi"; else if(A.k==A_POW) s+="POW"+std::to_string(A.args[0]); else { s+=A.name+"("; for(int i:A.args) s+=show(rfs[i])+","; s+=")"; } if(x.second!=Frac(1)) s+="^"+std::to_string(x.second.n)+(x.second.d>1?"/"+std::to_string(x.second.d):""); } return s; };
    show=[&](const RF&q){ std::string s=q.c.get_str()+mono(q.m); for(auto&x:q.f){ s+=" * ["; for(auto&t:polys[x.first]) s+=" + "+t.second.get_str()+mono(t.first); s+="]^"+std::to_string(x.second.n)+"/"+std::to_string(x.second.d); } return s; }; fprintf(stderr,"%s = %s\n",n,show(r).c_str()); }

// ---------------------------------------------------------------- tokens: symbolic numbers inside text
static const double ALIAS=1e-256; // (1000000+k)e-256 stands for box k
static double alias_of(double box){ uint64_t k=bits(box)&~TMASK; char b[40]; snprintf(b,40,"%llue-256",(unsigned long long)(1000000+k)); return strtod(b,0); }
static double unalias(double d){ if(d>9e-251&&d<1e-247){ double k=std::round(d*1e256)-1000000; if(k>=0&&k<rfs.size()&&fabs(d*1e256-std::round(d*1e256))<1e-3) return fromb(TAG|(uint64_t)k); } return d; }
static std::string tok(double box){ char b[40]; uint64_t k=1000000+(bits(box)&~TMASK); std::string dg=std::to_string(k); snprintf(b,40,"%s.%se-%d",dg.substr(0,1).c_str(),dg.substr(1).c_str(),(int)(256-(dg.size()-1))); return b; }
API double sxm_atof(const char*s){ return unalias(atof(s)); } API double sxm_strtod(const char*s,char**e){ return unalias(strtod(s,e)); }
API double sx_alias(double d){ return isbox(d)?alias_of(d):d; } API double sx_unalias(double d){ return unalias(d); }
static std::string fmt(const char*f,va_list ap){ std::string o; while(*f){ if(*f!='%'){ o+=*f++; continue; } const char*s=f++; while(*f&&strchr("-+ #0'",*f)) f++; int stars=0,st[2]; while(*f=='*'||(*f>='0'&&*f<='9')||*f=='.'){ if(*f=='*'&&stars<2) st[stars++]=va_arg(ap,int); f++; } int l=0; while(*f&&strchr("hlLqjzt",*f)){ if(*f=='l'||*f=='z'||*f=='j'||*f=='t'||*f=='q') l++; f++; } char c=*f++; std::string sp(s,f-s); char buf[512]; 
        // drop L
        std::string sp2; for(char x:sp) if(x!='L') sp2+=x; 
        #define PR(v) (stars==0?snprintf(big.data(),big.size(),sp2.c_str(),v):stars==1?snprintf(big.data(),big.size(),sp2.c_str(),st[0],v):snprintf(big.data(),big.size(),sp2.c_str(),st[0],st[1],v))
        std::vector<char> big(1024); int n=0; (void)buf; switch(c){ case '%': o+='%'; continue; case 'd': case 'i': if(l){ long v=va_arg(ap,long); n=PR(v);} else { int v=va_arg(ap,int); n=PR(v);} break; case 'u': case 'x': case 'X': case 'o': if(l){ unsigned long v=va_arg(ap,unsigned long); n=PR(v);} else { unsigned v=va_arg(ap,unsigned); n=PR(v);} break; case 'c': { int v=va_arg(ap,int); n=PR(v); break; } case 'p': { void*v=va_arg(ap,void*); n=PR(v); break; }
            case 's': { char*v=va_arg(ap,char*); size_t need=(v?strlen(v):6)+1024; big.resize(need); n=PR(v); break; }
            case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': case 'a': { double v=va_arg(ap,double); if(isbox(v)){ o+=tok(v); continue; } n=PR(v); break; } default: abandon("printf directive"); }
        if(n>=(int)big.size()){ abandon("printf too long"); } o.append(big.data(),n); } return o; }
#include <cstdio>
API int sxm_vsnprintf(char*b,size_t n,const char*f,va_list ap){ std::string s=fmt(f,ap); if(n){ size_t k=std::min(n-1,s.size()); memcpy(b,s.data(),k); b[k]=0; } return s.size(); }
API int sxm_vasprintf(char**p,const char*f,va_list ap){ std::string s=fmt(f,ap); *p=(char*)malloc(s.size()+1); memcpy(*p,s.c_str(),s.size()+1); return s.size(); }
API int sxm_vfprintf(FILE*F,const char*f,va_list ap){ std::string s=fmt(f,ap); fwrite(s.data(),1,s.size(),F); return s.size(); }
API int sxm_vprintf(const char*f,va_list ap){ return sxm_vfprintf(stdout,f,ap);} 
API int sxm_vsprintf(char*b,const char*f,va_list ap){ std::string s=fmt(f,ap); memcpy(b,s.c_str(),s.size()+1); return s.size(); }
#define VA(call) va_list ap; va_start(ap,f); int r=call; va_end(ap); return r;
API int sxm_printf(const char*f,...){ VA(sxm_vfprintf(stdout,f,ap)) } API int sxm_fprintf(FILE*F,const char*f,...){ VA(sxm_vfprintf(F,f,ap)) } API int sxm_sprintf(char*b,const char*f,...){ VA(sxm_vsprintf(b,f,ap)) } API int sxm_snprintf(char*b,size_t n,const char*f,...){ VA(sxm_vsnprintf(b,n,f,ap)) } API int sxm_asprintf(char**b,const char*f,...){ VA(sxm_vasprintf(b,f,ap)) }
API void sxm_exit(int c){ char b[40]; snprintf(b,40,"exit(%d) called",c); count_label("no-exit"); violated("no-exit",{},[](const Env&){return (LD)1;},b); path_exit(0); }

// ---------------------------------------------------------------- crashes, main
static bool in_crash=false;
static void on_crash(){ if(in_crash) _exit(77); in_crash=true; no_z3=in_z3; INC(crashes); const char*d=__asan_get_report_description?__asan_get_report_description():"crash"; std::string l=std::string("memory-safety:")+(d&&*d?d:"signal"); 
    Env w; bool ok=false; try{ ok=find_witness({},[](const Env&){return (LD)1;},w);}catch(...){ } record_ce("crash",l.c_str(),ok?&w:nullptr,"memory error on this path"); path_exit(77); }
static void on_cpu(int){ no_z3=in_z3; Env w; bool ok=false; try{ ok=find_witness({},[](const Env&){return (LD)1;},w);}catch(...){ } INC(inconclusive); note(std::string("cpu limit in ")+last_fn); record_ce("check","termination",ok?&w:nullptr,"path does not end within the cpu limit"); path_exit(0); }
static void on_sig(int s){ (void)s; on_crash(); }
static std::string stats_file;
static void write_stats(){ FILE*f=fopen(stats_file.c_str(),"w"); if(!f) return; 
    fprintf(f,"paths %ld\ninfeasible %ld\nabandoned %ld\ninconclusive %ld\ncrashes %ld\nforks %ld\ntimeouts %ld\nchk_alg %ld\nchk_z3 %ld\nchk_conc %ld\nchk_fail %ld\nqueries %ld\nsat %ld\nunsat %ld\nunknown %ld\nsolver_s %.3f\nmax_atoms %ld\nmax_depth %ld\nwall_s %.2f\nce %ld\n",S->paths,S->infeasible,S->abandoned,S->inconclusive,S->crashes,S->forks,S->timeouts,S->chk_alg,S->chk_z3,S->chk_conc,S->chk_fail,S->queries,S->sat,S->unsat,S->unknown,S->solver_s,S->max_atoms,S->max_depth,now()-S->t0,S->ce);
    for(int i=0;i<S->nreach;i++) fprintf(f,"reach %s %ld\n",S->reachname[i],S->reach[i]); for(int i=0;i<S->chklab_n;i++) fprintf(f,"label %ld %s\n",S->chkcount[i],S->chklab[i]); for(int i=0;i<S->nnotes;i++) fprintf(f,"note %s\n",S->notes[i]); for(int i=0;i<S->ncov;i++) fprintf(f,"cov %s\n",S->covname[i]); fclose(f); }
extern "C" const char*__asan_default_options(){ return "detect_leaks=0:handle_abort=1:handle_segv=1:handle_sigfpe=1:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=190:use_sigaltstack=1:print_summary=1:detect_stack_use_after_return=0:quarantine_size_mb=8"; }
int main(int argc,char**argv){ // argv: outprefix slots seconds
    S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset(S,0,sizeof*S);
    std::string pre=argc>1?argv[1]:"/tmp/sxout"; static std::string cef=pre+".ce"; stats_file=pre+".stats"; ce_file=cef.c_str(); unlink(ce_file); unlink(stats_file.c_str());
    int slots=argc>2?atoi(argv[2]):4; double secs=argc>3?atof(argv[3]):300; if(argc>4) max_ce=atoi(argv[4]);
    sem_init(&S->slots,1,slots-1); sem_init(&S->filelock,1,1); S->t0=now(); S->deadline=S->t0+secs;
    struct rlimit rl={64<<20,64<<20}; (void)rl; rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
    signal(SIGVTALRM,vt_handler); signal(SIGXCPU,on_cpu); { long c=getenv("SX_CPU")?atol(getenv("SX_CPU")):150; rl.rlim_cur=c; rl.rlim_max=c+30; setrlimit(RLIMIT_CPU,&rl); }
    static z3::context ctx; Z=&ctx; Z3_global_param_set("parallel.enable","false"); PI_ATOM=intern_atom(A_PI,"pi",{});
    if(const char*q=getenv("SX_QT")) qtime_limit=atof(q);
    if(__asan_set_death_callback) __asan_set_death_callback(on_crash); else { signal(SIGSEGV,on_sig); signal(SIGABRT,on_sig); signal(SIGFPE,on_sig);} 
    if(now()<0) write_stats();
    sx_main(); INC(paths); path_exit(0); }
