// Native runtime: the harness runs on plain doubles; claims are checked numerically.
// Used to replay a solver model against the real code, compiled as the project compiles it.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
static std::map<std::string,double> vals; static bool ini=false; static uint64_t seed=1; static int fails=0, claims=0; static bool assumeBroken=false;
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static void init() { if (ini) return; ini=true; if (auto*s=getenv("RT_SEED")) seed=strtoull(s,0,10);
  if (auto*f=getenv("RT_SEEDFILE")) { FILE*fp=fopen(f,"r"); char nm[256]; double v; if (fp) { while (fscanf(fp,"%255s %lf",nm,&v)==2) vals[nm]=v; fclose(fp);} } }
extern "C" {
int rt_symbolic(void){return 0;} int rt_is_const(double){return 1;} double rt_shadow(double v){return v;}
double rt_var(const char*name,double lo,double hi){ init(); auto it=vals.find(name); if(it!=vals.end())return it->second;
  uint64_t h=mix(seed*0x9e3779b97f4a7c15ull+12345); for(const char*p=name;*p;++p)h=mix(h^(uint8_t)*p); double v=lo+(hi-lo)*((h>>11)*(1.0/9007199254740992.0)); v=(double)(float)v; if(v<lo)v=lo; if(v>hi)v=hi; vals[name]=v; return v; }
static void res(bool ok,const char*l,double a,double b){ ++claims; if(!ok&&!assumeBroken){ ++fails; printf("NATIVE-FAIL %s : %.17g vs %.17g\n",l,a,b);} }
void rt_claim_eq(double a,double b,double s,double t,const char*l){ double m=std::fmax(1.0,std::fmax(std::fabs(s),std::fmax(std::fabs(a),std::fabs(b)))); bool ok=std::fabs(a-b)<=t*m || (a==b); res(ok,l,a,b); }
void rt_claim_le(double a,double b,double s,double t,const char*l){ double m=std::fmax(1.0,std::fmax(std::fabs(s),std::fmax(std::fabs(a),std::fabs(b)))); res(a-b<=t*m,l,a,b); }
void rt_claim_bool(int v,const char*l){ res(v!=0,l,v,1); }
void rt_assume_le(double a,double b){ if(!(a<=b)) assumeBroken=true; } void rt_assume_lt(double a,double b){ if(!(a<b)) assumeBroken=true; }
double rt_uf(const char*fn,int k,int n,const double*args){ double acc=0.37+0.11*k; for(const char*p=fn;*p;++p) acc+=*p*0.01; for(int i=n-1;i>=0;--i) acc=acc*0.7+std::sin(args[i]*(1.3+i)); return acc; }
void rt_note(const char*,const char*){} void rt_region(const void*,uint64_t,const char*){} void rt_trace(int){}
void rt_item_begin(const char*,int64_t){} void rt_item_end(){} void rt_access(const void*,uint64_t,int){}
void rt_finish(void){ printf("NATIVE-DONE claims=%d fails=%d assume_broken=%d\n",claims,fails,(int)assumeBroken); }
}
