#include <adolc/adolc.h>
#include <adolc/valuetape/valuetape.h>
#include <cstdio>
#include <vector>
#include <string>
#include <cstring>
#include <cmath>
#include <cstdlib>
using V=std::vector<double>;
// everything the drivers deliver for one program, recorded with these buffer sizes
struct Cfg{size_t ob,lb,vb,tb;int skip;int keep;};
static int lastT; static size_t at;
static V run(int np,int reps,Cfg c,const char*&stage,int pv=0){
  V out; const int n=3;
  const short T=createNewTape(); lastT=T; setCurrentTape(T);
  double x[n]={0.3,1.7,-0.6};
  stage="record";
  if(c.ob) trace_on(T,c.keep,c.ob,c.lb,c.vb,c.tb,c.skip); else trace_on(T,c.keep);
  { std::vector<adouble> a(n); adouble y=0,z=1.5; std::vector<double> dy(2);
    for(int i=0;i<n;i++) a[i]<<=x[i];
    std::vector<pdouble> ps; ps.reserve(np);
    for(int i=0;i<np;i++) ps.emplace_back(pv?1.0/(i+2):0.25+i);
    for(int r=0;r<reps;r++){ y+=a[0]*a[1]+sin(a[2])*(1.0+r); z=z*0.9+a[r%3]*0.01*r; y=y*cos(z)+exp(a[1]*0.1); z+=pow(a[1],1.25); y-=z/3.7; }
    for(int i=0;i<np;i++) y+=ps[i]*a[i%3]*0.125;
    y>>=dy[0]; z>>=dy[1]; out.push_back(dy[0]); out.push_back(dy[1]); }
  trace_off(c.ob?c.skip:0);
  if(c.keep){ stage="reverse after taping"; double u[2]={1,0.5},g[n]; out.push_back(fos_reverse(T,2,n,u,g)); for(double v:g) out.push_back(v);}
  at=out.size();
  double y[2];
  for(int pass=0;pass<2;pass++){
    if(pass){ stage="parameters"; V q(np); for(int i=0;i<np;i++) q[i]=1.0/(i+2); if(!np||pv) break; findTape(T).set_param_vec(T,np,q.data()); }
    stage="zos_forward"; double xx[n]={0.31,1.1,-0.2};
    out.push_back(zos_forward(T,2,n,1,xx,y)); out.push_back(y[0]); out.push_back(y[1]);
    stage="fos_reverse"; double u[2]={1,-2},g[n]; out.push_back(fos_reverse(T,2,n,u,g)); for(double v:g) out.push_back(v);
    for(int d=1;d<=3;d++){
      stage="hos_forward"; double **X=myalloc2(n,d),**Y=myalloc2(2,d); for(int i=0;i<n;i++)for(int j=0;j<d;j++)X[i][j]=0.1*(i+1)-0.2*j;
      out.push_back(hos_forward(T,2,n,d,d+1,xx,X,y,Y)); for(int i=0;i<2;i++)for(int j=0;j<d;j++) out.push_back(Y[i][j]);
      stage="hos_reverse"; double **Z=myalloc2(n,d+1); out.push_back(hos_reverse(T,2,n,d,u,Z)); for(int i=0;i<n;i++)for(int j=0;j<=d;j++) out.push_back(Z[i][j]);
      myfree2(X);myfree2(Y);myfree2(Z);
      stage="hov_wk_forward"; const int p=2; double ***X3=myalloc3(n,p,d),***Y3=myalloc3(2,p,d); for(int i=0;i<n;i++)for(int k=0;k<p;k++)for(int j=0;j<d;j++)X3[i][k][j]=0.1*(i+1)-0.2*j+k;
      out.push_back(hov_wk_forward(T,2,n,d,d+1,p,xx,X3,y,Y3)); for(int i=0;i<2;i++)for(int k=0;k<p;k++)for(int j=0;j<d;j++) out.push_back(Y3[i][k][j]);
      stage="hos_ov_reverse"; double**U=myalloc2(2,d+1); memset(U[0],0,sizeof(double)*2*(d+1)); U[0][0]=1;U[1][0]=-2; double***Z3=myalloc3(p,n,d+1);
      out.push_back(hos_ov_reverse(T,2,n,d,p,U,Z3)); for(int k=0;k<p;k++)for(int i=0;i<n;i++)for(int j=0;j<=d;j++) out.push_back(Z3[k][i][j]);
      myfree2(U);myfree3(X3);myfree3(Y3);myfree3(Z3);
    }
  }
  
  return out;
}
int main(int c,char**v){
  int np=atoi(v[1]),reps=atoi(v[2]);
  const char*st="";
  if(c>9){ // recorded with these parameters, or set to them later: the same; other tapes keep theirs
    if(!np) np=3;
    Cfg g{(size_t)atol(v[3]),(size_t)atol(v[4]),(size_t)atol(v[5]),(size_t)atol(v[6]),0,0};
    V b=run(np,reps,g,st,1); int B=lastT; V a=run(np,reps,g,st);
    if(a.size()-at!=2*(b.size()-at)){puts("size");return 1;}
    for(size_t i=at;i<b.size();i++){ double p=a[i+b.size()-at],q=b[i]; if(!(std::fabs(p-q)<=1e-9*(1+std::fabs(q)))&&!(std::isnan(p)&&std::isnan(q))){printf("parameters: differs at %zu: %g %g\n",i,p,q);return 1;}}
    double xx[3]={0.31,1.1,-0.2},y[2]; zos_forward(B,2,3,0,xx,y); if(y[0]!=b[at+1]||y[1]!=b[at+2]){puts("another tape changed");return 1;}
    puts("ok");return 0;}
  V a=run(np,reps,{0,0,0,0,0,atoi(v[8])},st);
  V b=run(np,reps,{(size_t)atol(v[3]),(size_t)atol(v[4]),(size_t)atol(v[5]),(size_t)atol(v[6]),atoi(v[7]),atoi(v[8])},st);
  if(a.size()!=b.size()){puts("size");return 1;}
  for(size_t i=0;i<a.size();i++) if(!(a[i]==b[i]||std::isnan(a[i])&&std::isnan(b[i]))){printf("differs at %zu of %zu: %g %g\n",i,a.size(),a[i],b[i]);return 1;}
  puts("ok"); return 0;}
