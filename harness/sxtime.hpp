// Time-dependent residuals and criteria on the small mesh: K=2 (state, rate) or K=3 (state, velocity, acceleration).
#pragma once
#include "sxell.hpp"
typedef Plato::ScalarVector SV; typedef std::vector<SV> Fs;
struct WrtT { bool s[3]; bool z,x; };
static const WrtT TS{{true,true,true},false,false}, TZ{{false,false,false},true,false}, TX{{false,false,false},false,true};
template<class F> SV rval(F& f,Fs& y,SV z,std::integral_constant<int,2>){ return f.value(y[0],y[1],z,0.5); }
template<class F> SV rval(F& f,Fs& y,SV z,std::integral_constant<int,3>){ return f.value(y[0],y[1],y[2],z,0.5); }
#define MM Teuchos::RCP<Plato::CrsMatrixType>
template<class F> MM rgrad(F& f,Fs& y,SV z,int w,std::integral_constant<int,2>){ return w==0?f.gradient_u(y[0],y[1],z,0.5):w==1?f.gradient_v(y[0],y[1],z,0.5):w==3?f.gradient_z(y[0],y[1],z,0.5):f.gradient_x(y[0],y[1],z,0.5); }
template<class F> MM rgrad(F& f,Fs& y,SV z,int w,std::integral_constant<int,3>){ return w==0?f.gradient_u(y[0],y[1],y[2],z,0.5):w==1?f.gradient_v(y[0],y[1],y[2],z,0.5):w==2?f.gradient_a(y[0],y[1],y[2],z,0.5):w==3?f.gradient_z(y[0],y[1],y[2],z,0.5):f.gradient_x(y[0],y[1],y[2],z,0.5); }
static const char* YN[3]={"u","v","a"};
template<class Q> Fs fields(Q& q,int K){ Fs y; for(int k=0;k<K;k++) y.push_back(vec(YN[k],q.m.N*q.dof,-1,1)); q.u=y[0]; return y; }
template<int K,int D,class F,class Q> void residualIs(F& f,Q& q,Fs& y,const Vec& o){ auto r=rval(f,y,q.z,std::integral_constant<int,K>()); sx::ieq("size",r.size(),q.m.N*q.dof); for(int i=0;i<q.m.N*q.dof;i++) sx::eq(sx::nm("r",i),r(i),o[i]); }
template<int K,int D,class F,class Q> void residualDerivs(F& f,Q& q,Fs& y,WrtT w){ std::integral_constant<int,K> c; auto r=rval(f,y,q.z,c); int R=q.m.N*q.dof; bool g;
  for(int k=0;k<K;k++) if(w.s[k]){ auto J=dense(rgrad(f,y,q.z,k,c),R,R,g); sx::ok("well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<R;j++) sx::deriv(sx::nm(YN[k],i,j),J[i][j],r(i),y[k](j)); }
  if(w.z){ auto J=dense(rgrad(f,y,q.z,3,c),q.m.N,R,g); sx::ok("z_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<q.m.N;j++) sx::deriv(sx::nm("dr_dz",j,i),J[j][i],r(i),q.z(j)); }
  if(w.x){ auto J=dense(rgrad(f,y,q.z,4,c),q.m.N*D,R,g); sx::ok("x_well_formed",g); if(g) for(int i=0;i<R;i++) for(int n:q.xs) for(int d=0;d<D;d++) sx::deriv(sx::nm("dr_dx",n*D+d,i),J[n*D+d][i],r(i),sx::real(sx::nm("x",n,d),-0.125,0.125)); } }
// rate terms: weight(c) * s * cell mean of the rate field * N at the centroid
template<int D,class Q> void addRate(Q& q,Vec& o,int c,SV y,int off,int n,double s){ for(int i=0;i<n;i++){ double v=s*cellMean<D>(q.m,c,y,q.dof,off+i)*q.w(c)/(D+1); for(int k=0;k<=D;k++) o[q.m.v(c,k)*q.dof+off+i]+=v; } }
// a history of so many steps; the first is the initial state, which criteria do not count
struct Hist { std::vector<Fs> y; Plato::Solution sol; };
template<class Q> Hist history(Q& q,int K,int steps,int free=99){ Hist h; int n=q.m.N*q.dof; std::vector<Plato::ScalarMultiVector> S; for(int k=0;k<K;k++) S.push_back(Plato::ScalarMultiVector(std::string(YN[k]),steps,n)); for(int s=0;s<steps;s++){ Fs f; for(int k=0;k<K;k++){ SV u("u",n); for(int i=0;i<n;i++){ u(i)=s==0?0.5*i+k:i>=free*q.dof?((i*3+k)%7-3)*0.25:sx::real(sx::nm(YN[k],s,i),-1,1); S[k](s,i)=u(i); } f.push_back(u); } h.y.push_back(f); } h.sol=K==2?Plato::Solution(S[0],S[1]):Plato::Solution(S[0],S[1],S[2]); return h; }
template<class F> SV cgrad(F& f,Hist& h,SV z,int k,int s,std::integral_constant<int,2>){ return k==0?f.gradient_u(h.sol,z,s,0.5):f.gradient_v(h.sol,z,s,0.5); }
template<class F> SV cgrad(F& f,Hist& h,SV z,int k,int s,std::integral_constant<int,3>){ return k==0?f.gradient_u(h.sol,z,s,0.5):k==1?f.gradient_v(h.sol,z,s,0.5):f.gradient_a(h.sol,z,s,0.5); }
template<int K,int D,class F,class Q> void criterionDerivs(F& f,Q& q,Hist& h,WrtT w,int free=99){ double v=f.value(h.sol,q.z,0.5); int R=q.m.N*q.dof; for(int k=0;k<K;k++) if(w.s[k]) for(size_t s=1;s<h.y.size();s++){ auto g=cgrad(f,h,q.z,k,s,std::integral_constant<int,K>()); sx::ieq("size",g.size(),R); if((int)g.size()==R) for(int i=0;i<R&&i<free*q.dof;i++) sx::deriv(sx::nm(YN[k],s,i),g(i),v,h.y[s][k](i)); }
  if(w.z){ auto g=f.gradient_z(h.sol,q.z,0.5); sx::ieq("z_size",g.size(),q.m.N); for(int i=0;i<q.m.N;i++) sx::deriv(sx::nm("df_dz",i),g(i),v,q.z(i)); }
  if(w.x){ auto g=f.gradient_x(h.sol,q.z,0.5); sx::ieq("x_size",g.size(),q.m.N*D); for(int n:q.xs) for(int d=0;d<D;d++) sx::deriv(sx::nm("df_dx",n*D+d),g(n*D+d),v,sx::real(sx::nm("x",n,d),-0.125,0.125)); } }
