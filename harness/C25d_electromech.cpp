// Electromechanical criteria: value = the documented integral, gradients = derivatives of the value, output fields hold what they are named after.
#include "sxem.hpp"
#include "sxcrit.hpp"
template<int D> Crit energy(Emx<D>& q,int steps,int free=99,int zfree=99){ criterion(q.p,"e","Scalar Function","Internal Electroelastic Energy",&q.pen); return make<Plato::Electromechanics<D>>(q,"e",steps,free,zfree); }
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,int steps){ Emx<D> q(xs,two,pen); auto k=energy<D>(q,steps); double o=0; for(auto& u:k.us){ q.u=u; for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3]; Vec f,E; q.law(c,S,f,E); dispGrad<D>(q.m,c,u,D+1,0,H); double s=0; for(int i=0;i<D;i++){ s-=f[i]*E[i]; for(int j=0;j<D;j++) s+=S[i][j]*H[i][j]; } o+=q.w(c)*s; } } sx::eq("value",k.f->value(k.sol,q.z),o); }
template<int D> void grad(std::vector<int> xs,bool two,const Pen& pen,int steps,Wrt w,int free=99,int zfree=99){ Emx<D> q(xs,two,pen); auto k=energy<D>(q,steps,free,zfree); gradients<D>(q,k,w); }
S1(energy_1d, value<1>({1},true,SIMP,2)) S1(energy_2d, value<2>({1},true,RAMP,1)) S1(energy_nopenalty_2d, value<2>({},true,NOPEN,1)) S1(energy_3d, value<3>({},true,SIMP,1))
S1(energy_grad_1d, grad<1>({},true,SIMP,2,UZ)) S1(energy_grad_2d, grad<2>({},true,SIMP,1,UZ)) S1(energy_grad_3d, grad<3>({},true,SIMP,1,UZ,2)) S1(energy_shape_1d, grad<1>({1},true,SIMP,1,XX)) S1(energy_shape_2d, grad<2>({1},true,SIMP,1,XX,2))
template<int D> double stressSq(Emx<D>& q,int c){ double S[3][3],s=0; Vec f,E; q.law(c,S,f,E); for(int i=0;i<D;i++) for(int j=i;j<D;j++) s+=S[i][j]*S[i][j]; double p=q.pen(cellMean<D>(q.m,c,q.z,1,0)); return s*p*p; }
template<int D> void norm(std::vector<int> xs,bool two,const Pen& pen,double p,Wrt w,int free=99,int zfree=99){ Emx<D> q(xs,two,pen); criterion(q.p,"s","Scalar Function","Stress P-Norm",&q.pen).set("Exponent",p); auto k=make<Plato::Electromechanics<D>>(q,"s",1,free,zfree); for(int c=0;c<q.m.NC;c++) sx_assume(stressSq<D>(q,c)>0.001); double o=0; for(int c=0;c<q.m.NC;c++) o+=q.m.vol(c)*pow(stressSq<D>(q,c),p/2); sx::eq("value",k.f->value(k.sol,q.z),pow(o,1/p)); gradients<D>(q,k,w); }
S1(stress_norm_1d, norm<1>({},true,SIMP,3,UU,99,0)) S1(stress_norm_2d, norm<2>({},true,RAMP,2,ZZ,0)) S1(stress_norm_shape_1d, norm<1>({1},true,SIMP,2,XX,0,0))
static void plot(){ const int D=2; Emx<D> q({},true,SIMP); As w(3); w[0]="edisp"; w[1]="strain"; w[2]="stress"; q.p.set("Plottable",w); auto k=energy<D>(q,1); k.f->value(k.sol,q.z); auto& mv=q.dm.scalarMultiVectors; bool all=true; for(int i=0;i<3;i++) all=all&&mv.count(w[i])==1; sx::ok("present",all); if(!all) return; sx::ieq("edisp_terms",mv["edisp"].extent(1),D); sx::ieq("stress_terms",mv["stress"].extent(1),3); sx::ieq("strain_terms",mv["strain"].extent(1),3); if(mv["edisp"].extent(1)!=D) return;
  for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3]; Vec f,E; q.law(c,S,f,E); dispGrad<D>(q.m,c,q.u,D+1,0,H); double pz=SIMP(cellMean<D>(q.m,c,q.z,1,0)); for(int d=0;d<D;d++) sx::eq(sx::nm("edisp",c,d),mv["edisp"](c,d),f[d]*pz); for(int v=0;v<3;v++){ int i=v<2?v:0,j=v<2?v:1; sx::eq(sx::nm("strain",c,v),mv["strain"](c,v),i==j?H[i][i]:H[i][j]+H[j][i]); sx::eq(sx::nm("stress",c,v),mv["stress"](c,v),S[i][j]*pz); } } }
SX_TSCENARIO(plot_2d,plot)
