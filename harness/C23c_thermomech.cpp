// Thermoelastostatics: residual = weak form of momentum and heat balance, matrices = derivatives.
#include "sxtm.hpp"
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,bool dep,bool ld){ Tm<D> q(xs,two,pen,dep); if(ld){ q.traction("Mechanical Natural Boundary Conditions","t",D); q.flux("Thermal Natural Boundary Conditions","h"); q.body(D-1); } q.go(); auto o=q.weak(); if(ld){ q.addTraction(o,"t",D,0,-1.0); q.addTraction(o,"h",1,D,-1.0); q.addBody(o,D-1,-1.0); } q.same(o); }
template<int D> void derivs(std::vector<int> xs,bool two,const Pen& pen,bool dep,bool ld,Wrt w){ Tm<D> q(xs,two,pen,dep); if(ld){ q.traction("Mechanical Natural Boundary Conditions","t",D); q.flux("Thermal Natural Boundary Conditions","h"); } q.go(); q.derivs(w); }
S1(value_1d, value<1>(range(3),true,SIMP,false,true)) S1(value_2d, value<2>({1,2},true,SIMP,false,true)) S1(value_3d, value<3>({},true,RAMP,false,true)) S1(value_dep_1d, value<1>({1},true,SIMP,true,true)) S1(value_dep_2d, value<2>({1},true,RAMP,true,true)) S1(value_dep_3d, value<3>({},false,SIMP,true,false)) S1(value_one_domain_2d, value<2>({0,3},false,RAMP,false,true))
S1(jac_1d, derivs<1>({1},true,SIMP,false,true,UZ)) S1(jac_2d, derivs<2>({1},true,SIMP,false,true,UZ)) S1(jac_3d, derivs<3>({},true,SIMP,false,true,UZ)) S1(jac_dep_1d, derivs<1>({},true,SIMP,true,true,UZ)) S1(jac_dep_2d, derivs<2>({},true,SIMP,true,true,UZ)) S1(jac_dep_3d, derivs<3>({},false,SIMP,true,false,UU))
S1(shape_1d, derivs<1>({1},true,SIMP,false,true,XX)) S1(shape1_2d, derivs<2>({1},true,SIMP,false,true,XX)) S1(shape2_2d, derivs<2>({2},true,SIMP,false,true,XX)) S1(shape3_3d, derivs<3>({3},false,SIMP,false,false,XX))
template<int D> void plot(bool dep){ const int V=D==3?6:3; Tm<D> q({},true,SIMP,dep); Teuchos::Array<std::string> w(4); w[0]="tgrad"; w[1]="flux"; w[2]="strain"; w[3]="stress"; at(q.p,"Elliptic").set("Plottable",w); q.go(); q.f->value(q.u,q.z); auto& mv=q.dm.scalarMultiVectors; bool all=true; for(int i=0;i<4;i++) all=all&&mv.count(w[i])==1; sx::ok("present",all); if(!all) return;
  for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3]; Vec fl; q.law(c,S,fl); dispGrad<D>(q.m,c,q.u,D+1,0,H); Vec g=scalGrad<D>(q.m,c,q.u,D+1,D); double pz=SIMP(cellMean<D>(q.m,c,q.z,1,0)); for(int d=0;d<D;d++){ sx::eq(sx::nm("tgrad",c,d),mv["tgrad"](c,d),g[d]); sx::eq(sx::nm("flux",c,d),mv["flux"](c,d),fl[d]*pz); }
    for(int k=0;k<V;k++){ int i=k<D?k:D==2?0:k==3?1:0,j=k<D?k:D==2?1:k==5?1:2; sx::eq(sx::nm("strain",c,k),mv["strain"](c,k),i==j?H[i][i]:H[i][j]+H[j][i]); sx::eq(sx::nm("stress",c,k),mv["stress"](c,k),S[i][j]*pz); } } }
S1(plot_2d, plot<2>(false)) S1(plot_3d, plot<3>(false))
