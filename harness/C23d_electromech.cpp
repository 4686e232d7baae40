// Electroelastostatics: residual = weak form of momentum and charge balance with the documented scaled piezoelectric law, matrices = derivatives.
#include "sxem.hpp"
template<int D> void lds(Emx<D>& q){ q.traction("Mechanical Natural Boundary Conditions","t",D); q.flux("Electrical Natural Boundary Conditions","h"); }
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,bool ld){ Emx<D> q(xs,two,pen); if(ld){ lds<D>(q); q.body(D-1); } q.go(); auto o=q.weak(); if(ld){ q.addTraction(o,"t",D,0,-1.0); q.addTraction(o,"h",1,D,-1.0); q.addBody(o,D-1,-1.0); } q.same(o); }
template<int D> void derivs(std::vector<int> xs,bool two,const Pen& pen,bool ld,Wrt w){ Emx<D> q(xs,two,pen); if(ld) lds<D>(q); q.go(); q.derivs(w); }
S1(value_1d, value<1>(range(3),true,SIMP,true)) S1(value_2d, value<2>({1,2},true,SIMP,true)) S1(value_3d, value<3>({},true,RAMP,true)) S1(value_one_domain_2d, value<2>({0,3},false,RAMP,true))
S1(jac_1d, derivs<1>({1},true,SIMP,true,UZ)) S1(jac_2d, derivs<2>({1},true,SIMP,true,UZ)) S1(jac_3d, derivs<3>({},true,SIMP,true,UZ))
S1(shape_1d, derivs<1>({1},true,SIMP,true,XX)) S1(shape1_2d, derivs<2>({1},true,SIMP,true,XX)) S1(shape2_2d, derivs<2>({2},false,SIMP,true,XX)) S1(shape3_3d, derivs<3>({3},true,SIMP,false,XX))
template<int D> void plot(){ const int V=D==3?6:3; Emx<D> q({},true,SIMP); Teuchos::Array<std::string> w(4); w[0]="efield"; w[1]="edisp"; w[2]="strain"; w[3]="stress"; at(q.p,"Electroelastostatics").set("Plottable",w); q.go(); q.f->value(q.u,q.z); auto& mv=q.dm.scalarMultiVectors; bool all=true; for(int i=0;i<4;i++) all=all&&mv.count(w[i])==1; sx::ok("present",all); if(!all) return;
  for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3]; Vec fl,E; q.law(c,S,fl,E); dispGrad<D>(q.m,c,q.u,D+1,0,H); double pz=SIMP(cellMean<D>(q.m,c,q.z,1,0)); for(int d=0;d<D;d++){ sx::eq(sx::nm("efield",c,d),mv["efield"](c,d),E[d]); sx::eq(sx::nm("edisp",c,d),mv["edisp"](c,d),fl[d]*pz); }
    for(int k=0;k<V;k++){ int i=k<D?k:D==2?0:k==3?1:0,j=k<D?k:D==2?1:k==5?1:2; sx::eq(sx::nm("strain",c,k),mv["strain"](c,k),i==j?H[i][i]:H[i][j]+H[j][i]); sx::eq(sx::nm("stress",c,k),mv["stress"](c,k),S[i][j]*pz); } } }
S1(plot_2d, plot<2>()) S1(plot_3d, plot<3>())
