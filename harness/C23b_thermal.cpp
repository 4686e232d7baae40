// Steady heat conduction: residual = weak form, matrices = derivatives; constant and temperature-dependent conductivity.
#include "sxth.hpp"
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,bool dep,bool ld){ Th<D> q(xs,two,pen,dep); if(ld){ q.flux("Natural Boundary Conditions","h"); q.body(0); } q.go(); auto o=q.weak(); if(ld){ q.addTraction(o,"h",1,0,1.0); q.addBody(o,0,-1.0); } q.same(o); }
template<int D> void derivs(std::vector<int> xs,bool two,const Pen& pen,bool dep,bool ld,Wrt w){ Th<D> q(xs,two,pen,dep); if(ld) q.flux("Natural Boundary Conditions","h"); q.go(); q.derivs(w); }
S1(value_1d, value<1>(range(3),true,SIMP,false,true)) S1(value_2d, value<2>(range(4),true,SIMP,false,true)) S1(value_3d, value<3>({3},true,RAMP,false,true)) S1(value_dep_1d, value<1>(range(3),true,SIMP,true,true)) S1(value_dep_2d, value<2>({1,2},true,RAMP,true,true)) S1(value_dep_3d, value<3>({4},false,SIMP,true,true)) S1(value_one_domain_2d, value<2>({0,3},false,RAMP,false,true))
S1(jac_1d, derivs<1>(range(3),true,SIMP,false,true,UZ)) S1(jac_2d, derivs<2>(range(4),true,SIMP,false,true,UZ)) S1(jac_3d, derivs<3>({3},true,SIMP,false,true,UZ)) S1(jac_dep_1d, derivs<1>(range(3),true,SIMP,true,true,UZ)) S1(jac_dep_2d, derivs<2>({2},true,SIMP,true,true,UZ)) S1(jac_dep_3d, derivs<3>({},true,SIMP,true,true,UZ)) S1(jac_ramp_2d, derivs<2>({1},false,RAMP,false,true,UZ))
S1(shape_1d, derivs<1>(range(3),true,SIMP,false,true,XX)) S1(shape0_2d, derivs<2>({0},true,SIMP,false,true,XX)) S1(shape1_2d, derivs<2>({1},true,SIMP,false,true,XX)) S1(shape2_2d, derivs<2>({2},true,RAMP,true,true,XX)) S1(shape3_2d, derivs<2>({3},false,SIMP,false,true,XX)) S1(shape0_3d, derivs<3>({0},true,SIMP,false,false,XX)) S1(shape3_3d, derivs<3>({3},true,SIMP,true,false,XX)) S1(shape4_3d, derivs<3>({4},true,SIMP,false,true,XX))
template<int D> void plot(bool dep){ Th<D> q({},true,SIMP,dep); Teuchos::Array<std::string> w(2); w[0]="tgrad"; w[1]="flux"; at(q.p,"Elliptic").set("Plottable",w); q.go(); q.f->value(q.u,q.z); auto& mv=q.dm.scalarMultiVectors; sx::ok("present",mv.count("tgrad")==1&&mv.count("flux")==1); if(!(mv.count("tgrad")&&mv.count("flux"))) return; auto e=mv["tgrad"]; auto s=mv["flux"]; sx::ieq("cells",e.extent(0),q.m.NC); sx::ieq("terms",s.extent(1),D); for(int c=0;c<q.m.NC;c++){ Vec g=scalGrad<D>(q.m,c,q.u,1,0); for(int d=0;d<D;d++){ sx::eq(sx::nm("tgrad",c,d),e(c,d),g[d]); sx::eq(sx::nm("flux",c,d),s(c,d),-q.cond(c)*g[d]*SIMP(cellMean<D>(q.m,c,q.z,1,0))); } } }
S1(plot_2d, plot<2>(false)) S1(plot_3d, plot<3>(true))
