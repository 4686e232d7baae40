// Global residual of (thermo)plasticity: value and cell-wise derivatives.
#include "sxpl.hpp"
template<int D,int T> void loads(Pl<D,T>& q,bool body=true){ q.traction("Natural Boundary Conditions/Mechanical Natural Boundary Conditions","f",T?D:D+1); if(T) q.flux("Natural Boundary Conditions/Thermal Natural Boundary Conditions","h"); if(body) q.body(D-1); }
template<int D,int T> void value(std::vector<int> xs,bool two,bool ld,const char* free="ucpzm"){ Pl<D,T> q(xs,two,free); if(ld) loads(q); q.start(); q.global(); auto o=q.weak(); if(ld){ double k=sx::real("lc",0.25,2); q.dm.mScalarValues["LoadControlConstant"]=k; q.addTraction(o,"f",T?D:D+1,0,-k); if(T) q.addTraction(o,"h",1,D,-k); q.addBody(o,D-1,-k); } auto r=q.g->value(q.u,q.up,q.c,q.cp,q.n,q.z); sx::ieq("size",r.size(),q.m.N*q.dof); for(int i=0;i<q.m.N*q.dof;i++) sx::eq(sx::nm("r",i),r(i),o[i]); }
S1(global_2d, value<2,0>({1},true,true)) S1(global_3d, value<3,0>({3},true,true,"ucpm")) S1(global_one_domain_2d, value<2,0>({0},false,false)) S1(global_thermal_2d, value<2,1>({1},true,true)) S1(global_thermal_3d, value<3,1>({3},true,true,"ucpm"))
// sums over the cells of the cell-wise matrices are the derivatives of the assembled residual; wrt: u,v(previous),c,p(previous),z,x,n
template<int D,int T> void derivs(std::vector<int> xs,bool two,bool ld,char w,const char* free="ucpz"){ Pl<D,T> q(xs,two,free); if(ld) loads(q,w!='x'); q.start(); q.global(); if(ld) q.dm.mScalarValues["LoadControlConstant"]=sx::real("lc",0.25,2); auto& m=q.m; const int F=q.dof,R=m.N*F,L=q.L; auto r=q.g->value(q.u,q.up,q.c,q.cp,q.n,q.z); sx::ieq("size",r.size(),R);
  if(w=='n'){ bool g; auto J=dense(q.g->gradient_n_T_assembled(q.u,q.up,q.c,q.cp,q.n,q.z),m.N*D,R,g); sx::ok("n_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<m.N*D;j++) sx::deriv(sx::nm("dr_dn",j,i),J[j][i],r(i),q.n(j)); return; }
  auto A=w=='u'?q.g->gradient_u(q.u,q.up,q.c,q.cp,q.n,q.z):w=='v'?q.g->gradient_up(q.u,q.up,q.c,q.cp,q.n,q.z):w=='c'?q.g->gradient_c(q.u,q.up,q.c,q.cp,q.n,q.z):w=='p'?q.g->gradient_cp(q.u,q.up,q.c,q.cp,q.n,q.z):w=='z'?q.g->gradient_z(q.u,q.up,q.c,q.cp,q.n,q.z):q.g->gradient_x(q.u,q.up,q.c,q.cp,q.n,q.z); bool cell=w=='c'||w=='p'; int K=w=='u'||w=='v'?F:w=='z'?1:D,C=cell?m.NC*L:m.N*K; bool ok=(int)A.extent(0)==m.NC&&(int)A.extent(1)==F*(D+1)&&(int)A.extent(2)==(cell?L:K*(D+1)); sx::ok("shape",ok); if(!ok) return;
  std::vector<Vec> a(R,Vec(C,0.0)); for(int e=0;e<m.NC;e++) for(int b=0;b<=D;b++) for(int i=0;i<F;i++){ int I=m.v(e,b)*F+i; if(cell) for(int j=0;j<L;j++) a[I][e*L+j]+=A(e,b*F+i,j); else for(int s=0;s<=D;s++) for(int j=0;j<K;j++) a[I][m.v(e,s)*K+j]+=A(e,b*F+i,s*K+j); }
  for(int i=0;i<R;i++) if(w=='x'){ for(int k:xs) for(int d=0;d<D;d++) sx::deriv(sx::nm("dx",i,k*D+d),a[i][k*D+d],r(i),sx::real(sx::nm("x",k,d),-0.125,0.125)); } else for(int j=0;j<C;j++) if(w!='z'||q.has('z')||j==2) sx::deriv(sx::nm("d",i,j),a[i][j],r(i),w=='u'?q.u(j):w=='v'?q.up(j):w=='c'?q.c(j):w=='p'?q.cp(j):q.z(j)); }
S1(global_u_2d, derivs<2,0>({2},true,true,'u',"u")) S1(global_u_3d, derivs<3,0>({2},true,false,'u',"u")) S1(global_u_thermal_2d, derivs<2,1>({2},true,true,'u',"u")) S1(global_up_2d, derivs<2,0>({},true,true,'v')) S1(global_c_2d, derivs<2,0>({},true,true,'c')) S1(global_c_3d, derivs<3,0>({},true,false,'c')) S1(global_c_thermal_2d, derivs<2,1>({},true,false,'c')) S1(global_cp_2d, derivs<2,0>({},true,false,'p')) S1(global_z_2d, derivs<2,0>({},true,true,'z',"y")) S1(global_z_thermal_2d, derivs<2,1>({},true,true,'z',"y")) S1(global_x_2d, derivs<2,0>({1},true,false,'x',"")) S1(global_x_thermal_2d, derivs<2,1>({1},true,false,'x',"")) S1(global_n_2d, derivs<2,0>({2},true,true,'n',"")) S1(global_n_thermal_3d, derivs<3,1>({},true,false,'n')) S1(global_load_x_2d, derivs<2,0>({1},true,true,'x',""))
