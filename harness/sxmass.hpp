// Mass properties of the small mesh in three dimensions: the moments a criterion list asks for, by their definition over cells.
#pragma once
#include "sxmat.hpp"
typedef Teuchos::Array<double> Ad; typedef Teuchos::Array<std::string> As;
static double QQ[3][3],LL[3]; static Omega_h::Tensor<3> GIVEN;
namespace Omega_h { template<> DiagDecomp<3> decompose_eigen_jacobi<3>(Tensor<3> m){ GIVEN=m; DiagDecomp<3> r; for(int i=0;i<3;i++){ r.l[i]=LL[i]; for(int j=0;j<3;j++) r.q(i,j)=QQ[i][j]; } return r; } }
struct Mass { Msh<3> m; Teuchos::ParameterList p; Plato::DataMap dm; std::shared_ptr<Plato::SpatialModel> sm; Plato::ScalarVector z; double rho[2]; bool two; std::vector<int> xs;
  Mass(std::vector<int> xs_,bool two_,int zfree=99):m(xs_),two(two_),xs(xs_){ domains(p,two); for(int i=0;i<2;i++){ rho[i]=sx::real(sx::nm("rho",i),0.5,4); at(p,i?"Material Models/mB":"Material Models/mA").set("Density",rho[i]); } sm=std::make_shared<Plato::SpatialModel>(m.mesh,m.sets,p); z=vec("z",m.N,0.1,1); for(int i=zfree;i<m.N;i++) z(i)=0.25+0.125*(i%4); }
  double moment(int a,int b){ double o=0; for(int c=0;c<m.NC;c++){ Vec x=m.centroid(c); double w=rho[two&&c==0]*m.vol(c)*cellMean<3>(m,c,z,1,0); if(a>=0) w*=x[a]; if(b>=0) w*=x[b]; o+=w; } return o; }
  double inertia(int i,int j){ return i!=j?-moment(i,j):moment((i+1)%3,(i+1)%3)+moment((i+2)%3,(i+2)%3); }
  double extent(int d){ double lo=m.x[0][d],hi=lo; for(int n=1;n<m.N;n++){ double y=m.x[n][d]; if(y<lo) lo=y; if(y>hi) hi=y; } return hi-lo; } };
static const char* NAMES[10]={"Mass","CGx","CGy","CGz","Ixx","Iyy","Izz","Ixy","Ixz","Iyz"};
static const int IJ[6][2]={{0,0},{1,1},{2,2},{0,1},{0,2},{1,2}};
// A is the way a family of criteria is built and asked: make(q,name), value(q,f), gradz(q,f), gradx(q,f)
template<class A> void put(Mass& q,const std::vector<int>& which,const Vec& w,const Vec& g){ As n(which.size()); Ad a(which.size()),b(which.size()); for(size_t i=0;i<which.size();i++){ n[i]=NAMES[which[i]]; a[i]=w[i]; b[i]=g[i]; } at(q.p,"Criteria/m").set("Type","Mass Properties"); at(q.p,"Criteria/m").set("Properties",n).set("Weights",a).set("Gold Values",b); }
inline double property(Mass& q,int i){ return i==0?q.moment(-1,-1):i<4?q.moment(i-1,-1)/q.moment(-1,-1):q.inertia(IJ[i-4][0],IJ[i-4][1]); }
template<class A> void grads(Mass& q,A& f,bool x){ double v=f.value(q); if(!x){ auto g=f.gradz(q); sx::ieq("z_size",g.size(),q.m.N); if((int)g.size()==q.m.N) for(int i=0;i<q.m.N;i++) sx::deriv(sx::nm("df_dz",i),g(i),v,q.z(i)); } else { auto g=f.gradx(q); sx::ieq("x_size",g.size(),q.m.N*3); if((int)g.size()==q.m.N*3) for(int n:q.xs) for(int d=0;d<3;d++) sx::deriv(sx::nm("df_dx",n*3+d),g(n*3+d),v,sx::real(sx::nm("x",n,d),-0.125,0.125)); } f.more(q); }
// some of the properties, each against its own goal
template<class A> void items(std::vector<int> xs,bool two,std::vector<int> which,int grad,double lo=0.25,double hi=4,int zfree=99){ Mass q(xs,two,zfree); Vec w,g; for(int i:which){ w.push_back(sx::real(sx::nm("w",i),-2,2)); g.push_back(sx::real(sx::nm("g",i),lo,hi)); } put<A>(q,which,w,g); A f; if(!f.make(q,"m")) return; if(grad){ grads(q,f,grad>1); return; }
  double o=0; for(size_t k=0;k<which.size();k++){ int i=which[k]; double s=i>0&&i<4?q.extent(i-1):fabs(g[k])>0.1?fabs(g[k]):1,d=(property(q,i)-g[k])/s; o+=w[k]*d*d; } sx::eq("value",f.value(q),o); }
// all ten: inertia about the goal's centre in the goal's principal axes, whatever orthogonal axes the eigensolver returned
template<class A> void allTen(int on,int grad,std::vector<int> order={0,1,2,3,4,5,6,7,8,9}){ Mass q({},true); Vec w(10,0.0),g(10); for(int k=0;k<10;k++){ int i=order[k]; if(on<0||i==on) w[k]=sx::real(sx::nm("w",i),-2,2); g[k]=i<4?0.25+0.25*i:i<7?3+0.5*i:0.125*i; } double M=0,cg[3],I[3][3]; g[0]=g[0]; for(int k=0;k<10;k++){ int i=order[k]; if(i==0) g[k]=sx::real("gm",0.5,2); if(i>0&&i<4) g[k]=sx::real(sx::nm("gc",i),-1,1); if(i==0) M=g[k]; else if(i<4) cg[i-1]=g[k]; else I[IJ[i-4][0]][IJ[i-4][1]]=I[IJ[i-4][1]][IJ[i-4][0]]=g[k]; }
  LL[0]=sx::real("l0",2,3); LL[1]=sx::real("l1",0.5,1); LL[2]=sx::real("l2",4,5); for(int i=0;i<3;i++) for(int j=0;j<3;j++) QQ[i][j]=sx::real(sx::nm("q",i,j),-1,1); put<A>(q,order,w,g); A f; if(!f.make(q,"m")) return; double c2=cg[0]*cg[0]+cg[1]*cg[1]+cg[2]*cg[2]; for(int i=0;i<3;i++) for(int j=0;j<3;j++) sx::eq(sx::nm("about_centre",i,j),GIVEN(i,j),I[i][j]-M*((i==j?c2:0)-cg[i]*cg[j])); if(grad){ grads(q,f,false); return; }
  double o=0,mass=q.moment(-1,-1); for(int k=0;k<10;k++){ int i=order[k]; if(on>=0&&i!=on) continue; double d; if(i<4) d=(property(q,i)-g[k])/(i?q.extent(i-1):fabs(g[k])); else { int a=IJ[i-4][0],b=IJ[i-4][1]; double s=0; for(int r=0;r<3;r++) for(int t=0;t<3;t++) s+=QQ[r][a]*QQ[t][b]*(q.inertia(r,t)-mass*((r==t?c2:0)-cg[r]*cg[t])); d=a==b?(s-LL[a])/LL[a]:s/LL[1]; } o+=w[k]*d*d; } sx::eq("value",f.value(q),o); }
template<class A> void refuseM(std::vector<std::string> n,int nw,int ng,bool bad){ Mass q({},false); As a(n.size()); for(size_t i=0;i<n.size();i++) a[i]=n[i]; Ad w(nw),g(ng); for(int i=0;i<nw;i++) w[i]=1; for(int i=0;i<ng;i++) g[i]=1; at(q.p,"Criteria/m").set("Type","Mass Properties"); at(q.p,"Criteria/m").set("Properties",a).set("Weights",w).set("Gold Values",g); A f; sx::ok("refused",sx::throws([&](){ f.make(q,"m"); })==bad); }
#define MASSES(A,P) \
S1(P##mass_items, items<A>({},true,{0,7},0)) S1(P##mass_items_small_gold, items<A>({},true,{0,4},0,-0.0625,0.0625)) S1(P##mass_centre, for(int i=1;i<4;i++) items<A>({},true,{i},0)) S1(P##mass_inertia, for(int i=4;i<10;i++) items<A>({},true,{i},0)) S1(P##mass_shape_value, items<A>({3},true,{0,9},0,0.25,4,0)) S1(P##mass_one_domain, items<A>({},false,{5,0},0)) \
S1(P##mass_grad, items<A>({},true,{0,7},1)) S1(P##mass_centre_grad, items<A>({},true,{2},1)) S1(P##mass_inertia_grad, items<A>({},true,{6},1)) S1(P##mass_shape, items<A>({3},true,{0},2,0.25,4,0)) S1(P##mass_inertia_shape, items<A>({3},true,{4},2,0.25,4,0)) \
S1(P##mass_all, for(int i=0;i<4;i++) allTen<A>(i,0)) S1(P##mass_all_inertia, for(int i=4;i<10;i++) allTen<A>(i,0)) S1(P##mass_all_order, allTen<A>(8,0,{9,3,1,0,5,4,8,2,7,6})) S1(P##mass_all_grad, allTen<A>(4,1)) \
S1(P##mass_refused, refuseM<A>({"Mass","Mass"},2,2,true); refuseM<A>({"Mass","CGx"},1,2,true); refuseM<A>({"Mass","CGx"},2,1,true); refuseM<A>({"Mass","Volume"},2,2,true); refuseM<A>({"CGz","Mass"},2,2,false))
