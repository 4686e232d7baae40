// A small mesh with symbolic node coordinates, its element/side/node sets, and an independent account of linear simplex elements
// (volumes, shape-function gradients, side areas and normals) that the checks use as oracle.
#pragma once
#undef PLATOANALYZE_1D
#undef PLATOANALYZE_2D
#undef PLATOANALYZE_3D
#include "sxmain.hpp"
#include "omega_h_stub.hpp"
#include <Teuchos_ParameterList.hpp>
#include "PlatoTypes.hpp"
#include "PlatoStaticsTypes.hpp"
#include "BLAS1.hpp"
#include "SpatialModel.hpp"
#include "sxcrs.hpp"
#include "ExpressionEvaluator.cpp"
#include "alg/Cubature.cpp"
#include "alg/Basis.cpp"
typedef std::vector<double> Vec;
inline Teuchos::ParameterList& at(Teuchos::ParameterList& p,const char* path){ Teuchos::ParameterList* q=&p; std::string s(path); size_t i=0; for(;;){ size_t j=s.find('/',i); q=&q->sublist(s.substr(i,j==std::string::npos?j:j-i)); if(j==std::string::npos) return *q; i=j+1; } }
// number of symbolic coordinates: 0 none, 1 one node, 2 all nodes
template<int D> struct Msh {
  int N,NC; std::vector<int> cells; std::vector<Vec> x; Omega_h::Mesh mesh; Omega_h::MeshSets sets;
  static std::vector<int> conn(){ if(D==1) return {0,1,2,1}; if(D==2) return {1,2,0, 0,2,3}; return {0,1,2,3, 1,2,3,4}; }
  static std::vector<Vec> base(){ if(D==1) return {{0},{1},{2.5}}; if(D==2) return {{0,0},{1,0},{1.25,1},{0,1}}; return {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,1,1}}; }
  static Omega_h::Reals reals(const std::vector<Vec>& x){ Omega_h::Write<double> w((int)x.size()*D); for(size_t i=0;i<x.size();i++) for(int d=0;d<D;d++) w[(int)i*D+d]=x[i][d]; return w; }
  static Omega_h::LOs los(std::vector<int> v){ Omega_h::Write<int> w((int)v.size()); for(size_t i=0;i<v.size();i++) w[i]=v[i]; return w; }
  // sym: nodes whose coordinates are symbolic
  explicit Msh(std::vector<int> sym={}):cells(conn()),x(base()){ N=x.size(); NC=cells.size()/(D+1);
    for(int n:sym) for(int d=0;d<D;d++) x[n][d]+=sx::real(sx::nm("x",n,d),-0.125,0.125);
    mesh=Omega_h::Mesh(D,N,reals(x),cells);
    sets[Omega_h::ELEM_SET]["all"]=los({0,1}); sets[Omega_h::ELEM_SET]["rev"]=los({1,0}); sets[Omega_h::ELEM_SET]["A"]=los({1}); sets[Omega_h::ELEM_SET]["B"]=los({0}); }
  int v(int c,int n) const { return cells[c*(D+1)+n]; }
  Vec P(int c,int n) const { return x[v(c,n)]; }
  static double det(const std::vector<Vec>& m){ if(D==1) return m[0][0]; if(D==2) return m[0][0]*m[1][1]-m[0][1]*m[1][0]; return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
  static int fact(int n){ return n<2?1:n*fact(n-1); }
  std::vector<Vec> edges(int c) const { std::vector<Vec> e; for(int n=1;n<=D;n++){ Vec d(D); for(int k=0;k<D;k++) d[k]=P(c,n)[k]-P(c,0)[k]; e.push_back(d); } return e; }
  double sdet(int c) const { return det(edges(c)); }
  // the cells of the mesh keep a definite orientation while their nodes move within the bounds
  bool neg(int c) const { static const auto b=base(); Msh0 m(c); return m.s<0; }
  struct Msh0 { double s; Msh0(int c){ auto b=base(); auto cn=conn(); std::vector<Vec> e; for(int n=1;n<=D;n++){ Vec d(D); for(int k=0;k<D;k++) d[k]=b[cn[c*(D+1)+n]][k]-b[cn[c*(D+1)]][k]; e.push_back(d); } s=det(e); } };
  double vol(int c) const { double d=sdet(c); return (neg(c)?-d:d)/fact(D); }
  // derivative of shape function n of cell c in direction k: ratio of determinants (Cramer)
  Vec grad(int c,int n) const { Vec g(D); double J=sdet(c); auto e=edges(c); for(int k=0;k<D;k++){ if(n>0){ auto m=e; for(int d=0;d<D;d++) m[n-1][d]=d==k; g[k]=det(m)/J; } else { g[k]=0; for(int q=1;q<=D;q++){ auto m=e; for(int d=0;d<D;d++) m[q-1][d]=d==k; g[k]-=det(m)/J; } } } return g; }
  Vec centroid(int c) const { Vec m(D,0.0); for(int n=0;n<=D;n++) for(int k=0;k<D;k++) m[k]+=P(c,n)[k]/(D+1); return m; }
  // outward area vector of the side of cell c opposite node o: minus D times the volume times the gradient of that node's function
  Vec areaVec(int c,int o) const { Vec g=grad(c,o); double w=vol(c)*D; for(auto& y:g) y*=-w; return g; }
  double area(int c,int o) const { if(D==1) return 1.0; Vec a=areaVec(c,o); double s=0; for(double y:a) s+=y*y; return std::sqrt(s); }
  // mesh ordinal of the side of cell c opposite node o
  int sideOf(int c,int o) const { auto f2v=mesh.ask_verts_of(D-1); for(int f=0;f<mesh.nsides();f++){ bool all=true; for(int i=0;i<D;i++){ bool in=false; for(int n=0;n<=D;n++) if(n!=o&&v(c,n)==f2v[f*D+i]) in=true; all=all&&in; } if(all) return f; } abort(); }
  void sideset(const char* n,std::vector<std::pair<int,int>> s){ std::vector<int> f; for(auto& p:s) f.push_back(sideOf(p.first,p.second)); sets[Omega_h::SIDE_SET][n]=los(f); }
  void nodeset(const char* n,std::vector<int> s){ sets[Omega_h::NODE_SET][n]=los(s); }
};
inline void domains(Teuchos::ParameterList& p,bool two){ if(two){ at(p,"Spatial Model/Domains/First").set("Element Block","A").set("Material Model","mA"); at(p,"Spatial Model/Domains/Second").set("Element Block","B").set("Material Model","mB"); } else at(p,"Spatial Model/Domains/Whole").set("Element Block","all").set("Material Model","mA"); }
inline const char* matOf(bool two,int c){ return two&&c==0?"mB":"mA"; }
inline Plato::ScalarVector vec(const char* n,int N,double lo,double hi){ Plato::ScalarVector v(std::string(n),N); for(int i=0;i<N;i++) v(i)=sx::real(sx::nm(n,i),lo,hi); return v; }
// the matrices a residual hands out are the derivatives of the residual it hands out
struct Wrt { bool u=true,uT=true,z=true,x=true; };
template<int D,class F> void derivatives(F& f,Msh<D>& m,const Plato::ScalarVector& u,const Plato::ScalarVector& z,int dof,const std::vector<int>& xs,Wrt w=Wrt()){
  auto r=f.value(u,z); int R=m.N*dof; bool g; sx::ieq("size",r.size(),R);
  if(w.u){ auto J=dense(f.gradient_u(u,z),R,R,g); sx::ok("u_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<R;j++) sx::deriv(sx::nm("dr_du",i,j),J[i][j],r(i),u(j)); }
  if(w.uT){ auto J=dense(f.gradient_u_T(u,z),R,R,g); sx::ok("uT_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<R;j++) sx::deriv(sx::nm("dr_du_T",j,i),J[j][i],r(i),u(j)); }
  if(w.z){ auto J=dense(f.gradient_z(u,z),m.N,R,g); sx::ok("z_well_formed",g); if(g) for(int i=0;i<R;i++) for(int j=0;j<m.N;j++) sx::deriv(sx::nm("dr_dz",j,i),J[j][i],r(i),z(j)); }
  if(w.x&&xs.size()){ auto J=dense(f.gradient_x(u,z),m.N*D,R,g); sx::ok("x_well_formed",g); if(g) for(int i=0;i<R;i++) for(int n:xs) for(int d=0;d<D;d++) sx::deriv(sx::nm("dr_dx",n*D+d,i),J[n*D+d][i],r(i),sx::real(sx::nm("x",n,d),-0.125,0.125)); }
}
inline std::vector<int> range(int n){ std::vector<int> v; for(int i=0;i<n;i++) v.push_back(i); return v; }
