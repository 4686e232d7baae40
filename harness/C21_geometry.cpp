// Linear simplex elements: volumes, shape-function gradients, side areas and projections computed from node coordinates.
#include "sxmesh.hpp"
#include "SimplexMechanics.hpp"
#include "SimplexFadTypes.hpp"
#include "ImplicitFunctors.hpp"
#define S1(n,...) static void n(){ __VA_ARGS__; } SX_TSCENARIO(n,n)
typedef Sacado::Fad::SFad<Plato::Scalar,12> XF;
template<int D> Plato::ScalarArray3D config(Msh<D>& m){ Plato::ScalarArray3D c("cfg",m.NC,D+1,D); for(int e=0;e<m.NC;e++) for(int n=0;n<=D;n++) for(int d=0;d<D;d++) c(e,n,d)=m.P(e,n)[d]; return c; }
// reference measure: the code integrates with weight 1/D! over |J|
template<int D> void gradients(std::vector<int> xs){ Msh<D> m(xs); auto cfg=config<D>(m); Plato::ScalarArray3D g("g",m.NC,D+1,D); Plato::ScalarVector v("v",m.NC); Plato::ComputeGradientWorkset<D> cg; Plato::ComputeCellVolume<D> cv; Plato::NodeCoordinate<D> nc(&m.mesh); Plato::ComputeGradient<D> cg2(nc); Plato::ComputeVolume<D> cv2(nc); Plato::JacobianDet<D> jd(&m.mesh);
  for(int c=0;c<m.NC;c++){ cg(c,g,cfg,v); double w=-1; cv(c,cfg,w); double J=m.vol(c)*m.fact(D); sx::eq(sx::nm("volume",c),v(c),J); sx::eq(sx::nm("cell_volume",c),w,J); sx::eq(sx::nm("mesh_volume",c),cv2(c),m.vol(c)); double j=jd(c); sx::eq(sx::nm("jacobian_det",c),j*j,J*J);
    Omega_h::Vector<D> gg[D+1]; double w2=-1; cg2(c,gg,w2); sx::eq(sx::nm("mesh_jacobian",c),w2,J);
    for(int n=0;n<=D;n++){ Vec e=m.grad(c,n); for(int d=0;d<D;d++){ sx::eq(sx::nm("dN",c,n,d),g(c,n,d),e[d]); sx::eq(sx::nm("dNmesh",c,n,d),gg[n][d],e[d]); sx::eq(sx::nm("coord",c,n,d),nc(c,n,d),m.P(c,n)[d]); } } } 
  // gradients reproduce any linear field exactly
  for(int c=0;c<m.NC;c++) for(int k=0;k<D;k++){ double s=0; for(int n=0;n<=D;n++){ double f=0.5; for(int d=0;d<D;d++) f+=sx::real(sx::nm("slope",d),-2,2)*m.P(c,n)[d]; s+=f*g(c,n,k); } sx::eq(sx::nm("linear",c,k),s,sx::real(sx::nm("slope",k),-2,2)); } }
S1(gradients_1d, gradients<1>(range(3))) S1(gradients_2d, gradients<2>(range(4))) S1(gradients_3d, gradients<3>({0})) S1(gradients_3d_1, gradients<3>({1})) S1(gradients_3d_2, gradients<3>({2})) S1(gradients_3d_3, gradients<3>({3})) S1(gradients_3d_4, gradients<3>({4})) S1(gradients_3d_all, gradients<3>({0,4})) S1(gradients_3d_13, gradients<3>({1,3}))
// all four corners of one tetrahedron free
static void tetra(){ Plato::ScalarArray3D c("c",1,4,3),g("g",1,4,3); Plato::ScalarVector v("v",1); const double b[4][3]={{0,0,0},{1,0,0},{0,1,0},{0,0,1}}; for(int n=0;n<4;n++) for(int d=0;d<3;d++) c(0,n,d)=b[n][d]+(n==0?0.0:sx::real(sx::nm("x",n,d),-0.0625,0.0625)); Plato::ComputeGradientWorkset<3> cg; cg(0,g,c,v); Plato::ComputeCellVolume<3> cv; double w; cv(0,c,w);
  double e[3][3]; for(int n=0;n<3;n++) for(int d=0;d<3;d++) e[n][d]=c(0,n+1,d)-c(0,0,d); double J=e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1])-e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0])+e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0]); sx::eq("J",v(0),J); sx::eq("Jv",w,J);
  for(int k=0;k<3;k++){ double s=0; for(int n=0;n<4;n++) s+=g(0,n,k); sx::eq(sx::nm("partition",k),s*J,0.0); for(int d=0;d<3;d++){ double t=0; for(int n=0;n<4;n++) t+=g(0,n,k)*c(0,n,d); sx::eq(sx::nm("identity",k,d),t*J,k==d?J:0.0); } } }
SX_TSCENARIO(tetrahedron_3d,tetra)
template<int D> void area(std::vector<int> xs){ Msh<D> m(xs); auto cfg=config<D>(m); Plato::ComputeSurfaceArea<D> sa; for(int c=0;c<m.NC;c++) for(int o=0;o<=D;o++){ std::vector<int> l; for(int n=0;n<=D;n++) if(n!=o) l.push_back(n); for(int perm=0;perm<D;perm++){ double a=-1; std::vector<int> q; for(int i=0;i<D;i++) q.push_back(l[(i+perm)%D]); sa(c,q.data(),cfg,a); sx::eq(sx::nm("area",c,o,perm),a,m.area(c,o)); } }
  Plato::SideNodeCoordinate<D> sc(&m.mesh); auto f2v=m.mesh.ask_verts_of(D-1); for(int f=0;f<m.mesh.nsides();f++) for(int i=0;i<D;i++) for(int d=0;d<D;d++) sx::eq(sx::nm("side_coord",f,i,d),sc(f,i,d),m.x[f2v[f*D+i]][d]); }
S1(area_1d, area<1>(range(3))) S1(area_2d, area<2>(range(4))) S1(area_3d, area<3>({1})) S1(area_3d_b, area<3>({4}))
// integral of N_a times a cell-constant field, added to what is there
static void projection(){ Plato::ScalarVector v("v",3),N("N",3); Plato::ScalarMultiVector s("s",3,2),r("r",3,6); for(int c=0;c<3;c++){ v(c)=sx::real(sx::nm("v",c),0.1,2); for(int i=0;i<2;i++) s(c,i)=sx::real(sx::nm("s",c,i),-2,2); for(int i=0;i<6;i++) r(c,i)=sx::real(sx::nm("r",c,i),-1,1); } for(int i=0;i<3;i++) N(i)=sx::real(sx::nm("N",i),0,1); double k=sx::real("k",-2,2); Plato::ComputeProjectionWorkset p; p(1,v,N,s,r,k); p(2,v,N,s,r);
  for(int c=0;c<3;c++) for(int n=0;n<3;n++) for(int i=0;i<2;i++) sx::eq(sx::nm("P",c,n,i),r(c,2*n+i),sx::real(sx::nm("r",c,2*n+i),-1,1)+(c==0?0.0:(c==1?k:1.0)*N(n)*s(c,i)*v(c))); }
SX_TSCENARIO(projection,projection)
// strain matrix: B u is the engineering strain; the assembled cell matrix is B^T C B times the volume
template<int D> void bmatrix(){ Plato::ComputeGradientMatrix<D> gm; const int V=D==3?6:D==2?3:1; Omega_h::Vector<D> g[D+1]; Omega_h::Vector<V> B[D*(D+1)]; for(int n=0;n<=D;n++) for(int d=0;d<D;d++) g[n][d]=sx::real(sx::nm("g",n,d),-2,2); gm(g,B); auto H=[&](int i,int j,int n,int d){ return i==d? g[n][j]:0.0; };
  auto vij=[](int k,int& i,int& j){ if(k<D){ i=j=k; return; } if(D==2){ i=0; j=1; return; } const int a[3][2]={{1,2},{0,2},{0,1}}; i=a[k-3][0]; j=a[k-3][1]; };
  for(int n=0;n<=D;n++) for(int d=0;d<D;d++) for(int k=0;k<V;k++){ int i,j; vij(k,i,j); sx::eq(sx::nm("B",n,d,k),B[n*D+d][k],i==j?H(i,i,n,d):H(i,j,n,d)+H(j,i,n,d)); }
  Msh<D> m; Mat a=Plato::CreateBlockMatrix<Plato::CrsMatrixType,D,D>(&m.mesh); Plato::BlockMatrixEntryOrdinal<D,D,D> o(a,&m.mesh); Omega_h::Matrix<V,V> C; for(int i=0;i<V;i++) for(int j=0;j<V;j++) C(i,j)=sx::real(sx::nm("C",i<j?i:j,i<j?j:i),-2,2); double w=sx::real("w",0.1,2); Plato::Assemble<D,decltype(o)> as(C,a,o); as(1,B,w); Dense e=zeros(m.N*D,m.N*D); for(int p=0;p<D*(D+1);p++) for(int q=0;q<D*(D+1);q++){ double s=0; for(int i=0;i<V;i++) for(int j=0;j<V;j++) s+=B[p][i]*C(i,j)*B[q][j]; e[m.v(1,p/D)*D+p%D][m.v(1,q/D)*D+q%D]+=s*w; } sameMat("K",a,e); }
S1(strain_matrix_1d, bmatrix<1>()) S1(strain_matrix_2d, bmatrix<2>()) S1(strain_matrix_3d, bmatrix<3>())
// the quadrature rule and basis of every dimension: weights integrate the reference simplex, basis values are those of the barycentre
#include "LinearTetCubRuleDegreeOne.hpp"
template<int D> void rule(){ Plato::LinearTetCubRuleDegreeOne<D> q; sx::ieq("points",q.getNumCubPoints(),1); double w=q.getCubWeight(); sx::eq("weight",w*(D==3?6:D==2?2:1),1.0); auto b=q.getBasisFunctions(); sx::ieq("n",b.size(),D+1); for(int i=0;i<=D;i++) sx::eq(sx::nm("N",i),b(i)*(D+1),1.0); auto c=q.getCubPointsCoords(); for(int i=0;i<D;i++) sx::eq(sx::nm("p",i),c(i)*(D+1),1.0); }
S1(rule_1d, rule<1>()) S1(rule_2d, rule<2>()) S1(rule_3d, rule<3>())
