// C06: batched (per-cell) dense vector and matrix operations.
#include "sxmain.hpp"
#include "BLAS2.hpp"
#include "BLAS3.hpp"
using namespace Plato;
typedef std::vector<double> V;
static ScalarMultiVector mv(const char* n,int A,int B,V& r){ ScalarMultiVector v(std::string(n),A,B); r.resize(A*B); for(int i=0;i<A;i++)for(int j=0;j<B;j++){ v(i,j)=sx::real(sx::nm(n,i,j),-10,10); r[i*B+j]=v(i,j);} return v; }
static ScalarArray3D ar(const char* n,int A,int B,int C,V& r){ ScalarArray3D v(std::string(n),A,B,C); r.resize(A*B*C); for(int i=0;i<A;i++)for(int j=0;j<B;j++)for(int k=0;k<C;k++){ v(i,j,k)=sx::real(sx::nm(n,i,j,k),-10,10); r[(i*B+j)*C+k]=v(i,j,k);} return v; }
static void same(const char* l,const ScalarMultiVector& v,const V& r){ int B=v.extent(1); for(int i=0;i<(int)v.extent(0);i++)for(int j=0;j<B;j++) sx::eq(sx::nm(l,i,j),v(i,j),r[i*B+j]); }
static void same(const char* l,const ScalarArray3D& v,const V& r){ int B=v.extent(1),C=v.extent(2); for(int i=0;i<(int)v.extent(0);i++)for(int j=0;j<B;j++)for(int k=0;k<C;k++) sx::eq(sx::nm(l,i,j,k),v(i,j,k),r[(i*B+j)*C+k]); }
template<int A,int B> static void elementwise(){
  V x0,y0,r(A*B); ScalarMultiVector x=mv("x",A,B,x0), y=mv("y",A,B,y0); double a=sx_real("a",-5,5), b=sx_real("b",-5,5);
  blas2::update(a,x,b,y); for(int i=0;i<A*B;i++) r[i]=a*x0[i]+b*y0[i]; same("update",y,r); same("update_in",x,x0);
  blas2::scale(a,x); for(int i=0;i<A*B;i++) r[i]=a*x0[i]; same("scale",x,r);
  blas2::fill(b,x); for(int i=0;i<A*B;i++) r[i]=b; same("fill",x,r);
}
static void el1(){elementwise<1,1>();} static void el2(){elementwise<2,3>();} static void el3(){elementwise<3,2>();} static void el4(){elementwise<1,9>();} static void el5(){elementwise<40,3>();} static void el6(){elementwise<2,40>();}
SX_TSCENARIO(elementwise11,el1) SX_TSCENARIO(elementwise23,el2) SX_TSCENARIO(elementwise32,el3) SX_TSCENARIO(elementwise19,el4) SX_TSCENARIO(elementwise40_3,el5) SX_TSCENARIO(elementwise2_40,el6)
template<int A,int N,int ST,int OF> static void extr(){
  V x0,y0; ScalarMultiVector x=mv("x",A,N*ST,x0), y=mv("y",A,N,y0); blas2::extract<ST,OF>(x,y);
  for(int i=0;i<A;i++)for(int j=0;j<N;j++) sx::eq(sx::nm("entry",i,j),y(i,j),x0[i*N*ST+j*ST+OF]); same("from",x,x0);
}
static void x1(){extr<2,3,1,0>();} static void x2(){extr<3,2,3,0>();} static void x3(){extr<2,4,4,3>();} static void x4(){extr<1,5,2,1>();}
SX_TSCENARIO(extract1,x1) SX_TSCENARIO(extract2,x2) SX_TSCENARIO(extract3,x3) SX_TSCENARIO(extract4,x4)
template<int A,int N,int ST,int ND,int OF> static void extrn(){
  V x0,y0; ScalarMultiVector x=mv("x",A,N*ST,x0), y=mv("y",A,N*ND,y0); blas2::extract<ST,ND,OF>(N,x,y);
  for(int i=0;i<A;i++)for(int j=0;j<N;j++)for(int d=0;d<ND;d++) sx::eq(sx::nm("entry",i,j,d),y(i,j*ND+d),x0[i*N*ST+j*ST+d+OF]); same("from",x,x0);
}
static void n1(){extrn<2,3,3,2,0>();} static void n2(){extrn<3,2,4,3,0>();} static void n3(){extrn<2,2,4,3,1>();} static void n4(){extrn<1,4,5,2,3>();} static void n5(){extrn<2,3,1,1,0>();}
SX_TSCENARIO(extract_nodes1,n1) SX_TSCENARIO(extract_nodes2,n2) SX_TSCENARIO(extract_nodes3,n3) SX_TSCENARIO(extract_nodes4,n4) SX_TSCENARIO(extract_nodes5,n5)
template<int A,int N,int D,int OF> static void axp(){
  V x0,y0; ScalarMultiVector x=mv("x",A,N,x0), y=mv("y",A,N*D,y0); double a=sx_real("a",-5,5); blas2::axpy<D,OF>(a,x,y);
  for(int i=0;i<A;i++)for(int j=0;j<N*D;j++){ double r=y0[i*N*D+j]; if(j%D==OF) r=a*r+x0[i*N+j/D]; sx::eq(sx::nm("entry",i,j),y(i,j),r); } same("in",x,x0);
}
static void p1(){axp<1,2,1,0>();} static void p2(){axp<2,3,2,1>();} static void p3(){axp<3,4,4,3>();} static void p4(){axp<2,4,3,0>();}
SX_TSCENARIO(axpy1,p1) SX_TSCENARIO(axpy2,p2) SX_TSCENARIO(axpy3,p3) SX_TSCENARIO(axpy4,p4)
template<int A,int R,int C> static void matvec(){
  const char* tr[4]={"N","n","T","t"}; double a=sx_real("a",-5,5), b=sx_real("b",-5,5);
  for(int t=0;t<4;t++){ bool T=t>=2; int nx=T?R:C, ny=T?C:R; V m0,x0,y0,r(A*ny); ScalarArray3D m=ar("m",A,R,C,m0); ScalarMultiVector x=mv("x",A,nx,x0), y=mv("y",A,ny,y0);
    blas2::matrix_times_vector(tr[t],a,m,x,b,y);
    for(int i=0;i<A;i++)for(int j=0;j<ny;j++){ double s=0; for(int k=0;k<nx;k++) s+= (T? m0[(i*R+k)*C+j] : m0[(i*R+j)*C+k])*x0[i*nx+k]; r[i*ny+j]=a*s+b*y0[i*ny+j]; }
    same((std::string(tr[t])+"_y").c_str(),y,r); same((std::string(tr[t])+"_x").c_str(),x,x0); same((std::string(tr[t])+"_m").c_str(),m,m0); }
}
static void v1(){matvec<1,1,1>();} static void v2(){matvec<2,2,3>();} static void v3(){matvec<2,3,2>();} static void v4(){matvec<1,4,4>();} static void v5(){matvec<3,1,4>();} static void v6(){matvec<1,6,12>();} static void v7(){matvec<17,2,2>();}
SX_TSCENARIO(matvec111,v1) SX_TSCENARIO(matvec223,v2) SX_TSCENARIO(matvec232,v3) SX_TSCENARIO(matvec144,v4) SX_TSCENARIO(matvec314,v5) SX_TSCENARIO(matvec16_12,v6) SX_TSCENARIO(matvec17_22,v7)
template<int A,int R,int K,int C> static void matmul(){
  V a0,b0,c0,r(A*R*C); ScalarArray3D x=ar("a",A,R,K,a0), y=ar("b",A,K,C,b0), z=ar("c",A,R,C,c0); double al=sx_real("al",-5,5), be=sx_real("be",-5,5);
  blas3::multiply(A,al,x,y,be,z);
  for(int i=0;i<A;i++)for(int j=0;j<R;j++)for(int k=0;k<C;k++){ double s=0; for(int l=0;l<K;l++) s+=a0[(i*R+j)*K+l]*b0[(i*K+l)*C+k]; r[(i*R+j)*C+k]=al*s+be*c0[(i*R+j)*C+k]; }
  same("c",z,r); same("a",x,a0); same("b",y,b0);
}
static void m1(){matmul<1,1,1,1>();} static void m2(){matmul<2,2,3,4>();} static void m3(){matmul<2,4,2,3>();} static void m4(){matmul<1,3,4,2>();} static void m5(){matmul<1,6,6,6>();} static void m6(){matmul<12,2,2,2>();}
SX_TSCENARIO(matmul1,m1) SX_TSCENARIO(matmul2,m2) SX_TSCENARIO(matmul3,m3) SX_TSCENARIO(matmul4,m4) SX_TSCENARIO(matmul5,m5) SX_TSCENARIO(matmul6,m6)
template<int A,int R,int C> static void array3(){
  V a0,b0,r(A*R*C); ScalarArray3D x=ar("a",A,R,C,a0), y=ar("b",A,R,C,b0); double al=sx_real("al",-5,5), be=sx_real("be",-5,5);
  blas3::update(A,al,x,be,y); for(int i=0;i<A*R*C;i++) r[i]=al*a0[i]+be*b0[i]; same("update",y,r); same("update_in",x,a0);
  blas3::fill<R,C>(A,al,y); for(int i=0;i<A*R*C;i++) r[i]=al; same("fill",y,r);
  blas3::identity<R,C>(A,y); for(int i=0;i<A;i++)for(int j=0;j<R;j++)for(int k=0;k<C;k++) r[(i*R+j)*C+k]=j==k?1.0:0.0; same("identity",y,r);
  if(A>1){ V s0; ScalarArray3D w=ar("w",A,R,C,s0); blas3::fill<R,C>(A-1,al,w); for(int j=0;j<R;j++)for(int k=0;k<C;k++){ sx::eq(sx::nm("fill_first",j,k),w(0,j,k),al); sx::eq(sx::nm("fill_last",j,k),w(A-1,j,k),s0[((A-1)*R+j)*C+k]); }
    V u0; ScalarArray3D u=ar("u",A,R,C,u0); blas3::update(A-1,al,x,be,u); for(int i=0;i<A;i++)for(int j=0;j<R;j++)for(int k=0;k<C;k++){ int o=(i*R+j)*C+k; sx::eq(sx::nm("update_some",i,j,k),u(i,j,k),i<A-1?al*a0[o]+be*u0[o]:u0[o]); } }
}
static void a1(){array3<1,1,1>();} static void a2(){array3<2,2,3>();} static void a3(){array3<3,4,2>();} static void a4(){array3<2,5,5>();}
SX_TSCENARIO(array1,a1) SX_TSCENARIO(array2,a2) SX_TSCENARIO(array3,a3) SX_TSCENARIO(array4,a4)
// inverse: A * inv(A) = I for every strictly diagonally dominant A (no pivoting is done, so leading minors must not vanish)
template<int A,int N,bool SYMB> static void inv(){
  V a0,i0; ScalarArray3D x("a",A,N,N), y("i",A,N,N); a0.resize(A*N*N);
  for(int i=0;i<A;i++)for(int j=0;j<N;j++)for(int k=0;k<N;k++){ double v= (SYMB||i==0)? (j==k? sx::real(sx::nm("a",i,j,k),1,2) : sx::real(sx::nm("a",i,j,k),-0.9/N,0.9/N)) : (j==k?2.0+j:0.25*(j-k)); x(i,j,k)=v; a0[(i*N+j)*N+k]=v; y(i,j,k)=sx::real(sx::nm("y",i,j,k),-1,1); }
  blas3::inverse<N,N>(A,x,y);
  for(int i=0;i<A;i++)for(int j=0;j<N;j++)for(int k=0;k<N;k++){ double s=0; for(int l=0;l<N;l++) s+=a0[(i*N+j)*N+l]*y(i,l,k); sx::eq(sx::nm("left",i,j,k),s,j==k?1.0:0.0); }
}
static void i1(){inv<2,1,true>();} static void i2(){inv<2,2,true>();} static void i3(){inv<2,3,true>();} static void i4(){inv<1,4,true>();}
SX_TSCENARIO(inverse1,i1) SX_TSCENARIO(inverse2,i2) SX_TSCENARIO(inverse3,i3) SX_TSCENARIO(inverse4,i4)
SX_SCENARIO(errors){
  V x0,y0,z0,a0,b0,c0; double a=sx_real("a",-5,5); ScalarMultiVector x=mv("x",2,3,x0), y=mv("y",3,3,y0), z=mv("z",2,2,z0), e("e",0,0); ScalarArray3D A=ar("A",2,2,3,a0), B=ar("B",2,3,2,b0), C=ar("C",3,2,2,c0), E("E",0,0,0); V d0; ScalarArray3D D=ar("D",2,2,2,d0);
  sx::ok("fill_empty",sx::throws([&]{ blas2::fill(a,e); })); sx::ok("scale_empty",sx::throws([&]{ blas2::scale(a,e); }));
  sx::ok("update_rows",sx::throws([&]{ blas2::update(a,x,a,y); })); sx::ok("update_rows2",sx::throws([&]{ blas2::update(a,y,a,x); })); sx::ok("update_cols",sx::throws([&]{ blas2::update(a,x,a,z); })); sx::ok("update_cols2",sx::throws([&]{ blas2::update(a,z,a,x); }));
  sx::ok("axpy_in_empty",sx::throws([&]{ blas2::axpy<1,0>(a,e,x); })); sx::ok("axpy_out_empty",sx::throws([&]{ blas2::axpy<1,0>(a,x,e); })); sx::ok("axpy_cells",sx::throws([&]{ blas2::axpy<1,0>(a,x,y); }));
  sx::ok("mv_A",sx::throws([&]{ blas2::matrix_times_vector("N",a,E,x,a,z); })); sx::ok("mv_x",sx::throws([&]{ blas2::matrix_times_vector("N",a,A,e,a,z); })); sx::ok("mv_y",sx::throws([&]{ blas2::matrix_times_vector("N",a,A,x,a,e); }));
  sx::ok("mv_cells_x",sx::throws([&]{ blas2::matrix_times_vector("N",a,A,y,a,z); })); sx::ok("mv_cells_y",sx::throws([&]{ V w; ScalarMultiVector q("q",3,2); blas2::matrix_times_vector("N",a,A,x,a,q); })); sx::ok("mv_trans",sx::throws([&]{ blas2::matrix_times_vector("H",a,A,x,a,z); }));
  sx::ok("id_empty",sx::throws([&]{ blas3::identity<2,2>(2,E); })); sx::ok("id_cells",sx::throws([&]{ blas3::identity<2,3>(3,A); })); sx::ok("inv_in",sx::throws([&]{ blas3::inverse<2,2>(2,E,D); })); sx::ok("inv_out",sx::throws([&]{ blas3::inverse<2,2>(2,D,E); })); sx::ok("inv_size",sx::throws([&]{ blas3::inverse<2,2>(2,D,C); }));
  sx::ok("fill3_empty",sx::throws([&]{ blas3::fill<2,2>(2,a,E); })); sx::ok("fill3_cells",sx::throws([&]{ blas3::fill<2,2>(0,a,D); })); sx::ok("up3_a",sx::throws([&]{ blas3::update(2,a,E,a,A); })); sx::ok("up3_b",sx::throws([&]{ blas3::update(2,a,A,a,E); })); sx::ok("up3_rows",sx::throws([&]{ blas3::update(2,a,A,a,B); })); sx::ok("up3_cols",sx::throws([&]{ blas3::update(2,a,A,a,D); })); sx::ok("up3_cells",sx::throws([&]{ blas3::update(0,a,A,a,A); }));
  sx::ok("mm_a",sx::throws([&]{ blas3::multiply(2,a,E,B,a,D); })); sx::ok("mm_b",sx::throws([&]{ blas3::multiply(2,a,A,E,a,D); })); sx::ok("mm_c",sx::throws([&]{ blas3::multiply(2,a,A,B,a,E); })); sx::ok("mm_inner",sx::throws([&]{ blas3::multiply(2,a,A,A,a,D); }));
  sx::ok("mm_rows",sx::throws([&]{ ScalarArray3D q("q",2,3,2); blas3::multiply(2,a,A,B,a,q); })); sx::ok("mm_cols",sx::throws([&]{ ScalarArray3D q("q",2,2,3); blas3::multiply(2,a,A,B,a,q); })); sx::ok("mm_cells",sx::throws([&]{ blas3::multiply(3,a,A,B,a,D); })); sx::ok("mm_cells_c",sx::throws([&]{ blas3::multiply(2,a,A,B,a,C); }));
  sx::ok("mm_cells_b",sx::throws([&]{ ScalarArray3D q("q",3,3,2); blas3::multiply(2,a,A,q,a,D); })); sx::ok("mm_cells_a",sx::throws([&]{ ScalarArray3D q("q",3,2,3); blas3::multiply(2,a,q,B,a,D); }));
  same("x",x,x0); same("y",y,y0); same("z",z,z0); same("A",A,a0); same("B",B,b0); same("C",C,c0); same("D",D,d0);
}
