// Environment model of the part of Omega_h that platoanalyze's element, residual and criterion code uses (Omega_h is not in this
// sandbox). Containers hold plain values, matrices are column major as in Omega_h, meshes are given explicitly by their cells.
#pragma once
#include <array>
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include <Kokkos_Core.hpp>
#define OMEGA_H_INLINE KOKKOS_INLINE_FUNCTION
#define OMEGA_H_DEVICE KOKKOS_INLINE_FUNCTION
#define OMEGA_H_CHECK(x) do { if(!(x)) abort(); } while(0)
#define OMEGA_H_USE_KOKKOS
namespace Omega_h {
typedef signed char I8; typedef int I32; typedef long long I64; typedef int Int; typedef int LO; typedef long long GO; typedef double Real; typedef signed char Byte;
enum { VERT=0, EDGE=1, FACE=2, REGION=3 };
constexpr Real PI=3.14159265358979323846; constexpr Real EPSILON=1e-10;
template<class T> OMEGA_H_INLINE T max2(T a,T b){ return a<b?b:a; }
template<class T> OMEGA_H_INLINE T min2(T a,T b){ return b<a?b:a; }
template<class T> OMEGA_H_INLINE T square(T a){ return a*a; }
// ------------------------------------------------ small vectors and matrices
template<class T,Int n> class Few { T a[n]; public: enum { size=n }; OMEGA_H_INLINE Few(){} OMEGA_H_INLINE Few(std::initializer_list<T> l){ Int i=0; for(auto& x:l) a[i++]=x; } OMEGA_H_INLINE T* data(){ return a; } OMEGA_H_INLINE T const* data() const { return a; } OMEGA_H_INLINE T& operator[](Int i){ return a[i]; } OMEGA_H_INLINE T const& operator[](Int i) const { return a[i]; } };
template<Int n> class Vector : public Few<Real,n> { public: OMEGA_H_INLINE Vector(){} OMEGA_H_INLINE Vector(std::initializer_list<Real> l):Few<Real,n>(l){} OMEGA_H_INLINE Real& operator()(Int i){ return (*this)[i]; } OMEGA_H_INLINE Real const& operator()(Int i) const { return (*this)[i]; } };
template<Int m,Int n> class Matrix : public Few<Vector<m>,n> { public: OMEGA_H_INLINE Matrix(){} OMEGA_H_INLINE Matrix(std::initializer_list<Vector<m>> l):Few<Vector<m>,n>(l){} OMEGA_H_INLINE Real& operator()(Int i,Int j){ return (*this)[j][i]; } OMEGA_H_INLINE Real const& operator()(Int i,Int j) const { return (*this)[j][i]; } };
template<Int n> using Tensor=Matrix<n,n>;
template<Int n> OMEGA_H_INLINE Vector<n> operator+(Vector<n> a,Vector<n> b){ for(Int i=0;i<n;i++) a[i]+=b[i]; return a; }
template<Int n> OMEGA_H_INLINE Vector<n> operator-(Vector<n> a,Vector<n> b){ for(Int i=0;i<n;i++) a[i]-=b[i]; return a; }
template<Int n> OMEGA_H_INLINE Vector<n> operator-(Vector<n> a){ for(Int i=0;i<n;i++) a[i]=-a[i]; return a; }
template<Int n> OMEGA_H_INLINE Vector<n> operator*(Vector<n> a,Real b){ for(Int i=0;i<n;i++) a[i]*=b; return a; }
template<Int n> OMEGA_H_INLINE Vector<n> operator*(Real b,Vector<n> a){ return a*b; }
template<Int n> OMEGA_H_INLINE Vector<n> operator/(Vector<n> a,Real b){ for(Int i=0;i<n;i++) a[i]/=b; return a; }
template<Int n> OMEGA_H_INLINE Real operator*(Vector<n> a,Vector<n> b){ Real s=0; for(Int i=0;i<n;i++) s+=a[i]*b[i]; return s; }
template<Int n> OMEGA_H_INLINE Real inner_product(Vector<n> a,Vector<n> b){ return a*b; }
template<Int n> OMEGA_H_INLINE Real norm(Vector<n> a){ return std::sqrt(a*a); }
template<Int n> OMEGA_H_INLINE Vector<n> normalize(Vector<n> a){ return a/norm(a); }
template<Int n> OMEGA_H_INLINE Vector<n> zero_vector(){ Vector<n> v; for(Int i=0;i<n;i++) v[i]=0; return v; }
OMEGA_H_INLINE Vector<1> vector_1(Real x){ return {x}; }
OMEGA_H_INLINE Vector<2> vector_2(Real x,Real y){ return {x,y}; }
OMEGA_H_INLINE Vector<3> vector_3(Real x,Real y,Real z){ return {x,y,z}; }
OMEGA_H_INLINE Vector<3> cross(Vector<3> a,Vector<3> b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
OMEGA_H_INLINE Real cross(Vector<2> a,Vector<2> b){ return a[0]*b[1]-a[1]*b[0]; }
OMEGA_H_INLINE Vector<2> perp(Vector<2> v){ return {-v[1],v[0]}; }
template<Int m,Int n> OMEGA_H_INLINE Matrix<m,n> operator*(Matrix<m,n> a,Real b){ for(Int j=0;j<n;j++) a[j]=a[j]*b; return a; }
template<Int m,Int n> OMEGA_H_INLINE Matrix<m,n> operator*(Real b,Matrix<m,n> a){ return a*b; }
template<Int m,Int n> OMEGA_H_INLINE Matrix<m,n> operator/(Matrix<m,n> a,Real b){ for(Int j=0;j<n;j++) a[j]=a[j]/b; return a; }
template<Int m,Int n> OMEGA_H_INLINE Matrix<m,n> operator+(Matrix<m,n> a,Matrix<m,n> b){ for(Int j=0;j<n;j++) a[j]=a[j]+b[j]; return a; }
template<Int m,Int n> OMEGA_H_INLINE Matrix<m,n> operator-(Matrix<m,n> a,Matrix<m,n> b){ for(Int j=0;j<n;j++) a[j]=a[j]-b[j]; return a; }
template<Int m,Int n> OMEGA_H_INLINE Vector<m> operator*(Matrix<m,n> a,Vector<n> b){ Vector<m> c=zero_vector<m>(); for(Int j=0;j<n;j++) for(Int i=0;i<m;i++) c[i]+=a[j][i]*b[j]; return c; }
template<Int m,Int n,Int p> OMEGA_H_INLINE Matrix<m,n> operator*(Matrix<m,p> a,Matrix<p,n> b){ Matrix<m,n> c; for(Int j=0;j<n;j++) c[j]=a*b[j]; return c; }
template<Int m,Int n> OMEGA_H_INLINE Matrix<n,m> transpose(Matrix<m,n> a){ Matrix<n,m> b; for(Int i=0;i<m;i++) for(Int j=0;j<n;j++) b[i][j]=a[j][i]; return b; }
template<Int m,Int n> OMEGA_H_INLINE Matrix<m,n> outer_product(Vector<m> a,Vector<n> b){ Matrix<m,n> c; for(Int j=0;j<n;j++) for(Int i=0;i<m;i++) c[j][i]=a[i]*b[j]; return c; }
template<Int n> OMEGA_H_INLINE Tensor<n> identity_tensor(){ Tensor<n> c; for(Int j=0;j<n;j++) for(Int i=0;i<n;i++) c[j][i]=i==j; return c; }
OMEGA_H_INLINE Tensor<3> tensor_3(Real a,Real b,Real c,Real d,Real e,Real f,Real g,Real h,Real i){ Tensor<3> o; o(0,0)=a; o(0,1)=b; o(0,2)=c; o(1,0)=d; o(1,1)=e; o(1,2)=f; o(2,0)=g; o(2,1)=h; o(2,2)=i; return o; }
OMEGA_H_INLINE Real determinant(Tensor<1> m){ return m[0][0]; }
OMEGA_H_INLINE Real determinant(Tensor<2> m){ return m(0,0)*m(1,1)-m(1,0)*m(0,1); }
OMEGA_H_INLINE Real determinant(Tensor<3> m){ return m(0,0)*(m(1,1)*m(2,2)-m(1,2)*m(2,1))-m(0,1)*(m(1,0)*m(2,2)-m(1,2)*m(2,0))+m(0,2)*(m(1,0)*m(2,1)-m(1,1)*m(2,0)); }
OMEGA_H_INLINE Tensor<1> invert(Tensor<1> m){ Tensor<1> o; o[0][0]=1.0/m[0][0]; return o; }
OMEGA_H_INLINE Tensor<2> invert(Tensor<2> m){ Tensor<2> o; Real d=determinant(m); o(0,0)=m(1,1)/d; o(1,1)=m(0,0)/d; o(0,1)=-m(0,1)/d; o(1,0)=-m(1,0)/d; return o; }
OMEGA_H_INLINE Tensor<3> invert(Tensor<3> m){ Tensor<3> o; Real d=determinant(m); for(Int i=0;i<3;i++) for(Int j=0;j<3;j++){ Int a=(j+1)%3,b=(j+2)%3,c=(i+1)%3,e=(i+2)%3; o(i,j)=(m(a,c)*m(b,e)-m(a,e)*m(b,c))/d; } return o; }
// ------------------------------------------------ arrays
template<class T> class HostWrite;
template<class T> class Write { Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::HostSpace> v; public:
  Write(){} Write(LO n,std::string const& s="a"):v(s,n){} Write(LO n,T x,std::string const& s="a"):v(s,n){ for(LO i=0;i<n;i++) v(i)=x; } Write(Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::HostSpace> w):v(w){} template<class... P> Write(Kokkos::View<T*,P...> w):v(w){} template<class... P> Write(Kokkos::View<const T*,P...> w):v("w",w.extent(0)){ for(size_t i=0;i<w.extent(0);i++) v(i)=w(i); }
  Write(std::initializer_list<T> l,std::string const& s="a"):v(s,l.size()){ LO i=0; for(auto& x:l) v(i++)=x; }
  OMEGA_H_INLINE LO size() const { return (LO)v.extent(0); } OMEGA_H_INLINE T& operator[](LO i) const { return v(i); } OMEGA_H_INLINE T* data() const { return v.data(); } OMEGA_H_INLINE T* begin() const { return v.data(); } OMEGA_H_INLINE T* end() const { return v.data()+size(); } OMEGA_H_INLINE bool exists() const { return v.data()!=nullptr; } T get(LO i) const { return v(i); } void set(LO i,T x) const { v(i)=x; } auto view() const { return v; } OMEGA_H_INLINE Write(HostWrite<T> const& h); };
template<class T> class Read { Write<T> w; public: Read(){} Read(Write<T> x):w(x){} Read(std::initializer_list<T> l,std::string const& s="a"):w(l,s){} Read(LO n,T x,std::string const& s="a"):w(n,x,s){} Read(HostWrite<T> const& h);
  OMEGA_H_INLINE LO size() const { return w.size(); } OMEGA_H_INLINE T const& operator[](LO i) const { return w[i]; } OMEGA_H_INLINE T const* data() const { return w.data(); } OMEGA_H_INLINE T const* begin() const { return w.begin(); } OMEGA_H_INLINE T const* end() const { return w.end(); } OMEGA_H_INLINE bool exists() const { return w.exists(); } T get(LO i) const { return w[i]; } T first() const { return w[0]; } T last() const { return w[size()-1]; } auto view() const { return w.view(); } };
template<class T> class HostWrite { Write<T> w; public: HostWrite(){} HostWrite(LO n,std::string const& s="a"):w(n,s){} HostWrite(Write<T> x):w(x){} LO size() const { return w.size(); } T& operator[](LO i) const { return w[i]; } T* data() const { return w.data(); } Write<T> write() const { return w; } void set(LO i,T x) const { w[i]=x; } T get(LO i) const { return w[i]; } };
template<class T> class HostRead { Read<T> r; public: HostRead(){} HostRead(Read<T> x):r(x){} LO size() const { return r.size(); } T const& operator[](LO i) const { return r[i]; } T const* data() const { return r.data(); } T get(LO i) const { return r[i]; } };
template<class T> OMEGA_H_INLINE Write<T>::Write(HostWrite<T> const& h):Write(h.write()){}
template<class T> Read<T>::Read(HostWrite<T> const& h):w(h.write()){}
typedef Read<LO> LOs; typedef Read<Real> Reals; typedef Read<I8> Bytes; typedef Read<GO> GOs;
struct Graph { LOs a2ab,ab2b; Graph(){} Graph(LOs a,LOs b):a2ab(a),ab2b(b){} Graph(LOs b):ab2b(b){} };
struct Adj : Graph { Read<I8> codes; using Graph::Graph; Adj(){} };
// ------------------------------------------------ mesh: simplices given by their vertices, sides numbered in order of first appearance
OMEGA_H_INLINE Int simplex_down_template(Int d,Int,Int side,Int v){ static const Int t1[2][1]={{0},{1}}, t2[3][2]={{0,1},{1,2},{2,0}}, t3[4][3]={{0,2,1},{0,1,3},{1,2,3},{2,0,3}}; return d==1?t1[side][v]:d==2?t2[side][v]:t3[side][v]; }
OMEGA_H_INLINE Vector<1> get_side_vector(Few<Vector<1>,2>,Int s){ return {s==0?-1.0:1.0}; }
OMEGA_H_INLINE Vector<2> get_side_vector(Few<Vector<2>,3> p,Int s){ return -perp(p[simplex_down_template(2,1,s,1)]-p[simplex_down_template(2,1,s,0)]); }
OMEGA_H_INLINE Vector<3> get_side_vector(Few<Vector<3>,4> p,Int s){ auto a=p[simplex_down_template(3,2,s,0)],b=p[simplex_down_template(3,2,s,1)],c=p[simplex_down_template(3,2,s,2)]; return cross(b-a,c-a)/2.0; }
enum SetType { ELEM_SET=0, NODE_SET=1, SIDE_SET=2, NSET_TYPES=3 };
struct ClassPair { Int dim; LO id; }; typedef std::map<std::string,std::vector<ClassPair>> ClassSets;
typedef std::map<std::string,LOs> MeshDimSets; typedef std::array<MeshDimSets,NSET_TYPES> MeshSets; typedef std::array<ClassSets,NSET_TYPES> Assoc;
inline void update_assoc(Assoc*,...){} 
struct Tag { Int n; std::map<int,int> none; Reals r; };
class Library {}; typedef std::shared_ptr<int> CommPtr;
enum Omega_h_Parting { OMEGA_H_ELEM_BASED, OMEGA_H_GHOSTED, OMEGA_H_VERT_BASED };
class Mesh { Int d=0; LO nv=0,nc=0; LOs ev,sv; Reals xyz; std::map<std::string,Reals> tags; std::vector<std::vector<LO>> side; std::vector<LO> c2s; std::vector<std::vector<LO>> s2c;
  static LOs los(std::vector<LO> const& x){ Write<LO> w((LO)x.size()); for(size_t i=0;i<x.size();i++) w[i]=x[i]; return w; }
public: ClassSets class_sets; Mesh(){} Mesh(Library*){}
  Mesh(Int dim,LO nverts,Reals coords,std::vector<LO> const& cells):d(dim),nv(nverts),nc((LO)cells.size()/(dim+1)),ev(los(cells)),xyz(coords){ std::map<std::vector<LO>,LO> seen; std::vector<LO> f; for(LO c=0;c<nc;c++) for(Int s=0;s<=d;s++){ std::vector<LO> v,k; for(Int i=0;i<d;i++) v.push_back(cells[c*(d+1)+simplex_down_template(d,d-1,s,i)]); k=v; for(size_t i=0;i<k.size();i++) for(size_t j=i+1;j<k.size();j++) if(k[j]<k[i]) std::swap(k[i],k[j]); if(!seen.count(k)){ LO id=(LO)side.size(); if(d==1){ id=v[0]; } seen[k]=id; if(d>1){ side.push_back(v); s2c.push_back({}); } else { while((LO)side.size()<nv){ side.push_back({(LO)side.size()}); s2c.push_back({}); } } } c2s.push_back(seen[k]); s2c[seen[k]].push_back(c); } for(auto& v:side) for(LO x:v) f.push_back(x); sv=los(f); }
  Int dim() const { return d; } LO nverts() const { return nv; } LO nelems() const { return nc; } LO nsides() const { return (LO)side.size(); } LO nents(Int k) const { return k==0?nv:k==d?nc:(LO)side.size(); }
  LOs ask_elem_verts() const { return ev; } LOs ask_verts_of(Int k) const { return k==d?ev:sv; } Reals coords() const { return xyz; } void set_coords(Reals c){ xyz=c; }
  Adj ask_down(Int,Int k) const { return k==0?Adj(ev):Adj(los(c2s)); }
  Adj ask_up(Int k,Int) const { std::vector<LO> a,b; a.push_back(0); if(k==0){ for(LO v=0;v<nv;v++){ for(LO c=0;c<nc;c++) for(Int i=0;i<=d;i++) if(ev[c*(d+1)+i]==v) b.push_back(c); a.push_back((LO)b.size()); } } else for(auto& s:s2c){ for(LO c:s) b.push_back(c); a.push_back((LO)b.size()); } return Adj(los(a),los(b)); }
  Graph ask_star(Int) const { std::vector<LO> a,b; a.push_back(0); for(LO v=0;v<nv;v++){ std::vector<char> h(nv,0); for(LO c=0;c<nc;c++){ bool in=false; for(Int i=0;i<=d;i++) if(ev[c*(d+1)+i]==v) in=true; if(in) for(Int i=0;i<=d;i++) h[ev[c*(d+1)+i]]=1; } for(LO w=0;w<nv;w++) if(h[w]&&w!=v) b.push_back(w); a.push_back((LO)b.size()); } return Graph(los(a),los(b)); }
  template<class T> void add_tag(Int,std::string const& n,Int,Read<T> r){ set(n,r); } template<class T> void set_tag(Int,std::string const& n,Read<T> r){ set(n,r); } void set(std::string const& n,Reals r){ tags[n]=r; } template<class T> void set(std::string const&,Read<T>){} bool has_tag(Int,std::string const& n) const { return tags.count(n)!=0; } template<class T> Read<T> get_array(Int,std::string const& n) const { return tags.at(n); }
  void set_parting(Omega_h_Parting,bool=false){} };
typedef std::array<std::map<std::string,int>,4> TagSet;
inline TagSet get_all_mesh_tags(Mesh*){ return TagSet(); }
namespace vtk { inline TagSet get_all_vtk_tags(Mesh*,Int){ return TagSet(); } struct Writer { Writer(){} template<class... A> Writer(A const&...){} template<class... A> void write(A const&...){} }; }
namespace exodus { inline void write(std::string const&,Mesh*){} }
struct Eigen3 { Tensor<3> q; Vector<3> l; };
template<Int n> struct DiagDecomp { Tensor<n> q; Vector<n> l; };
template<Int n> OMEGA_H_INLINE DiagDecomp<n> decompose_eigen_jacobi(Tensor<n> m);
// ------------------------------------------------ functions of position, evaluated point by point: + - * / ^ ( ) numbers x y z t sin cos exp sqrt
struct any { Reals r; any(){} any(Reals x):r(x){} };
template<class T> T any_cast(any const& a){ return a.r; }
class ExprReader { LO n; std::map<std::string,Reals> vars; const char* p; LO at;
  void sp(){ while(*p==' ') p++; }
  Real sum(){ Real a=term(); for(;;){ sp(); if(*p=='+'){ p++; a+=term(); } else if(*p=='-'){ p++; a-=term(); } else return a; } }
  Real term(){ Real a=pw(); for(;;){ sp(); if(*p=='*'){ p++; a*=pw(); } else if(*p=='/'){ p++; a/=pw(); } else return a; } }
  Real pw(){ sp(); if(*p=='-'){ p++; return -pw(); } Real a=atom(); sp(); if(*p=='^'){ p++; a=std::pow(a,pw()); } return a; }
  Real atom(){ sp(); if(*p=='('){ p++; Real a=sum(); sp(); if(*p!=')') abort(); p++; return a; } if((*p>='0'&&*p<='9')||*p=='.'){ char* e; Real a=strtod(p,&e); p=e; return a; } std::string s; while((*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')||*p=='_') s+=*p++; sp(); if(*p=='('){ p++; Real a=sum(); sp(); if(*p!=')') abort(); p++; return s=="sin"?std::sin(a):s=="cos"?std::cos(a):s=="exp"?std::exp(a):s=="sqrt"?std::sqrt(a):(abort(),0.0); } if(!vars.count(s)) abort(); return vars[s][at]; }
public: ExprReader(LO count,Int):n(count),p(0),at(0){} void register_variable(std::string const& s,any const& a){ vars[s]=a.r; } void repeat(any&){}
  any read_string(std::string const& s,std::string const&){ Write<Real> w(n); for(at=0;at<n;at++){ p=s.c_str(); w[at]=sum(); sp(); if(*p) abort(); } return any(Reals(w)); } };
}
