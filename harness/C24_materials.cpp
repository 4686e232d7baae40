// The elastic, thermoelastic and electroelastic models selected in the input are built with exactly the entries given.
#include "sxmat.hpp"
#include "LinearThermoelasticMaterial.cpp"
#include "LinearElectroelasticMaterial.cpp"
#include "ElasticModelFactory.hpp"
#include "IsotropicMaterialUtilities.hpp"
#define S1(n,...) static void n(){ __VA_ARGS__; } SX_TSCENARIO(n,n)
typedef Teuchos::ParameterList PL;
static double R(const char* n,double lo=-4,double hi=4){ return sx::real(n,lo,hi); }
static double Rp(const char* n){ return sx::real(n,0.25,4); }
static double Rn(const char* n){ return sx::real(n,-0.5,0.4375); }
static bool opt(const char* n){ return sx::int32(n,0,1)==1; }
template<int D> struct Vt { static const int V=D==1?1:D==2?3:6; };
// isotropic law in Voigt notation with engineering shear
template<int D> double iso(double E,double v,int i,int j){ double l=E*v/((1+v)*(1-2*v)),g=E/(2*(1+v)); if(i<D&&j<D) return l+(i==j?2*g:0); return i==j?g:0; }
template<int D,class M> void stiff(const M& m,double E,double v){ auto C=m.getStiffnessMatrix(); for(int i=0;i<Vt<D>::V;i++) for(int j=0;j<Vt<D>::V;j++) sx::eq(sx::nm("C",i,j),C(i,j),iso<D>(E,v,i,j)); }
template<int D> const char* strainName(int k){ static const char* n1[]={"e11"}; static const char* n2[]={"e11","e22","e12"}; static const char* n3[]={"e11","e22","e33","e23","e13","e12"}; return D==1?n1[k]:D==2?n2[k]:n3[k]; }
// entries every elastic model has: reference strain and Rayleigh coefficients, zero unless given
template<int D> void common(PL& p,std::vector<bool>& g){ g.clear(); bool odd=opt("odd"); for(int k=0;k<Vt<D>::V;k++){ g.push_back((k%2==1)==odd); if(g[k]) p.set(strainName<D>(k),R(strainName<D>(k))); } bool a=opt("givea"),b=opt("giveb"); g.push_back(a); g.push_back(b); if(a) p.set("RayleighA",R("ra")); if(b) p.set("RayleighB",R("rb")); }
template<int D,class M> void checkCommon(const M& m,const std::vector<bool>& g){ auto e=m.getReferenceStrain(); const int V=Vt<D>::V; for(int k=0;k<V;k++) sx::eq(sx::nm("refstrain",k),e(k),g[k]?R(strainName<D>(k)):0.0); sx::eq("rayleigha",m.getRayleighA(),g[V]?R("ra"):0.0); sx::eq("rayleighb",m.getRayleighB(),g[V+1]?R("rb"):0.0); }
template<int D> Teuchos::RCP<Plato::LinearElasticMaterial<D>> make(PL& in,const char* nm){ return Plato::ElasticModelFactory<D>(in).create(nm); }
template<int D> void isotropic(){ PL in; PL& p=at(in,"Material Models/M/Isotropic Linear Elastic"); double E=Rp("E"),v=Rn("v"); p.set("Youngs Modulus",E).set("Poissons Ratio",v); at(in,"Material Models/Other/Isotropic Linear Elastic").set("Youngs Modulus",1.5).set("Poissons Ratio",0.25); bool ps=opt("giveps"),rho=opt("giverho"); if(ps) p.set("Pressure Scaling",R("ps")); if(rho) p.set("Mass Density",R("rho")); std::vector<bool> g; common<D>(p,g); auto m=make<D>(in,"M"); stiff<D>(*m,E,v); checkCommon<D>(*m,g); sx::eq("pressure_scaling",m->getPressureScaling(),ps?R("ps"):E/(3*(1-2*v))); sx::eq("density",m->getMassDensity(),rho?R("rho"):1.0);
  PL bad=in; sx::ok("unknown",sx::throws([&]{ make<D>(in,"X"); })); PL q=in; at(q,"Material Models/M/Isotropic Linear Elastic").remove("Youngs Modulus"); sx::ok("E_required",sx::throws([&]{ make<D>(q,"M"); })); PL r=in; at(r,"Material Models/M/Isotropic Linear Elastic").remove("Poissons Ratio"); sx::ok("v_required",sx::throws([&]{ make<D>(r,"M"); })); }
template<int D> void isoDirect(){ double E=Rp("E"),v=Rn("v"); Plato::IsotropicLinearElasticMaterial<D> m(E,v); stiff<D>(m,E,v); }
template<int D> void cubic(){ PL in; PL& p=at(in,"Material Models/M/Cubic Linear Elastic"); double a=R("c11"),b=R("c12"),c=R("c44"); p.set("C11",a); if(D>1) p.set("C12",b).set("C44",c); bool rho=opt("giverho"); if(rho) p.set("Mass Density",R("rho")); std::vector<bool> g; common<D>(p,g); auto m=make<D>(in,"M"); auto C=m->getStiffnessMatrix(); for(int i=0;i<Vt<D>::V;i++) for(int j=0;j<Vt<D>::V;j++) sx::eq(sx::nm("C",i,j),C(i,j),i<D&&j<D?(i==j?a:b):i==j?c:0.0); checkCommon<D>(*m,g); sx::eq("density",m->getMassDensity(),rho?R("rho"):1.0); const char* nm[]={"C11","C12","C44"}; for(int k=0;k<(D==1?1:3);k++){ PL q=in; at(q,"Material Models/M/Cubic Linear Elastic").remove(nm[k]); sx::ok(sx::nm("required",k),sx::throws([&]{ make<D>(q,"M"); })); } }
template<int D> void custom(int eq){ static const char* e[]={"E/((1.0+v)*(1.0-2.0*v))","E*v+2.0","E*(1.0+v)"}; PL in; PL& p=at(in,"Material Models/M/Custom Linear Elastic"); double E=Rp("E"),v=Rn("v"); p.set("E",E).set("v",v).set("Equation",std::string(e[eq])); bool ps=opt("giveps"),rho=opt("giverho"); if(ps) p.set("Pressure Scaling",R("ps")); if(rho) p.set("Mass Density",R("rho")); std::vector<bool> g; common<D>(p,g); auto m=make<D>(in,"M"); double c=eq==0?E/((1+v)*(1-2*v)):eq==1?E*v+2:E*(1+v); auto C=m->getStiffnessMatrix(); for(int i=0;i<Vt<D>::V;i++) for(int j=0;j<Vt<D>::V;j++) sx::eq(sx::nm("C",i,j),C(i,j),i<D&&j<D?c*(i==j?1-v:v):i==j?c*(1-2*v)/2:0.0); checkCommon<D>(*m,g); sx::eq("pressure_scaling",m->getPressureScaling(),ps?R("ps"):E/(3*(1-2*v))); sx::eq("density",m->getMassDensity(),rho?R("rho"):1.0); }
struct Ortho { double Ex,Ey,Ez,Gxy,Gxz,Gyz,vxy,vxz,vyz; };
template<int D> void put(PL& p,const Ortho& o){ p.set("Youngs Modulus X",o.Ex).set("Youngs Modulus Y",o.Ey).set("Shear Modulus XY",o.Gxy).set("Poissons Ratio XY",o.vxy); if(D==3) p.set("Youngs Modulus Z",o.Ez).set("Shear Modulus XZ",o.Gxz).set("Shear Modulus YZ",o.Gyz).set("Poissons Ratio XZ",o.vxz).set("Poissons Ratio YZ",o.vyz); }
template<int D,class M> void inverse(const M& m,const Ortho& o){ const int V=Vt<D>::V; auto C=m.getStiffnessMatrix(); double S[6][6]={{0}}; S[0][0]=1/o.Ex; S[1][1]=1/o.Ey; S[0][1]=S[1][0]=-o.vxy/o.Ex; if(D==3){ S[2][2]=1/o.Ez; S[0][2]=S[2][0]=-o.vxz/o.Ex; S[1][2]=S[2][1]=-o.vyz/o.Ey; S[3][3]=1/o.Gyz; S[4][4]=1/o.Gxz; S[5][5]=1/o.Gxy; } else S[2][2]=1/o.Gxy; for(int i=0;i<V;i++) for(int j=0;j<V;j++){ double s=0; for(int k=0;k<V;k++) s+=C(i,k)*S[k][j]; sx::eq(sx::nm("CS",i,j),s,i==j?1.0:0.0); } for(int i=0;i<V;i++) for(int j=0;j<i;j++) sx::eq(sx::nm("symmetric",i,j),C(i,j),C(j,i)); }
template<int D> Ortho stable(int mode=0){ if(mode==1) return Ortho{Rp("Ex"),Rp("Ey"),Rp("Ez"),Rp("Gxy"),Rp("Gxz"),Rp("Gyz"),0.0625,-0.03125,0.125}; if(mode==2) return Ortho{1,2,0.5,Rp("Gxy"),Rp("Gxz"),Rp("Gyz"),R("vxy",-0.2,0.2),R("vxz",-0.2,0.2),R("vyz",-0.2,0.2)}; Ortho o{Rp("Ex"),Rp("Ey"),Rp("Ez"),Rp("Gxy"),Rp("Gxz"),Rp("Gyz"),R("vxy",-0.1,0.1),R("vxz",-0.1,0.1),R("vyz",-0.1,0.1)}; return o; }
template<int D> void ortho(int mode=0){ PL in; PL& p=at(in,"Material Models/M/Orthotropic Linear Elastic"); Ortho o=stable<D>(mode); put<D>(p,o); bool rho=opt("giverho"); if(rho) p.set("Mass Density",R("rho")); std::vector<bool> g; common<D>(p,g); auto m=make<D>(in,"M"); inverse<D>(*m,o); checkCommon<D>(*m,g); sx::eq("density",m->getMassDensity(),rho?R("rho"):1.0); }
static const char* orthoNames[]={"Youngs Modulus X","Youngs Modulus Y","Shear Modulus XY","Poissons Ratio XY","Youngs Modulus Z","Shear Modulus XZ","Shear Modulus YZ","Poissons Ratio XZ","Poissons Ratio YZ"};
template<int D> void orthoRequired(){ Ortho o{1,2,3,1,1,1,0.1,0.1,0.1}; for(int k=0;k<(D==2?4:9);k++){ PL in; PL& p=at(in,"Material Models/M/Orthotropic Linear Elastic"); put<D>(p,o); p.remove(orthoNames[k]); sx::ok(sx::nm("required",k),sx::throws([&]{ make<D>(in,"M"); })); } }
// any input is either rejected or gives a positive definite stiffness; inputs satisfying all stability conditions are accepted
template<int D> void orthoStability(){ Ortho o{1,2,0.5,1,1,1,0.25,0.25,0.25}; int which=sx::int32("which",0,D==2?3:8); double y=R("y",-8,8); double* f[]={&o.Ex,&o.Ey,&o.Gxy,&o.vxy,&o.Ez,&o.Gxz,&o.Gyz,&o.vxz,&o.vyz}; for(int k=0;k<9;k++) if(which==k) *f[k]=y; PL in; PL& p=at(in,"Material Models/M/Orthotropic Linear Elastic"); put<D>(p,o); bool threw=sx::throws([&]{ make<D>(in,"M"); });
  bool pos=o.Ex>0&&o.Ey>0&&o.Gxy>0&&(D==2||(o.Ez>0&&o.Gxz>0&&o.Gyz>0)); if(!pos){ sx::ok("not_positive_rejected",threw); return; } double yx=o.vxy*o.Ey/o.Ex,zx=o.vxz*o.Ez/o.Ex,zy=o.vyz*o.Ez/o.Ey; double m1=1-o.vxy*yx,m2=1-o.vyz*zy,m3=1-o.vxz*zx,det=1-o.vxy*yx-o.vyz*zy-o.vxz*zx-2*yx*zy*o.vxz; double least=m1; if(D==3){ if(m2<least) least=m2; if(m3<least) least=m3; if(det<least) least=det; }
  sx::ok("unstable_rejected",threw||(pos&&least>=-1e-6)); sx::ok("stable_accepted",!threw||!(pos&&least>=1e-6)); }
static void ortho1(){ PL in; PL& p=at(in,"Material Models/M/Orthotropic Linear Elastic"); double E=Rp("E"),v=Rn("v"); p.set("Youngs Modulus",E).set("Poissons Ratio",v); bool rho=opt("giverho"); if(rho) p.set("Mass Density",R("rho")); std::vector<bool> g; common<1>(p,g); auto m=make<1>(in,"M"); stiff<1>(*m,E,v); checkCommon<1>(*m,g); sx::eq("density",m->getMassDensity(),rho?R("rho"):1.0); }
template<int D> void orthoSet(int mode=0){ Ortho a=stable<D>(mode); Ortho o{1,2,3,1,1,1,0.1,0.1,0.1}; PL p,q; put<D>(p,o); put<D>(q,a); Plato::OrthotropicLinearElasticMaterial<D> m(p); m.setMaterialModel(q); inverse<D>(m,a); Plato::OrthotropicLinearElasticMaterial<D> n; n.setMaterialModel(q); inverse<D>(n,a); }
// thermoelastic
template<int D> void thermo(bool cub){ PL in; const char* nm=cub?"Material Models/M/Cubic Linear Thermoelastic":"Material Models/M/Isotropic Linear Thermoelastic"; PL& p=at(in,nm); double E=Rp("E"),v=Rn("v"); p.set("Youngs Modulus",E).set("Poissons Ratio",v).set("Reference Temperature",R("T0")); double a[3],k[3]; for(int i=0;i<3;i++){ a[i]=R(cub?sx::nm("a",i).c_str():"a"); k[i]=R(cub?sx::nm("k",i).c_str():"k"); } static const char* an[]={"a11","a22","a33"}; static const char* kn[]={"k11","k22","k33"}; if(cub) for(int i=0;i<D;i++) p.set(an[i],a[i]).set(kn[i],k[i]); else p.set("Thermal Expansion Coefficient",a[0]).set("Thermal Conductivity Coefficient",k[0]);
  static const char* on[]={"Mass Density","Specific Heat","Temperature Scaling","Pressure Scaling"}; bool g[4]; bool alt=opt("alt"),all=opt("all"); for(int i=0;i<4;i++){ g[i]=all||((i%2==1)==alt); if(g[i]) p.set(on[i],R(sx::nm("o",i).c_str())); }
  auto m=Plato::LinearThermoelasticModelFactory<D>(in).create("M"); stiff<D>(*m,E,v); auto ex=m->getThermalExpansion(); auto co=m->getThermalConductivity(); for(int i=0;i<D;i++){ sx::eq(sx::nm("expansion",i),ex(i),a[i]); for(int j=0;j<D;j++) sx::eq(sx::nm("conductivity",i,j),co(i,j),i==j?k[i]:0.0); } sx::eq("T0",m->getReferenceTemperature(),R("T0")); double ov[]={m->getMassDensity(),m->getSpecificHeat(),m->getTemperatureScaling(),m->getPressureScaling()}; for(int i=0;i<4;i++) sx::eq(sx::nm("optional",i),ov[i],g[i]?R(sx::nm("o",i).c_str()):1.0);
  std::vector<std::string> rq={"Youngs Modulus","Poissons Ratio","Reference Temperature"}; if(cub) for(int i=0;i<D;i++){ rq.push_back(an[i]); rq.push_back(kn[i]); } else { rq.push_back("Thermal Expansion Coefficient"); rq.push_back("Thermal Conductivity Coefficient"); } for(size_t i=0;i<rq.size();i++){ PL q=in; at(q,nm).remove(rq[i]); sx::ok(sx::nm("required",i),sx::throws([&]{ Plato::LinearThermoelasticModelFactory<D>(q).create("M"); })); } sx::ok("unknown",sx::throws([&]{ Plato::LinearThermoelasticModelFactory<D>(in).create("X"); })); }
template<int D> void electro(){ PL in; const char* nm="Material Models/M/Isotropic Linear Electroelastic"; PL& p=at(in,nm); double E=Rp("E"),v=Rn("v"),e15=R("e15"),e31=R("e31"),e33=R("e33"),p11=R("p11"),p33=R("p33"); p.set("Youngs Modulus",E).set("Poissons Ratio",v).set("e33",e33).set("p33",p33); if(D>1) p.set("e15",e15).set("e31",e31).set("p11",p11); bool al=opt("giveal"); if(al) p.set("Alpha",R("al")); auto m=Plato::ElectroelasticModelFactory<D>(in).create("M"); stiff<D>(*m,E,v); sx::eq("alpha",m->getAlpha(),al?R("al"):1.0); auto e=m->getPiezoMatrix(); auto k=m->getPermittivityMatrix(); const int P=D-1; for(int d=0;d<D;d++){ for(int j=0;j<D;j++) sx::eq(sx::nm("permittivity",d,j),k(d,j),d!=j?0.0:d==P?p33:p11); for(int i=0;i<Vt<D>::V;i++){ int x=i<D?i:D==2?0:i==3?1:0,y=i<D?i:D==2?1:i==5?1:2; double w=d==P?(x==P&&y==P?e33:x==y?e31:0.0):((x==d&&y==P)||(x==P&&y==d)?e15:0.0); sx::eq(sx::nm("piezo",d,i),e(d,i),w); } }
  std::vector<std::string> rq={"Youngs Modulus","Poissons Ratio","e33","p33"}; if(D>1){ rq.push_back("e15"); rq.push_back("e31"); rq.push_back("p11"); } for(size_t i=0;i<rq.size();i++){ PL q=in; at(q,nm).remove(rq[i]); sx::ok(sx::nm("required",i),sx::throws([&]{ Plato::ElectroelasticModelFactory<D>(q).create("M"); })); } sx::ok("unknown",sx::throws([&]{ Plato::ElectroelasticModelFactory<D>(in).create("X"); })); }
#define D3(n,f) S1(n##_1d,f<1>()) S1(n##_2d,f<2>()) S1(n##_3d,f<3>())
D3(isotropic,isotropic) D3(isotropic_direct,isoDirect) D3(cubic,cubic) D3(electro,electro)
S1(custom_1d,custom<1>(0)) S1(custom_2d,custom<2>(1)) S1(custom_3d,custom<3>(0)) S1(custom2_3d,custom<3>(2))
S1(ortho_1d,ortho1()) S1(ortho_2d,ortho<2>()) S1(ortho_moduli_3d,ortho<3>(1)) S1(ortho_ratios_3d,ortho<3>(2)) S1(ortho_required_2d,orthoRequired<2>()) S1(ortho_required_3d,orthoRequired<3>()) S1(ortho_stability_2d,orthoStability<2>()) S1(ortho_stability_3d,orthoStability<3>()) S1(ortho_reset_2d,orthoSet<2>()) S1(ortho_reset_3d,orthoSet<3>(2))
S1(thermo_1d,thermo<1>(false)) S1(thermo_2d,thermo<2>(false)) S1(thermo_3d,thermo<3>(false)) S1(thermo_cubic_1d,thermo<1>(true)) S1(thermo_cubic_2d,thermo<2>(true)) S1(thermo_cubic_3d,thermo<3>(true))
