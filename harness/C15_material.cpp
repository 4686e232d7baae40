// C15: material property containers, tensors, isotropic stiffness and the thermal material factories: the material that is used is the material that was given.
#include "sxplato.hpp"
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_Array.hpp>
#include <functional>
#include "MaterialModel.hpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicStiffness.cpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalMassMaterial.hpp"
#include "ThermoelasticMaterial.hpp"
typedef Sacado::Fad::SFad<double,1> F1;
typedef Teuchos::ParameterList PL;
static double R(const std::string& n,double lo=-10,double hi=10){ return sx::real(n,lo,hi); }
template<int D> static std::string key(const char* p,int k,int i,int j){ return std::string(p)+(k<0?"":std::to_string(k))+std::to_string(i+1)+std::to_string(j+1); }
static double quad(double a,double b,double c,double T){ return a+b*T+c*T*T; }
// ------------------------------------------------ scalar maps
SC(scalar_functor, double T=R("T"); int given=sx_int32("given",0,3); double c[3]={R("c0"),given&1?R("c1"):0,given&2?R("c2"):0}; PL l; l.set<double>("c0",c[0]); if(given&1) l.set<double>("c1",c[1]); if(given&2) l.set<double>("c2",c[2]); ScalarFunctor f(l); sx::eq("value",f(T),quad(c[0],c[1],c[2],T)); F1 t(1,0,T); F1 y=f(t); sx::eq("fad_value",y.val(),quad(c[0],c[1],c[2],T)); sx::deriv("fad_deriv",y.dx(0),y.val(),T); ScalarFunctor k(c[0]); sx::eq("constant",k(T),c[0]); ScalarFunctor z; sx::eq("zero",z(T),0); PL e; e.set<double>("c1",1.0); sx::ok("c0_required",sx::throws([&]{ ScalarFunctor q(e); })))
// ------------------------------------------------ second-rank tensors: any subset of the entries given
template<int D> static void tensor(){ const int N=D*(D+1)/2; int g=sx_int32("given",0,(1<<N)-1); PL c,f; double v[D][D]={},w[3][D][D]={}; int b=0; bool have11=false; double T=R("T");
  for(int i=0;i<D;i++)for(int j=i;j<D;j++,b++){ bool on=(g>>b)&1; if(i==0&&j==0) have11=on; double dv=(i==j&&i>0)?v[0][0]:0; v[i][j]=v[j][i]=on?R(key<D>("c",-1,i,j)):dv; if(on) c.set<double>(key<D>("c",-1,i,j),v[i][j]);
    for(int k=0;k<3;k++){ bool o=on; double dw=(i==j&&i>0)?w[k][0][0]:0; w[k][i][j]=w[k][j][i]=o?R(key<D>("f",k,i,j)):dw; if(o) f.set<double>(key<D>("c",k,i,j),w[k][i][j]); } }
  if(!have11){ sx::ok("required_constant",sx::throws([&]{ TensorConstant<D> t(c); })); sx::ok("required_functor",sx::throws([&]{ TensorFunctor<D> t(f); })); return; }
  TensorConstant<D> t(c); TensorFunctor<D> u(f); for(int i=0;i<D;i++)for(int j=0;j<D;j++){ sx::eq(sx::nm("constant",i,j),t(i,j),v[i][j]); sx::eq(sx::nm("functor",i,j),u(T,i,j),quad(w[0][i][j],w[1][i][j],w[2][i][j],T)); } }
SC(tensor1,tensor<1>()) SC(tensor2,tensor<2>()) SC(tensor3,tensor<3>())
template<int D> static void isotensor(){ double a=R("a"),T=R("T"); TensorConstant<D> c(a),z; TensorFunctor<D> f(a),y; for(int i=0;i<D;i++)for(int j=0;j<D;j++){ sx::eq(sx::nm("c",i,j),c(i,j),i==j?a:0); sx::eq(sx::nm("f",i,j),f(T,i,j),i==j?a:0); sx::eq(sx::nm("z",i,j),z(i,j),0); sx::eq(sx::nm("y",i,j),y(T,i,j),0); } }
SC(isotensor1,isotensor<1>()) SC(isotensor2,isotensor<2>()) SC(isotensor3,isotensor<3>())
// temperature coefficients given independently of each other
template<int D> static void tensor_orders(){ int g=sx_int32("given",0,7); double T=R("T"); PL f; f.set<double>("c011",R("a")); double w[3][D][D]={}; for(int i=0;i<D;i++) w[0][i][i]=R("a"); 
  if(g&1){ f.set<double>("c111",R("b")); for(int i=0;i<D;i++) w[1][i][i]=R("b"); } if(g&2){ f.set<double>("c211",R("c")); for(int i=0;i<D;i++) w[2][i][i]=R("c"); } if((g&4)&&D>1){ f.set<double>("c122",R("d")); w[1][1][1]=R("d"); }
  TensorFunctor<D> u(f); for(int i=0;i<D;i++)for(int j=0;j<D;j++){ F1 t(1,0,T); F1 y=u(t,i,j); sx::eq(sx::nm("functor",i,j),y.val(),quad(w[0][i][j],w[1][i][j],w[2][i][j],T)); sx::deriv(sx::nm("dT",i,j),y.dx(0),y.val(),T); } }
SC(tensor_orders1,tensor_orders<1>()) SC(tensor_orders2,tensor_orders<2>()) SC(tensor_orders3,tensor_orders<3>())
// one entry per order given (or all but one), chosen independently
template<int D> static void tensor_mix(bool but){ const int N=D*(D+1)/2; double T=R("T"); PL f; double w[3][D][D]={}; 
  for(int k=0;k<3;k++){ int g=sx::int32(sx::nm("given",k),0,N); int b=0; for(int i=0;i<D;i++)for(int j=i;j<D;j++,b++){ bool on=(g==b)!=but; if(k==0&&b==0) on=true; double dw=(i==j&&i>0)?w[k][0][0]:0; w[k][i][j]=w[k][j][i]=on?R(key<D>("f",k,i,j)):dw; if(on) f.set<double>(key<D>("c",k,i,j),w[k][i][j]); } }
  TensorFunctor<D> u(f); for(int i=0;i<D;i++)for(int j=0;j<D;j++) sx::eq(sx::nm("functor",i,j),u(T,i,j),quad(w[0][i][j],w[1][i][j],w[2][i][j],T)); }
SC(tensor_only2,tensor_mix<2>(false)) SC(tensor_only3,tensor_mix<3>(false)) SC(tensor_but2,tensor_mix<2>(true)) SC(tensor_but3,tensor_mix<3>(true))
// ------------------------------------------------ fourth-rank tensors in Voigt notation
template<int D> struct Spec{ static void fill(double (*v)[6],std::function<double(int,int,double)> g){ // documented defaults
    const int S=D==3?3:(D==2?2:1); v[0][0]=g(0,0,NAN); for(int i=1;i<S;i++) v[i][i]=g(i,i,v[0][0]); if(D==2) v[2][2]=g(2,2,NAN); if(D==3){ v[3][3]=g(3,3,NAN); v[4][4]=g(4,4,v[3][3]); v[5][5]=g(5,5,v[3][3]); } if(D>1) v[0][1]=v[1][0]=g(0,1,0); if(D==3){ v[0][2]=v[2][0]=g(0,2,v[0][1]); v[1][2]=v[2][1]=g(1,2,v[0][1]); } } };
template<int D> static void voigt(int lo,int hi){ const int N=Vg<D>::N; int g=sx_int32("given",lo,hi); PL c,f; double v[6][6]={},w[3][6][6]={}; int b=0; double T=R("T"); bool missing=false;
  std::vector<std::pair<int,int>> ord; Spec<D>::fill(v,[&](int i,int j,double d){ bool on=(g>>b)&1; b++; if(!on&&d!=d) missing=true; if(on){ double x=R(key<D>("c",-1,i,j)); c.set<double>(key<D>("c",-1,i,j),x); return x; } return d!=d?0.0:d; });
  for(int k=0;k<3;k++){ b=0; Spec<D>::fill(w[k],[&](int i,int j,double d){ bool on=(g>>b)&1; b++; if(on){ double x=R(key<D>("f",k,i,j)); f.set<double>(key<D>("c",k,i,j),x); return x; } return d!=d?0.0:d; }); }
  if(missing){ sx::ok("required_constant",sx::throws([&]{ Rank4VoigtConstant<D> t(c); })); sx::ok("required_functor",sx::throws([&]{ Rank4VoigtFunctor<D> t(f); })); return; }
  Rank4VoigtConstant<D> t(c); Rank4VoigtFunctor<D> u(f); for(int i=0;i<N;i++)for(int j=0;j<N;j++){ sx::eq(sx::nm("constant",i,j),t(i,j),v[i][j]); sx::eq(sx::nm("functor",i,j),u(T,i,j),quad(w[0][i][j],w[1][i][j],w[2][i][j],T)); F1 tf(1,0,T); F1 y=u(tf,i,j); sx::eq(sx::nm("fad",i,j),y.val(),quad(w[0][i][j],w[1][i][j],w[2][i][j],T)); sx::deriv(sx::nm("dT",i,j),y.dx(0),y.val(),T); } }
SC(voigt1,voigt<1>(0,1)) SC(voigt2,voigt<2>(0,15)) SC(voigt3a,voigt<3>(0,170)) SC(voigt3b,voigt<3>(171,341)) SC(voigt3c,voigt<3>(342,511))
// ------------------------------------------------ isotropic stiffness: one law in every dimension and for every temperature order
template<int D> static void isoexp(double E,double nu,int i,int j,double& e){ double la=E*nu/((1+nu)*(1-2*nu)),mu=E/(2*(1+nu)); e=(i<D&&j<D)?(la+(i==j?2*mu:0)):(i==j?mu:0); }
template<int D> static void iso(){ const int N=Vg<D>::N; double nu=R("nu",-0.9,0.49),E=R("E",0.1,10),E1=R("E1"),E2=R("E2"),T=R("T"); int g=sx_int32("given",0,3); PL c; c.set<double>("Youngs Modulus",E); c.set<double>("Poissons Ratio",nu); PL f; f.set<double>("Poissons Ratio",nu); f.sublist("Youngs Modulus").set<double>("c0",E); if(g&1) f.sublist("Youngs Modulus").set<double>("c1",E1); if(g&2) f.sublist("Youngs Modulus").set<double>("c2",E2);
  IsotropicStiffnessConstant<D> k(c); IsotropicStiffnessFunctor<D> u(f); double ET=quad(E,g&1?E1:0,g&2?E2:0,T);
  for(int i=0;i<N;i++)for(int j=0;j<N;j++){ double e,h; isoexp<D>(E,nu,i,j,e); isoexp<D>(ET,nu,i,j,h); sx::eq(sx::nm("constant",i,j),k(i,j),e); sx::eq(sx::nm("functor",i,j),u(T,i,j),h); F1 t(1,0,T); F1 y=u(t,i,j); sx::deriv(sx::nm("dT",i,j),y.dx(0),y.val(),T); }
  PL a,b; a.set<double>("Youngs Modulus",1.0); b.set<double>("Poissons Ratio",0.3); sx::ok("nu_required",sx::throws([&]{ IsotropicStiffnessConstant<D> q(a); })); sx::ok("E_required",sx::throws([&]{ IsotropicStiffnessConstant<D> q(b); })); PL d; d.sublist("Youngs Modulus").set<double>("c0",1.0); PL e; e.set<double>("Poissons Ratio",0.3); e.sublist("Youngs Modulus").set<double>("c1",1.0); sx::ok("nu_required_f",sx::throws([&]{ IsotropicStiffnessFunctor<D> q(d); })); sx::ok("E_required_f",sx::throws([&]{ IsotropicStiffnessFunctor<D> q(e); })); }
SC(iso1,iso<1>()) SC(iso2,iso<2>()) SC(iso3,iso<3>())
// ------------------------------------------------ material model: what is parsed is what is read back, constants and functions not confused
template<int D> static void model(bool dep){ PL l; if(dep) l.set<bool>("Temperature Dependent",true); MaterialModel<D> m(l); sx::ok("type",(m.type()==MaterialModelType::Nonlinear)==dep); double a=R("a"),b=R("b"),c=R("c"),T=R("T"); PL p; p.set<double>("s",a); p.sublist("f").set<double>("c0",a); p.sublist("f").set<double>("c1",b); p.set<double>("t",c); p.sublist(dep?"tf":"tc").set<double>(dep?"c011":"c11",b);
  m.parseScalar("s",p); if(dep) sx::eq("scalar",m.getScalarFunctor("s")(T),a); else sx::eq("scalar",m.getScalarConstant("s"),a);
  bool th=sx::throws([&]{ m.parseScalar("f",p); }); sx::ok("function_only_in_dependent_model",th==!dep); if(dep) sx::eq("function",m.getScalarFunctor("f")(T),a+b*T);
  m.parseTensor("t",p); for(int i=0;i<D;i++)for(int j=0;j<D;j++) sx::eq(sx::nm("tensor",i,j),dep?m.getTensorFunctor("t")(T,i,j):m.getTensorConstant("t")(i,j),i==j?c:0);
  m.parseTensor(dep?"tf":"tc",p); for(int i=0;i<D;i++) sx::eq(sx::nm("tensor_list",i),dep?m.getTensorFunctor("tf")(T,i,i):m.getTensorConstant("tc")(i,i),b);
  m.parseScalarConstant("s",p); sx::eq("constant",m.getScalarConstant("s"),a); m.parseScalarConstant("none",p,b); sx::eq("default",m.getScalarConstant("none"),b); m.parseScalarConstant("t",p,b); sx::eq("default_not_used",m.getScalarConstant("t"),c);
  sx::ok("missing_scalar",sx::throws([&]{ m.parseScalar("no",p); })); sx::ok("missing_constant",sx::throws([&]{ m.parseScalarConstant("no",p); })); sx::ok("missing_tensor",sx::throws([&]{ m.parseTensor("no",p); })); sx::ok("missing_rank4",sx::throws([&]{ m.parseRank4Voigt("s",p); }));
  PL q; PL& r=q.sublist("k"); for(int i=0;i<Vg<D>::N;i++) r.set<double>(std::string("c")+(dep?"0":"")+std::to_string(i+1)+std::to_string(i+1),R(sx::nm("k",i))); m.parseRank4Voigt("k",q); for(int i=0;i<Vg<D>::N;i++)for(int j=0;j<Vg<D>::N;j++) sx::eq(sx::nm("rank4",i,j),dep?m.getRank4VoigtFunctor("k")(T,i,j):m.getRank4VoigtConstant("k")(i,j),i==j?R(sx::nm("k",i)):0);
  m.setScalarConstant("s",b); m.setScalarFunctor("s",ScalarFunctor(c)); sx::eq("set_c",m.getScalarConstant("s"),b); sx::eq("set_f",m.getScalarFunctor("s")(T),c); }
SC(model1,model<1>(false)) SC(model2,model<2>(false)) SC(model3,model<3>(false)) SC(model1t,model<1>(true)) SC(model2t,model<2>(true)) SC(model3t,model<3>(true))
// ------------------------------------------------ thermal material factories
template<int D> static void factories(bool dep){ double k=R("k"),rho=R("rho"),cp=R("cp"),T=R("T"); PL in; PL& m=in.sublist("Material Models").sublist("M"); PL& c=m.sublist("Thermal Conduction"); c.set<double>("Thermal Conductivity",k); PL& h=m.sublist("Thermal Mass"); h.set<double>("Mass Density",rho); h.set<double>("Specific Heat",cp); if(dep){ c.set<bool>("Temperature Dependent",true); h.set<bool>("Temperature Dependent",true); } in.sublist("Material Models").sublist("Other");
  auto a=ThermalConductionModelFactory<D>(in).create("M"); for(int i=0;i<D;i++)for(int j=0;j<D;j++) sx::eq(sx::nm("conductivity",i,j),dep?a->getTensorFunctor("Thermal Conductivity")(T,i,j):a->getTensorConstant("Thermal Conductivity")(i,j),i==j?k:0);
  auto b=ThermalMassModelFactory<D>(in).create("M"); sx::eq("density",dep?b->getScalarFunctor("Mass Density")(T):b->getScalarConstant("Mass Density"),rho); sx::eq("heat",dep?b->getScalarFunctor("Specific Heat")(T):b->getScalarConstant("Specific Heat"),cp);
  sx::ok("unknown_c",sx::throws([&]{ ThermalConductionModelFactory<D>(in).create("X"); })); sx::ok("unknown_m",sx::throws([&]{ ThermalMassModelFactory<D>(in).create("X"); })); sx::ok("wrong_c",sx::throws([&]{ ThermalConductionModelFactory<D>(in).create("Other"); })); sx::ok("wrong_m",sx::throws([&]{ ThermalMassModelFactory<D>(in).create("Other"); })); PL none; sx::ok("none_c",ThermalConductionModelFactory<D>(none).create("M")==Teuchos::null); sx::ok("none_m",ThermalMassModelFactory<D>(none).create("M")==Teuchos::null); PL q; q.sublist("Material Models").sublist("M").sublist("Thermal Mass").set<double>("Mass Density",1.0); sx::ok("heat_required",sx::throws([&]{ ThermalMassModelFactory<D>(q).create("M"); })); }
SC(factories1,factories<1>(false)) SC(factories2,factories<2>(false)) SC(factories3,factories<3>(false)) SC(factories1t,factories<1>(true)) SC(factories2t,factories<2>(true)) SC(factories3t,factories<3>(true))
// ------------------------------------------------ thermoelastic material
template<int D> static PL thermo(bool dep,PL*& st){ PL in; PL& t=in.sublist("Material Models").sublist("M").sublist("Thermoelastic"); if(dep) t.set<bool>("Temperature Dependent",true); t.set<double>("Thermal Expansivity",R("al")); t.set<double>("Thermal Conductivity",R("k")); return in; }
template<int D> static void thermoelastic(bool dep,int stiff,bool defaults){ PL in; PL& t=in.sublist("Material Models").sublist("M").sublist("Thermoelastic"); if(dep) t.set<bool>("Temperature Dependent",true); t.set<double>("Thermal Expansivity",R("al")); t.set<double>("Thermal Conductivity",R("k")); if(!defaults){ t.set<double>("Reference Temperature",R("T0")); t.set<double>("Temperature Scaling",R("ts")); } in.sublist("Material Models").sublist("Other"); PL& s=t.sublist("Elastic Stiffness"); double E=R("E",0.1,10),E1=R("E1"),nu=R("nu",-0.9,0.49),T=R("T"); const int N=Vg<D>::N;
  if(stiff==0){ s.set<double>("Youngs Modulus",E); s.set<double>("Poissons Ratio",nu); } else if(stiff==1){ s.set<double>("Poissons Ratio",nu); s.sublist("Youngs Modulus").set<double>("c0",E); s.sublist("Youngs Modulus").set<double>("c1",E1); } else for(int i=0;i<N;i++) s.set<double>(std::string("c")+(dep?"0":"")+std::to_string(i+1)+std::to_string(i+1),R(sx::nm("c",i)));
  if(stiff==1&&!dep){ sx::ok("function_in_linear_model_rejected",sx::throws([&]{ ThermoelasticModelFactory<D>(in).create("M"); })); return; }
  auto m=ThermoelasticModelFactory<D>(in).create("M");
  for(int i=0;i<N;i++)for(int j=0;j<N;j++){ double e; if(stiff<2) isoexp<D>(stiff==1?E+E1*T:E,nu,i,j,e); else e=i==j?R(sx::nm("c",i)):0; sx::eq(sx::nm("stiffness",i,j),dep?m->getRank4VoigtFunctor("Elastic Stiffness")(T,i,j):m->getRank4VoigtConstant("Elastic Stiffness")(i,j),e); }
  for(int i=0;i<D;i++)for(int j=0;j<D;j++){ sx::eq(sx::nm("expansivity",i,j),dep?m->getTensorFunctor("Thermal Expansivity")(T,i,j):m->getTensorConstant("Thermal Expansivity")(i,j),i==j?R("al"):0); sx::eq(sx::nm("conductivity",i,j),dep?m->getTensorFunctor("Thermal Conductivity")(T,i,j):m->getTensorConstant("Thermal Conductivity")(i,j),i==j?R("k"):0); }
  sx::eq("reference",m->getScalarConstant("Reference Temperature"),defaults?23.0:R("T0")); sx::eq("scaling",m->getScalarConstant("Temperature Scaling"),defaults?1.0:R("ts"));
  sx::ok("unknown",sx::throws([&]{ ThermoelasticModelFactory<D>(in).create("X"); })); sx::ok("wrong",sx::throws([&]{ ThermoelasticModelFactory<D>(in).create("Other"); })); t.remove("Thermal Expansivity"); sx::ok("expansivity_required",sx::throws([&]{ ThermoelasticModelFactory<D>(in).create("M"); })); }
#define TE(D) SC(te##D##_iso,thermoelastic<D>(false,0,true)) SC(te##D##_iso_t,thermoelastic<D>(true,0,false)) SC(te##D##_fun,thermoelastic<D>(false,1,false)) SC(te##D##_fun_t,thermoelastic<D>(true,1,true)) SC(te##D##_aniso,thermoelastic<D>(false,2,false)) SC(te##D##_aniso_t,thermoelastic<D>(true,2,false))
TE(1) TE(2) TE(3)
