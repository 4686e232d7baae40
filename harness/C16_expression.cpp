// C16: custom material equations: what is evaluated is the expression that was written.
#include "sxplato.hpp"
#include <Teuchos_ParameterList.hpp>
#include <functional>
#include "ExpressionEvaluator.hpp"
#include "ExpressionEvaluator.cpp"
#include "CustomMaterial.hpp"
#include "CustomMaterial.cpp"
typedef Teuchos::ParameterList PL;
static double A,B; static PL vars(){ PL p("p"); A=sx_real("a",0.5,2); B=sx_real("b",0.5,2); p.set<double>("a",A); p.set<double>("b",B); p.set<double>("X_0",3.0); return p; }
static std::string lab(std::string s){ for(char& c:s) if(c==32) c=95; return "value_"+s; }
struct Bad{}; 
// operations with their domains (outside of them the value is not defined by mathematics)
static double div_(double x,double y){ sx_assume(y!=0); return x/y; }
static double pow_(double x,double y){ sx_assume(x>0.01&&x<50&&y<9&&y>-9); return pow(x,y); }
static double sqrt_(double x){ sx_assume(x>0.001); return sqrt(x); }
static double log_(double x){ sx_assume(x>0.001); return log(x); }
static double fact_(double x){ sx_assume(x>=0&&x<6); long m=(long)x; double r=1; for(long i=2;i<=m;i++) r*=i; return r; }
static double fun(int f,double x){ return f==0?sin(x):f==1?cos(x):f==2?tan(x):f==3?exp(x):f==4?log_(x):f==5?sqrt_(x):fabs(x); }
static const char* FN[]={"sin","cos","tan","exp","log","sqrt","abs"};
struct Ev : CustomMaterial { Ev():CustomMaterial(PL("q")){} double operator()(const PL& p,const std::string& s){ return GetCustomExpressionValue(p,s); } double idx(const PL& p,int i){ return GetCustomExpressionValue(p,i); } double def(const PL& p){ return GetCustomExpressionValue(p); } };
static double eval(PL& p,const std::string& s){ p.set<std::string>("Eq",s); Ev e; return e(p,"Eq"); }
static bool rejects(PL& p,const std::string& s){ return sx::throws([&]{ eval(p,s); }); }

// ------------------------------------------------ every well-formed expression of a bounded size: choices of operators are symbolic
// text of a subexpression, its value, and the precedence of its top operator (2 sum, 3 product, 4 power, 5 sign, 6 factorial, 7 atom)
struct E { std::string s; double v; int p; };
static int nid; static int pick(int n){ int k=sx_int32(sx::nm("c",nid++).c_str(),0,n-1); int r=n-1; for(int i=0;i<n-1;i++) if(k==i){ r=i; break; } asm volatile("" : "+r"(r)); return r; }
static std::string par(const E& e){ return "("+e.s+")"; }
static std::string opd(const E& e,int min){ return e.p>=min?e.s:par(e); }
static E atom(){ int k=nid++ %3; if(k==0) return {"a",A,7}; if(k==1) return {"b",B,7}; return {"X_0",3.0,7}; }
static E bin(int o,const E& l,const E& r){
  switch(o){ case 0: return {opd(l,2)+" + "+opd(r,3),l.v+r.v,2}; case 1: return {opd(l,2)+"-"+opd(r,3),l.v-r.v,2};
    case 2: return {opd(l,3)+"*"+opd(r,4),l.v*r.v,3}; case 3: return {opd(l,3)+"/"+opd(r,4),div_(l.v,r.v),3};
    case 4: return {opd(l,5)+"^"+opd(r,4),pow_(l.v,r.v),4}; case 5: return {"pow("+l.s+","+r.s+")",pow_(l.v,r.v),7}; default: return {par(l)+par(r),l.v*r.v,3}; } }
static E un(int o,const E& x){ if(o==0) return {"-"+opd(x,6),-x.v,5}; if(o==1) return {"|"+(x.s.find('|')==std::string::npos?x.s:par(x))+"|",fabs(x.v),7}; if(o==2) return {"+"+opd(x,6),x.v,5}; return {std::string(FN[o-3])+par(x),fun(o-3,x.v),7}; }
static void two(bool left){ PL p=vars(); int o1=pick(7),o2=pick(7); E x=atom(),y=atom(),z=atom(); E e=left?bin(o1,bin(o2,x,y),z):bin(o1,x,bin(o2,y,z)); sx::eq(lab(e.s),eval(p,e.s),e.v); }
SC(two_left,two(true)) SC(two_right,two(false))
SC(three, PL p=vars(); int o1=pick(7); int o2=pick(7); int o3=pick(sx::thorough()?7:4); E w=atom(); E x=atom(); E y=atom(); E z=atom(); E l=bin(o2,w,x); E r=bin(o3,y,z); E e=bin(o1,l,r); sx::eq(lab(e.s),eval(p,e.s),e.v))
SC(unary_in, PL p=vars(); int o1=pick(7); int o2=pick(10); int o3=pick(2); E x=atom(); E y=atom(); E e=o3?bin(o1,un(o2,x),y):bin(o1,x,un(o2,y)); sx::eq(lab(e.s),eval(p,e.s),e.v))
SC(unary_out, PL p=vars(); int o1=pick(7); int o2=pick(10); E x=atom(); E y=atom(); E e=un(o2,bin(o1,x,y)); sx::eq(lab(e.s),eval(p,e.s),e.v))
SC(unary_unary, PL p=vars(); int o1=pick(10); int o2=pick(10); E e=un(o1,un(o2,atom())); sx::eq(lab(e.s),eval(p,e.s),e.v))
// chains without parentheses: associativity and precedence
SC(chain, PL p=vars(); int o1=pick(4); int o2=pick(4); int o3=pick(4); E x=atom(); E y=atom(); E z=atom(); E w=atom(); E e=bin(o3,bin(o2,bin(o1,x,y),z),w); sx::eq(lab(e.s),eval(p,e.s),e.v))
SC(powers, PL p=vars(); sx::eq("right_associative",eval(p,"a^b^X_0"),pow_(A,pow_(B,3))); sx::eq("in_product",eval(p,"X_0*a^b/b"),3*pow_(A,B)/B); sx::eq("negative_exponent",eval(p,"a^-b"),pow_(A,-B)); sx::eq("sum",eval(p,"b+a^2"),B+A*A))
SC(factorials, PL p=vars(); int n=pick(7); double f=1; for(int i=2;i<=n;i++) f*=i; std::string s=std::to_string(n); sx::eq("value",eval(p,s+"!"),f); sx::eq("sum",eval(p,"a+"+s+"!*b"),A+f*B); sx::eq("paren",eval(p,"("+s+"+1)!-a"),f*(n+1)-A); sx::eq("negative",eval(p,"-"+s+"!"),-f))
SC(large_factorial, PL p=vars(); int n=pick(12)+18; double f=1; for(int i=2;i<=n;i++) f*=i; double r=eval(p,std::to_string(n)+"!"); sx::le("lo",f*(1-1e-12),r); sx::le("hi",r,f*(1+1e-12)))
SC(numbers, PL p=vars(); sx::eq("int",eval(p,"12*a"),12*A); sx::eq("dec",eval(p,"2.5*a"),2.5*A); sx::eq("exp",eval(p,"2e3*a"),2000*A); sx::eq("expneg",eval(p,"25e-1*a"),2.5*A); sx::eq("exppos",eval(p,"2.5e+1+a"),25+A); sx::eq("pi",eval(p,"2*PI*a"),2*M_PI*A); sx::eq("then_minus",eval(p,"2e1-a"),20-A); sx::eq("space",eval(p," a \t* 2\n"),2*A))
SC(bad_numbers, PL p=vars(); sx::ok("two_dots",rejects(p,"1.2.3")); sx::ok("dots",rejects(p,"1..5*a")); sx::ok("empty_exponent",rejects(p,"2e+")); sx::ok("dangling_exponent",rejects(p,"2e*a")); sx::ok("two_exponents",rejects(p,"2e3e4")))
SC(names, PL p=vars(); double s=sx_real("s",-1,1); const char* n[]={"single","cosy","tangent","expo","logic","sqr","sqrtx","absorb","power","PIx","E","nu_12","_x","Xsin"}; int k=pick(14); p.set<double>(n[k],s); sx::eq(std::string("value_")+n[k],eval(p,std::string(n[k])+"*a+b"),s*A+B); p.set<double>("sqr",s); sx::eq("end",eval(p,std::string("a+")+n[k]),A+s))
SC(missing, PL p=vars(); sx::ok("unknown_variable",rejects(p,"a+zz")); p.set<std::string>("t","x"); sx::ok("not_a_number",rejects(p,"a+t")))

// ------------------------------------------------ arbitrary token sequences: accepted exactly when well formed, and with the right value
struct Ref { const std::vector<int>& t; size_t i; 
  // tokens: 0 a, 1 b, 2 +, 3 -, 4 *, 5 /, 6 ^, 7 (, 8 ), 9 |, 10 sin(, 11 pow(, 12 ",", 13 !
  int at(){ return i<t.size()?t[i]:-1; } void need(int k){ if(at()!=k) throw Bad(); i++; }
  double sum(){ double v=prod(); while(at()==2||at()==3){ bool m=t[i++]==3; double w=prod(); v=m?v-w:v+w; } return v; }
  double prod(){ double v=power(); for(;;){ if(at()==4){ i++; v=v*power(); } else if(at()==5){ i++; double w=power(); v=div_(v,w); } else if(at()==7&&i>0&&t[i-1]==8){ v=v*power(); } else return v; } }
  double power(){ double v=sign(); if(at()==6){ i++; double w=power(); return pow_(v,w); } return v; }
  double sign(){ if(at()==2||at()==3){ bool m=t[i++]==3; if(at()==2||at()==3) throw Bad(); double v=post(); return m?-v:v; } return post(); }
  double post(){ double v=prim(); while(at()==13){ i++; v=fact_(v); } return v; }
  int bars=0; 
  double prim(){ int k=at(); i++; if(k==0) return A; if(k==1) return B; int b=bars; if(k==7){ bars=0; double v=sum(); need(8); bars=b; return v; } if(k==10){ bars=0; double v=sum(); need(8); bars=b; return sin(v); }
    if(k==11){ bars=0; double x=sum(); need(12); double y=sum(); need(8); bars=b; return pow_(x,y); } if(k==9){ if(bars) throw Bad(); bars=1; double v=sum(); need(9); bars=0; return fabs(v); } throw Bad(); } };
static const char* TK[]={"a","b","+","-","*","/","^","(",")","|","sin(","pow(",",","!"};
static void tokens(int n,std::vector<int> pre,std::vector<int> post){ PL p=vars(); std::vector<int> t=pre; for(int k=0;k<n;k++) t.push_back(pick(14)); for(int x:post) t.push_back(x); std::string s; for(int x:t) s+=TK[x];
  bool good=true; double v=0; try { Ref r{t,0}; v=r.sum(); if(r.i!=t.size()) throw Bad(); } catch(const Bad&){ good=false; }
  if(good) sx::eq(lab(s),eval(p,s),v); else sx::ok("rejected_"+lab(s),rejects(p,s)); }
SC(tokens1,tokens(1,{},{})) SC(tokens2,tokens(2,{},{})) 
SC(tokens3_0,tokens(sx::thorough()?3:2,{0},{}))
SC(tokens3_1,tokens(sx::thorough()?3:2,{1},{}))
SC(tokens3_2,tokens(sx::thorough()?3:2,{2},{}))
SC(tokens3_3,tokens(sx::thorough()?3:2,{3},{}))
SC(tokens3_4,tokens(sx::thorough()?3:2,{4},{}))
SC(tokens3_5,tokens(sx::thorough()?3:2,{5},{}))
SC(tokens3_6,tokens(sx::thorough()?3:2,{6},{}))
SC(tokens3_7,tokens(sx::thorough()?3:2,{7},{}))
SC(tokens3_8,tokens(sx::thorough()?3:2,{8},{}))
SC(tokens3_9,tokens(sx::thorough()?3:2,{9},{}))
SC(tokens3_10,tokens(sx::thorough()?3:2,{10},{}))
SC(tokens3_11,tokens(sx::thorough()?3:2,{11},{}))
SC(tokens3_12,tokens(sx::thorough()?3:2,{12},{}))
SC(tokens3_13,tokens(sx::thorough()?3:2,{13},{}))
SC(tokens_mid,tokens(2,{0},{1})) SC(tokens_paren,tokens(2,{7,0},{8})) SC(tokens_abs,tokens(2,{9,0},{9})) SC(tokens_pow,tokens(2,{11,0},{1,8})) SC(tokens_pow2,tokens(2,{11,0,12},{8}))
SC(empty, PL p=vars(); sx::ok("empty",rejects(p,"")); sx::ok("blank",rejects(p,"  ")); sx::ok("character",rejects(p,"a=b")); sx::ok("dot",rejects(p,"a.b")); p.set<int>("Num",3); Ev e; sx::ok("no_equation",sx::throws([&]{ e(p,"None"); })); sx::ok("no_default",sx::throws([&]{ e.def(p); })); p.set<std::string>("Equation","a*b"); sx::eq("default_name",e.def(p),A*B))
SC(reuse, PL p=vars(); ExpressionEvaluator e(p); e.parse_expression("a+b"); sx::eq("first",e.evaluate_expression(),A+B); e.parse_expression("a*b"); sx::eq("second",e.evaluate_expression(),A*B); sx::eq("again",e.evaluate_expression(),A*B); bool t=sx::throws([&]{ e.parse_expression("a*"); e.validate_expression(); }); sx::ok("rejects",t); e.parse_expression("b"); sx::eq("recovers",e.evaluate_expression(),B); sx::ieq("valid",e.validate_expression(),0))
// ------------------------------------------------ equations from a Bingo file
#include <unistd.h>
struct Tmp { char n[64]; Tmp(const char* t){ strcpy(n,"/tmp/sxbingoXXXXXX"); int f=mkstemp(n); if(write(f,t,strlen(t))<0) abort(); close(f); } ~Tmp(){ unlink(n); } };
static void bingo(bool byIndex){ PL p=vars(); Tmp t("some text, 1, 2\n\nFITNESS    COMPLEXITY    EQUATION\n0, 0, a/((1.0+b)(1.0+2.0*b))\n0.011, 5, (a)(a) + (b)(b)\n1.0, 1, X_0-a\nlast line without commas\n"); p.set<std::string>("BingoFile",t.n); Ev e; int k=pick(6)-1; double r=0; bool th;
  if(byIndex) th=sx::throws([&]{ r=e.idx(p,k); }); else { if(k>=0) p.set<int>("BingoEquation",k); th=sx::throws([&]{ r=e.def(p); }); }
  int i=k<0?0:k; if(i>2) sx::ok("no_such_equation",th); else { sx::ok("found",!th); sx::eq("value",r,i==0?A/((1+B)*(1+2*B)):i==1?A*A+B*B:3-A); }
  if(byIndex){ p.set<int>("BingoEquation",1); bool t2=sx::throws([&]{ r=e.idx(p,2); }); sx::ok("argument_found",!t2); sx::eq("argument_wins",r,3-A); p.set<std::string>("Equation","a-b"); sx::eq("equation_wins",e.def(p),A-B); }
  PL q=vars(); q.set<std::string>("BingoFile","/nonexistent/bingo"); sx::ok("no_file",sx::throws([&]{ e.def(q); })); }
SC(bingo_index,bingo(true)) SC(bingo_param,bingo(false))
