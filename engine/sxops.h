// Opcodes shared by the pass, the runtime and (by name) the python driver.
#pragma once
enum SxOp : int {
  SX_CONST=0, SX_INPUT=1,
  SX_FADD=2, SX_FSUB=3, SX_FMUL=4, SX_FDIV=5, SX_FREM=6, SX_FNEG=7,
  SX_ADD=10, SX_SUB=11, SX_MUL=12, SX_UDIV=13, SX_SDIV=14, SX_UREM=15, SX_SREM=16,
  SX_SHL=17, SX_LSHR=18, SX_ASHR=19, SX_AND=20, SX_OR=21, SX_XOR=22,
  SX_TRUNC=30, SX_ZEXT=31, SX_SEXT=32, SX_FPTOSI=33, SX_FPTOUI=34, SX_SITOFP=35, SX_UITOFP=36,
  SX_EXTRACT=37, SX_CONCAT=38,
  SX_FCMP=50, // + predicate 0..15
  SX_ICMP=70, // + (predicate-32) 0..9
  SX_FUNC=100 // + function index
};
// math functions: index is the position here
#define SX_FUNCS {"sqrt","pow","exp","log","log10","sin","cos","tan","tanh","sinh","cosh","atan","asin","acos","atan2","fabs","floor","ceil","fmod","cbrt","exp2","log2","trunc","round","log1p","expm1"}
