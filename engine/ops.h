#pragma once
#include <cstdint>
enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_DIV, O_NEG, O_SQRT, O_ABS, O_MIN, O_MAX, O_POW, O_EXP, O_LOG,
  O_SIN, O_COS, O_TAN, O_TANH, O_SINH, O_COSH, O_ATAN, O_ASIN, O_ACOS, O_ATAN2, O_COPYSIGN, O_FMOD, O_HYPOT, O_FLOOR, O_CEIL,
  O_TRUNC, O_ROUND, O_RINT, O_CBRT, O_LOG10, O_ITE, O_UF, O_PAIR,
  O_LT, O_LE, O_EQ, O_AND, O_OR, O_NOT, O_XOR, O_LAST };
static const char *const OPN[] = { "const","var","+","-","*","/","neg","sqrt","abs","min","max","pow","exp","log","sin","cos","tan","tanh",
  "sinh","cosh","atan","asin","acos","atan2","copysign","fmod","hypot","floor","ceil","trunc","round","rint","cbrt","log10","ite","uf","pair",
  "<","<=","=","and","or","not","xor" };
static inline bool opIsBool(uint8_t o) { return o >= O_LT; }
#include <cmath>
static inline double opEval(uint8_t op, double x, double y, double z) {
  switch (op) {
    case O_ADD: return x + y; case O_SUB: return x - y; case O_MUL: return x * y; case O_DIV: return x / y; case O_NEG: return -x;
    case O_SQRT: return std::sqrt(x); case O_ABS: return std::fabs(x); case O_MIN: return std::fmin(x, y); case O_MAX: return std::fmax(x, y);
    case O_POW: return std::pow(x, y); case O_EXP: return std::exp(x); case O_LOG: return std::log(x); case O_SIN: return std::sin(x);
    case O_COS: return std::cos(x); case O_TAN: return std::tan(x); case O_TANH: return std::tanh(x); case O_SINH: return std::sinh(x);
    case O_COSH: return std::cosh(x); case O_ATAN: return std::atan(x); case O_ASIN: return std::asin(x); case O_ACOS: return std::acos(x);
    case O_ATAN2: return std::atan2(x, y); case O_COPYSIGN: return std::copysign(x, y); case O_FMOD: return std::fmod(x, y);
    case O_HYPOT: return std::hypot(x, y); case O_FLOOR: return std::floor(x); case O_CEIL: return std::ceil(x); case O_TRUNC: return std::trunc(x);
    case O_ROUND: return std::round(x); case O_RINT: return std::rint(x); case O_CBRT: return std::cbrt(x); case O_LOG10: return std::log10(x);
    case O_ITE: return x != 0 ? y : z; case O_LT: return x < y; case O_LE: return x <= y; case O_EQ: return x == y;
    case O_AND: return x != 0 && y != 0; case O_OR: return x != 0 || y != 0; case O_NOT: return !(x != 0); case O_XOR: return (x != 0) != (y != 0);
    default: return 0;
  }
}
