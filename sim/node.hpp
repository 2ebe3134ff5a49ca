// Interface between the simulated cluster and one replica's code (a shared object built by one compiler in one mode).
#pragma once
#include <cstdint>
struct NodeCmd
{
    int op, type, type2, arg;
    int64_t a, b, n, m;
};
struct NodeRes
{
    int status; // 0 done, 1 rejected with an exception, 2 not offered by this build
    int n;
    int64_t v[6];
    char text[200];
};
enum NodeOp : int
{
    OpSet, OpAdd, OpAddEq, OpSub, OpSubEq, OpMul, OpMulEq, OpDiv, OpDivEq, OpMod, OpModEq, OpNeg, OpPreInc, OpPostInc, OpPreDec, OpPostDec,
    OpAddInt, OpIntAdd, OpSubInt, OpIntSub, OpMulInt, OpIntMul, OpDivInt, OpIntDiv, OpIntMod, OpAddEqInt, OpSubEqInt, OpMulEqInt, OpDivEqInt,
    OpCompare, OpNearly, OpCeil, OpFloor, OpTrunc, OpRound, OpAbs, OpMin, OpMax, OpConvert, OpToInt, OpFromInt, OpToFloat, OpFromFloat, OpHash,
    OpParts, OpConst, OpFmod, OpModf, OpDivide, OpDivideBy, OpDivideInt, OpDivideByInt, OpPrint, OpParse, OpFormat, OpLimits,
    OpSqrt, OpSin, OpCos, OpTan, OpAtan, OpAsin, OpAcos, OpCbrt, OpLog2, OpLog, OpLog10, OpExp, OpPowInt, OpPow, OpDegrees, OpRadians, OpHypot, OpHypot3,
    OpCordic, OpSimd, OpEnd
};
inline const char* const node_op_names[] = {
    "set", "add", "addeq", "sub", "subeq", "mul", "muleq", "div", "diveq", "mod", "modeq", "neg", "preinc", "postinc", "predec", "postdec",
    "addint", "intadd", "subint", "intsub", "mulint", "intmul", "divint", "intdiv", "intmod", "addeqint", "subeqint", "muleqint", "diveqint",
    "compare", "nearly", "ceil", "floor", "trunc", "round", "abs", "min", "max", "convert", "toint", "fromint", "tofloat", "fromfloat", "hash",
    "parts", "const", "fmod", "modf", "divide", "divideby", "divideint", "dividebyint", "print", "parse", "format", "limits",
    "sqrt", "sin", "cos", "tan", "atan", "asin", "acos", "cbrt", "log2", "log", "log10", "exp", "powint", "pow", "degrees", "radians", "hypot", "hypot3",
    "cordic", "simd"};
static_assert(sizeof node_op_names / sizeof *node_op_names == OpEnd);
