#pragma once
// operation codes shared by the instrumentation pass and the run-time
enum SymOp {
  OP_CONST = 0, OP_VAR,
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
  OP_AND, OP_OR, OP_XOR,
  OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE,
  OP_TRUNC, OP_ZEXT, OP_SEXT, OP_EXTRACT, OP_CONCAT,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FNEG, OP_FABS, OP_FSQRT, OP_FFLOOR, OP_FCEIL, OP_FTRUNC,
  OP_FRINT, OP_FROUND, OP_FMIN, OP_FMAX, OP_COPYSIGN, OP_FEQ, OP_FLT, OP_FLE, OP_FISNAN,
  OP_FPEXT, OP_FPTRUNC, OP_FPTOSI, OP_FPTOUI, OP_SITOFP, OP_UITOFP, OP_F2I, OP_I2F,
  OP_FPCLASS,
  OP_ITE, OP_UF,
  OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_IABS, OP_BSWAP, OP_ROTL, OP_USUBSAT,
  OP_UMULO, OP_SMULO, OP_UADDO, OP_SADDO, OP_USUBO, OP_SSUBO,
  OP_FMOD, OP_FISINF, OP_NUM
};
enum PinWhy { PIN_ADDR = 1, PIN_SIZE, PIN_SWITCH, PIN_CALL, PIN_NATIVE, PIN_UNSUP, PIN_USER, PIN_CONV };
