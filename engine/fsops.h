#ifndef FSOPS_H
#define FSOPS_H
enum FsOp {
    FS_NONE = 0, FS_CONST, FS_VAR,
    FS_ADD = 10, FS_SUB, FS_MUL, FS_UDIV, FS_SDIV, FS_UREM, FS_SREM, FS_SHL, FS_LSHR, FS_ASHR, FS_AND, FS_OR, FS_XOR,
    FS_FADD = 30, FS_FSUB, FS_FMUL, FS_FDIV, FS_FREM,
    FS_ZEXT = 40, FS_SEXT, FS_TRUNC, FS_FPTRUNC, FS_FPEXT, FS_FPTOSI, FS_FPTOUI, FS_SITOFP, FS_UITOFP, FS_EXTRACT, FS_CONCAT,
    FS_ICMP = 60, FS_FCMP, FS_ITE, FS_FUN, FS_UF
};
enum FsFun {
    FS_F_FABS = 1, FS_F_FLOOR, FS_F_CEIL, FS_F_TRUNC, FS_F_RINT, FS_F_ROUND, FS_F_LROUND, FS_F_LRINT, FS_F_SQRT, FS_F_FMIN, FS_F_FMAX,
    FS_F_COPYSIGN, FS_F_FMOD, FS_F_FNEG, FS_F_UMIN, FS_F_UMAX, FS_F_SMIN, FS_F_SMAX, FS_F_USUBSAT, FS_F_UADDSAT, FS_F_ABS, FS_F_BSWAP,
    FS_F_CTPOP, FS_F_CTLZ, FS_F_CTTZ, FS_F_FPCLASS, FS_F_EXP, FS_F_LOG
};
#endif
