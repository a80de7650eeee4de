// LLVM 20 Instruction::CastOps numbers
case 38: return ret(mkExtract(a, 0, w));
case 39: return ret(mk(ZEXT, w, a));
case 40: return ret(mk(SEXT, w, a));
case 44: return ret(mk(SITOFP, w, a));
case 43: return ret(mk(UITOFP, w, a));
case 42: return ret(mk(FPTOSI, w, a));
case 41: return ret(mk(FPTOUI, w, a));
case 45: return ret(mk(FPCVT, w, a));
case 46: return ret(mk(FPCVT, w, a));
