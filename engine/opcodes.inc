// LLVM 20 Instruction::BinaryOps numbers
case 13: op = ADD; break;
case 15: op = SUB; break;
case 17: op = MUL; break;
case 19: op = UDIV; break;
case 20: op = SDIV; break;
case 22: op = UREM; break;
case 23: op = SREM; break;
case 25: op = SHL; break;
case 26: op = LSHR; break;
case 27: op = ASHR; break;
case 28: op = AND; break;
case 29: op = OR; break;
case 30: op = XOR; break;
case 14: op = FADD; break;
case 16: op = FSUB; break;
case 18: op = FMUL; break;
case 21: op = FDIV; break;
