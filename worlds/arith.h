// The checked arithmetic of the library, called through one function so that
// both of its implementations (portable and compiler builtins) can be linked
// into one program (C34).
#pragma once
namespace arith {
typedef __int128 Wide;
enum Op { Sum, Difference, Product, Product3, Product4, Twice, Division, UpperRound, Convert, nOp };
enum Ty { Int, Unsigned, Long, UnsignedLong, LongLong, UnsignedLongLong, nTy };
// whether the library has this operation for this type (of its operands)
bool has(int op, int ty);
// error: what the variable holds before, and after
Wide portable(int op, int ty, const Wide* a, bool& error);
Wide builtin(int op, int ty, const Wide* a, bool& error);
}  // namespace arith
