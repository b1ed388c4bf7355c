// the operations of the register machine (wrap_vec.cc runs them on the library, vec_ref.hh lane by lane)
#pragma once
enum { DUP, ZERO, MOVE, NEG, ABS, QABS, SIGNUM, ADD, SUB, MUL, QADD, QSUB, MIN, MAX, CLAMP, SIGN, CGTZ, CEQZ, CLTZ, CLEZ, CGT, CEQ, SHUF, SORT, ORDER, ROTL, ROTR, SELECT,
	U_NOT, U_ORR, U_AND, U_EOR, U_BIC, U_BSL, U_QSUB, U_CGT, U_SHUF, MASK, UNMASK, COPYSIGN, OPS };
