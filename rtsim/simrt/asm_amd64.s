#include "textflag.h"

// func realg() uintptr
TEXT ·realg(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
