#include "textflag.h"

// func goid() uintptr : the address of the running goroutine's descriptor
TEXT ·goid(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
