// V02: every shape of a binder of three parameters, shapes 42 to 83.
#include "V02s.h"

SEQ_SCENARIO(shapesB, .Q(1).T(1))
{
	g_live.clear();
	Dispatch<83, 42>::Run(42 + seq::Pick(42));
}
