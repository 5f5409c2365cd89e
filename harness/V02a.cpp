// V02: every shape of a binder of three parameters, shapes 0 to 41.
#include "V02s.h"

SEQ_SCENARIO(shapesA, .Q(1).T(1))
{
	g_live.clear();
	Dispatch<41, 0>::Run(0 + seq::Pick(42));
}
