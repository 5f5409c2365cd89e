// V02: every shape of a binder of three parameters, shapes 84 to 124.
#include "V02s.h"

SEQ_SCENARIO(shapesC, .Q(1).T(1))
{
	g_live.clear();
	Dispatch<124, 84>::Run(84 + seq::Pick(41));
}
