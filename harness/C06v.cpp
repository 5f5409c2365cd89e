// C06: every nesting of two range combinators over every short list, the outer source being a vector.
#include "ranges.h"

SEQ_SCENARIO(over_vector_first, .Q(3).T(4).Split(6)) { const VI v = PickList(depth); SEQ_LOG("over %s", Str(v).c_str()); g_moves = 3; Ops(ToRange(v), v, Int<2>(), Int<5>(), Int<0>()); }
