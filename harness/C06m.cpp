// C06: every nesting of two range combinators over every short list, the outer source being a list.
#include "ranges.h"

SEQ_SCENARIO(over_list_then, .Q(3).T(4).Split(6)) { const VI v = PickList(depth); SEQ_LOG("over %s", Str(v).c_str()); g_moves = 3; const std::list<int> l(v.begin(), v.end()); Ops(ToRange(l), v, Int<2>(), Int<4>(), Int<5>()); }
