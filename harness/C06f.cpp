// C06: every nesting of two range combinators over every short list, the outer source being a forward_list.
#include "ranges.h"

SEQ_SCENARIO(over_forward_list, .Q(3).T(4).Split(6)) { const VI v = PickList(depth); SEQ_LOG("over %s", Str(v).c_str()); g_moves = 3; const std::forward_list<int> l(v.begin(), v.end()); Ops(ToRange(l), v, Int<2>(), Int<9>(), Int<0>()); }
