// C25: keys that live in the set itself, and a set copied onto itself.
#include "sets.hpp"
void harness()
{
    {
        unsigned how = nsym_choice("order", 3); S s(Ord(how), mkalloc(1)); Ref r; Err e;
        unsigned n = nsym_choice("size", nsym_param("maxn", 3) + 1);
        for (unsigned i = 0; i < n; ++i) insert(s, r, how, KEY("key"), 0, e);
        CHECK(!e, "insert failed although nothing can fail");
        unsigned m = s.size(); S::iterator it = s.begin(); unsigned k = m ? nsym_choice("nth", m) : 0; for (unsigned i = 0; i < k; ++i) ++it;
        switch (nsym_range("op", 5))
        {
        case 0: if (m) { const E* p = &*it; std::pair<S::iterator, bool> q = s.insert_nothrow(e, *it); CHECK(!e && !q.second && &*q.first == p, "insertion of an own element is not refused"); } break;
        case 1: if (m) { int i = r.at(&*it); CHECK(s.erase(*it) == 1, "erase of an own element by key removed another number of elements"); r.del(i); } break;
        case 2: if (m) { CHECK(s.find(*it) == it, "find of an own element designates another one"); } break;
        case 3: s.copy_nothrow(e, s); CHECK(!e, "copying a set onto itself failed"); break;
        default: if (m) { S o(Ord(how), mkalloc(2)); o.copy_nothrow(e, s); CHECK(!e && o.erase(*it) == 1 && o.size() == m - 1, "erase by a key of another set"); } break;
        }
        observe(s, r, how); nsym_cover("end");
        unsigned y = KEY("again"); insert(s, r, how, y, 0, e); observe(s, r, how);
    }
    all_gone();
}
