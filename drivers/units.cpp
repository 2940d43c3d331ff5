// A program of many translation units, one for each header of xme which includes that header alone,
// and two that include all of them in opposite orders. Objects made in one unit are used and
// destroyed by others (C46).
#include "../harness/mon.hpp"
#include "../harness/units.hpp"
#include <map>

using namespace mon;

// never destroyed
std::vector<units::Entry>& units::entries() {
    static auto* all = new std::vector<units::Entry>;
    return *all;
}
std::vector<units::Name>& units::names() {
    static auto* all = new std::vector<units::Name>;
    return *all;
}

// Runs after the destructors of static objects.
__attribute__((destructor(200))) static void after_all() {
    for(auto& e : units::entries())
        if(e.uses(units::early_seed) != e.early) {
            fprintf(stderr, "%s: another result in unit %s when static objects are gone\n", e.name, e.unit);
            abort();
        }
}

int main(int argc, char** argv) {
    init(argc, argv);
    std::map<std::string, std::vector<units::Entry>> headers;
    for(auto& e : units::entries()) headers[e.name].push_back(e);
    count("units", (long)units::entries().size());
    cases("names", 1, [](Rng&, long) {
        for(auto& n : units::names()) {
            judged();
            MON_CHECK(!strcmp(n.is, n.should), "name-changed", "%s means %s in unit %s", n.should, n.is, n.unit);
        }
    });
    cases("before static objects", 1, [](Rng&, long) {
        for(auto& e : units::entries()) {
            auto now = e.uses(units::early_seed);
            judged();
            seen(now[0]);
            MON_CHECK(now == e.early, "other-result-early", "%s: another result in unit %s before static objects are initialised", e.name, e.unit);
        }
    });
    for(auto& [name, in] : headers)
        cases(name.c_str(), st().cases, [&](Rng& r, long) {
            const size_t n = in.size();
            for(size_t k = 1; k < n; ++k) {
                judged();
                MON_CHECK(in[k].size == in[0].size && in[k].alignment == in[0].alignment, "layout", "%s: an object has %zu bytes in unit %s, %zu in %s", name.c_str(), in[k].size,
                          in[k].unit, in[0].size, in[0].unit);
            }
            // the same object, used in one unit only
            u64 seed = r.next();
            std::vector<u64> want;
            for(size_t k = 0; k < n; ++k) {
                void* p = in[k].make(seed);
                for(int use = 0; use < 4; ++use) {
                    u64 x = in[k].read(p);
                    if(k == 0) want.push_back(x), seen(hash2(hash_str(name.c_str()), x));
                    judged();
                    MON_CHECK(x == want[use], "other-result", "%s: use %d gives another result in unit %s than in %s", name.c_str(), use, in[k].unit, in[0].unit);
                }
                in[k].drop(p);
            }
            // objects that go from unit to unit
            for(size_t k = 0; k < n; ++k) {
                size_t last = r.below(n);
                void* p     = in[k].make(seed);
                for(int use = 0; use < 4; ++use) {
                    auto& e = in[r.below(n)];
                    note("%s made in %s used in %s\n", name.c_str(), in[k].unit, e.unit);
                    u64 x   = e.read(p);
                    judged();
                    MON_CHECK(x == want[use], "other-result-across-units", "%s: an object made in unit %s gives another result at use %d, in unit %s", name.c_str(), in[k].unit, use,
                              e.unit);
                }
                in[last].drop(p);
            }
        });
    return finish(true);
}
