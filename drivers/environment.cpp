// Environment variables: every call is compared with the process environment before and after (C36).
#include "../harness/mon.hpp"
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <xme/hal/platform.hpp>

#define P "C36:"
using namespace mon;
extern char** environ;

using Env = std::map<std::string, std::vector<std::string>>;
static Env snapshot() {
    Env e;
    for(char** p = environ; p && *p; ++p) {
        const std::string s = *p;
        const auto eq       = s.find('=');
        if(eq == std::string::npos) e[s].push_back("(no value)");
        else e[s.substr(0, eq)].push_back(s.substr(eq + 1));
    }
    return e;
}
static std::string brief(const std::string& s) {
    std::string o;
    for(size_t i = 0; i < s.size() && i < 40; ++i) o += s[i] >= 32 && s[i] < 127 ? std::string(1, s[i]) : fmt("\\x%02x", (unsigned char)s[i]);
    return s.size() > 40 ? o + fmt("... (%zu)", s.size()) : o;
}
static void differs(const Env& want, const Env& got, const std::string& name, const char* op) {
    for(auto& [k, v]: want) {
        auto it = got.find(k);
        if(it == got.end()) {
            MON_CHECK(false, std::string(P) + (k == name ? "value" : "other-variable"), "%s %s: the variable %s is gone", op, brief(name).c_str(), brief(k).c_str());
        }
        else if(it->second != v)
            MON_CHECK(false, std::string(P) + (k == name ? "value" : "other-variable"), "%s %s: the variable %s holds '%s' (%zu times) instead of '%s'", op, brief(name).c_str(), brief(k).c_str(), brief(it->second[0]).c_str(), it->second.size(), brief(v[0]).c_str());
    }
    for(auto& [k, v]: got)
        if(!want.count(k)) MON_CHECK(false, std::string(P) + (k == name ? "value" : "other-variable"), "%s %s: a new variable %s holds '%s'", op, brief(name).c_str(), brief(k).c_str(), brief(v[0]).c_str());
}
// A view of the characters in storage of exactly that size (so a sanitizer sees reads past them),
// followed by more characters, or terminated.
struct View {
    std::unique_ptr<char[]> storage;
    std::string_view view;
    View(Rng& r, const std::string& s) {
        switch(r.below(3)) {
        case 0: {  // nothing after it
            storage.reset(new char[s.size()]);
            memcpy(storage.get(), s.data(), s.size());
            view = {storage.get(), s.size()};
            break;
        }
        case 1: {  // within a longer text
            const std::string after = r.chance(50) ? "X" : r.chance(50) ? "=tail" : "_AFTER";
            storage.reset(new char[1 + s.size() + after.size() + 1]);
            storage[0] = '#';
            memcpy(storage.get() + 1, s.data(), s.size());
            memcpy(storage.get() + 1 + s.size(), after.c_str(), after.size() + 1);
            view = {storage.get() + 1, s.size()};
            break;
        }
        default: {
            storage.reset(new char[s.size() + 1]);
            memcpy(storage.get(), s.c_str(), s.size() + 1);
            view = {storage.get(), s.size()};
        }
        }
    }
};
static std::string a_name(Rng& r, int i) {
    // prefixes of each other, and of what follows them in a longer text
    static const char* names[] = {"XMEV", "XMEV_A", "XMEV_AB", "XMEV_ABC", "XMEVX", "XMEV_AFTER", "X", "XM", "xmev", "XMEV A", "XMEV_\xc3\xa9", "XMEV.1", "_", "XMEVXX"};
    (void)r;
    static const int lengths[] = {255, 256, 1023, 1024, 4096, 70000};  // these also prefixes of each other
    return i < 14 ? names[i] : std::string((size_t)lengths[i - 14], 'N');
}
static constexpr int name_count = 20;
static std::string a_value(Rng& r) {
    switch(r.below(9)) {
    case 0: return "";
    case 1: return "1";
    case 2: return "a=b=c";
    case 3: return "=";
    case 4: return " spaces and\nlines\t";
    case 5: return std::string(r.below(70000) + 1, 'v');
    case 6: return "XMEV=5";
    default: {
        std::string s;
        for(long i = 0, n = r.range(1, 40); i < n; ++i) s += (char)r.range(1, 255);
        return s;
    }
    }
}
static void history(Rng& r, long steps) {
    Env model = snapshot();
    {
        const Env start = model;
        for(auto& [k, v]: start) {  // what the process started with
            if(k.empty() || v.size() != 1) continue;
            View n(r, k);
            const char* got = xme::hal::get_environment_variable(n.view);
            judged();
            MON_CHECK(got && v[0] == got, P "read", "the inherited variable %s reads '%s'", brief(k).c_str(), got ? brief(got).c_str() : "(null)");
        }
    }
    for(long i = 0; i < steps; ++i) {
        const std::string name = a_name(r, (int)r.below(name_count));
        View n(r, name);
        if(r.chance(60)) {
            std::string value;
            const auto other = model.find(a_name(r, (int)r.below(name_count)));
            std::string_view given;
            std::unique_ptr<View> v;
            if(r.chance(10) && other != model.end()) {  // the value of a variable, as the environment stores it
                const char* const own = xme::hal::get_environment_variable(other->first);
                value                 = other->second[0];
                judged();
                MON_CHECK(own != nullptr && value == own, P "read", "%s reads '%s'", brief(other->first).c_str(), own ? brief(own).c_str() : "(null)");
                given = own ? std::string_view{own} : std::string_view{value};
            }
            else {
                value = a_value(r);
                v     = std::make_unique<View>(r, value);
                given = v->view;
            }
            note("set %s '%s'\n", brief(name).c_str(), brief(value).c_str());
            xme::hal::set_environment_variable(n.view, given);
            if(value.empty()) model.erase(name);
            else model[name] = {value};
            differs(model, snapshot(), name, "setting");
        }
        else if(r.chance(30)) {  // by the other interface of the process
            const std::string value = a_value(r);
            note("setenv %s '%s'\n", brief(name).c_str(), brief(value).c_str());
            if(r.chance(50)) {
                setenv(name.c_str(), value.c_str(), 1);
                model[name] = {value};
            }
            else {
                unsetenv(name.c_str());
                model.erase(name);
            }
        }
        for(int k = 0; k < 3; ++k) {
            const std::string read = k == 0 ? name : a_name(r, (int)r.below(name_count));
            View q(r, read);
            const char* got = xme::hal::get_environment_variable(q.view);
            const auto it   = model.find(read);
            judged();
            if(it == model.end()) MON_CHECK(!got, P "absent", "%s isn't set, and reads '%s'", brief(read).c_str(), brief(got).c_str());
            else MON_CHECK(got && it->second[0] == got, P "read", "%s reads '%s' instead of '%s'", brief(read).c_str(), got ? brief(got).c_str() : "(null)", brief(it->second[0]).c_str());
        }
        differs(model, snapshot(), name, "reading");
        seen(hash2(hash_str(name.c_str()), model.count(name) ? hash_str(model[name][0].c_str()) : 0));
        if(!st().violations.empty()) return;
    }
    for(int i = 0; i < name_count; ++i) {
        View n(r, a_name(r, i));
        xme::hal::set_environment_variable(n.view, {});
        model.erase(a_name(r, i));
        differs(model, snapshot(), a_name(r, i), "removing");
        judged();
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    cases("history", st().cases, [](Rng& r, long) { history(r, r.range(20, 60)); });
    return finish();
}
