// SharedLibrary: loads and unloads recorded by the calls of the loader (wrapped at link time)
// and by the constructors and destructors of the libraries themselves (C37).
#include "../harness/mon.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <utility>
#include <sys/stat.h>
#include <sys/wait.h>
#include <xme/hal/shared_library.hpp>

#define P "C37:"
using namespace mon;
using xme::hal::SharedLibrary;

static constexpr int library_count = 4;
static std::string directory;
static int loaded[library_count];               // as the libraries report it
static std::map<void*, long> handles;           // open, not closed yet
static long opens, failed_opens, closes, lookups, constructed, destructed;

extern "C" __attribute__((visibility("default"))) void mon_library_event(int library, int what) {
    loaded[library] += what;
    (what > 0 ? constructed : destructed)++;
}
extern "C" {
void* __real_dlopen(const char*, int);
int __real_dlclose(void*);
void* __real_dlsym(void*, const char*);
void* __wrap_dlopen(const char* name, int flags) {
    void* h = __real_dlopen(name, flags);
    if(h) {
        ++opens;
        ++handles[h];
    }
    else ++failed_opens;
    return h;
}
int __wrap_dlclose(void* h) {
    ++closes;
    auto it = handles.find(h);
    if(it == handles.end()) {
        violation(P "closed-twice", "a handle was closed that isn't open");
        return -1;  // closing it would end in an undefined state
    }
    if(--it->second == 0) handles.erase(it);
    return __real_dlclose(h);
}
void* __wrap_dlsym(void* h, const char* name) {
    ++lookups;
    return __real_dlsym(h, name);
}
}
static std::string path_of(int lib) { return directory + "/liblib" + std::to_string(lib) + ".so"; }
static long open_handles() {
    long n = 0;
    for(auto& [h, k]: handles) n += k;
    return n;
}
static constexpr int long_names[] = {31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 20000};
static std::string long_name(int n) { return "n" + std::string(n - 1, '_'); }
static bool build() {
    char t[] = "libraries.XXXXXX";
    if(!mkdtemp(t)) return false;
    char* full = realpath(t, nullptr);
    directory  = full;
    free(full);
    const std::string source = directory + "/lib.c";
    FILE* f                  = fopen(source.c_str(), "w");
    if(!f) return false;
    fputs("extern void mon_library_event(int, int);\n"
          "__attribute__((constructor)) static void in(void) { mon_library_event(LIB, 1); }\n"
          "__attribute__((destructor)) static void out(void) { mon_library_event(LIB, -1); }\n"
          "int library(void) { return LIB; }\n"
          "int add(int a, int b) { return a + b + 1000 * LIB; }\n"
          "int add_more(int a, int b) { return a - b + 1000 * LIB; }\n"
          "int ad(void) { return -LIB; }\n"
          "int value = 70 + LIB;\n"
          "int value2 = 170 + LIB;\n",
          f);
    // names as long as those of templates, alike but for their length
    for(int n: long_names) fprintf(f, "int %s(void) { return %d + LIB; }\n", long_name(n).c_str(), n);
    fclose(f);
    for(int i = 0; i < library_count; ++i) {
        const std::string c = fmt("cc -shared -fPIC -w -O0 -DLIB=%d -o '%s' '%s'", i, path_of(i).c_str(), source.c_str());
        if(system(c.c_str()) != 0) return false;
    }
    // one with a function that isn't anywhere
    f = fopen((directory + "/unresolved.c").c_str(), "w");
    if(!f) return false;
    fputs("int mon_missing(int); int library(void) { return mon_missing(1); }\n", f);
    fclose(f);
    if(system(fmt("cc -shared -fPIC -w -O0 -Wl,-z,lazy -o '%s/libunresolved.so' '%s/unresolved.c'", directory.c_str(), directory.c_str()).c_str()) != 0) return false;
    // one that isn't a library
    f = fopen((directory + "/libbroken.so").c_str(), "w");
    if(!f) return false;
    fputs("not a library\n", f);
    fclose(f);
    return true;
}
static void remove_all() {
    for(int i = 0; i < library_count; ++i) unlink(path_of(i).c_str());
    unlink((directory + "/lib.c").c_str());
    unlink((directory + "/libbroken.so").c_str());
    unlink((directory + "/libunresolved.so").c_str());
    unlink((directory + "/unresolved.c").c_str());
    rmdir(directory.c_str());
}
struct View {
    std::unique_ptr<char[]> storage;
    std::string_view view;
    View(Rng& r, const std::string& s) {
        const int kind          = (int)r.below(3);
        const std::string after = kind == 0 ? "" : kind == 1 ? (r.chance(50) ? "x" : "_more") : "";
        storage.reset(new char[s.size() + after.size() + (kind != 0)]);
        memcpy(storage.get(), s.data(), s.size());
        if(kind) memcpy(storage.get() + s.size(), after.c_str(), after.size() + 1);
        view = {storage.get(), s.size()};
    }
};
// The objects under test, and the library each of them should hold: -1 for none.
static constexpr int slots = 5;
static std::optional<SharedLibrary> object[slots];
static int held[slots];
static long pending;  // loads that are released only with a moved from object: not known which

static void check_object(Rng& r, int i) {
    if(!object[i]) return;
    SharedLibrary& o = *object[i];
    judged();
    MON_CHECK(o.is_open() == (held[i] >= 0), P "is-open", "is_open() is %d, the object %s", (int)o.is_open(), held[i] >= 0 ? "holds a library" : "holds no library");
    if(held[i] < 0 || !o.is_open()) return;
    void* real = __real_dlopen(path_of(held[i]).c_str(), RTLD_NOW | RTLD_NOLOAD);
    MON_CHECK(real != nullptr, P "unloaded", "library %d isn't loaded, although an object holds it", held[i]);
    if(!real) return;
    static const char* names[] = {"library", "add", "add_more", "ad", "value", "value2", "mon_nothing", "valu", "adding", ""};
    for(int k = 0; k < 3; ++k) {
        const std::string name = r.chance(25) ? long_name(long_names[r.below(std::size(long_names))] + (r.chance(15) ? 7 : 0)) : names[r.below(10)];
        View v(r, name);
        dlerror();
        void* want = name.empty() ? nullptr : __real_dlsym(real, name.c_str());
        void* got  = o.proc_address<void*>(v.view);
        judged();
        MON_CHECK(got == want, P "address", "proc_address(\"%s\") (%zu characters) of library %d is %s", name.substr(0, 20).c_str(), name.size(), held[i], got ? "the address of something else" : "null");
    }
    View lib(r, "library"), add(r, "add"), val(r, "value");
    auto* f = o.proc_address<int (*)()>(lib.view);
    auto* g = o.proc_address<int (*)(int, int)>(add.view);
    auto* v = o.proc_address<int*>(val.view);
    judged(3);
    MON_CHECK(f && f() == held[i], P "address", "the object calls library %d instead of %d", f ? f() : -1, held[i]);
    MON_CHECK(g && g(2, 3) == 5 + 1000 * held[i], P "address", "add of library %d", held[i]);
    MON_CHECK(v && *v == 70 + held[i], P "address", "value of library %d", held[i]);
    __real_dlclose(real);
}
static void check_all(Rng& r, const char* op) {
    long want[library_count] = {}, total = 0;
    for(int i = 0; i < slots; ++i)
        if(object[i] && held[i] >= 0) {
            ++want[held[i]];
            ++total;
        }
    judged();
    MON_CHECK(open_handles() == total, P "balance", "after %s: %ld loads without an unload, %ld libraries held by objects", op, open_handles(), total);
    for(int l = 0; l < library_count; ++l) MON_CHECK(loaded[l] == (want[l] > 0), P "balance", "after %s: library %d is loaded %d times, held by %ld objects", op, l, loaded[l], want[l]);
    MON_CHECK(!__real_dlsym(RTLD_DEFAULT, "add_more"), P "global", "after %s: the symbols of the libraries are visible in the whole process", op);
    for(int i = 0; i < slots; ++i) check_object(r, i);
    u64 h = 0;
    for(int i = 0; i < slots; ++i) h = h * 8 + (object[i] ? held[i] + 2 : 0);
    seen(hash2(h, hash_str(op)));
}
// A name that loads library i, or nothing (-1)
static std::string a_name(Rng& r, int& lib) {
    lib = -1;
    switch(r.below(8)) {
    case 0: return directory + "/libnone.so";
    case 1: return directory + (r.chance(50) ? "/libbroken.so" : "/libunresolved.so");
    case 2:
        lib = (int)r.below(library_count);
        {   // the same file by a long path
            std::string path = path_of(lib), dots;
            for(size_t k = r.below(r.chance(50) ? 140 : (4000 - path.size()) / 2); k; --k) dots += "/.";
            return path.insert(path.rfind('/'), dots);
        }
    default: lib = (int)r.below(library_count); return path_of(lib);
    }
}
static void history(Rng& r, long steps) {
    for(long s = 0; s < steps; ++s) {
        const int i = (int)r.below(slots), j = (int)r.below(slots);
        const char* op = "";
        int lib;
        switch(r.below(9)) {
        case 0:
            op = "construction";
            note("%d = SharedLibrary()\n", i);
            object[i].emplace();
            held[i] = -1;
            break;
        case 1: {
            const std::string name = a_name(r, lib);
            View v(r, name);
            op = "construction with a name";
            note("%d = SharedLibrary(%d)\n", i, lib);
            object[i].emplace(v.view);
            held[i] = lib;
            break;
        }
        case 2:
            op = "destruction";
            note("~%d\n", i);
            object[i].reset();
            held[i] = -1;
            break;
        case 3:
        case 4:
            if(object[i]) {
                const std::string name = a_name(r, lib);
                View v(r, name);
                op = "open";
                note("%d.open(%d)\n", i, lib);
                object[i]->open(v.view);
                held[i] = lib;
            }
            break;
        case 5:
            if(object[i] && r.chance(20)) {
                // without a name: the program itself, if the loader has it so
                op = "open without a name";
                note("%d.open()\n", i);
                void* self = __real_dlopen("", RTLD_NOW | RTLD_LOCAL);
                View v(r, "");
                object[i]->open(v.view);
                judged();
                MON_CHECK(object[i]->is_open() == (self != nullptr), P "is-open", "is_open() is %d after opening without a name", (int)object[i]->is_open());
                if(self && object[i]->is_open()) {
                    View add(r, "add_more"), event(r, "mon_library_event");
                    MON_CHECK(!object[i]->proc_address<void*>(add.view), P "address", "the program has the functions of a library");
                    MON_CHECK(object[i]->proc_address<void*>(event.view) == __real_dlsym(self, "mon_library_event"), P "address", "the program's own function");
                }
                if(self) __real_dlclose(self);
                object[i]->close();
                held[i] = -1;
            }
            else if(object[i]) {
                op = "close";
                note("%d.close()\n", i);
                object[i]->close();
                held[i] = -1;
            }
            break;
        case 6:
            if(object[i] && i != j) {
                op = "move construction";
                note("%d = SharedLibrary(move(%d))\n", j, i);
                object[j].reset();
                held[j] = -1;
                object[j].emplace(std::move(*object[i]));
                std::swap(held[i], held[j]);
            }
            break;
        case 7:
            if(object[i] && object[j]) {
                op = i == j ? "move assignment to itself" : "move assignment";
                note("%d = move(%d)\n", i, j);
                const int before = held[i];
                SharedLibrary& ret = (*object[i] = std::move(*object[j]));
                MON_CHECK(&ret == &*object[i], P "assign", "the assignment returns a different object");
                if(i == j) {
                    if(!object[i]->is_open()) held[i] = -1;
                }
                else {
                    held[i] = held[j];
                    // what the target held is unloaded now, or by the source
                    held[j] = object[j]->is_open() ? before : -1;
                }
            }
            break;
        default:
            if(object[i]) {
                op = "reading";
                const bool open = std::as_const(*object[i]).is_open();
                MON_CHECK(open == (held[i] >= 0), P "is-open", "is_open() of a constant object is %d", (int)open);
            }
        }
        if(*op) check_all(r, op);
        if(!st().violations.empty()) return;
    }
    for(int i = 0; i < slots; ++i) {
        object[i].reset();
        held[i] = -1;
    }
    check_all(r, "the end");
}
int main(int argc, char** argv) {
    init(argc, argv);
    if(!build()) {
        fprintf(stderr, "the libraries don't build\n");
        return 3;
    }
    cases("history", st().cases, [](Rng& r, long) { history(r, r.range(10, 80)); });
    count("loads", opens);
    count("failed_loads", failed_opens);
    count("unloads", closes);
    count("lookups", lookups);
    count("library_constructors", constructed);
    count("library_destructors", destructed);
    remove_all();
    return finish();
}
