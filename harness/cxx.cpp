// C24: the owning pointers of the C++ interface.
#include "mc.hpp"
#include <type_traits>
#include <utility>
#include "fsalloc.h"
#include "bytearray.h"
#include "charstr.h"
using namespace mc;
using namespace fsecure::fsdyn;
namespace {
struct Blob { char text[24]; };
enum Kind { BYTES, ENCODER, CHARS, BLOB, KINDS };
template <int K> struct Tr;
template <> struct Tr<BYTES> {
    using Ptr = ByteArrayPtr; using T = byte_array_t;
    static Ptr own(T *p) { return make_byte_array_ptr(p); }
    // one short, one that outgrows the first allocation, one empty
    static std::string text(int n) { return n % 3 == 0 ? "object" : n % 3 == 1 ? std::string(300, 'x') : ""; }
    static T *make(int n)
    {
        T *a = make_byte_array(1000);
        std::string s = text(n);
        MC_CHECK(byte_array_append(a, s.data(), s.size()), "append to a byte array failed");
        return a;
    }
    static void look(T *a, int n)
    {
        std::string s = text(n);
        MC_CHECK(byte_array_size(a) == s.size() && !memcmp(byte_array_data(a), s.c_str(), s.size() + 1), "the owned byte array has lost its contents");
    }
    static void kill(T *a) { destroy_byte_array(a); }
    static const char *name() { return "byte array"; }
};
template <> struct Tr<ENCODER> {
    using Ptr = CharstrUrlEncoderPtr; using T = charstr_url_encoder_t;
    static Ptr own(T *p) { return make_charstr_url_encoder_ptr(p); }
    static T *make(int n) { char r[2] = {(char)('a' + n % 26), 0}; return charstr_create_url_encoder(r, ""); }
    static void look(T *e, int n)
    {
        for (int i = 0; i < 26; i++) {
            char w[4]; snprintf(w, sizeof w, i == n % 26 ? "%%%02X" : "%c", 'a' + i);
            MC_CHECK(!strcmp(charstr_url_custom_encode_byte(e, 'a' + i), w), "the owned URL encoder has lost its contents");
        }
    }
    static void kill(T *e) { charstr_destroy_url_encoder(e); }
    static const char *name() { return "URL encoder"; }
};
template <class C, size_t SIZE> struct Block {
    using Ptr = AllocPtr<C>; using T = C;
    static Ptr own(T *p) { return make_fsalloc_ptr<C>(p); }
    static T *make(int n) { char *p = (char *)fsalloc(SIZE); memset(p, 'A' + n % 26, SIZE); return (C *)p; }
    static void look(T *t, int n) { char *p = (char *)t; for (size_t i = 0; i < SIZE; i++) MC_CHECK(p[i] == (char)('A' + n % 26), "the owned block has lost its contents"); }
    static void kill(T *p) { fsfree(p); }
};
template <> struct Tr<CHARS> : Block<char, 5> { static const char *name() { return "character block"; } };
template <> struct Tr<BLOB> : Block<Blob, sizeof(Blob)> { static const char *name() { return "structure"; } };

struct Abstract : System {};
const int SLOTS = 3;
template <int K> struct Sys : Abstract {
    using X = Tr<K>; using P = typename X::Ptr; using T = typename X::T;
    struct Obj { T *p; int no; int refs; size_t blocks; };
    P slot[SLOTS]; int in[SLOTS]; bool armed[SLOTS];          // armed: made by the library's function, not moved from; object numbers, -1: none
    std::vector<Obj> o; std::vector<int> raw;   // raw: references held directly
    int made = 0, limit;
    Sys() { limit = thorough ? 4 : 3; }
    void start(int) override
    {
        MC_CHECK(!std::is_copy_constructible<P>::value && !std::is_copy_assignable<P>::value, "an owning pointer can be copied");
        o.clear(); raw.clear(); made = 0;
        for (int i = 0; i < SLOTS; i++) { new (&slot[i]) P; in[i] = -1; armed[i] = false; }
    }
    int live() { int n = 0; for (auto &x : o) n += x.refs > 0; return n; }
    int create()
    {
        // the smallest number free, so that states are comparable
        int no = 0;
        for (bool again = true; again;) { again = false; for (auto &x : o) if (x.refs && x.no == no) { no++; again = true; } }
        size_t before = arena_live();
        T *p = X::make(no);
        MC_CHECK(p, "no %s created", X::name());
        o.push_back({p, no, 1, arena_live() - before});
        return o.size() - 1;
    }
    void drop(int i) { if (i >= 0) o[i].refs--; }
    // 8 reset to new, 0 adopt new, 1 adopt nothing, 2 reset, 3 release, 4 adopt a raw one, 5 end of life, 6 share into, 7 make in an inner scope; 16.. move, swap
    void ops(std::vector<uint16_t> &v) override
    {
        for (int i = 0; i < SLOTS; i++) {
            if (live() < limit) { v.push_back(0x000 | i); v.push_back(0x700 | i); }
            v.push_back(0x100 | i);
            if (armed[i] && live() < limit) v.push_back(0x800 | i);
            if (in[i] >= 0) { v.push_back(0x200 | i); if (raw.size() < 2) v.push_back(0x300 | i); }
            if (!raw.empty()) v.push_back(0x400 | i);
            if (K == BYTES) for (int j = 0; j < SLOTS; j++) if (in[j] >= 0 && o[in[j]].refs < 3) v.push_back(0x600 | j << 4 | i);
            for (int j = 0; j < SLOTS; j++) if (i != j) { v.push_back(0x1000 | j << 4 | i); if (i < j) v.push_back(0x1100 | j << 4 | i); }
        }
        for (size_t r = 0; r < raw.size(); r++) v.push_back(0x500 | r);
    }
    void apply(uint16_t op) override
    {
        int i = op & 15, j = op >> 4 & 15, n;
        switch (op >> 8) {
            case 0: n = create(); drop(in[i]); slot[i] = X::own(o[n].p); in[i] = n; armed[i] = true; break;
            case 1: slot[i] = X::own(nullptr); drop(in[i]); in[i] = -1; armed[i] = true; break;
            case 2: slot[i].reset(); drop(in[i]); in[i] = -1; break;
            case 3: { T *p = slot[i].release(); MC_CHECK(p == o[in[i]].p, "release yields another %s", X::name()); raw.push_back(in[i]); in[i] = -1; break; }
            case 4: n = raw.back(); raw.pop_back(); drop(in[i]); slot[i] = X::own(o[n].p); in[i] = n; armed[i] = true; break;
            case 5: n = raw[i]; raw.erase(raw.begin() + i); o[n].refs--; X::kill(o[n].p); break;
            case 6: share(i, j); break;
            case 7: { n = create(); { P t = X::own(o[n].p); MC_CHECK(t.get() == o[n].p && t, "the owning pointer does not hold its %s", X::name()); if (in[i] >= 0) MC_CHECK(slot[i].get() == o[in[i]].p, "another owner changed"); } drop(n); break; }
            case 8: n = create(); slot[i].reset(o[n].p); drop(in[i]); in[i] = n; break;
            case 0x10: slot[i] = std::move(slot[j]); drop(in[i]); in[i] = in[j]; in[j] = -1; armed[i] = armed[j]; armed[j] = false; break;
            case 0x11: if (i + j & 1) std::swap(slot[i], slot[j]); else slot[i].swap(slot[j]); std::swap(in[i], in[j]); std::swap(armed[i], armed[j]); break;
        }
        step();
    }
    void share(int i, int j);
    void check() override
    {
        size_t blocks = 0;
        for (int i = 0; i < SLOTS; i++) {
            T *w = in[i] < 0 ? nullptr : o[in[i]].p;
            MC_CHECK(slot[i].get() == w, "an owning pointer holds the wrong %s", X::name());
            MC_CHECK(!!slot[i] == !!w, "an owning pointer's truth value is wrong");
        }
        for (auto &x : o) {
            if (x.refs > 0) { MC_CHECK(arena_is_live(x.p), "an owned %s was released early", X::name()); X::look(x.p, x.no); blocks += x.blocks; }
            else MC_CHECK(!arena_is_live(x.p), "a %s was not released when its last owner went away", X::name());
        }
        MC_CHECK(arena_live() == blocks, "%zu blocks are allocated where %zu belong to owned objects", arena_live(), blocks);
        outcome(live() * 16 + raw.size());
    }
    void canon(Canon &c) override
    {
        for (int i = 0; i < SLOTS; i++) c.add((in[i] < 0 ? 999 : o[in[i]].no) * 2 + armed[i]);
        c.add(raw.size());
        for (int r : raw) c.add(o[r].no);
        std::vector<int> refs(16);
        for (auto &x : o) if (x.refs) refs[x.no & 15] = x.refs;
        for (int r : refs) c.add(r);
    }
    void finish() override
    {
        for (int i = 0; i < SLOTS; i++) { slot[i] = P(); drop(in[i]); in[i] = -1; }
        for (int r : raw) { X::kill(o[r].p); o[r].refs--; }
        raw.clear();
        MC_CHECK(!arena_live(), "%zu block(s) still allocated after every owner has gone (%s)", arena_live(), arena_describe_live().c_str());
    }
    std::string opname(uint16_t op) override
    {
        static const char *N[] = {"adopt-new", "adopt-null", "reset", "release", "adopt-released", "destroy-released", "share", "scoped", "reset-to-new"};
        std::string s = (op >> 8) < 9 ? N[op >> 8] : (op >> 8) == 0x10 ? "move" : "swap";
        s += " " + std::to_string(op & 15);
        if ((op >> 8) == 6 || (op >> 8) >= 16) s += "," + std::to_string(op >> 4 & 15);
        return s;
    }
};
template <int K> void Sys<K>::share(int, int) {}
template <> void Sys<BYTES>::share(int i, int j)
{
    byte_array_t *p = share_byte_array(slot[j].get());
    int n = in[j];
    o[n].refs++;
    drop(in[i]);
    slot[i] = make_byte_array_ptr(p);
    armed[i] = true;
    // a second handle may, in principle, be a different address
    in[i] = n;
}
}
namespace mc {
void suites(std::vector<Suite> &out)
{
    auto add = [&](const char *name, const char *what, std::function<System *()> f) {
        Suite s;
        s.name = name;
        s.bound = std::string("all histories of adopting, sharing, moving, swapping, resetting, releasing and re-adopting up to ") + (thorough ? "4 " : "3 ") + what + " among 3 owning pointers and 2 raw ones";
        s.make = f;
        out.push_back(s);
    };
    add("own-bytes", "byte arrays", [] { return new Sys<BYTES>; });
    add("own-encoders", "URL encoders", [] { return new Sys<ENCODER>; });
    add("own-characters", "character blocks", [] { return new Sys<CHARS>; });
    add("own-structures", "typed blocks", [] { return new Sys<BLOB>; });
}
}
