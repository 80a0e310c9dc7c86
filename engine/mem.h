// ionsym: copy-on-write byte-granular memory.
#pragma once
#include "expr.h"

namespace sym {

template <class T> struct Ref {   // intrusive, single-threaded
    T* p = nullptr;
    Ref() = default;
    explicit Ref(T* x) : p(x) { if (p) ++p->rc; }
    Ref(const Ref& o) : p(o.p) { if (p) ++p->rc; }
    Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
    Ref& operator=(const Ref& o) { if (o.p) ++o.p->rc; drop(); p = o.p; return *this; }
    Ref& operator=(Ref&& o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
    ~Ref() { drop(); }
    void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
    void reset() { drop(); }
    T* operator->() const { return p; }
    explicit operator bool() const { return p; }
};

struct Agg;
struct Val {
    uint64_t c = 0;
    E e = nullptr;
    Ref<Agg> g;
    Val() = default;
    Val(uint64_t v) : c(v) {}
    static Val ex(E x) { Val v; if (x->isConst() && x->width <= 64) v.c = x->cval; else v.e = x; return v; }
    bool sym() const { return e != nullptr; }
};
struct Agg { int rc = 0; std::vector<Val> v; };

constexpr unsigned PG = 256;
struct Page {
    int rc = 0;
    uint8_t d[PG];
    E* s = nullptr;
    Page() = default;
    Page(const Page& o) : rc(0) { memcpy(d, o.d, PG); if (o.s) { s = new E[PG]; memcpy(s, o.s, sizeof(E) * PG); } }
    ~Page() { delete[] s; }
};
enum class OK : uint8_t { Global, Func, Stack, Malloc, New, NewArr, Exc, Static };
struct Obj {
    int rc = 0;
    uint32_t size = 0;
    OK kind = OK::Global;
    bool ro = false;
    uint8_t fill = 0;
    uint32_t extra = 0;       // Func: function index
    const char* name = "";
    std::vector<Ref<Page>> pg;
    Obj() = default;
    Obj(const Obj& o) : rc(0), size(o.size), kind(o.kind), ro(o.ro), fill(o.fill), extra(o.extra), name(o.name), pg(o.pg) {}
    Page* wpage(unsigned i) {
        auto& r = pg[i];
        if (!r) { r = Ref<Page>(new Page); memset(r.p->d, fill, PG); }
        else if (r.p->rc > 1) r = Ref<Page>(new Page(*r.p));
        return r.p;
    }
    uint8_t byte(uint32_t off, E& s) const {
        auto& r = pg[off / PG];
        s = nullptr;
        if (!r) return fill;
        if (r.p->s) s = r.p->s[off % PG];
        return r.p->d[off % PG];
    }
    void setByte(uint32_t off, uint8_t v, E s) {
        Page* p = wpage(off / PG);
        unsigned i = off % PG;
        p->d[i] = v;
        if (s && s->isConst()) { p->d[i] = (uint8_t)s->cval; s = nullptr; }
        if (s) { if (!p->s) { p->s = new E[PG]; memset(p->s, 0, sizeof(E) * PG); } p->s[i] = s; }
        else if (p->s) p->s[i] = nullptr;
    }
    bool anySym(uint32_t off, uint32_t n) const {
        for (uint32_t i = off / PG; i <= (off + n - 1) / PG && n; ++i) {
            auto& r = pg[i];
            if (!r || !r.p->s) continue;
            uint32_t lo = std::max(off, i * PG), hi = std::min(off + n, (i + 1) * PG);
            for (uint32_t k = lo; k < hi; ++k) if (r.p->s[k % PG]) return true;
        }
        return false;
    }
    void readRaw(uint32_t off, uint8_t* out, uint32_t n) const {
        while (n) {
            uint32_t i = off / PG, o = off % PG, k = std::min(n, PG - o);
            if (pg[i]) memcpy(out, pg[i].p->d + o, k); else memset(out, fill, k);
            off += k; out += k; n -= k;
        }
    }
    void writeRaw(uint32_t off, const uint8_t* in, uint32_t n) {
        while (n) {
            uint32_t i = off / PG, o = off % PG, k = std::min(n, PG - o);
            Page* p = wpage(i);
            memcpy(p->d + o, in, k);
            if (p->s) memset(p->s + o, 0, sizeof(E) * k);
            off += k; in += k; n -= k;
        }
    }
    void setRaw(uint32_t off, uint8_t v, uint32_t n) {
        while (n) {
            uint32_t i = off / PG, o = off % PG, k = std::min(n, PG - o);
            Page* p = wpage(i);
            memset(p->d + o, v, k);
            if (p->s) memset(p->s + o, 0, sizeof(E) * k);
            off += k; n -= k;
        }
    }
};
constexpr unsigned CH = 256;
struct Chunk {
    int rc = 0;
    unsigned live = 0;
    Ref<Obj> o[CH];
};

class Mem {
public:
    std::vector<Ref<Chunk>> t;
    uint32_t next = 0;
    uint64_t heapLive = 0, heapCount = 0;
    static uint64_t addr(uint32_t id) { return ((uint64_t)id + 1) << 32; }
    uint32_t alloc(uint64_t size, OK kind, uint8_t fill, const char* name) {
        uint32_t id = next++;
        if (id / CH >= t.size()) t.push_back(Ref<Chunk>(new Chunk));
        Chunk* c = wchunk(id / CH);
        Obj* ob = new Obj;
        ob->size = (uint32_t)size; ob->kind = kind; ob->fill = fill; ob->name = name;
        ob->pg.resize((size + PG - 1) / PG);
        c->o[id % CH] = Ref<Obj>(ob);
        ++c->live;
        if (kind >= OK::Malloc && kind <= OK::NewArr) { heapLive += size; ++heapCount; }
        return id;
    }
    const Obj* get(uint32_t id) const {
        if (id / CH >= t.size()) return nullptr;
        auto& c = t[id / CH];
        return c ? c.p->o[id % CH].p : nullptr;
    }
    Obj* wget(uint32_t id) {
        Chunk* c = wchunk(id / CH);
        auto& r = c->o[id % CH];
        if (r.p->rc > 1) r = Ref<Obj>(new Obj(*r.p));
        return r.p;
    }
    void free(uint32_t id) {
        Chunk* c = wchunk(id / CH);
        auto* ob = c->o[id % CH].p;
        if (ob->kind >= OK::Malloc && ob->kind <= OK::NewArr) { heapLive -= ob->size; --heapCount; }
        c->o[id % CH].reset();
        if (--c->live == 0 && id / CH + 1 < t.size()) t[id / CH].reset();
    }
private:
    Chunk* wchunk(uint32_t i) {
        auto& r = t[i];
        if (!r) r = Ref<Chunk>(new Chunk);
        else if (r.p->rc > 1) { Chunk* n = new Chunk; n->live = r.p->live; for (unsigned k = 0; k < CH; ++k) n->o[k] = r.p->o[k]; r = Ref<Chunk>(n); }
        return r.p;
    }
};
}  // namespace sym
