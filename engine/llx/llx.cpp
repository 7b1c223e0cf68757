// Symbolic executor for whole-program LLVM IR (text form, as written by rustc after fat LTO).
//
// Memory and pointers are concrete, bytes and integers are concrete or z3 bit-vector terms. At a branch both sides of which are
// feasible under the path condition the process forks, so every feasible path is followed; each path reports how it ended
// together with input bytes that lead there (the solver's model). `sx_assert` asks the solver for inputs of this path violating it.
#include <z3.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <memory>
#include <cerrno>
#include <csignal>
#include <semaphore.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using std::string;
using std::vector;
typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;

// ------------------------------------------------------------------------------------------------ shared state
struct Shared {
    sem_t tokens;
    u64 paths, queries, solver_us, insts, asserts, forks, unknown;
    double deadline;
    int stop, bad;
    uint32_t seen[4096];  // how often a violation was recorded, by hash
    uint8_t used[65536];  // functions executed, by address
};
static Shared* sh;
static int out_fd;
static string harness_name;
static bool own_token = false;
static u64 max_paths = 20000, max_steps = 20000000, sym_alloc = 4096;
static bool nofmt = true;
static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------------------------------------ types
struct Type {
    enum K { I, PTR, ARR, VEC, STRUCT, VOID, FLT, META, LABEL } k;
    unsigned w = 0;
    u64 n = 0;
    vector<Type*> el;
    vector<u64> off;
    u64 size = 0, align = 1;
};
static std::map<string, string> named_text;
static std::map<string, Type*> type_cache;

struct Cur {
    const char* p;
    const char* e;
    void ws() {
        while (p < e && (*p == ' ' || *p == '\n' || *p == '\t')) p++;
    }
    bool eat(const char* s) {
        ws();
        size_t n = strlen(s);
        if ((size_t)(e - p) >= n && !memcmp(p, s, n)) {
            p += n;
            return true;
        }
        return false;
    }
    bool peek(char c) {
        ws();
        return p < e && *p == c;
    }
    static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
    string word() {
        ws();
        const char* q = p;
        while (p < e && idc(*p)) p++;
        return string(q, p - q);
    }
    string peekw() {
        const char* s = p;
        string w = word();
        p = s;
        return w;
    }
    string name() {  // after % or @
        if (p < e && *p == '"') {
            const char* q = ++p;
            while (p < e && *p != '"') p++;
            string r(q, p - q);
            p++;
            return r;
        }
        const char* q = p;
        while (p < e && idc(*p)) p++;
        return string(q, p - q);
    }
    void skip_group(char o, char c) {
        int d = 0;
        bool q = false;
        do {
            if (*p == '"') q = !q;
            if (!q) {
                if (*p == o) d++;
                if (*p == c) d--;
            }
            p++;
        } while (p < e && d);
    }
};

struct Unsup {
    string m;
};
[[noreturn]] static void unsup(const string& m) { throw Unsup{m}; }

static Type* mkint(unsigned w) {
    static std::map<unsigned, Type*> c;
    auto& t = c[w];
    if (!t) {
        t = new Type;
        t->k = Type::I;
        t->w = w;
        t->size = (w + 7) / 8;
        u64 a = 1;
        while (a < t->size && a < 16) a *= 2;
        t->align = a;
        t->size = (t->size + a - 1) / a * a;
        if (w > 128) t->size = (w + 63) / 64 * 8, t->align = 16;
    }
    return t;
}
static Type *TPTR, *TVOID, *TMETA;
static Type* parse_type(Cur& c);
static void layout_struct(Type* t, bool packed) {
    u64 o = 0, al = 1;
    for (auto* x : t->el) {
        u64 a = packed ? 1 : x->align;
        o = (o + a - 1) / a * a;
        t->off.push_back(o);
        o += x->size;
        al = std::max(al, a);
    }
    t->align = al;
    t->size = (o + al - 1) / al * al;
}
static Type* parse_type(Cur& c) {
    c.ws();
    if (c.p >= c.e) unsup("type at end");
    if (*c.p == '[') {
        c.p++;
        Type* t = new Type;
        t->k = Type::ARR;
        t->n = strtoull(c.word().c_str(), 0, 10);
        c.eat("x");
        t->el.push_back(parse_type(c));
        c.eat("]");
        t->size = t->n * t->el[0]->size;
        t->align = t->el[0]->align;
        return t;
    }
    if (*c.p == '<' && c.p[1] != '{') {
        c.p++;
        Type* t = new Type;
        t->k = Type::VEC;
        t->n = strtoull(c.word().c_str(), 0, 10);
        c.eat("x");
        t->el.push_back(parse_type(c));
        c.eat(">");
        t->w = t->el[0]->w;
        t->size = t->el[0]->k == Type::I && t->w == 1 ? (t->n + 7) / 8 : t->n * t->el[0]->size;
        t->align = t->size ? t->size : 1;
        return t;
    }
    if (*c.p == '{' || *c.p == '<') {
        bool packed = *c.p == '<';
        c.p += packed ? 2 : 1;
        Type* t = new Type;
        t->k = Type::STRUCT;
        while (!c.peek('}')) {
            t->el.push_back(parse_type(c));
            c.eat(",");
        }
        c.p++;
        if (packed) c.eat(">");
        layout_struct(t, packed);
        return t;
    }
    if (*c.p == '%') {
        c.p++;
        string n = c.name();
        auto it = type_cache.find(n);
        if (it != type_cache.end()) return it->second;
        auto nt = named_text.find(n);
        if (nt == named_text.end()) unsup("type " + n);
        Cur d{nt->second.data(), nt->second.data() + nt->second.size()};
        Type* t = parse_type(d);
        type_cache[n] = t;
        return t;
    }
    string w = c.word();
    if (w == "ptr") return TPTR;
    if (w == "void") return TVOID;
    if (w == "metadata") return TMETA;
    if (w == "label" || w == "token") return TVOID;
    if (w[0] == 'i' && isdigit(w[1])) return mkint(atoi(w.c_str() + 1));
    if (w == "double" || w == "float" || w == "half") {
        static std::map<string, Type*> fl;
        auto& t = fl[w];
        if (!t) {
            t = new Type;
            t->k = Type::FLT;
            t->w = w == "double" ? 64 : w == "float" ? 32 : 16;
            t->size = t->align = t->w / 8;
        }
        return t;
    }
    unsup("type " + w);
}

// ------------------------------------------------------------------------------------------------ values and terms
struct Val {
    uint32_t w = 0;
    Z3_ast e = nullptr;
    u128 c = 0;
    std::shared_ptr<vector<Val>> v;
    bool sym() const { return e != nullptr; }
};
static Z3_context ctx;
static u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static Val C(unsigned w, u128 c) {
    Val v;
    v.w = w;
    v.c = c & mask(w);
    return v;
}
static Z3_sort bvs(unsigned w) {
    static std::map<unsigned, Z3_sort> m;
    auto& s = m[w];
    if (!s) s = Z3_mk_bv_sort(ctx, w);
    return s;
}
static Z3_ast num(unsigned w, u128 c) {
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)c, bvs(w));
    if (c == (u64)c) return Z3_mk_unsigned_int64(ctx, (u64)c, bvs(w));
    Z3_ast h = Z3_mk_unsigned_int64(ctx, (u64)(c >> 64), bvs(w > 128 ? w - 64 : w - 64));
    return Z3_simplify(ctx, Z3_mk_concat(ctx, h, Z3_mk_unsigned_int64(ctx, (u64)c, bvs(64))));
}
static bool numeral(Z3_ast a, u128& c) {
    if (Z3_get_ast_kind(ctx, a) != Z3_NUMERAL_AST) return false;
    uint64_t x;
    if (Z3_get_numeral_uint64(ctx, a, &x)) {
        c = x;
        return true;
    }
    unsigned w = Z3_get_bv_sort_size(ctx, Z3_get_sort(ctx, a));
    if (w > 128) return false;
    Z3_ast lo = Z3_simplify(ctx, Z3_mk_extract(ctx, 63, 0, a)), hi = Z3_simplify(ctx, Z3_mk_extract(ctx, w - 1, 64, a));
    uint64_t l, h;
    Z3_get_numeral_uint64(ctx, lo, &l);
    Z3_get_numeral_uint64(ctx, hi, &h);
    c = (u128)h << 64 | l;
    return true;
}
// w == 1: Bool terms; otherwise bit-vectors
static Val S(unsigned w, Z3_ast e) {
    Val v;
    v.w = w;
    if (w == 1) {
        Z3_lbool b = Z3_get_bool_value(ctx, e);
        if (b != Z3_L_UNDEF) return C(1, b == Z3_L_TRUE);
    } else {
        u128 c;
        if (w <= 128 && numeral(e, c)) return C(w, c);
    }
    v.e = e;
    return v;
}
static Z3_ast T(const Val& v) {
    if (v.e) return v.e;
    if (v.w == 1) return v.c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    return num(v.w, v.c);
}
static Z3_decl_kind kind(Z3_ast a) {
    if (Z3_get_ast_kind(ctx, a) != Z3_APP_AST) return (Z3_decl_kind)0;
    return Z3_get_decl_kind(ctx, Z3_get_app_decl(ctx, Z3_to_app(ctx, a)));
}
static Z3_ast arg(Z3_ast a, unsigned i) { return Z3_get_app_arg(ctx, Z3_to_app(ctx, a), i); }
static unsigned nargs(Z3_ast a) { return Z3_get_app_num_args(ctx, Z3_to_app(ctx, a)); }
static unsigned width(Z3_ast a) { return Z3_get_bv_sort_size(ctx, Z3_get_sort(ctx, a)); }
static Z3_ast extract(unsigned hi, unsigned lo, Z3_ast a) {
    for (;;) {
        unsigned w = width(a);
        if (lo == 0 && hi == w - 1) return a;
        Z3_decl_kind k = kind(a);
        if (k == Z3_OP_CONCAT) {
            unsigned n = nargs(a), o = 0;
            bool hit = false;
            for (unsigned i = n; i-- > 0;) {
                Z3_ast x = arg(a, i);
                unsigned xw = width(x);
                if (lo >= o && hi < o + xw) {
                    lo -= o;
                    hi -= o;
                    a = x;
                    hit = true;
                    break;
                }
                o += xw;
            }
            if (hit) continue;
        }
        if (k == Z3_OP_ZERO_EXT) {
            Z3_ast x = arg(a, 0);
            unsigned xw = width(x);
            if (hi < xw) {
                a = x;
                continue;
            }
            if (lo >= xw) return num(hi - lo + 1, 0);
        }
        if (k == Z3_OP_EXTRACT) {
            unsigned l = Z3_get_decl_int_parameter(ctx, Z3_get_app_decl(ctx, Z3_to_app(ctx, a)), 1);
            a = arg(a, 0);
            lo += l;
            hi += l;
            continue;
        }
        u128 c;
        if (numeral(a, c)) return num(hi - lo + 1, (c >> lo) & mask(hi - lo + 1));
        if (k == Z3_OP_BNOT) return Z3_mk_bvnot(ctx, extract(hi, lo, arg(a, 0)));
        if ((k == Z3_OP_BAND || k == Z3_OP_BOR || k == Z3_OP_BXOR) && nargs(a) == 2) {
            Z3_ast x = extract(hi, lo, arg(a, 0)), y = extract(hi, lo, arg(a, 1));
            u128 p, q;
            if (numeral(x, p) && numeral(y, q)) return num(hi - lo + 1, k == Z3_OP_BAND ? p & q : k == Z3_OP_BOR ? p | q : p ^ q);
            if (k == Z3_OP_BAND) return Z3_mk_bvand(ctx, x, y);
            if (k == Z3_OP_BOR) return Z3_mk_bvor(ctx, x, y);
            return Z3_mk_bvxor(ctx, x, y);
        }
        if (k == Z3_OP_ITE && hi - lo < 64) {
            u128 p, q;
            if (numeral(arg(a, 1), p) && numeral(arg(a, 2), q))
                return Z3_mk_ite(ctx, arg(a, 0), num(hi - lo + 1, (p >> lo) & mask(hi - lo + 1)), num(hi - lo + 1, (q >> lo) & mask(hi - lo + 1)));
        }
        return Z3_mk_extract(ctx, hi, lo, a);
    }
}
static Z3_ast concat(Z3_ast h, Z3_ast l) {
    u128 p, q;
    if (numeral(h, p) && numeral(l, q) && width(h) + width(l) <= 128) return num(width(h) + width(l), p << width(l) | q);
    if (kind(h) == Z3_OP_EXTRACT && kind(l) == Z3_OP_EXTRACT && arg(h, 0) == arg(l, 0)) {
        auto dh = Z3_get_app_decl(ctx, Z3_to_app(ctx, h)), dl = Z3_get_app_decl(ctx, Z3_to_app(ctx, l));
        if (Z3_get_decl_int_parameter(ctx, dh, 1) == Z3_get_decl_int_parameter(ctx, dl, 0) + 1)
            return extract(Z3_get_decl_int_parameter(ctx, dh, 0), Z3_get_decl_int_parameter(ctx, dl, 1), arg(h, 0));
    }
    // flat, right-leaning concats do not matter to extract(): it descends
    return Z3_mk_concat(ctx, h, l);
}
static Z3_ast simp(Z3_ast a) { return Z3_simplify(ctx, a); }

// ------------------------------------------------------------------------------------------------ path state
static Z3_solver solver;
static vector<Z3_ast> inputs;       // 8-bit constants
static vector<uint8_t> model;       // satisfies the path condition
static vector<Val> marks;
static u64 steps = 0;
static vector<string> callstack;
static bool need_sync = false;

struct EndPath {};

static string hex(const vector<uint8_t>& b) {
    string s;
    char t[3];
    for (auto x : b) {
        snprintf(t, 3, "%02x", x);
        s += t;
    }
    return s;
}
static string esc(const string& s) {
    string r;
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        if (c == '\n') {
            r += "\\n";
            continue;
        }
        if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
        r += c;
    }
    return r;
}
static void emit(const string& t, const string& msg, const vector<uint8_t>& in, const string& more = "") {
    string s = "{\"h\":\"" + harness_name + "\",\"t\":\"" + t + "\",\"m\":\"" + esc(msg) + "\",\"in\":\"" + hex(in) + "\"" + more + "}\n";
    if (write(out_fd, s.data(), s.size()) < 0) _exit(3);
    // many failing paths: enough is known
    bool mp = harness_name.size() > 3 && harness_name.substr(harness_name.size() - 3) == "_mp";
    if (t == "viol" || t == "mem" || t == "steps" || (t == "panic" && !mp))
        if (__sync_add_and_fetch(&sh->bad, 1) > 300) sh->stop = 1;
}
static Z3_lbool check() {
    double t = now();
    Z3_lbool r = Z3_solver_check(ctx, solver);
    __sync_fetch_and_add(&sh->queries, 1);
    __sync_fetch_and_add(&sh->solver_us, (u64)((now() - t) * 1e6));
    if (r == Z3_L_UNDEF) __sync_fetch_and_add(&sh->unknown, 1);
    return r;
}
static vector<uint8_t> get_model() {
    Z3_model m = Z3_solver_get_model(ctx, solver);
    vector<uint8_t> r(inputs.size());
    for (size_t i = 0; i < inputs.size(); i++) {
        Z3_ast v;
        u128 c = 0;
        if (Z3_model_eval(ctx, m, inputs[i], true, &v)) numeral(v, c);
        r[i] = (uint8_t)c;
    }
    return r;
}
// value of a term under `model`
static Z3_ast eval_under(Z3_ast e, const vector<uint8_t>& m) {
    vector<Z3_ast> to(inputs.size());
    for (size_t i = 0; i < inputs.size(); i++) to[i] = Z3_mk_unsigned_int64(ctx, m[i], bvs(8));
    return simp(Z3_substitute(ctx, e, inputs.size(), inputs.data(), to.data()));
}
static bool eval_bool(Z3_ast e, const vector<uint8_t>& m, bool& ok) {
    Z3_lbool b = Z3_get_bool_value(ctx, eval_under(e, m));
    ok = b != Z3_L_UNDEF;
    return b == Z3_L_TRUE;
}
static void add(Z3_ast c) { Z3_solver_assert(ctx, solver, c); }
// -1 infeasible, 0 unknown, 1 feasible (fills m)
static int feasible(Z3_ast c, vector<uint8_t>& m) {
    Z3_solver_push(ctx, solver);
    Z3_solver_assert(ctx, solver, c);
    Z3_lbool r = check();
    if (r == Z3_L_TRUE) m = get_model();
    Z3_solver_pop(ctx, solver, 1);
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? -1 : 0;
}
static string stack_str() {
    string s;
    int n = 0;
    for (size_t i = callstack.size(); i-- > 0 && n < 4; n++) s += (n ? " < " : "") + callstack[i];
    return s;
}
static void finish_process() {
    __sync_fetch_and_add(&sh->insts, steps);
    if (own_token) sem_post(&sh->tokens);
    while (wait(nullptr) > 0) {
    }
    _exit(0);
}
static void end_path(const string& t, const string& msg) {
    string more;
    if (marks.size()) {
        more = ",\"marks\":[";
        for (size_t i = 0; i < marks.size(); i++) {
            u128 c = marks[i].c;
            if (marks[i].e) numeral(eval_under(T(marks[i]), model), c);
            char b[32];
            snprintf(b, 32, "%s\"%llu\"", i ? "," : "", (unsigned long long)c);
            more += b;
        }
        more += "]";
    }
    if (t != "done" && t != "assume") more += ",\"at\":\"" + esc(stack_str()) + "\"";
    emit(t, msg, model, more);
    throw EndPath{};
}
// true in the child
static bool fork_path() {
    if (sh->stop || __sync_add_and_fetch(&sh->paths, 1) > max_paths || now() > sh->deadline) {
        sh->stop = 1;
        emit("limit", "paths or time", model);
        return false;
    }
    bool tok = sem_trywait(&sh->tokens) == 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) {
        if (tok) sem_post(&sh->tokens);
        emit("limit", "fork", model);
        return false;
    }
    if (p == 0) {
        own_token = tok;
        __sync_fetch_and_add(&sh->forks, 1);
        steps += 0;
        return true;
    }
    if (!tok) waitpid(p, nullptr, 0);
    return false;
}
static bool decide(const Val& b) {
    if (!b.e) return b.c & 1;
    Z3_ast c = simp(b.e);
    Z3_lbool k = Z3_get_bool_value(ctx, c);
    if (k != Z3_L_UNDEF) return k == Z3_L_TRUE;
    bool ok;
    bool mv = eval_bool(c, model, ok);
    if (!ok) unsup("branch condition with no value");
    Z3_ast oc = mv ? Z3_mk_not(ctx, c) : c;
    vector<uint8_t> om;
    int f = feasible(oc, om);
    if (f < 0) return mv;
    if (f == 0) {
        // undecided: keep to the known side, and say so
        emit("unknown", "branch", model);
        add(mv ? c : Z3_mk_not(ctx, c));
        return mv;
    }
    u64 keep = steps;
    if (fork_path()) {
        steps = 0;
        (void)keep;
        model = om;
        add(oc);
        return !mv;
    }
    add(mv ? c : Z3_mk_not(ctx, c));
    return mv;
}
static u128 concretize(const Val& v) {
    if (!v.e) return v.c;
    for (;;) {
        Z3_ast x = simp(v.e);
        u128 c;
        if (v.w == 1) return decide(v);
        if (numeral(x, c)) return c;
        Z3_ast val = eval_under(x, model);
        if (!numeral(val, c)) unsup("no value");
        Val eq = S(1, simp(Z3_mk_eq(ctx, x, val)));
        if (decide(eq)) return c;
        // in the child: another value (the model changed)
    }
}

// ------------------------------------------------------------------------------------------------ memory
struct SymB {
    Z3_ast e;
    uint16_t i;
};
struct Obj {
    u64 size = 0, base = 0;
    vector<uint8_t> d;
    vector<SymB> s;
    bool freed = false, ro = false;
    Type* ity = nullptr;
    const char *ib = nullptr, *ie = nullptr;  // initialiser text, not yet evaluated
    string name;
};
static vector<Obj*> objs(1, nullptr);
static u64 alloc_obj(u64 size) {
    Obj* o = new Obj;
    o->size = size;
    o->d.resize(size);
    o->base = (u64)objs.size() << 32 | 0x10000;
    objs.push_back(o);
    return o->base;
}
static void init_global(Obj* o);
static Obj* find_obj(u64 a) {
    u64 i = a >> 32;
    if (!i || i >= objs.size()) return nullptr;
    Obj* o = objs[i];
    if (o && o->ib) init_global(o);
    return o;
}
static Obj* access(u64 a, u64 n, const char* what) {
    Obj* o = find_obj(a);
    if (!o || o->freed || a < o->base || a + n > o->base + o->size) {
        char b[160];
        snprintf(b, sizeof b, "%s of %llu bytes at %llx (%s)", what, (unsigned long long)n, (unsigned long long)a, !o ? "no object" : o->freed ? "freed" : "out of bounds");
        end_path("mem", b);
    }
    return o;
}
static Val load_int(u64 a, unsigned w) {
    u64 n = (w + 7) / 8;
    Obj* o = access(a, n, "read");
    u64 k = a - o->base;
    bool any = false;
    if (!o->s.empty())
        for (u64 i = 0; i < n; i++)
            if (o->s[k + i].e) any = true;
    if (!any && w <= 128) {
        u128 c = 0;
        for (u64 i = 0; i < n; i++) c |= (u128)o->d[k + i] << (8 * i);
        return C(w, c);
    }
    Z3_ast r = nullptr;
    u64 i = 0;
    while (i < n) {
        Z3_ast piece;
        if (o->s.empty() || !o->s[k + i].e) {
            u64 j = i;
            u128 c = 0;
            while (j < n && j - i < 8 && (o->s.empty() || !o->s[k + j].e)) {
                c |= (u128)o->d[k + j] << (8 * (j - i));
                j++;
            }
            piece = num(8 * (j - i), c);
            i = j;
        } else {
            SymB b = o->s[k + i];
            u64 j = i;
            while (j < n && o->s[k + j].e == b.e && o->s[k + j].i == b.i + (j - i)) j++;
            unsigned sw = width(b.e);
            unsigned hi = std::min<u64>(8 * (b.i + (j - i)), sw) - 1;
            piece = extract(hi, 8 * b.i, b.e);
            if (hi + 1 < 8 * (b.i + (j - i))) piece = Z3_mk_zero_ext(ctx, 8 * (b.i + (j - i)) - hi - 1, piece);
            i = j;
        }
        r = r ? concat(piece, r) : piece;
    }
    if (w == 1) return S(1, Z3_mk_eq(ctx, extract(0, 0, r), num(1, 1)));
    if (w < 8 * n) r = extract(w - 1, 0, r);
    return S(w, r);
}
static Z3_ast bool2bv(Z3_ast b, unsigned w) {
    if (w == 1) return Z3_mk_ite(ctx, b, num(1, 1), num(1, 0));
    return Z3_mk_ite(ctx, b, num(w, 1), num(w, 0));
}
static void store_int(u64 a, const Val& v, unsigned w) {
    u64 n = (w + 7) / 8;
    Obj* o = access(a, n, "write");
    u64 k = a - o->base;
    if (o->ro) end_path("mem", "write to constant memory");
    if (!v.e) {
        for (u64 i = 0; i < n; i++) o->d[k + i] = i < 16 ? (uint8_t)(v.c >> (8 * i)) : 0;
        if (!o->s.empty())
            for (u64 i = 0; i < n; i++) o->s[k + i].e = nullptr;
        return;
    }
    if (o->s.empty()) o->s.resize(o->size, SymB{nullptr, 0});
    Z3_ast e = v.w == 1 ? bool2bv(v.e, 8) : v.e;
    if (kind(e) == Z3_OP_CONCAT || kind(e) == Z3_OP_ZERO_EXT) {
        // store the pieces, so that later reads see them directly
        for (u64 i = 0; i < n; i++) {
            unsigned hi = std::min<u64>(8 * i + 8, width(e)) - 1;
            Z3_ast b = extract(hi, 8 * i, e);
            if (hi < 8 * i + 7) b = Z3_mk_zero_ext(ctx, 8 * i + 7 - hi, b);
            u128 c;
            if (numeral(b, c)) {
                o->d[k + i] = (uint8_t)c;
                o->s[k + i].e = nullptr;
            } else if (kind(b) == Z3_OP_EXTRACT) {
                auto d = Z3_get_app_decl(ctx, Z3_to_app(ctx, b));
                unsigned l = Z3_get_decl_int_parameter(ctx, d, 1);
                if (l % 8 == 0) o->s[k + i] = SymB{arg(b, 0), (uint16_t)(l / 8)};
                else o->s[k + i] = SymB{b, 0};
            } else o->s[k + i] = SymB{b, 0};
        }
        return;
    }
    for (u64 i = 0; i < n; i++) o->s[k + i] = SymB{e, (uint16_t)i};
}
static Val mkagg(vector<Val> x) {
    Val v;
    v.v = std::make_shared<vector<Val>>(std::move(x));
    return v;
}
static Val zero_of(Type* t) {
    if (t->k == Type::I || t->k == Type::FLT) return C(t->w, 0);
    if (t->k == Type::PTR) return C(64, 0);
    vector<Val> x;
    if (t->k == Type::STRUCT)
        for (auto* e : t->el) x.push_back(zero_of(e));
    else if (t->k == Type::ARR || t->k == Type::VEC)
        x.assign(t->n, zero_of(t->el[0]));
    else return C(1, 0);
    return mkagg(std::move(x));
}
static Val load_t(u64 a, Type* t) {
    switch (t->k) {
        case Type::I: case Type::FLT: return load_int(a, t->w);
        case Type::PTR: return load_int(a, 64);
        case Type::ARR: case Type::VEC: {
            vector<Val> x;
            if (t->k == Type::VEC && t->w == 1) unsup("load of a mask vector");
            for (u64 i = 0; i < t->n; i++) x.push_back(load_t(a + i * t->el[0]->size, t->el[0]));
            return mkagg(std::move(x));
        }
        case Type::STRUCT: {
            vector<Val> x;
            for (size_t i = 0; i < t->el.size(); i++) x.push_back(load_t(a + t->off[i], t->el[i]));
            return mkagg(std::move(x));
        }
        default: unsup("load type");
    }
}
static void store_t(u64 a, const Val& v, Type* t) {
    switch (t->k) {
        case Type::I: case Type::FLT: store_int(a, v, t->w); return;
        case Type::PTR: store_int(a, v, 64); return;
        case Type::ARR: case Type::VEC:
            for (u64 i = 0; i < t->n; i++) store_t(a + i * t->el[0]->size, (*v.v)[i], t->el[0]);
            return;
        case Type::STRUCT:
            for (size_t i = 0; i < t->el.size(); i++) store_t(a + t->off[i], (*v.v)[i], t->el[i]);
            return;
        default: unsup("store type");
    }
}
static void copy_mem(u64 d, u64 s, u64 n) {
    if (!n) return;
    Obj* so = access(s, n, "copy from");
    Obj* dо = access(d, n, "copy to");
    if (dо->ro) end_path("mem", "copy to constant memory");
    u64 ks = s - so->base, kd = d - dо->base;
    memmove(dо->d.data() + kd, so->d.data() + ks, n);
    if (!so->s.empty()) {
        if (dо->s.empty()) {
            bool any = false;
            for (u64 i = 0; i < n && !any; i++) any = so->s[ks + i].e;
            if (!any) return;
            dо->s.resize(dо->size, SymB{nullptr, 0});
        }
        memmove(dо->s.data() + kd, so->s.data() + ks, n * sizeof(SymB));
    } else if (!dо->s.empty())
        for (u64 i = 0; i < n; i++) dо->s[kd + i].e = nullptr;
}

// ------------------------------------------------------------------------------------------------ module
struct Global {
    u64 addr = 0;
    bool fn = false;
};
static std::unordered_map<string, u64> gaddr;      // globals and functions
static std::unordered_map<string, string> galias;
struct Func;
static std::unordered_map<u64, Func*> fn_at;
static string text;

struct Opnd {
    int slot = -1;
    Val k;
};
enum Op { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, ICMP, ZEXT, SEXT, TRUNC, BITCAST, FREEZE, PTRCAST, SELECT, PHI, LOAD, STORE,
          GEP, ALLOCA, CALL, INVOKE, BR, CBR, SWITCH, RET, UNREACH, EXTRV, INSV, EXTRE, INSE, SHUF, CMPXCHG, RMW, FENCE, LANDING, RESUME, FBIN, FCMP, FCAST, FNEG, ASMDIV, BAD };
struct Inst {
    Op op = BAD;
    int dst = -1;
    int sub = 0;
    Type *ty = nullptr, *ty2 = nullptr;
    vector<Opnd> a;
    vector<long> x;
    vector<u128> sw;
    Func* fn = nullptr;
    string s;
    vector<Type*> tys;
};
struct Block {
    vector<Inst> ins;
    string label;
};
struct Func {
    string name;
    u64 addr = 0;
    const char *hb = nullptr, *he = nullptr, *bb = nullptr, *be = nullptr;  // header and body text
    bool defined = false, parsed = false;
    vector<int> params;
    vector<Block> blocks;
    int nslots = 0;
    int hook = 0;  // intercept id, 0: none, -1 unresolved
};
static std::unordered_map<string, Func*> fns;

static Func* func(const string& n) {
    auto& f = fns[n];
    if (!f) {
        f = new Func;
        f->name = n;
        f->hook = -1;
        f->addr = 0x10000 + 16 * fns.size();
        fn_at[f->addr] = f;
        gaddr[n] = f->addr;
    }
    return f;
}
static u64 addr_of(const string& n) {
    auto it = gaddr.find(n);
    if (it != gaddr.end()) return it->second;
    auto al = galias.find(n);
    if (al != galias.end()) return addr_of(al->second);
    return func(n)->addr;
}

static bool value_word(const string& w) {
    static const char* v[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "splat", "add", "sub", "mul", "xor", "c", "none", "blockaddress", "addrspacecast"};
    for (auto x : v)
        if (w == x) return true;
    return false;
}
static void skip_attrs(Cur& c) {
    for (;;) {
        c.ws();
        if (c.p >= c.e) return;
        if (*c.p == '"') {  // string attribute
            c.name();
            if (c.peek('=')) {
                c.p++;
                c.name();
            }
            continue;
        }
        if (!isalpha((unsigned char)*c.p)) return;
        string w = c.peekw();
        if (value_word(w)) return;
        c.word();
        if (c.p < c.e && *c.p == '(') c.skip_group('(', ')');
        else if (w == "align") c.word();
    }
}
static Val parse_const(Cur& c, Type* t);
static Val gep_const(Cur& c) {
    // after "getelementptr": flags ( type, ptr p, idx... )
    for (;;) {
        c.ws();
        if (c.p >= c.e || *c.p == '(') break;
        if (c.word() == "inrange") c.skip_group('(', ')');
    }
    c.p++;
    Type* bt = parse_type(c);
    c.eat(",");
    Type* pt = parse_type(c);
    Val p = parse_const(c, pt);
    u64 a = (u64)p.c;
    bool first = true;
    Type* cur = bt;
    while (c.eat(",")) {
        Type* it = parse_type(c);
        Val i = parse_const(c, it);
        int64_t k = it->w == 64 ? (int64_t)i.c : (int64_t)((s128)(i.c << (128 - it->w)) >> (128 - it->w));
        if (first) {
            a += k * (int64_t)bt->size;
            first = false;
        } else if (cur->k == Type::STRUCT) {
            a += cur->off[k];
            cur = cur->el[k];
        } else {
            cur = cur->el[0];
            a += k * (int64_t)cur->size;
        }
    }
    c.eat(")");
    return C(64, a);
}
static u128 parse_u128(const string& s) {
    bool neg = s[0] == '-';
    u128 r = 0;
    for (size_t i = neg; i < s.size(); i++) r = r * 10 + (s[i] - '0');
    return neg ? (u128)0 - r : r;
}
static Val parse_const(Cur& c, Type* t) {
    skip_attrs(c);
    c.ws();
    if (*c.p == '@') {
        c.p++;
        return C(64, addr_of(c.name()));
    }
    if (*c.p == 'c' && c.p[1] == '"') {
        c.p += 2;
        vector<Val> x;
        while (*c.p != '"') {
            if (*c.p == '\\') {
                char h[3] = {c.p[1], c.p[2], 0};
                x.push_back(C(8, strtoul(h, 0, 16)));
                c.p += 3;
            } else x.push_back(C(8, (uint8_t)*c.p++));
        }
        c.p++;
        return mkagg(std::move(x));
    }
    if (*c.p == '{' || *c.p == '[' || *c.p == '<') {
        bool packed = *c.p == '<' && c.p[1] == '{';
        c.p += packed ? 2 : 1;
        vector<Val> x;
        for (;;) {
            c.ws();
            if (*c.p == '}' || *c.p == ']' || *c.p == '>') break;
            Type* et = parse_type(c);
            x.push_back(parse_const(c, et));
            c.eat(",");
        }
        c.p++;
        if (packed) c.eat(">");
        return mkagg(std::move(x));
    }
    string w = c.word();
    if (w == "zeroinitializer" || w == "undef" || w == "poison" || w == "null" || w == "none") return zero_of(t);
    if (w == "true") return C(1, 1);
    if (w == "false") return C(1, 0);
    if (w == "getelementptr") return gep_const(c);
    if (w == "ptrtoint" || w == "inttoptr" || w == "bitcast" || w == "trunc" || w == "addrspacecast") {
        c.eat("(");
        Type* s = parse_type(c);
        Val v = parse_const(c, s);
        c.eat("to");
        Type* d = parse_type(c);
        c.eat(")");
        return C(d->k == Type::PTR ? 64 : d->w, v.c);
    }
    if (w == "add" || w == "sub" || w == "xor" || w == "mul") {
        while (!c.peek('(')) c.word();
        c.p++;
        Type* s = parse_type(c);
        Val a = parse_const(c, s);
        c.eat(",");
        Type* s2 = parse_type(c);
        Val b = parse_const(c, s2);
        c.eat(")");
        return C(s->w, w == "add" ? a.c + b.c : w == "sub" ? a.c - b.c : w == "mul" ? a.c * b.c : a.c ^ b.c);
    }
    if (w == "splat") {
        c.eat("(");
        Type* s = parse_type(c);
        Val a = parse_const(c, s);
        c.eat(")");
        return mkagg(vector<Val>(t->n, a));
    }
    if (t->k == Type::FLT) {
        if (w.size() > 2 && w[1] == 'x') {
            u64 b = strtoull(w.c_str(), 0, 16);
            if (t->w == 32) {
                double d;
                memcpy(&d, &b, 8);
                float f = (float)d;
                uint32_t q;
                memcpy(&q, &f, 4);
                return C(32, q);
            }
            return C(64, b);
        }
        if (c.p < c.e && *c.p == '+') {
            c.p++;
            w += "+" + c.word();
        }
        double d = atof(w.c_str());
        if (t->w == 32) {
            float f = (float)d;
            uint32_t q;
            memcpy(&q, &f, 4);
            return C(32, q);
        }
        u64 q;
        memcpy(&q, &d, 8);
        return C(64, q);
    }
    if (w.empty() || !(isdigit((unsigned char)w[0]) || w[0] == '-')) unsup("constant " + w);
    if (t->k == Type::PTR) return C(64, parse_u128(w));
    if (t->w > 128) return C(t->w, parse_u128(w));
    return C(t->w, parse_u128(w));
}
static void init_global(Obj* o) {
    Cur c{o->ib, o->ie};
    o->ib = nullptr;
    bool ro = o->ro;
    o->ro = false;
    Val v = parse_const(c, o->ity);
    store_t(o->base, v, o->ity);
    o->ro = ro;
}

static void load_module() {
    const char* p = text.data();
    const char* end = p + text.size();
    vector<std::pair<string, std::pair<const char*, const char*>>> gl;
    while (p < end) {
        const char* e = (const char*)memchr(p, '\n', end - p);
        if (!e) e = end;
        if (*p == '%') {
            Cur c{p + 1, e};
            string n = c.name();
            if (c.eat("=") && c.eat("type")) {
                c.ws();
                named_text[n] = string(c.p, e - c.p);
            }
        } else if (*p == '@') {
            Cur c{p + 1, e};
            string n = c.name();
            c.eat("=");
            gl.push_back({n, {c.p, e}});
        } else if (!strncmp(p, "declare ", 8)) {
            Cur c{p, e};
            while (c.p < c.e && *c.p != '@') c.p++;
            c.p++;
            func(c.name());
        } else if (!strncmp(p, "define ", 7)) {
            Cur c{p + 7, e};
            while (c.p < c.e && *c.p != '@') {
                if (*c.p == '"') c.name();
                else c.p++;
            }
            c.p++;
            string n = c.name();
            Func* f = func(n);
            f->defined = true;
            f->hb = c.p;
            f->he = e;
            f->bb = e + 1;
            const char* q = e;
            while (q < end && strncmp(q, "\n}\n", 3)) {
                q = (const char*)memchr(q + 1, '\n', end - q - 1);
                if (!q) {
                    q = end;
                    break;
                }
            }
            f->be = q;
            e = q + 2 < end ? q + 2 : end;
        }
        p = e + 1;
    }
    for (auto& g : gl) {
        Cur c{g.second.first, g.second.second};
        bool ext = false, weak = false, ro = false, alias = false;
        for (;;) {
            string w = c.word();
            if (w.empty()) {
                if (c.peek('(')) {
                    c.skip_group('(', ')');
                    continue;
                }
                break;
            }
            if (w == "external") ext = true;
            if (w == "extern_weak") weak = true;
            if (w == "alias") {
                alias = true;
                break;
            }
            if (w == "global") break;
            if (w == "constant") {
                ro = true;
                break;
            }
        }
        if (alias) {
            parse_type(c);
            c.eat(",");
            parse_type(c);
            skip_attrs(c);
            c.ws();
            if (*c.p == '@') {
                c.p++;
                galias[g.first] = c.name();
            }
            continue;
        }
        Type* t = parse_type(c);
        u64 a = alloc_obj(0);
        Obj* o = objs.back();
        o->size = t->size;
        o->ro = ro;
        o->name = g.first;
        gaddr[g.first] = a;
        o->d.resize(t->size);
        (void)weak;
        if (!ext && !weak) {
            o->ity = t;
            o->ib = c.p;
            o->ie = c.e;
        }
    }
}

// ------------------------------------------------------------------------------------------------ function bodies
static const std::unordered_map<string, Op>& optable() {
    static const std::unordered_map<string, Op> m = {
        {"add", ADD}, {"sub", SUB}, {"mul", MUL}, {"udiv", UDIV}, {"sdiv", SDIV}, {"urem", UREM}, {"srem", SREM}, {"shl", SHL}, {"lshr", LSHR},
        {"ashr", ASHR}, {"and", AND}, {"or", OR}, {"xor", XOR}, {"icmp", ICMP}, {"zext", ZEXT}, {"sext", SEXT}, {"trunc", TRUNC}, {"bitcast", BITCAST},
        {"freeze", FREEZE}, {"ptrtoint", PTRCAST}, {"inttoptr", PTRCAST}, {"select", SELECT}, {"phi", PHI}, {"load", LOAD}, {"store", STORE},
        {"getelementptr", GEP}, {"alloca", ALLOCA}, {"call", CALL}, {"invoke", INVOKE}, {"br", BR}, {"switch", SWITCH}, {"ret", RET},
        {"unreachable", UNREACH}, {"extractvalue", EXTRV}, {"insertvalue", INSV}, {"extractelement", EXTRE}, {"insertelement", INSE},
        {"shufflevector", SHUF}, {"cmpxchg", CMPXCHG}, {"atomicrmw", RMW}, {"fence", FENCE}, {"landingpad", LANDING}, {"resume", RESUME},
        {"fadd", FBIN}, {"fsub", FBIN}, {"fmul", FBIN}, {"fdiv", FBIN}, {"frem", FBIN}, {"fcmp", FCMP}, {"fptoui", FCAST}, {"fptosi", FCAST},
        {"uitofp", FCAST}, {"sitofp", FCAST}, {"fpext", FCAST}, {"fptrunc", FCAST}, {"fneg", FNEG}};
    return m;
}
struct FParse {
    Func* f;
    std::unordered_map<string, int> slot, blk;
    int get(const string& n) {
        auto it = slot.find(n);
        if (it != slot.end()) return it->second;
        int k = f->nslots++;
        slot[n] = k;
        return k;
    }
    Opnd opnd(Cur& c, Type* t) {
        skip_attrs(c);
        c.ws();
        Opnd o;
        if (*c.p == '%') {
            c.p++;
            o.slot = get(c.name());
        } else if (t->k == Type::META) {
            // metadata operands are never read
            o.k = C(1, 0);
            while (c.p < c.e && *c.p != ',' && *c.p != ')') {
                if (*c.p == '(') c.skip_group('(', ')');
                else c.p++;
            }
        } else o.k = parse_const(c, t);
        return o;
    }
    void flags(Cur& c) {
        static const char* fl[] = {"nuw", "nsw", "exact", "disjoint", "samesign", "inbounds", "nusw", "nneg", "volatile", "atomic", "weak", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inalloca"};
        for (;;) {
            string w = c.peekw();
            bool hit = false;
            for (auto x : fl)
                if (w == x) hit = true;
            if (!hit) return;
            c.word();
        }
    }
    int label(Cur& c) {
        c.eat("label");
        c.eat("%");
        string n = c.name();
        auto it = blk.find(n);
        return it == blk.end() ? 0 : it->second;
    }
    void inst(Cur c, Inst& I) {
        I.s = string(c.p, std::min<size_t>(c.e - c.p, 200));
        c.ws();
        if (*c.p == '%') {
            c.p++;
            I.dst = get(c.name());
            c.eat("=");
        }
        string w = c.word();
        while (w == "tail" || w == "musttail" || w == "notail") w = c.word();
        auto it = optable().find(w);
        if (it == optable().end()) return;
        I.op = it->second;
        switch (I.op) {
            case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: case ASHR: case AND: case OR: case XOR:
                flags(c);
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat(",");
                I.a.push_back(opnd(c, I.ty));
                break;
            case FBIN:
                flags(c);
                I.sub = w[1];
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat(",");
                I.a.push_back(opnd(c, I.ty));
                break;
            case FNEG:
                flags(c);
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                break;
            case ICMP: {
                flags(c);
                string p = c.word();
                static const std::map<string, int> pm = {{"eq", 0}, {"ne", 1}, {"ugt", 2}, {"uge", 3}, {"ult", 4}, {"ule", 5}, {"sgt", 6}, {"sge", 7}, {"slt", 8}, {"sle", 9}};
                I.sub = pm.at(p);
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat(",");
                I.a.push_back(opnd(c, I.ty));
                break;
            }
            case FCMP: {
                flags(c);
                I.s = c.word();
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat(",");
                I.a.push_back(opnd(c, I.ty));
                break;
            }
            case ZEXT: case SEXT: case TRUNC: case BITCAST: case PTRCAST: case FCAST:
                flags(c);
                if (I.op == FCAST) I.s = w;
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat("to");
                I.ty2 = parse_type(c);
                break;
            case FREEZE:
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                break;
            case SELECT: {
                flags(c);
                Type* t = parse_type(c);
                I.a.push_back(opnd(c, t));
                c.eat(",");
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat(",");
                Type* t2 = parse_type(c);
                I.a.push_back(opnd(c, t2));
                break;
            }
            case PHI: {
                flags(c);
                I.ty = parse_type(c);
                do {
                    c.eat("[");
                    I.a.push_back(opnd(c, I.ty));
                    c.eat(",");
                    c.eat("%");
                    string n = c.name();
                    auto b = blk.find(n);
                    I.x.push_back(b == blk.end() ? 0 : b->second);
                    c.eat("]");
                } while (c.eat(",") && c.peek('['));
                break;
            }
            case LOAD:
                flags(c);
                I.ty = parse_type(c);
                c.eat(",");
                parse_type(c);
                I.a.push_back(opnd(c, TPTR));
                break;
            case STORE:
                flags(c);
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat(",");
                parse_type(c);
                I.a.push_back(opnd(c, TPTR));
                break;
            case GEP: {
                flags(c);
                I.ty = parse_type(c);
                c.eat(",");
                Type* pt = parse_type(c);
                if (pt->k != Type::PTR) unsup("vector gep");
                I.a.push_back(opnd(c, TPTR));
                while (c.eat(",")) {
                    if (c.peek('!')) break;
                    Type* t = parse_type(c);
                    I.tys.push_back(t);
                    I.a.push_back(opnd(c, t));
                }
                break;
            }
            case ALLOCA:
                flags(c);
                I.ty = parse_type(c);
                if (c.eat(",") && !c.eat("align")) {
                    Type* t = parse_type(c);
                    I.a.push_back(opnd(c, t));
                }
                break;
            case CALL: case INVOKE: {
                for (;;) {
                    c.ws();
                    if (*c.p == '"') {
                        c.name();
                        continue;
                    }
                    if (!isalpha((unsigned char)*c.p)) break;
                    string q = c.peekw();
                    if (q == "void" || q == "ptr" || q == "double" || q == "float" || (q[0] == 'i' && isdigit((unsigned char)q[1]))) break;
                    c.word();
                    if (c.p < c.e && *c.p == '(') c.skip_group('(', ')');
                    else if (q == "align") c.word();
                }
                I.ty = parse_type(c);
                c.ws();
                if (*c.p == '(') c.skip_group('(', ')');
                c.ws();
                if (*c.p == '@') {
                    c.p++;
                    string n = c.name();
                    auto al = galias.find(n);
                    if (al != galias.end()) n = al->second;
                    I.fn = func(n);
                } else if (*c.p == '%') {
                    I.a.push_back(opnd(c, TPTR));
                } else {
                    I.op = BAD;  // inline assembly
                    string q = c.peekw();
                    if (q == "asm") I.s = "asm " + string(c.p, c.e - c.p);
                    // the one instruction num-bigint uses: 128-bit by 64-bit division
                    static const char* DIV = "asm inteldialect \"div ${2:q}\", \"=&{dx},=&{ax},r,0,1,~{dirflag},~{fpsr},~{flags}\"(";
                    const char* z = strstr(c.p, "\"(");
                    if (z && z < c.e && !strncmp(c.p, DIV, strlen(DIV))) {
                        I.op = ASMDIV;
                        c.p = z + 1;
                    } else return;
                }
                c.eat("(");
                while (!c.peek(')')) {
                    Type* t = parse_type(c);
                    I.tys.push_back(t);
                    I.a.push_back(opnd(c, t));
                    c.eat(",");
                }
                c.p++;
                if (I.op == INVOKE) {
                    const char* q = strstr(c.p, "to label");
                    if (!q || q > c.e) unsup("invoke");
                    c.p = q + 2;
                    I.x.push_back(label(c));
                }
                break;
            }
            case BR:
                c.ws();
                if (!strncmp(c.p, "label", 5)) I.x.push_back(label(c));
                else {
                    I.op = CBR;
                    Type* t = parse_type(c);
                    I.a.push_back(opnd(c, t));
                    c.eat(",");
                    I.x.push_back(label(c));
                    c.eat(",");
                    I.x.push_back(label(c));
                }
                break;
            case SWITCH: {
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat(",");
                I.x.push_back(label(c));
                c.eat("[");
                while (!c.peek(']')) {
                    Type* t = parse_type(c);
                    I.sw.push_back(parse_const(c, t).c);
                    c.eat(",");
                    I.x.push_back(label(c));
                }
                break;
            }
            case RET:
                I.ty = parse_type(c);
                if (I.ty->k != Type::VOID) I.a.push_back(opnd(c, I.ty));
                break;
            case EXTRV: {
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                while (c.eat(",")) {
                    if (c.peek('!')) break;
                    I.x.push_back(atol(c.word().c_str()));
                }
                break;
            }
            case INSV: {
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat(",");
                Type* t = parse_type(c);
                I.a.push_back(opnd(c, t));
                while (c.eat(",")) {
                    if (c.peek('!')) break;
                    I.x.push_back(atol(c.word().c_str()));
                }
                break;
            }
            case EXTRE: case INSE: case SHUF: {
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                while (c.eat(",")) {
                    if (c.peek('!')) break;
                    Type* t = parse_type(c);
                    I.tys.push_back(t);
                    I.a.push_back(opnd(c, t));
                }
                break;
            }
            case CMPXCHG: {
                flags(c);
                parse_type(c);
                I.a.push_back(opnd(c, TPTR));
                c.eat(",");
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                c.eat(",");
                Type* t = parse_type(c);
                I.a.push_back(opnd(c, t));
                break;
            }
            case RMW: {
                flags(c);
                I.s = c.word();
                parse_type(c);
                I.a.push_back(opnd(c, TPTR));
                c.eat(",");
                I.ty = parse_type(c);
                I.a.push_back(opnd(c, I.ty));
                break;
            }
            default: break;
        }
    }
    void run() {
        // parameters
        Cur c{f->hb, f->he};
        c.eat("(");
        int k = 0;
        while (!c.peek(')')) {
            if (c.eat("...")) continue;
            Type* t = parse_type(c);
            (void)t;
            skip_attrs(c);
            string n;
            c.ws();
            if (*c.p == '%') {
                c.p++;
                n = c.name();
            } else n = std::to_string(k);
            f->params.push_back(get(n));
            k++;
            c.eat(",");
        }
        // instruction spans
        struct Span {
            const char *b, *e;
        };
        vector<std::pair<string, vector<Span>>> bl;
        const char* p = f->bb;
        while (p < f->be) {
            const char* e = (const char*)memchr(p, '\n', f->be - p);
            if (!e) e = f->be;
            if (e > p && *p != ';') {
                if (*p != ' ') {
                    Cur d{p, e};
                    string n = *p == '"' ? (d.name()) : d.word();
                    bl.push_back({n, {}});
                } else {
                    if (bl.empty()) bl.push_back({"", {}});
                    const char* q = p;
                    while (q < e && *q == ' ') q++;
                    if (q < e && *q != ';' && *q != '#') {
                        string l(q, e - q);
                        if (l.compare(0, 7, "cleanup") == 0 || l.compare(0, 6, "catch ") == 0 || l.compare(0, 7, "filter ") == 0) {
                        } else if (l.compare(0, 9, "to label ") == 0) {
                            bl.back().second.back().e = e;
                        } else {
                            bool sw = l.compare(0, 7, "switch ") == 0;
                            if (sw && l.find(']') == string::npos) {
                                const char* r = e;
                                while (r < f->be && *r != ']') r++;
                                e = (const char*)memchr(r, '\n', f->be - r);
                                if (!e) e = f->be;
                            }
                            bl.back().second.push_back({q, e});
                        }
                    }
                }
            }
            p = e + 1;
        }
        for (size_t i = 0; i < bl.size(); i++) blk[bl[i].first] = i;
        f->blocks.resize(bl.size());
        for (size_t i = 0; i < bl.size(); i++) {
            f->blocks[i].label = bl[i].first;
            f->blocks[i].ins.resize(bl[i].second.size());
            for (size_t j = 0; j < bl[i].second.size(); j++) {
                Span s = bl[i].second[j];
                try {
                    inst(Cur{s.b, s.e}, f->blocks[i].ins[j]);
                } catch (Unsup& u) {
                    f->blocks[i].ins[j].op = BAD;
                    f->blocks[i].ins[j].s = u.m + ": " + string(s.b, std::min<size_t>(s.e - s.b, 160));
                }
            }
        }
        f->parsed = true;
    }
};

// ------------------------------------------------------------------------------------------------ operations
static Val zext(const Val& v, unsigned w) {
    if (v.w == w) return v;
    if (!v.e) return C(w, v.c);
    if (v.w == 1) return S(w, bool2bv(v.e, w));
    Z3_ast e = v.e;
    if (kind(e) == Z3_OP_ZERO_EXT) e = arg(e, 0);
    if (kind(e) == Z3_OP_ITE) {
        u128 p, q;
        if (numeral(arg(e, 1), p) && numeral(arg(e, 2), q)) return S(w, Z3_mk_ite(ctx, arg(e, 0), num(w, p), num(w, q)));
    }
    return S(w, Z3_mk_zero_ext(ctx, w - width(e), e));
}
static Val sext(const Val& v, unsigned w) {
    if (v.w == w) return v;
    if (!v.e) {
        u128 c = v.c;
        if (v.c >> (v.w - 1) & 1) c |= ~mask(v.w);
        return C(w, c);
    }
    if (v.w == 1) return S(w, Z3_mk_ite(ctx, v.e, w > 128 ? Z3_mk_bvnot(ctx, num(w, 0)) : num(w, mask(w)), num(w, 0)));
    return S(w, Z3_mk_sign_ext(ctx, w - v.w, v.e));
}
static Val trunc(const Val& v, unsigned w) {
    if (v.w == w) return v;
    if (!v.e) return C(w, v.c);
    if (w == 1) {
        Z3_ast b = extract(0, 0, v.e);
        if (kind(b) == Z3_OP_ITE) {
            u128 p, q;
            if (numeral(arg(b, 1), p) && numeral(arg(b, 2), q) && p == 1 && q == 0) return S(1, arg(b, 0));
        }
        return S(1, Z3_mk_eq(ctx, b, num(1, 1)));
    }
    return S(w, extract(w - 1, 0, v.e));
}
static s128 sgn(const Val& v) {
    if (v.w >= 128) return (s128)v.c;
    u128 c = v.c;
    if (c >> (v.w - 1) & 1) c |= ~mask(v.w);
    return (s128)c;
}
static Val icmp(int p, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (!a.e && !b.e) {
        bool r = false;
        switch (p) {
            case 0: r = a.c == b.c; break;
            case 1: r = a.c != b.c; break;
            case 2: r = a.c > b.c; break;
            case 3: r = a.c >= b.c; break;
            case 4: r = a.c < b.c; break;
            case 5: r = a.c <= b.c; break;
            case 6: r = sgn(a) > sgn(b); break;
            case 7: r = sgn(a) >= sgn(b); break;
            case 8: r = sgn(a) < sgn(b); break;
            case 9: r = sgn(a) <= sgn(b); break;
        }
        return C(1, r);
    }
    Z3_ast x = T(a), y = T(b);
    if (w == 1) {
        if (p == 0) return S(1, simp(Z3_mk_iff(ctx, x, y)));
        if (p == 1) return S(1, simp(Z3_mk_xor(ctx, x, y)));
        x = bool2bv(x, 1);
        y = bool2bv(y, 1);
    }
    if (p < 2) {
        // a comparison of a widened boolean with a constant
        Z3_ast i = a.e && kind(x) == Z3_OP_ITE ? x : nullptr;
        u128 c1, c2, k;
        if (i && numeral(y, k) && numeral(arg(i, 1), c1) && numeral(arg(i, 2), c2)) {
            bool t = (c1 == k) == (p == 0), f = (c2 == k) == (p == 0);
            if (t == f) return C(1, t);
            return S(1, t ? arg(i, 0) : simp(Z3_mk_not(ctx, arg(i, 0))));
        }
        Z3_ast e = Z3_mk_eq(ctx, x, y);
        return S(1, simp(p == 0 ? e : Z3_mk_not(ctx, e)));
    }
    Z3_ast e = nullptr;
    switch (p) {
        case 2: e = Z3_mk_bvugt(ctx, x, y); break;
        case 3: e = Z3_mk_bvuge(ctx, x, y); break;
        case 4: e = Z3_mk_bvult(ctx, x, y); break;
        case 5: e = Z3_mk_bvule(ctx, x, y); break;
        case 6: e = Z3_mk_bvsgt(ctx, x, y); break;
        case 7: e = Z3_mk_bvsge(ctx, x, y); break;
        case 8: e = Z3_mk_bvslt(ctx, x, y); break;
        case 9: e = Z3_mk_bvsle(ctx, x, y); break;
    }
    return S(1, simp(e));
}
static Val ite(const Val& c, const Val& a, const Val& b);
static Val binop(Op op, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (!a.e && !b.e && w <= 128) {
        u128 x = a.c, y = b.c;
        switch (op) {
            case ADD: return C(w, x + y);
            case SUB: return C(w, x - y);
            case MUL: return C(w, x * y);
            case UDIV: if (!y) unsup("division by zero"); return C(w, x / y);
            case UREM: if (!y) unsup("division by zero"); return C(w, x % y);
            case SDIV: if (!y) unsup("division by zero"); return C(w, (u128)(sgn(a) / sgn(b)));
            case SREM: if (!y) unsup("division by zero"); return C(w, (u128)(sgn(a) % sgn(b)));
            case SHL: return C(w, y >= w ? 0 : x << (unsigned)y);
            case LSHR: return C(w, y >= w ? 0 : x >> (unsigned)y);
            case ASHR: return C(w, (u128)(sgn(a) >> (unsigned)(y >= w ? w - 1 : y)));
            case AND: return C(w, x & y);
            case OR: return C(w, x | y);
            case XOR: return C(w, x ^ y);
            default: break;
        }
    }
    if (w == 1) {
        Z3_ast x = T(a), y = T(b);
        switch (op) {
            case AND: case MUL: {
                Z3_ast t[2] = {x, y};
                return S(1, simp(Z3_mk_and(ctx, 2, t)));
            }
            case OR: {
                Z3_ast t[2] = {x, y};
                return S(1, simp(Z3_mk_or(ctx, 2, t)));
            }
            case XOR: case ADD: case SUB: return S(1, simp(Z3_mk_xor(ctx, x, y)));
            default: unsup("i1 operation");
        }
    }
    // neutral and absorbing constants
    if (!b.e) {
        u128 y = b.c;
        if (y == 0) {
            if (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR) return a;
            if (op == MUL || op == AND) return C(w, 0);
        }
        if (op == MUL && y == 1) return a;
        if (op == UDIV && y == 1) return a;
        if (op == AND && y == mask(w)) return a;
        if (op == AND && w <= 128) {
            // low mask: a zero-extended slice
            unsigned k = 0;
            while (k < w && (y >> k & 1)) k++;
            if (y == mask(k)) {
                Z3_ast l = extract(k - 1, 0, a.e);
                u128 lc;
                if (numeral(l, lc)) return C(w, lc);
                if (kind(l) == Z3_OP_ZERO_EXT) l = arg(l, 0);
                return S(w, Z3_mk_zero_ext(ctx, w - width(l), l));
            }
        }
        if (op == SHL && y < w) return S(w, concat(extract(w - 1 - (unsigned)y, 0, a.e), num((unsigned)y, 0)));
        if (op == LSHR && y < w) {
            Z3_ast h = extract(w - 1, (unsigned)y, a.e);
            return S(w, kind(h) == Z3_OP_ZERO_EXT ? zext(S(width(h), h), w).e : Z3_mk_zero_ext(ctx, (unsigned)y, h));
        }
        if ((op == SHL || op == LSHR) && y >= w) return C(w, 0);
        if (op == MUL && w <= 128 && y && !(y & (y - 1))) {
            unsigned k = 0;
            while (!(y >> k & 1)) k++;
            return binop(SHL, a, C(w, k));
        }
        if ((op == UDIV || op == UREM) && y && !(y & (y - 1))) {
            unsigned k = 0;
            while (!(y >> k & 1)) k++;
            return op == UDIV ? binop(LSHR, a, C(w, k)) : binop(AND, a, C(w, y - 1));
        }
    } else if (!a.e && (op == ADD || op == MUL || op == AND || op == OR || op == XOR)) return binop(op, b, a);
    if (op == OR || op == ADD || op == XOR) {
        // disjoint halves: concatenation
        if (a.e && b.e) {
            for (int s = 0; s < 2; s++) {
                Z3_ast x = s ? b.e : a.e, y = s ? a.e : b.e;
                if (kind(y) == Z3_OP_ZERO_EXT && kind(x) == Z3_OP_CONCAT) {
                    unsigned yw = width(arg(y, 0));
                    // trailing zero bits of x
                    u128 c;
                    if (numeral(extract(yw - 1, 0, x), c) && c == 0) return S(w, concat(extract(w - 1, yw, x), arg(y, 0)));
                }
            }
        }
    }
    Z3_ast x = T(a), y = T(b);
    Z3_ast e = nullptr;
    switch (op) {
        case ADD: e = Z3_mk_bvadd(ctx, x, y); break;
        case SUB: e = Z3_mk_bvsub(ctx, x, y); break;
        case MUL: e = Z3_mk_bvmul(ctx, x, y); break;
        case UDIV: e = Z3_mk_bvudiv(ctx, x, y); break;
        case UREM: e = Z3_mk_bvurem(ctx, x, y); break;
        case SDIV: e = Z3_mk_bvsdiv(ctx, x, y); break;
        case SREM: e = Z3_mk_bvsrem(ctx, x, y); break;
        case SHL: e = Z3_mk_bvshl(ctx, x, y); break;
        case LSHR: e = Z3_mk_bvlshr(ctx, x, y); break;
        case ASHR: e = Z3_mk_bvashr(ctx, x, y); break;
        case AND: e = Z3_mk_bvand(ctx, x, y); break;
        case OR: e = Z3_mk_bvor(ctx, x, y); break;
        case XOR: e = Z3_mk_bvxor(ctx, x, y); break;
        default: unsup("binop");
    }
    return S(w, e);
}
static Val ite(const Val& c, const Val& a, const Val& b) {
    if (!c.e) return c.c ? a : b;
    if (a.v) {
        vector<Val> r;
        for (size_t i = 0; i < a.v->size(); i++) r.push_back(ite(c, (*a.v)[i], (*b.v)[i]));
        return mkagg(std::move(r));
    }
    if (!a.e && !b.e && a.c == b.c) return a;
    if (a.e == b.e && a.e) return a;
    if (a.w == 1) return S(1, simp(Z3_mk_ite(ctx, c.e, T(a), T(b))));
    return S(a.w, Z3_mk_ite(ctx, c.e, T(a), T(b)));
}
static Val lnot(const Val& a) { return a.e ? S(1, simp(Z3_mk_not(ctx, a.e))) : C(1, !a.c); }

template <class F>
static Val lanes(const Val& a, const Val& b, F f) {
    if (a.v) {
        vector<Val> r;
        for (size_t i = 0; i < a.v->size(); i++) r.push_back(f((*a.v)[i], (*b.v)[i]));
        return mkagg(std::move(r));
    }
    return f(a, b);
}
static Val bitcast(const Val& v, Type* from, Type* to) {
    // through one wide integer
    unsigned fw = from->k == Type::VEC ? (from->el[0]->k == Type::PTR ? 64 : from->w) : from->k == Type::PTR ? 64 : from->w;
    unsigned tw = to->k == Type::VEC ? (to->el[0]->k == Type::PTR ? 64 : to->w) : to->k == Type::PTR ? 64 : to->w;
    unsigned total = from->k == Type::VEC ? fw * from->n : fw;
    vector<Val> in = from->k == Type::VEC ? *v.v : vector<Val>{v};
    if (fw == tw && from->k == to->k) return v;
    Val whole;
    bool sym = false;
    for (auto& x : in) sym |= x.sym();
    if (!sym && total <= 128) {
        u128 c = 0;
        for (size_t i = 0; i < in.size(); i++) c |= in[i].c << (fw * i);
        whole = C(total, c);
    } else {
        Z3_ast e = nullptr;
        for (auto& x : in) {
            Z3_ast t = x.w == 1 ? bool2bv(T(x), 1) : T(x);
            e = e ? concat(t, e) : t;
        }
        whole = S(total, e);
    }
    if (to->k != Type::VEC) return whole;
    vector<Val> r;
    for (u64 i = 0; i < to->n; i++) {
        if (!whole.e) r.push_back(C(tw, whole.c >> (tw * i)));
        else if (tw == 1) r.push_back(S(1, simp(Z3_mk_eq(ctx, extract(i, i, whole.e), num(1, 1)))));
        else r.push_back(S(tw, extract(tw * (i + 1) - 1, tw * i, whole.e)));
    }
    return mkagg(std::move(r));
}
static double dbl(const Val& v) {
    if (v.e) unsup("symbolic floating point");
    if (v.w == 32) {
        float f;
        uint32_t q = (uint32_t)v.c;
        memcpy(&f, &q, 4);
        return f;
    }
    double d;
    u64 q = (u64)v.c;
    memcpy(&d, &q, 8);
    return d;
}
static Val fval(double d, unsigned w) {
    if (w == 32) {
        float f = (float)d;
        uint32_t q;
        memcpy(&q, &f, 4);
        return C(32, q);
    }
    u64 q;
    memcpy(&q, &d, 8);
    return C(64, q);
}

// ------------------------------------------------------------------------------------------------ memory through values
static u64 addr_val(const Val& p) {
    if (!p.e) return (u64)p.c;
    return (u64)concretize(p);
}
static Val do_load(const Val& p, Type* t) {
    if (!p.e) return load_t((u64)p.c, t);
    if (t->k != Type::I && t->k != Type::PTR) return load_t(addr_val(p), t);
    u128 c;
    Z3_ast pe = simp(p.e);
    if (numeral(pe, c)) return load_t((u64)c, t);
    if (!numeral(eval_under(pe, model), c)) unsup("no address");
    Obj* o = find_obj((u64)c);
    if (!o || o->size > 4096) return load_t(addr_val(p), t);
    u64 n = t->size;
    // inside the object?
    Z3_ast in[2] = {Z3_mk_bvuge(ctx, pe, num(64, o->base)), Z3_mk_bvule(ctx, pe, num(64, o->base + o->size - n))};
    if (!decide(S(1, simp(Z3_mk_and(ctx, 2, in))))) return do_load(p, t);  // elsewhere: another object, or a bad access
    u64 stride = 1;
    vector<uint8_t> m;
    if (n > 1) {
        Z3_ast d = Z3_mk_bvsub(ctx, pe, num(64, o->base));
        unsigned k = 0;
        while ((1ull << k) < n) k++;
        if ((1ull << k) == n && feasible(Z3_mk_not(ctx, Z3_mk_eq(ctx, Z3_mk_extract(ctx, k - 1, 0, d), num(k, 0))), m) < 0) stride = n;
    }
    // range of feasible offsets, by bisection on the model side only: all offsets are listed
    Val r;
    bool have = false;
    for (u64 k = 0; k + n <= o->size; k += stride) {
        Val x = load_t(o->base + k, t);
        if (!have) {
            r = x;
            have = true;
        } else r = ite(S(1, simp(Z3_mk_eq(ctx, pe, num(64, o->base + k)))), x, r);
    }
    return r;
}

// ------------------------------------------------------------------------------------------------ calls
static Val run(Func* f, vector<Val>& args);

static Val mem_size(const Val& n, bool& capped) {
    capped = false;
    if (!n.e) return n;
    u128 c;
    Z3_ast e = simp(n.e);
    if (numeral(e, c)) return C(64, c);
    capped = true;
    Val big = S(1, simp(Z3_mk_bvugt(ctx, e, num(64, sym_alloc))));
    if (decide(big)) {
        // reported with the inputs; the harness decides whether it matters
        if (!decide(S(1, simp(Z3_mk_bvugt(ctx, e, num(64, (u64)1 << 26)))))) end_path("limit", "allocation whose size the input chooses, not followed");
        end_path("alloc", "allocation size chosen by the input");
    }
    return C(64, sym_alloc);
}
static Val do_malloc(const Val& n, bool zero, u64 = 0) {
    (void)zero;
    bool capped;
    Val s = mem_size(n, capped);
    if (!capped && s.c > (u128)1 << 26) end_path("alloc", "allocation of " + std::to_string((u64)s.c) + " bytes");
    return C(64, alloc_obj((u64)s.c));
}
static Val mem_eq(u64 a, u64 b, u64 n, bool order) {
    // bcmp: 0 iff equal; memcmp: sign of the first difference
    if (!order) {
        Val all = C(1, 1);
        for (u64 i = 0; i < n;) {
            u64 k = n - i >= 8 ? 8 : 1;
            all = binop(AND, all, icmp(0, load_int(a + i, 8 * k), load_int(b + i, 8 * k)));
            i += k;
        }
        return ite(all, C(32, 0), C(32, 1));
    }
    Val r = C(32, 0);
    for (u64 i = n; i-- > 0;) {
        Val x = load_int(a + i, 8), y = load_int(b + i, 8);
        r = ite(icmp(0, x, y), r, ite(icmp(4, x, y), C(32, 0xffffffff), C(32, 1)));
    }
    return r;
}
static string cstr(u64 p, u64 n) {
    string s;
    for (u64 i = 0; i < n && i < 300; i++) {
        Val b = load_int(p + i, 8);
        s += b.e ? '?' : (char)b.c;
    }
    return s;
}
static string location(vector<Val>& a) {
    for (size_t i = a.size(); i-- > 0;) {
        if (a[i].e || a[i].v || a[i].w != 64) continue;
        Obj* o = find_obj((u64)a[i].c);
        if (!o || !o->ro || o->size < 24 || o->base != (u64)a[i].c) continue;
        Val p = load_int(o->base, 64), n = load_int(o->base + 8, 64), l = load_int(o->base + 16, 32);
        if (p.e || n.e || l.e || n.c > 300 || n.c == 0) continue;
        Obj* s = find_obj((u64)p.c);
        if (!s || s->freed || (u64)p.c + (u64)n.c > s->base + s->size) continue;
        return cstr((u64)p.c, (u64)n.c) + ":" + std::to_string((u64)l.c);
    }
    return "";
}
enum Hook { H_NONE = 0, H_PANIC = 1, H_FMT, H_SYM, H_ASSUME, H_ASSERT, H_MARK, H_ONE, H_EXT, H_INTR, H_NOPRINT, H_SIZECAP };
static bool has(const string& n, const char* s) { return n.find(s) != string::npos; }
static int resolve_hook(Func* f) {
    const string& n = f->name;
    if (n == "sx_sym") return H_SYM;
    if (n == "sx_assume") return H_ASSUME;
    if (n == "sx_assert") return H_ASSERT;
    if (n == "sx_mark") return H_MARK;
    if (n == "sx_one") return H_ONE;
    if (n.compare(0, 5, "llvm.") == 0) return H_INTR;
    if (has(n, "panic_count") || has(n, "is_panicking") || has(n, "panicking9panicking") || has(n, "drop_in_place")) return f->defined ? H_NONE : H_EXT;
    if (has(n, "4core9panicking") || has(n, "core6result13unwrap_failed") || has(n, "core6option13unwrap_failed") || has(n, "core6option13expect_failed") || has(n, "slice_error_fail") || has(n, "_index_len_fail") || has(n, "_index_order_fail") ||
        has(n, "len_mismatch_fail") || has(n, "raw_vec12handle_error") || has(n, "raw_vec17capacity_overflow") || has(n, "handle_alloc_error") || has(n, "std9panicking11begin_panic") || has(n, "rust_panic") || has(n, "std7process5abort") ||
        has(n, "5panic9panic_any") || has(n, "panic_already_borrowed") || has(n, "panic_already_mutably_borrowed") || has(n, "std7process4exit") || has(n, "begin_panic_handler") || has(n, "panic_display") || n == "abort")
        return H_PANIC;
    if (nofmt && has(n, "4core3fmt5write17h")) return H_FMT;
    if (has(n, "std2io5stdio6_print") || has(n, "std2io5stdio7_eprint")) return H_NOPRINT;
    if (!f->defined) return H_EXT;
    return H_NONE;
}
static u64 errno_obj = 0;
static Val intrinsic(Func* f, Inst* I, vector<Val>& a) {
    const string& n = f->name;
    auto is = [&](const char* s) { return n.compare(0, strlen(s), s) == 0; };
    if (is("llvm.memcpy") || is("llvm.memmove")) {
        u64 d = addr_val(a[0]), s = addr_val(a[1]), k = (u64)concretize(a[2]);
        copy_mem(d, s, k);
        return Val();
    }
    if (is("llvm.memset")) {
        u64 d = addr_val(a[0]), k = (u64)concretize(a[2]);
        if (k) access(d, k, "memset");
        for (u64 i = 0; i < k; i++) store_int(d + i, a[1], 8);
        return Val();
    }
    if (is("llvm.assume") || is("llvm.lifetime") || is("llvm.experimental.noalias") || is("llvm.dbg") || is("llvm.prefetch") || is("llvm.sideeffect") || is("llvm.x86.sse2.pause") || is("llvm.invariant") || is("llvm.donothing")) return Val();
    if (is("llvm.trap") || is("llvm.ubsantrap")) end_path("panic", "trap");
    if (is("llvm.expect") || is("llvm.threadlocal.address")) return a[0];
    if (is("llvm.is.constant")) return C(1, 0);
    if (is("llvm.objectsize")) return C(I->ty->w, ~(u128)0);
    if (is("llvm.stacksave")) return C(64, 0);
    if (is("llvm.stackrestore")) return Val();
    if (is("llvm.ptrmask")) return binop(AND, a[0], a[1]);
    if (is("llvm.load.relative")) {
        u64 b = addr_val(a[0]);
        Val off = load_int(b + (u64)concretize(a[1]), 32);
        return C(64, b + (int32_t)concretize(off));
    }
    auto lane1 = [&](auto g) {
        if (a[0].v) {
            vector<Val> r;
            for (auto& x : *a[0].v) r.push_back(g(x));
            return mkagg(std::move(r));
        }
        return g(a[0]);
    };
    if (is("llvm.umax") || is("llvm.umin") || is("llvm.smax") || is("llvm.smin")) {
        int p = n[5] == 'u' ? (n[7] == 'a' ? 2 : 4) : (n[7] == 'a' ? 6 : 8);
        return lanes(a[0], a[1], [&](const Val& x, const Val& y) { return ite(icmp(p, x, y), x, y); });
    }
    if (is("llvm.abs")) return lane1([&](const Val& x) { return ite(icmp(8, x, C(x.w, 0)), binop(SUB, C(x.w, 0), x), x); });
    if (is("llvm.ucmp") || is("llvm.scmp")) {
        unsigned w = I->ty->w;
        int lt = n[5] == 'u' ? 4 : 8;
        return ite(icmp(lt, a[0], a[1]), C(w, ~(u128)0), ite(icmp(0, a[0], a[1]), C(w, 0), C(w, 1)));
    }
    if (is("llvm.ctlz")) return lane1([&](const Val& x) {
        Val r = C(x.w, x.w);
        if (!x.e) {
            unsigned k = 0;
            while (k < x.w && !(x.c >> (x.w - 1 - k) & 1)) k++;
            return C(x.w, k);
        }
        for (unsigned i = 0; i < x.w; i++) r = ite(S(1, simp(Z3_mk_eq(ctx, extract(i, i, x.e), num(1, 1)))), C(x.w, x.w - 1 - i), r);
        return r;
    });
    if (is("llvm.cttz")) return lane1([&](const Val& x) {
        if (!x.e) {
            unsigned k = 0;
            while (k < x.w && !(x.c >> k & 1)) k++;
            return C(x.w, k);
        }
        Val r = C(x.w, x.w);
        for (unsigned i = x.w; i-- > 0;) r = ite(S(1, simp(Z3_mk_eq(ctx, extract(i, i, x.e), num(1, 1)))), C(x.w, i), r);
        return r;
    });
    if (is("llvm.ctpop")) return lane1([&](const Val& x) {
        Val r = C(x.w, 0);
        for (unsigned i = 0; i < x.w; i++) r = binop(ADD, r, x.e ? S(x.w, simp(Z3_mk_zero_ext(ctx, x.w - 1, extract(i, i, x.e)))) : C(x.w, x.c >> i & 1));
        return r;
    });
    if (is("llvm.bswap") || is("llvm.bitreverse")) return lane1([&](const Val& x) {
        unsigned k = n[6] == 's' ? 8 : 1;
        if (!x.e) {
            u128 r = 0;
            for (unsigned i = 0; i < x.w; i += k) r |= (x.c >> i & mask(k)) << (x.w - k - i);
            return C(x.w, r);
        }
        Z3_ast r = nullptr;
        for (unsigned i = 0; i < x.w; i += k) r = r ? concat(r, extract(i + k - 1, i, x.e)) : extract(i + k - 1, i, x.e);
        return S(x.w, r);
    });
    if (is("llvm.fshl") || is("llvm.fshr")) {
        unsigned w = a[0].w;
        bool l = n[8] == 'l';
        if (a[2].e) {
            Val k = binop(UREM, a[2], C(w, w)), z = icmp(0, k, C(w, 0)), q = binop(SUB, C(w, w), k);
            Val r = l ? binop(OR, binop(SHL, a[0], k), binop(LSHR, a[1], q)) : binop(OR, binop(SHL, a[0], q), binop(LSHR, a[1], k));
            return ite(z, l ? a[0] : a[1], r);
        }
        unsigned k = (unsigned)(a[2].c % w);
        if (!k) return l ? a[0] : a[1];
        if (!l) k = w - k;
        return binop(OR, binop(SHL, a[0], C(w, k)), binop(LSHR, a[1], C(w, w - k)));
    }
    if (has(n, ".with.overflow")) {
        unsigned w = a[0].w;
        bool u = n[5] == 'u';
        Op op = n[6] == 'a' ? ADD : n[6] == 's' ? SUB : MUL;
        Val r = binop(op, a[0], a[1]), ov;
        if (!a[0].e && !a[1].e && w <= 64) {
            if (u) ov = C(1, op == ADD ? a[0].c + a[1].c != r.c : op == SUB ? a[0].c < a[1].c : a[0].c * a[1].c != r.c);
            else {
                s128 x = sgn(a[0]), y = sgn(a[1]);
                s128 z = op == ADD ? x + y : op == SUB ? x - y : x * y;
                ov = C(1, z != sgn(r));
            }
        } else if (u && op == ADD) ov = icmp(4, r, a[0]);
        else if (u && op == SUB) ov = icmp(4, a[0], a[1]);
        else if (u) {
            // n * k overflows iff n > max / k
            if (!a[1].e || !a[0].e) {
                const Val& k = a[1].e ? a[0] : a[1];
                const Val& x = a[1].e ? a[1] : a[0];
                ov = k.c == 0 ? C(1, 0) : icmp(2, x, C(w, mask(w) / k.c));
            } else ov = icmp(1, binop(LSHR, binop(MUL, zext(a[0], 2 * w), zext(a[1], 2 * w)), C(2 * w, w)), C(2 * w, 0));
        } else {
            unsigned W = op == MUL ? 2 * w : w + 1;
            Val z = binop(op, sext(a[0], W), sext(a[1], W));
            ov = icmp(1, z, sext(r, W));
        }
        return mkagg({r, ov});
    }
    if (is("llvm.uadd.sat")) return lanes(a[0], a[1], [&](const Val& x, const Val& y) {
        Val r = binop(ADD, x, y);
        return ite(icmp(4, r, x), C(x.w, mask(x.w)), r);
    });
    if (is("llvm.usub.sat")) return lanes(a[0], a[1], [&](const Val& x, const Val& y) { return ite(icmp(4, x, y), C(x.w, 0), binop(SUB, x, y)); });
    if (is("llvm.vector.reduce.")) {
        Op op = has(n, "reduce.or") ? OR : has(n, "reduce.and") ? AND : has(n, "reduce.add") ? ADD : has(n, "reduce.xor") ? XOR : BAD;
        if (op == BAD) unsup(n);
        Val r = (*a[0].v)[0];
        for (size_t i = 1; i < a[0].v->size(); i++) r = binop(op, r, (*a[0].v)[i]);
        return r;
    }
    if (is("llvm.x86.addcarry.") || is("llvm.x86.subborrow.")) {
        unsigned w = a[1].w;
        Val c = zext(icmp(1, a[0], C(8, 0)), w + 1);
        Op op = is("llvm.x86.add") ? ADD : SUB;
        Val r = binop(op, binop(op, zext(a[1], w + 1), zext(a[2], w + 1)), c);
        return mkagg({zext(trunc(binop(LSHR, r, C(w + 1, w)), 1), 8), trunc(r, w)});
    }
    if (is("llvm.x86.sse2.pmovmskb")) {
        Val r = C(32, 0);
        for (size_t i = 0; i < 16; i++) {
            const Val& x = (*a[0].v)[i];
            Val b = x.e ? S(1, Z3_mk_eq(ctx, extract(7, 7, x.e), num(1, 1))) : C(1, x.c >> 7);
            r = binop(OR, r, binop(SHL, zext(b, 32), C(32, i)));
        }
        return r;
    }
    if (is("llvm.fabs")) return C(a[0].w, a[0].c & (mask(a[0].w) >> 1));
    unsup("intrinsic " + n);
}
static Val external(Func* f, Inst* I, vector<Val>& a) {
    const string& n = f->name;
    if (n == "malloc" || n == "__rust_alloc") return do_malloc(a[0], false);
    if (n == "calloc") return do_malloc(binop(MUL, a[0], a[1]), true);
    if (n == "__rust_alloc_zeroed") return do_malloc(a[0], true);
    if (n == "realloc" || n == "__rust_realloc") {
        Val p = n == "realloc" ? do_malloc(a[1], false) : do_malloc(a[3], false);
        u64 old = addr_val(a[0]);
        Obj* o = find_obj(old);
        if (old && o) {
            Obj* q = find_obj((u64)p.c);
            copy_mem((u64)p.c, old, std::min(o->size, q->size));
            o->freed = true;
        }
        return p;
    }
    if (n == "free" || n == "__rust_dealloc") {
        Obj* o = find_obj(addr_val(a[0]));
        if (o) {
            o->freed = true;
            vector<uint8_t>().swap(o->d);
            vector<SymB>().swap(o->s);
        }
        return Val();
    }
    if (n == "posix_memalign") {
        Val p = do_malloc(a[2], false);
        store_int(addr_val(a[0]), p, 64);
        return C(32, 0);
    }
    if (n == "aligned_alloc") return do_malloc(a[1], false);
    if (n == "memcpy" || n == "memmove") {
        copy_mem(addr_val(a[0]), addr_val(a[1]), (u64)concretize(a[2]));
        return a[0];
    }
    if (n == "bcmp" || n == "memcmp") return mem_eq(addr_val(a[0]), addr_val(a[1]), (u64)concretize(a[2]), n == "memcmp");
    if (n == "strlen") {
        u64 p = addr_val(a[0]), k = 0;
        while (concretize(load_int(p + k, 8))) k++;
        return C(64, k);
    }
    if (n == "getenv") return C(64, 0);
    if (n == "write") return a[2];
    if (n == "writev") {
        u64 p = addr_val(a[1]), s = 0;
        for (u64 i = 0; i < (u64)a[2].c; i++) s += (u64)concretize(load_int(p + 16 * i + 8, 64));
        return C(64, s);
    }
    if (n == "__errno_location") {
        if (!errno_obj) errno_obj = alloc_obj(8);
        return C(64, errno_obj);
    }
    if (n == "getrandom") {
        u64 p = addr_val(a[0]);
        for (u64 i = 0; i < (u64)a[1].c; i++) store_int(p + i, C(8, 0x5a + i), 8);
        return a[1];
    }
    if (n == "sysconf") return C(64, 8);
    if (n == "syscall" || n == "sched_yield" || n == "__cxa_thread_atexit_impl" || n == "pthread_key_create" || n == "pthread_key_delete" || n == "pthread_setspecific" || n == "sigaltstack" || n == "munmap" || n == "close")
        return I->ty->k == Type::VOID ? Val() : zero_of(I->ty);
    unsup("external " + n);
}
static Val call_fn(Func* f, Inst* I, vector<Val>& a) {
    if (f->hook < 0) f->hook = resolve_hook(f);
    switch (f->hook) {
        case H_NONE: return run(f, a);
        case H_INTR: return intrinsic(f, I, a);
        case H_EXT: return external(f, I, a);
        case H_NOPRINT: return Val();
        case H_FMT: return zero_of(I->ty);
        case H_PANIC: {
            string m = location(a);
            end_path("panic", m.empty() ? f->name : m);
        }
        case H_SYM: {
            u64 p = addr_val(a[0]), n = (u64)concretize(a[1]);
            for (u64 i = 0; i < n; i++) {
                char b[32];
                snprintf(b, 32, "i%zu", inputs.size());
                Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), bvs(8));
                inputs.push_back(v);
                model.push_back(0);
                store_int(p + i, S(8, v), 8);
            }
            return Val();
        }
        case H_ASSUME: {
            if (!a[0].e) {
                if (!a[0].c) end_path("assume", "");
                return Val();
            }
            bool ok, mv = eval_bool(a[0].e, model, ok);
            if (!mv || !ok) {
                vector<uint8_t> m;
                if (feasible(a[0].e, m) < 1) end_path("assume", "");
                model = m;
            }
            add(a[0].e);
            return Val();
        }
        case H_ASSERT: {
            __sync_fetch_and_add(&sh->asserts, 1);
            if (!a[0].e && a[0].c) return Val();
            string m = cstr(addr_val(a[1]), (u64)a[2].c);
            Z3_ast bad = simp(Z3_mk_not(ctx, T(a[0])));
            Z3_lbool lb = Z3_get_bool_value(ctx, bad);
            if (lb == Z3_L_FALSE) return Val();
            vector<uint8_t> w;
            bool ok, mv = eval_bool(bad, model, ok);
            int r;
            if (ok && mv) {
                w = model;
                r = 1;
            } else r = feasible(bad, w);
            if (r == 0) emit("unknown", m, model);
            if (r > 0) {
                uint32_t h = std::hash<string>()(harness_name + m) % 4096;
                if (__sync_add_and_fetch(&sh->seen[h], 1) <= 4) emit("viol", m, w);
                if (lb == Z3_L_TRUE) end_path("failed", m);
                Z3_ast good = Z3_mk_not(ctx, bad);
                bool g = eval_bool(good, model, ok);
                if (!g) {
                    vector<uint8_t> q;
                    if (feasible(good, q) < 1) end_path("failed", m);
                    model = q;
                }
                add(good);
            }
            return Val();
        }
        case H_ONE: return C(a[0].w, concretize(a[0]));
        case H_MARK: marks.push_back(a[0]); return Val();
    }
    return Val();
}

static Val run(Func* f, vector<Val>& args) {
    if (!f->defined) unsup("call of undefined " + f->name);
    if (!f->parsed) FParse{f}.run();
    callstack.push_back(f->name);
    sh->used[(f->addr >> 4) & 65535] = 1;
    if (callstack.size() > 2000) end_path("steps", "recursion");
    vector<Val> R(f->nslots);
    for (size_t i = 0; i < args.size() && i < f->params.size(); i++) R[f->params[i]] = args[i];
    vector<u64> frame;
    int b = 0, prev = -1;
    auto V = [&](const Opnd& o) -> const Val& { return o.slot >= 0 ? R[o.slot] : o.k; };
    for (;;) {
        Block& B = f->blocks[b];
        size_t i = 0;
        // phi nodes read the old values
        if (i < B.ins.size() && B.ins[0].op == PHI) {
            vector<std::pair<int, Val>> nv;
            for (; i < B.ins.size() && B.ins[i].op == PHI; i++) {
                Inst& I = B.ins[i];
                for (size_t k = 0; k < I.x.size(); k++)
                    if (I.x[k] == prev) {
                        nv.push_back({I.dst, V(I.a[k])});
                        break;
                    }
            }
            for (auto& x : nv) R[x.first] = std::move(x.second);
        }
        int next = -1;
        for (; i < B.ins.size(); i++) {
            Inst& I = B.ins[i];
            if (++steps > max_steps) end_path("steps", "step limit");
            if ((steps & 0xffff) == 0 && now() > sh->deadline) end_path("limit", "time");
            switch (I.op) {
                case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: case ASHR: case AND: case OR: case XOR: {
                    const Val &x = V(I.a[0]), &y = V(I.a[1]);
                    R[I.dst] = x.v ? lanes(x, y, [&](const Val& p, const Val& q) { return binop(I.op, p, q); }) : binop(I.op, x, y);
                    break;
                }
                case ICMP: {
                    const Val &x = V(I.a[0]), &y = V(I.a[1]);
                    R[I.dst] = x.v ? lanes(x, y, [&](const Val& p, const Val& q) { return icmp(I.sub, p, q); }) : icmp(I.sub, x, y);
                    break;
                }
                case ZEXT: case SEXT: case TRUNC: {
                    unsigned w = I.ty2->w;
                    auto g = [&](const Val& x) { return I.op == ZEXT ? zext(x, w) : I.op == SEXT ? sext(x, w) : trunc(x, w); };
                    const Val& x = V(I.a[0]);
                    if (x.v) {
                        vector<Val> r;
                        for (auto& q : *x.v) r.push_back(g(q));
                        R[I.dst] = mkagg(std::move(r));
                    } else R[I.dst] = g(x);
                    break;
                }
                case BITCAST: R[I.dst] = bitcast(V(I.a[0]), I.ty, I.ty2); break;
                case FREEZE: R[I.dst] = V(I.a[0]); break;
                case PTRCAST: {
                    unsigned w = I.ty2->k == Type::PTR ? 64 : I.ty2->w;
                    Val x = V(I.a[0]);
                    R[I.dst] = w < x.w ? trunc(x, w) : zext(x, w);
                    break;
                }
                case SELECT: {
                    Val c = V(I.a[0]);
                    const Val &x = V(I.a[1]), &y = V(I.a[2]);
                    if (c.v) {
                        vector<Val> r;
                        for (size_t k = 0; k < c.v->size(); k++) r.push_back(ite((*c.v)[k], (*x.v)[k], (*y.v)[k]));
                        R[I.dst] = mkagg(std::move(r));
                    } else if (c.e && I.ty->k == Type::PTR) R[I.dst] = decide(c) ? V(I.a[1]) : V(I.a[2]);
                    else R[I.dst] = ite(c, x, y);
                    break;
                }
                case LOAD: R[I.dst] = do_load(V(I.a[0]), I.ty); break;
                case STORE: store_t(addr_val(V(I.a[1])), V(I.a[0]), I.ty); break;
                case GEP: {
                    Val p = V(I.a[0]);
                    Type* cur = I.ty;
                    for (size_t k = 1; k < I.a.size(); k++) {
                        const Val& x = V(I.a[k]);
                        if (k > 1 && cur->k == Type::STRUCT) {
                            p = binop(ADD, p, C(64, cur->off[(u64)x.c]));
                            cur = cur->el[(u64)x.c];
                            continue;
                        }
                        if (k > 1) cur = cur->el[0];
                        u64 sz = cur->size;
                        Val ix = x.w == 64 ? x : sext(x, 64);
                        p = binop(ADD, p, binop(MUL, ix, C(64, sz)));
                    }
                    R[I.dst] = p;
                    break;
                }
                case ALLOCA: {
                    u64 n = I.ty->size;
                    if (!I.a.empty()) n *= (u64)concretize(V(I.a[0]));
                    u64 a = alloc_obj(n);
                    frame.push_back(a >> 32);
                    R[I.dst] = C(64, a);
                    break;
                }
                case CALL: case INVOKE: {
                    vector<Val> a;
                    size_t k = 0;
                    Func* g = I.fn;
                    if (!g) {
                        u64 t = addr_val(V(I.a[0]));
                        auto it = fn_at.find(t);
                        if (it == fn_at.end()) end_path("mem", "call of a bad pointer");
                        g = it->second;
                        k = 1;
                    }
                    a.reserve(I.a.size());
                    for (; k < I.a.size(); k++) a.push_back(V(I.a[k]));
                    Val r = call_fn(g, &I, a);
                    if (I.dst >= 0) R[I.dst] = std::move(r);
                    if (I.op == INVOKE) next = I.x[0];
                    break;
                }
                case BR: next = I.x[0]; break;
                case CBR: next = decide(V(I.a[0])) ? I.x[0] : I.x[1]; break;
                case SWITCH: {
                    const Val x = V(I.a[0]);
                    next = I.x[0];
                    for (size_t k = 0; k < I.sw.size(); k++)
                        if (decide(icmp(0, x, C(I.ty->w, I.sw[k])))) {
                            next = I.x[k + 1];
                            break;
                        }
                    break;
                }
                case RET: {
                    Val r;
                    if (!I.a.empty()) r = V(I.a[0]);
                    for (u64 o : frame) {
                        delete objs[o];
                        objs[o] = nullptr;
                    }
                    callstack.pop_back();
                    return r;
                }
                case UNREACH: end_path("unreachable", f->name);
                case ASMDIV: {
                    const Val &d = V(I.a[0]), &hi = V(I.a[1]), &lo = V(I.a[2]);
                    if (!decide(icmp(4, hi, d))) end_path("panic", "divide error");
                    Val n, q, r, dw = zext(d, 128);
                    n = binop(OR, binop(SHL, zext(hi, 128), C(128, 64)), zext(lo, 128));
                    q = trunc(binop(UDIV, n, dw), 64);
                    r = trunc(binop(UREM, n, dw), 64);
                    R[I.dst] = mkagg({r, q});
                    break;
                }
                case EXTRV: {
                    const Val* x = &V(I.a[0]);
                    for (long k : I.x) x = &(*x->v)[k];
                    Val r = *x;
                    R[I.dst] = r;
                    break;
                }
                case INSV: {
                    Val r = V(I.a[0]);
                    const Val x = V(I.a[1]);
                    r.v = std::make_shared<vector<Val>>(*r.v);
                    Val* q = &r;
                    for (size_t k = 0; k < I.x.size(); k++) {
                        q = &(*q->v)[I.x[k]];
                        if (k + 1 < I.x.size()) q->v = std::make_shared<vector<Val>>(*q->v);
                    }
                    *q = x;
                    R[I.dst] = r;
                    break;
                }
                case EXTRE: R[I.dst] = Val((*V(I.a[0]).v)[(u64)concretize(V(I.a[1]))]); break;
                case INSE: {
                    vector<Val> q = *V(I.a[0]).v;
                    q[(u64)concretize(V(I.a[2]))] = V(I.a[1]);
                    R[I.dst] = mkagg(std::move(q));
                    break;
                }
                case SHUF: {
                    vector<Val> q = *V(I.a[0]).v;
                    const vector<Val>& y = *V(I.a[1]).v;
                    q.insert(q.end(), y.begin(), y.end());
                    vector<Val> r;
                    for (auto& m : *V(I.a[2]).v) r.push_back(q[(u64)m.c < q.size() ? (u64)m.c : 0]);
                    R[I.dst] = mkagg(std::move(r));
                    break;
                }
                case CMPXCHG: {
                    u64 a = addr_val(V(I.a[0]));
                    Val old = load_t(a, I.ty);
                    Val eq = icmp(0, old, V(I.a[1]));
                    if (decide(eq)) {
                        store_t(a, V(I.a[2]), I.ty);
                        R[I.dst] = mkagg({old, C(1, 1)});
                    } else R[I.dst] = mkagg({old, C(1, 0)});
                    break;
                }
                case RMW: {
                    u64 a = addr_val(V(I.a[0]));
                    Val old = load_t(a, I.ty), x = V(I.a[1]), nv;
                    const string& o = I.s;
                    if (o == "xchg") nv = x;
                    else if (o == "add") nv = binop(ADD, old, x);
                    else if (o == "sub") nv = binop(SUB, old, x);
                    else if (o == "and") nv = binop(AND, old, x);
                    else if (o == "or") nv = binop(OR, old, x);
                    else if (o == "xor") nv = binop(XOR, old, x);
                    else if (o == "umax") nv = ite(icmp(2, old, x), old, x);
                    else if (o == "umin") nv = ite(icmp(4, old, x), old, x);
                    else unsup("atomicrmw " + o);
                    store_t(a, nv, I.ty);
                    R[I.dst] = old;
                    break;
                }
                case FENCE: break;
                case FBIN: {
                    double x = dbl(V(I.a[0])), y = dbl(V(I.a[1]));
                    double r = I.sub == 'a' ? x + y : I.sub == 's' ? x - y : I.sub == 'm' ? x * y : I.sub == 'd' ? x / y : 0;
                    R[I.dst] = fval(r, I.ty->w);
                    break;
                }
                case FNEG: R[I.dst] = fval(-dbl(V(I.a[0])), I.ty->w); break;
                case FCMP: {
                    double x = dbl(V(I.a[0])), y = dbl(V(I.a[1]));
                    string o = I.s;
                    bool un = x != x || y != y;
                    char k0 = o[0];
                    string q = o.substr(1);
                    bool r = q == "eq" ? x == y : q == "ne" ? x != y : q == "lt" ? x < y : q == "le" ? x <= y : q == "gt" ? x > y : q == "ge" ? x >= y : o == "ord" ? !un : un;
                    if (o == "ord" || o == "uno") r = (o == "uno") == un;
                    else if (k0 == 'o') r = r && !un;
                    else if (k0 == 'u') r = r || un;
                    R[I.dst] = C(1, r);
                    break;
                }
                case FCAST: {
                    const Val& x = V(I.a[0]);
                    if (I.s == "uitofp" || I.s == "sitofp") {
                        if (x.e) unsup("symbolic floating point");
                        R[I.dst] = fval(I.s[0] == 'u' ? (double)x.c : (double)sgn(x), I.ty2->w);
                    } else if (I.s == "fpext" || I.s == "fptrunc") R[I.dst] = fval(dbl(x), I.ty2->w);
                    else R[I.dst] = C(I.ty2->w, (u128)(s128)dbl(x));
                    break;
                }
                default: unsup(I.s);
            }
            if (next >= 0) break;
        }
        if (next < 0) unsup("fell off a block in " + f->name);
        prev = b;
        b = next;
    }
}

int main(int argc, char** argv) {
    // llx FILE.ll OUT.jsonl TIME JOBS PATHS STEPS ALLOC harness...
    if (argc < 9) return 2;
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("LLX_STACK")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? 1ull << 30 : std::min<rlim_t>(rl.rlim_max, 1ull << 30);
        setrlimit(RLIMIT_STACK, &rl);
        setenv("LLX_STACK", "1", 1);
        execv("/proc/self/exe", argv);
    }
    TPTR = new Type;
    TPTR->k = Type::PTR;
    TPTR->size = TPTR->align = 8;
    TPTR->w = 64;
    TVOID = new Type;
    TVOID->k = Type::VOID;
    TMETA = new Type;
    TMETA->k = Type::META;
    FILE* fp = fopen(argv[1], "r");
    if (!fp) return 2;
    fseek(fp, 0, SEEK_END);
    text.resize(ftell(fp));
    rewind(fp);
    if (fread(&text[0], 1, text.size(), fp) != text.size()) return 2;
    fclose(fp);
    out_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->deadline = now() + atof(argv[3]);
    sem_init(&sh->tokens, 1, atoi(argv[4]));
    max_paths = strtoull(argv[5], 0, 10);
    max_steps = strtoull(argv[6], 0, 10);
    sym_alloc = strtoull(argv[7], 0, 10);
    if (getenv("LLX_FMT")) nofmt = false;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
        string m = string("z3: ") + Z3_get_error_msg(c, e);
        throw Unsup{m};
    });
    try {
        load_module();
    } catch (Unsup& u) {
        fprintf(stderr, "module: %s\n", u.m.c_str());
        return 2;
    }
    // paths that ignore the deadline (a long solver call) are ended
    setpgid(0, 0);
    signal(SIGTERM, SIG_IGN);
    struct sigaction sa = {};
    sa.sa_handler = [](int) {
        sh->stop = 1;
        kill(0, SIGTERM);
        alarm(5);
    };
    sigaction(SIGALRM, &sa, nullptr);
    alarm((unsigned)(atof(argv[3]) + 20));
    for (int i = 8; i < argc; i++) {
        while (sem_wait(&sh->tokens) && !sh->stop) {
        }
        if (sh->stop) break;
        pid_t p = fork();
        if (p) continue;
        own_token = true;
        signal(SIGTERM, SIG_DFL);
        rlimit rl{(rlim_t)6 << 30, (rlim_t)6 << 30};
        setrlimit(RLIMIT_AS, &rl);
        harness_name = argv[i];
        __sync_fetch_and_add(&sh->paths, 1);
        solver = getenv("LLX_SMT") ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, solver);
        Z3_params ps = Z3_mk_params(ctx);
        Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), 60000);
        Z3_solver_set_params(ctx, solver, ps);
        try {
            Func* f = func(harness_name);
            vector<Val> a;
            run(f, a);
            end_path("done", "");
        } catch (EndPath&) {
        } catch (Unsup& u) {
            emit("unsup", u.m, model, ",\"at\":\"" + esc(stack_str()) + "\"");
        } catch (std::exception& e) {
            emit("unsup", string("engine: ") + e.what(), model, ",\"at\":\"" + esc(stack_str()) + "\"");
        }
        finish_process();
    }
    while (wait(nullptr) > 0 || errno == EINTR) {
    }
    if (sh->stop) emit("limit", "stopped before all paths were followed", {}, "");
    FILE* fu = fopen((string(argv[2]) + ".fns").c_str(), "w");
    for (auto& f : fns)
        if (f.second->defined && sh->used[(f.second->addr >> 4) & 65535]) fprintf(fu, "%s\n", f.first.c_str());
    fclose(fu);
    printf("{\"paths\":%llu,\"queries\":%llu,\"solver_s\":%.2f,\"insts\":%llu,\"asserts\":%llu,\"unknown\":%llu,\"stopped\":%d}\n", (unsigned long long)sh->paths, (unsigned long long)sh->queries,
           sh->solver_us / 1e6, (unsigned long long)sh->insts, (unsigned long long)sh->asserts, (unsigned long long)sh->unknown, sh->stop);
    return 0;
}
