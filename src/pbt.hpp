// Property-based-testing engine: integrated generation, execution in forked
// children, shrinking, replay and coverage accounting.
//
// A case is a list of rows of 32-bit choices. Row 0 is the configuration of
// the case, every other row is one operation. All random choices of a case
// are in its rows, so rows are what is shrunk and what a replay file holds.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace pbt
{

using u8 = std::uint8_t; using u32 = std::uint32_t; using u64 = std::uint64_t; using i64 = std::int64_t;

struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n ? u32(next() % n) : 0; }
    bool chance(u32 num, u32 den) { return below(den) < num; }
};

constexpr int CELLS = 8;
struct Row { u32 c[CELLS]; };
struct Case { std::vector<Row> rows; };

// ---- oracle categories ------------------------------------------------------
enum Cat : u32
{
    CONTENT = 1u << 0,  // contents / return values differ from the model
    LIFE    = 1u << 1,  // element lifetime or memory discipline broken, leaks
    CAP     = 1u << 2,  // capacity laws, storage location
    ALLOC   = 1u << 3,  // allocator propagation / use
    REF     = 1u << 4,  // reference / iterator stability
    STRONG  = 1u << 5,  // a failed operation had an effect
    ITER    = 1u << 6,  // iterator algebra
    CMP     = 1u << 7,  // comparison operators
    ERRS    = 1u << 8,  // at / length_error
    CPLX    = 1u << 9,  // operation counts
    ALIAS   = 1u << 10, // wrong result when an argument aliases an element
    RANGE   = 1u << 11, // wrong result for a range operation
    COPY    = 1u << 12, // wrong result of copy / move / swap
    ARGS    = 1u << 13, // arguments consumed although nothing inserted
    HET     = 1u << 14, // heterogeneous operations
    HINT    = 1u << 15, // hinted operations
    STATE   = 1u << 16, // comparator / key_equal state
    ERASE   = 1u << 17, // erase / erase_if
    VALID   = 1u << 18, // container not in a valid state after an exception
    CONF    = 1u << 19, // configuration dependent behaviour
    PRECOND = 1u << 20, // precondition not asserted
    CRASH   = 1u << 30, // the process died (signal, abort, sanitizer, hang)
};
const char* cat_name(u32 c);

enum Fam : u32
{
    F_VEC = 1, F_SMALL = 2, F_STATIC = 4, F_COMPACT = 8, F_DEV = 16, F_SEG = 32, F_SEGDEV = 64,
    F_OSET = 128, F_OMULTI = 256, F_USET = 512, F_UMULTI = 1024, F_OTHER = 2048,
    F_SEQ = 127, F_ASSOC = 128 | 256 | 512 | 1024
};

struct Ctx;
struct Subject
{
    std::string name;
    u32 fam;
    u32 flags; // SF_*
    void (*run)(const Case&, Ctx&);
};
enum SubjFlags : u32 { SF_THROWING = 1, SF_TRACKED_ALLOC = 2, SF_POC = 4, SF_STATEFUL_CMP = 8 };

std::vector<Subject>& subjects();
struct Register
{
    Register(const char* name, u32 fam, u32 flags, void (*run)(const Case&, Ctx&))
    { subjects().push_back(Subject{name, fam, flags, run}); }
};

constexpr int MAX_LABELS = 192;

struct Ctx
{
    u32 mask = ~0u;            // categories this check reports
    int fault_row = -1;        // row at which faults are armed (-1: none)
    u32 fault_k = 0;           // which fault point of that row
    bool fault_fired = false;  // out: a fault fired at fault_row
    bool fault_seen = false;   // out: fault_row was reached
    bool verbose = false;
    int profile = 0;
    u32 max_rows = 60;
    u64 hash = 1469598103934665603ull;
    bool nontrivial = false;
    int cur_row = 0;
    const Cat* op_cat = nullptr; // category of wrong contents for the current operation
    u32 op_group = 0;            // categories of the kind of the current operation
    std::string trace;

    [[noreturn]] void fail(u32 cat, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void mix(u64 x) { hash ^= x + 0x9E3779B97F4A7C15ull + (hash << 6) + (hash >> 2); hash *= 1099511628211ull; }
    void label(int id);
};

extern Ctx* g_ctx; // current
int label_id(const char* name);
#define PBT_LABEL(ctx, name) do { static const int id_ = ::pbt::label_id(name); (ctx).label(id_); } while (0)

struct Params
{
    std::string property;
    std::string tier;
    u64 seed = 1;
    u32 mask = ~0u;
    int profile = 0;
    u64 cases_per_subject = 1000;
    u32 max_rows = 60;
    bool faults = false;       // enumerate fault points
    u32 fault_cap = 200;
    std::string rule;
    std::string level = "exploration";
    double wall_limit = 600;
};

} // namespace pbt
