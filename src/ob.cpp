#include "ob.hpp"

extern unsigned long long g_news;

namespace ob
{
G g;

// The bookkeeping below must not count as allocation by the code under test.
struct NewsGuard { unsigned long long n = g_news; ~NewsGuard() { g_news = n; } };

void G::reset()
{
    reg.reset();
    armed = fired = false; fired_kind = -1; fmask = ~0u; left = 0;
    std::memset(n, 0, sizeof n);
    dtor = alloc = dealloc = alloc_bytes = work = 0; work_limit = 20000000ull;
    alloc_max = std::size_t(PTRDIFF_MAX);
    default_alloc_id = 0; relax_cons = false;
    blocks.clear();
    for (auto& b : quarantine) std::free(b.raw);
    quarantine.clear();
    qbytes = live_bytes = max_live_bytes = 0;
    fill = 0xA5;
}

static void check_poison(const Block& b)
{
    for (std::size_t i = 0; i < b.bytes; ++i)
        if (static_cast<unsigned char>(b.user[i]) != 0xDD) pbt::g_ctx->fail(pbt::LIFE, "memory written after it was deallocated (offset %zu of a block of %zu x %zu bytes)", i, b.n, b.esize);
}

void G::end_case()
{
    if (!blocks.empty())
        pbt::g_ctx->fail(pbt::LIFE, "memory leak: %zu blocks never deallocated (one of %zu x %zu bytes)", blocks.size(), blocks.begin()->second.n, blocks.begin()->second.esize);
    if (reg.live != 0) pbt::g_ctx->fail(pbt::LIFE, "%u objects never destroyed", reg.live);
    for (auto& b : quarantine) check_poison(b);
}

void* track_alloc(std::size_t n, std::size_t esize, std::size_t align, int id)
{
    point(P_ALLOC);
    NewsGuard ng;
    ++g.alloc;
    if (n > (std::size_t(64) << 20) / esize) pbt::g_ctx->fail(pbt::CRASH, "runaway allocation of %zu elements of %zu bytes", n, esize);
    const std::size_t bytes = n * esize;
    g.alloc_bytes += bytes;
    g.live_bytes += bytes;
    if (g.live_bytes > g.max_live_bytes) g.max_live_bytes = g.live_bytes;
    if (g.live_bytes > (std::size_t(64) << 20)) pbt::g_ctx->fail(pbt::CRASH, "runaway allocation: %zu bytes live", g.live_bytes);
    if (align < 16) align = 16;
    Block b;
    b.raw = static_cast<char*>(std::malloc(bytes + 2 * RZ + align));
    std::uintptr_t u = reinterpret_cast<std::uintptr_t>(b.raw) + RZ;
    u = (u + align - 1) / align * align;
    // Natural alignment only: an element block is aligned as its type needs and no more.
    b.user = reinterpret_cast<char*>(u);
    b.bytes = bytes; b.n = n; b.esize = esize; b.id = id;
    std::memset(b.user - RZ, 0xC3, RZ);
    std::memset(b.user, g.fill, bytes);
    std::memset(b.user + bytes, 0xC3, RZ);
    g.blocks[b.user] = b;
    return b.user;
}

void track_dealloc(void* p, std::size_t n, std::size_t esize, int id)
{
    NewsGuard ng;
    ++g.dealloc;
    auto it = g.blocks.find(p);
    if (it == g.blocks.end()) pbt::g_ctx->fail(pbt::LIFE, "deallocate of a pointer that is not an allocated block (double or foreign deallocation)");
    Block b = it->second;
    if (b.esize != esize) pbt::g_ctx->fail(pbt::LIFE, "deallocate with another element type than allocate");
    if (b.n != n) pbt::g_ctx->fail(pbt::LIFE, "deallocate(p, %zu) of a block allocated with n = %zu", n, b.n);
    if (b.id != id) pbt::g_ctx->fail(pbt::ALLOC, "block allocated by allocator %d is deallocated by unequal allocator %d", b.id, id);
    for (std::size_t i = 0; i < RZ; ++i)
        if (static_cast<unsigned char>(b.user[-1 - long(i)]) != 0xC3) pbt::g_ctx->fail(pbt::LIFE, "memory before a block was overwritten");
    for (std::size_t i = 0; i < RZ; ++i)
        if (static_cast<unsigned char>(b.user[b.bytes + i]) != 0xC3) { pbt::g_ctx->fail(pbt::LIFE, "memory after a block was overwritten"); }
    if (g.reg.live)
        for (std::size_t i = 0; i < b.bytes; i += 8)
            if (g.reg.find(b.user + i)) pbt::g_ctx->fail(pbt::LIFE, "memory deallocated while an element in it is still alive");
    std::memset(b.user, 0xDD, b.bytes);
    g.live_bytes -= b.bytes;
    g.blocks.erase(it);
    g.qbytes += b.bytes;
    if (g.qbytes < (std::size_t(8) << 20)) g.quarantine.push_back(b);
    else std::free(b.raw);
}

void mark_constructed(const void* p, std::size_t bytes, int id)
{
    auto c = static_cast<const char*>(p);
    for (std::size_t i = 0; i < bytes; i += 8)
        if (Entry* e = g.reg.find(c + i)) e->cons = id;
}

void check_destroyed_by(const void* p, std::size_t bytes, int id)
{
    auto c = static_cast<const char*>(p);
    for (std::size_t i = 0; i < bytes; i += 8)
        if (Entry* e = g.reg.find(c + i))
        {
            if (e->cons == -1) pbt::g_ctx->fail(pbt::ALLOC, "element destroyed through an allocator that did not construct it");
            if (e->cons != id && !g.relax_cons) pbt::g_ctx->fail(pbt::ALLOC, "element constructed by allocator %d is destroyed by unequal allocator %d", e->cons, id);
        }
}

} // namespace ob
