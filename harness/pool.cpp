// Executor for static pools.   pool SCRIPT OUT PROGRESS FIRST
//   N size off       new pool over size bytes starting off bytes past a 64-byte boundary
//   F idx            new static_pool<N>, N chosen by idx
//   R type count     request count objects of a type (decimal, any 64-bit number)
//   D k              give the k-th block back
//   G hex            copy of a string made with the pool's allocator, then appended to itself
//   U op hex i j     url whose allocator is the pool (logged); first U makes the url
//   K how            copy, move or assign the url; the copy is used from then on
//   V field hex      decoded component of a url made from hex, returned in the pool
//   Q                compare allocators
#include <boost/url.hpp>
#include <boost/url/static_pool.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace bu = boost::urls;
using bu::string_view;
using std::string;
using pool_t = bu::basic_static_pool;

struct progress { long line; long phase; };
static progress* prog;
static FILE* out;

static void emit(string const& s) {
    string l = "{\"n\":" + std::to_string(prog->line) + "," + s + "}\n";
    std::fwrite(l.data(), 1, l.size(), out);
    std::fflush(out);
}
static string js(string_view s) {
    string o = "[";
    for(std::size_t i = 0; i < s.size(); ++i) {
        if(i) o += ',';
        o += std::to_string(static_cast<unsigned>(static_cast<unsigned char>(s[i])));
    }
    return o + "]";
}
static string unhex(string const& h) {
    string s;
    if(h == "-") return s;
    for(std::size_t i = 0; i + 1 < h.size(); i += 2)
        s += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
    return s;
}

struct t3 { char c[3]; };
struct t12 { int i[3]; };
struct t24 { double d[3]; };
struct alignas(32) t32 { char c[32]; };
struct alignas(64) t64 { char c[64]; };
struct alignas(64) t128 { char c[128]; };

struct block { char* p; std::size_t n; unsigned char tag; };

template<std::size_t N>
struct fixed { bu::static_pool<N> pool; };

static pool_t* pool;
static std::unique_ptr<pool_t> own;
static std::shared_ptr<void> fix;
static char* raw;      // the allocation behind a buffer
static char* base;
static std::size_t size_;
static std::vector<block> blocks;
static unsigned char tag;
static bool pattern_ok = true;

static void verify() {
    for(auto const& b : blocks)
        for(std::size_t i = 0; i < b.n; ++i)
            if(static_cast<unsigned char>(b.p[i]) != b.tag) { pattern_ok = false; return; }
}

static string num(long long v) {
    if(v > 100000000) v = 100000000;
    if(v < -100000000) v = -100000000;
    return std::to_string(v);
}

// a request and its answer
static void log_request(unsigned long long n, std::size_t sz, std::size_t al, void* p, bool ok) {
    unsigned __int128 bytes = static_cast<unsigned __int128>(n) * sz;
    long long const b = bytes > 100000000 ? 100000000 : static_cast<long long>(bytes);
    long long const off = ok ? static_cast<char*>(p) - base : 0;
    emit("\"k\":\"R\",\"sz\":" + num(b) + ",\"al\":" + num(static_cast<long long>(al)) +
        ",\"res\":\"" + (ok ? "ok" : "bad_alloc") + "\",\"off\":" + num(off));
}

// forwards to the pool's allocator and logs
static long refused;
template<class T>
struct log_alloc {
    using value_type = T;
    using is_always_equal = std::false_type;
    pool_t::allocator_type<T> a;
    explicit log_alloc(pool_t& p) : a(p) {}
    log_alloc() = default;
    template<class U> log_alloc(log_alloc<U> const& o) noexcept : a(o.a) {}
    T* allocate(std::size_t n) {
        try {
            T* p = a.allocate(n);
            log_request(n, sizeof(T), alignof(T), p, true);
            return p;
        } catch(std::bad_alloc const&) {
            ++refused;
            log_request(n, sizeof(T), alignof(T), nullptr, false);
            throw;
        }
    }
    void deallocate(T* p, std::size_t n) noexcept { a.deallocate(p, n); }
    template<class U> bool operator==(log_alloc<U> const& o) const noexcept { return a == o.a; }
    template<class U> bool operator!=(log_alloc<U> const& o) const noexcept { return a != o.a; }
};
using purl = bu::basic_url<log_alloc<char>>;
static std::unique_ptr<purl> u, w;     // the url in use and another one

static void drop() {
    u.reset();
    w.reset();
    own.reset();
    fix.reset();
    if(raw) { std::free(raw); raw = nullptr; }
    pool = nullptr;
    blocks.clear();
    tag = 0;
}

static void opened(char* b, std::size_t n) {
    base = b; size_ = n;
    emit("\"k\":\"N\",\"size\":" + std::to_string(n) + ",\"ba\":" +
        std::to_string(reinterpret_cast<std::uintptr_t>(b) % 4096));
}

template<std::size_t N>
static void open_fixed() {
    auto p = std::make_shared<bu::static_pool<N>>();
    fix = p;
    pool = p.get();
    // the buffer is private: its place is where an empty request points
    char* b = pool->allocator().allocate(0);
    opened(b, N);
    // it must lie inside the object
    char* const o = reinterpret_cast<char*>(p.get());
    if(b < o || b + N > o + sizeof(*p)) pattern_ok = false;
}

template<class T>
static void request(unsigned long long n) {
    verify();
    pool_t::allocator_type<T> a{pool->allocator()};
    T* p = nullptr;
    bool ok = true;
    try { p = a.allocate(static_cast<std::size_t>(n)); }
    catch(std::bad_alloc const&) { ok = false; }
    log_request(n, sizeof(T), alignof(T), p, ok);
    if(! ok) return;
    char* c = reinterpret_cast<char*>(p);
    // use the block as its owner would; only inside the buffer, an escape is logged above
    unsigned __int128 bytes = static_cast<unsigned __int128>(n) * sizeof(T);
    if(c >= base && c <= base + size_ && bytes <= static_cast<std::size_t>(base + size_ - c)) {
        ++tag;
        std::memset(c, tag, static_cast<std::size_t>(bytes));
        blocks.push_back({c, static_cast<std::size_t>(bytes), tag});
    }
}

template<class F>
static string outcome(F f) {
    try { f(); return "ok"; }
    catch(bu::invalid_part const&) { return "invalid_part"; }
    catch(std::bad_alloc const&) { return "bad_alloc"; }
    catch(std::exception const&) { return "other"; }
}

static void do_url(string const& op, string const& s, long i, long j) {
    if(! u) {
        refused = 0;
        u.reset(new purl(log_alloc<char>(*pool)));
    }
    auto segs = u->segments();
    long const n = static_cast<long>(segs.size());
    if(op == "seg_insert" || op == "seg_insert_encoded") i %= n + 1;
    else if(op == "seg_replace" || op == "seg_replace_encoded" || op == "seg_erase") { if(! n) return; i %= n; }
    else if(op == "seg_erase_range") { i %= n + 1; j %= n + 1; if(i > j) std::swap(i, j); }
    else i = j = 0;
    auto at = [&](long k) { auto it = segs.begin(); while(k-- > 0) ++it; return it; };
    refused = 0;
    string_view const a(s);
    string const res = outcome([&]{
        #define SET(f) else if(op == #f) u->f(a)
        if(op == "set_encoded_url") u->set_encoded_url(a);
        SET(set_encoded_origin); SET(set_scheme); SET(set_encoded_authority);
        SET(set_encoded_userinfo); SET(set_userinfo_part);
        SET(set_user); SET(set_encoded_user);
        SET(set_password); SET(set_encoded_password); SET(set_password_part);
        SET(set_host); SET(set_encoded_host);
        SET(set_port); SET(set_port_part); SET(set_encoded_path);
        SET(set_query); SET(set_encoded_query); SET(set_query_part);
        SET(set_fragment); SET(set_encoded_fragment); SET(set_fragment_part);
        else if(op == "set_port_n") u->set_port(static_cast<unsigned>(std::stoul(s)));
        else if(op == "normalize") u->normalize();
        else if(op == "normalize_scheme") u->normalize_scheme();
        else if(op == "seg_insert") segs.insert(at(i), a);
        else if(op == "seg_insert_encoded") segs.insert_encoded(at(i), a);
        else if(op == "seg_replace") segs.replace(at(i), a);
        else if(op == "seg_replace_encoded") segs.replace_encoded(at(i), a);
        else if(op == "seg_erase") segs.erase(at(i));
        else if(op == "seg_erase_range") segs.erase(at(i), at(j));
        else std::_Exit(3);
    });
    emit("\"k\":\"U\",\"op\":\"" + op + "\",\"s\":" + js(s) + ",\"i\":" + std::to_string(i) + ",\"j\":" +
        std::to_string(j) + ",\"res\":\"" + res + "\",\"ref\":" + (refused ? "1" : "0") +
        ",\"t\":" + js(u->encoded_url()) + ",\"o\":" + (w ? js(w->encoded_url()) : "[]"));
}

static void do_copy(string const& how) {
    if(! u) u.reset(new purl(log_alloc<char>(*pool)));
    if(how == "assign" && ! w) w.reset(new purl(log_alloc<char>(*pool)));
    refused = 0;
    string const res = outcome([&]{
        if(how == "copy") { w.reset(new purl(static_cast<purl const&>(*u))); u.swap(w); }
        else if(how == "move") u.reset(new purl(std::move(*u)));
        else { *w = static_cast<purl const&>(*u); u.swap(w); }
    });
    emit("\"k\":\"K\",\"op\":\"" + how + "\",\"res\":\"" + res + "\",\"ref\":" + (refused ? "1" : "0") +
        ",\"t\":" + js(u->encoded_url()) + ",\"o\":" + (w ? js(w->encoded_url()) : "[]"));
}

template<class S>
static string plain(S const& s) { return string(s.data(), s.size()); }

// the same text through the default allocator and through the pool
static void compare(string const& what, string const& want, string const& got, string const& res) {
    emit("\"k\":\"C\",\"w\":\"" + what + "\",\"res\":\"" + res + "\",\"ref\":" + (refused ? "1" : "0") +
        ",\"a\":" + js(want) + ",\"b\":" + js(got));
}

static void do_string(string const& s) {
    using str = std::basic_string<char, std::char_traits<char>, log_alloc<char>>;
    refused = 0;
    string got;
    string const res = outcome([&]{
        str x(s.data(), s.size(), log_alloc<char>(*pool));
        str y(x);
        x += y;
        got = plain(x);
    });
    compare("string", s + s, got, res);
}

static void do_value(int f, string const& s) {
    bu::url_view v;
    if(outcome([&]{ v = bu::url_view(string_view(s)); }) != "ok") return;
    refused = 0;
    string want, got;
    log_alloc<char> a(*pool);
    string const res = outcome([&]{
        switch(f % 5) {
        case 0: want = v.user(); got = plain(v.user(a)); break;
        case 1: want = v.password(); got = plain(v.password(a)); break;
        case 2: want = v.host(); got = plain(v.host(a)); break;
        case 3: want = v.query(); got = plain(v.query(a)); break;
        case 4: want = v.fragment(); got = plain(v.fragment(a)); break;
        }
    });
    compare("value", want, got, res);
}

static void do_equal() {
    static char other[64];
    pool_t p2(other, sizeof other);
    auto a = pool->allocator();
    pool_t::allocator_type<int> b(a);
    pool_t::allocator_type<char> c(b), d(p2);
    bool const ok = a == b && b == a && a == c && ! (a != b) && a != d && ! (a == d) && d != b;
    emit(string("\"k\":\"Q\",\"ok\":") + (ok ? "1" : "0"));
}

int main(int argc, char** argv) {
    if(argc < 5) return 2;
    std::ifstream in(argv[1]);
    out = std::fopen(argv[2], "a");
    int fd = ::open(argv[3], O_RDWR | O_CREAT, 0600);
    if(! in || ! out || fd < 0) return 2;
    if(::ftruncate(fd, sizeof(progress))) return 2;
    prog = static_cast<progress*>(::mmap(nullptr, sizeof(progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    long const first = std::stol(argv[4]);
    string line;
    long n = -1;
    while(std::getline(in, line)) {
        ++n;
        if(n < first) continue;
        std::istringstream is(line);
        string k; is >> k;
        if(k == "N" || k == "F") {
            drop();
            itimerval tv{}; tv.it_value.tv_sec = 5;
            ::setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        }
        else if(! pool) continue;
        prog->line = n; prog->phase = 0;
        if(k == "N") {
            std::size_t sz, off; is >> sz >> off;
            // the buffer ends exactly where the allocation ends
            void* p = nullptr;
            if(::posix_memalign(&p, 64, sz + off ? sz + off : 1)) return 2;
            raw = static_cast<char*>(p);
            own.reset(new pool_t(raw + off, sz));
            pool = own.get();
            opened(raw + off, sz);
        }
        else if(k == "F") {
            int i; is >> i;
            switch(i % 9) {
            case 0: open_fixed<1>(); break;
            case 1: open_fixed<2>(); break;
            case 2: open_fixed<7>(); break;
            case 3: open_fixed<8>(); break;
            case 4: open_fixed<16>(); break;
            case 5: open_fixed<64>(); break;
            case 6: open_fixed<100>(); break;
            case 7: open_fixed<256>(); break;
            default: open_fixed<1024>(); break;
            }
        }
        else if(k == "R") {
            int t; unsigned long long c; is >> t >> c;
            switch(t % 11) {
            case 0: request<char>(c); break;
            case 1: request<short>(c); break;
            case 2: request<int>(c); break;
            case 3: request<double>(c); break;
            case 4: request<long double>(c); break;
            case 5: request<t3>(c); break;
            case 6: request<t12>(c); break;
            case 7: request<t24>(c); break;
            case 8: request<t32>(c); break;
            case 9: request<t64>(c); break;
            default: request<t128>(c); break;
            }
        }
        else if(k == "D") {
            std::size_t i; is >> i;
            if(! blocks.empty()) {
                auto& b = blocks[i % blocks.size()];
                pool->allocator().deallocate(b.p, b.n);
            }
        }
        else if(k == "G") { string h; is >> h; do_string(unhex(h)); }
        else if(k == "U") { string op, h; long i, j; is >> op >> h >> i >> j; do_url(op, unhex(h), i, j); }
        else if(k == "K") { string how; is >> how; do_copy(how); }
        else if(k == "V") { int f; string h; is >> f >> h; do_value(f, unhex(h)); }
        else if(k == "Q") do_equal();
        if(pool) {
            verify();
            if(! pattern_ok) {
                emit("\"k\":\"B\"");
                pattern_ok = true;
                blocks.clear();
            }
        }
    }
    drop();
    prog->line = -1;
    std::fclose(out);
    return 0;
}
