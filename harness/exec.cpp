// Executor: drives the real library through its public interface and records
// what it did, one JSON object per call, for validation against the TLA+ model.
//
//   exec SCRIPT OUT PROGRESS FIRST
//
// SCRIPT lines (text arguments in hex, "-" = empty):
//   P hex [x<n>]          parse with url_view, url and set_encoded_url
//   S hex                 scheme names
//   H hex|D flags         history: slot 1 = url(hex) or a default url
//   O slot op hex i j inj modifier; the inj-th allocation fails (0: none)
//   L slot hex            parameter lookup
//   Q slot                look at the url once more
//   W slot c pos moves    walk an iterator (c=0 segments, 1 params)
//   A slot op inj         copy/move/assign/selfassign/fresh from the other slot
//   T hex inj             constructor whose inj-th allocation fails
//   B hex                 who owns the characters: url, url_view, copies
//   Y new|fill|free|url|set|assign|view|copy b x
//                         buffers of the caller, a url and views made from them
// "x<n>" among the flags: every token z, |, %7C, /y and &y stands for n copies of
// itself: the calls get the long texts, the record has the short ones (see
// spec/Stretch.tla for why they can be judged in place of the long ones).
// A history ends at the next P, S, T, H, B or "Y new" line or the end of the script.
// With VERIF_THREADS each argument "SCRIPT" is the first of several scripts,
// run by as many threads, which also observe objects that they share.
#include <boost/url.hpp>
#include <boost/url/static_pool.hpp>
#include <algorithm>
#include <clocale>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <atomic>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace bu = boost::urls;
using bu::string_view;
using std::string;
using std::vector;

// ---------------------------------------------------------------- progress
struct progress { long line; long phase; long threw; };
// everything the executor itself keeps is per thread
static thread_local progress* prog;
#ifdef VERIF_THREADS
static thread_local unsigned dice = 1;
static void phase(long p) {
    prog->phase = p;
    dice = dice * 1103515245u + 12345u;
    if((dice >> 16) % 13 == 0) std::this_thread::yield();
}
#else
static void phase(long p) { prog->phase = p; }
#endif
// calls of operator new
static thread_local long news;
void* operator new(std::size_t n) {
    ++news;
    if(void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
// numbers that TLC can read
static string num(std::size_t n) { return std::to_string(n > 99999999 ? std::size_t(99999999) : n); }

// ---------------------------------------------------------------- allocator
struct block { std::size_t n; long id; long by; };
struct alloc_state {
    std::map<char const*, block> live;
    long last = 0;       // number of the last buffer
    long count = 0;      // allocations since reset
    long fail_at = 0;    // 1-based; 0 = never
    bool fired = false;
    long bad = 0;        // wrong requests and deallocations
    long names = 0;      // of allocators
    std::size_t max = 0; // the most that may be asked for at once; 0: anything
};
static thread_local alloc_state A;

template<class T>
struct check_alloc {
    using value_type = T;
    using is_always_equal = std::false_type;
    long name = 0;       // a block goes back to the allocator it is from
    check_alloc() = default;
    explicit check_alloc(long k) noexcept : name(k) {}
    template<class U> check_alloc(check_alloc<U> const& o) noexcept : name(o.name) {}
    std::size_t max_size() const noexcept { return A.max ? A.max : std::size_t(-1) / sizeof(T); }
    T* allocate(std::size_t n) {
        if(n > max_size()) ++A.bad;
        ++A.count;
        if(A.fail_at && A.count == A.fail_at) {
            A.fired = true;
            throw std::bad_alloc();
        }
        void* p = std::malloc(n * sizeof(T) ? n * sizeof(T) : 1);
        if(! p) throw std::bad_alloc();
        std::memset(p, 0xAA, n * sizeof(T));
        A.live[static_cast<char const*>(p)] = block{n, ++A.last, name};
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n) noexcept {
        auto it = A.live.find(reinterpret_cast<char const*>(p));
        if(it == A.live.end()) { ++A.bad; return; }
        if(it->second.n != n || it->second.by != name) ++A.bad;
        A.live.erase(it);
        std::free(p);
    }
    template<class U> bool operator==(check_alloc<U> const& o) const noexcept { return name == o.name; }
    template<class U> bool operator!=(check_alloc<U> const& o) const noexcept { return name != o.name; }
};
// nothing is limited or made to fail while the executor itself looks at a url
struct at_ease {
    long n = A.count, f = A.fail_at;
    std::size_t mx = A.max;
    at_ease() { A.fail_at = 0; A.max = 0; }
    ~at_ease() { A.count = n; A.fail_at = f; A.max = mx; }
};
using curl = bu::basic_url<check_alloc<char>>;

// ---------------------------------------------------------------- json
static thread_local std::size_t stretch = 1;
static char const* const tokens[] = { "z", "|", "%7C", "/y", "&y" };
static std::size_t copies(string_view s, std::size_t i, string_view t) {
    std::size_t r = 0;
    while(s.size() - i >= t.size() && std::memcmp(s.data() + i, t.data(), t.size()) == 0) { ++r; i += t.size(); }
    return r;
}
// s with every token repeated
static string lengthen(string const& s) {
    if(stretch == 1) return s;
    string o;
    for(std::size_t i = 0; i < s.size();) {
        string t(1, s[i]);
        for(string const x : tokens) if(copies(s, i, x)) t = x;
        bool const is = std::find(std::begin(tokens), std::end(tokens), t) != std::end(tokens);
        for(std::size_t k = 0; k < (is ? stretch : 1); ++k) o += t;
        i += t.size();
    }
    return o;
}
// and back; what does not come in whole groups is marked
static vector<unsigned> shorten(string_view s) {
    vector<unsigned> v;
    for(std::size_t i = 0; i < s.size();) {
        std::size_t n = 0;
        if(stretch != 1)
            for(string_view const t : tokens)
                if((n = copies(s, i, t)) != 0) {
                    for(std::size_t k = 0; k < n / stretch; ++k)
                        for(char c : t) v.push_back(static_cast<unsigned char>(c));
                    if(n % stretch) { v.push_back(254); v.push_back(1); }
                    i += n * t.size();
                    break;
                }
        if(! n) v.push_back(static_cast<unsigned char>(s[i++]));
    }
    return v;
}
static void put(string& o, string_view s) {
    o += '[';
    char buf[8];
    bool first = true;
    for(unsigned c : shorten(s)) {
        int n = std::snprintf(buf, sizeof buf, first ? "%u" : ",%u", c);
        o.append(buf, n);
        first = false;
    }
    o += ']';
}
// lists with groups of the segment or the key "y"
static vector<string> shorten(vector<string> const& v) {
    if(stretch == 1) return v;
    vector<string> w;
    for(std::size_t i = 0; i < v.size();) {
        std::size_t n = 0;
        for(string const x : { "[121]", "[[121],[]]" })
            if(i < v.size() && v[i] == x) {
                while(i < v.size() && v[i] == x) { ++n; ++i; }
                for(std::size_t k = 0; k < n / stretch; ++k) w.push_back(x);
                if(n % stretch) w.push_back(v[i - 1] == "[121]" ? "[254,2]" : "[[254,2],[254,2]]");
            }
        if(! n && i < v.size()) w.push_back(v[i++]);
    }
    return w;
}
// what a length becomes when `from` of what is measured becomes `to`
static std::size_t shorter(std::size_t n, std::size_t from, std::size_t to) { return n - from + to; }
static string js(string_view s) { string o; put(o, s); return o; }
static string jn(std::size_t n) { return "[" + num(n) + "]"; }
static string jb(bool b) { return b ? "[1]" : "[0]"; }
static string jlist(vector<string> const& l) {
    vector<string> const v = shorten(l);
    string o = "[";
    for(std::size_t i = 0; i < v.size(); ++i) { if(i) o += ','; o += v[i]; }
    return o + "]";
}
static string jpair(string_view a, string_view b) { return "[" + js(a) + "," + js(b) + "]"; }

static int code(bu::host_type h) {
    switch(h) {
    case bu::host_type::none: return 0;
    case bu::host_type::name: return 1;
    case bu::host_type::ipv4: return 2;
    case bu::host_type::ipv6: return 3;
    case bu::host_type::ipvfuture: return 4;
    }
    return 8;
}

// ---------------------------------------------------------------- observation
static int const NOBS = 37;
struct obs {
    string v[NOBS + 1];   // 1-based; empty = not observed
    string json() const {
        string o = "[";
        for(int i = 1; i <= NOBS; ++i) { if(i > 1) o += ','; o += v[i]; }
        return o + "]";
    }
};

template<class A2, class B2>
static bool same(A2 const& a, B2 const& b) {
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
}
// the text t, by way of the allocator m
template<class S, class A2>
static bool came(S const& s, A2 const& m, string const& t) {
    return same(s, t) && s.get_allocator() == m;
}

// containers; cap bounds runaway iteration
template<class Segs>
static void see_segments(Segs segs, std::size_t cap, obs& o, bool& allocs) {
    phase(29);
    std::size_t const size = segs.size();
    bool const empty = segs.empty();
    phase(30);
    vector<string> f, b, d;
    {
        std::size_t n = 0;
        for(auto it = segs.begin(), e = segs.end(); it != e; ++it) {
            if(++n > cap) { f.push_back("[254,9,9]"); break; }
            f.push_back(js(it->encoded_string()));
        }
    }
    o.v[29] = "[" + num(shorter(size, f.size(), shorten(f).size())) + "," + (empty ? "1" : "0") + "]";
    o.v[30] = jlist(f);
    phase(31);
    {
        std::size_t n = 0;
        auto it = segs.end();
        auto const e = segs.begin();
        while(it != e) {
            if(++n > cap) { b.push_back("[254,9,9]"); break; }
            --it;
            b.push_back(js((*it).encoded_string()));
        }
    }
    o.v[31] = jlist(b);
    phase(32);
    {
        std::size_t n = 0;
        for(auto e : segs) {
            if(++n > cap) { d.push_back("[254,9,9]"); break; }
            string s = e.string();
            check_alloc<char> m(-1);
            if(! came(e.string(m), m, s))
                allocs = false;
            d.push_back(js(s));
        }
    }
    o.v[32] = jlist(d);
}

template<class Params>
static void see_params(Params params, std::size_t cap, obs& o, bool& allocs) {
    phase(33);
    std::size_t const size = params.size();
    bool const empty = params.empty();
    phase(34);
    vector<string> f, b, d;
    {
        std::size_t n = 0;
        for(auto it = params.begin(), e = params.end(); it != e; ++it) {
            if(++n > cap) { f.push_back("[[254,9],[9]]"); break; }
            f.push_back(jpair(it->encoded_key(), it->encoded_value()));
        }
    }
    o.v[33] = "[" + num(shorter(size, f.size(), shorten(f).size())) + "," + (empty ? "1" : "0") + "]";
    o.v[34] = jlist(f);
    phase(35);
    {
        std::size_t n = 0;
        auto it = params.end();
        auto const e = params.begin();
        while(it != e) {
            if(++n > cap) { b.push_back("[[254,9],[9]]"); break; }
            --it;
            b.push_back(jpair((*it).encoded_key(), (*it).encoded_value()));
        }
    }
    o.v[35] = jlist(b);
    phase(36);
    {
        std::size_t n = 0;
        for(auto e : params) {
            if(++n > cap) { d.push_back("[[254,9],[9]]"); break; }
            string k = e.key(), v = e.value();
            check_alloc<char> m(-2);
            if(! came(e.key(m), m, k) || ! came(e.value(m), m, v))
                allocs = false;
            std::pair<string const, string> const both = e;
            if(both.first != k || both.second != v)
                allocs = false;
            d.push_back(jpair(k, v));
        }
    }
    o.v[36] = jlist(d);
}

static string pass_part(bu::url_base const& u) { return js(u.password_part()); }
static string pass_part(bu::url_view const&) { return ""; }
static bool terminated(bu::url_base const& u) { return u.data()[u.size()] == '\0'; }
static bool terminated(bu::url_view const&) { return true; }

// U: url_base const or url_view; pool: also decode with a static_pool allocator
template<class U>
static void see_parts(U const& u, obs& o, bool& allocs) {
    phase(1);  string_view const t = u.encoded_url(); o.v[1] = js(t);
    phase(2);  o.v[2] = jn(shorter(u.size(), t.size(), shorten(t).size()));
    phase(3);  o.v[3] = string("[") +
        ((t.empty() || u.data() == t.data()) && u.size() == t.size() ? "1" : "0") + "," +
        (terminated(u) ? "1" : "0") + "]";
    phase(4);  o.v[4] = js(u.scheme());
    phase(5);  o.v[5] = js(u.encoded_origin());
    phase(6);  o.v[6] = jb(u.has_authority());
    phase(7);  o.v[7] = js(u.encoded_authority());
    phase(8);  o.v[8] = jb(u.has_userinfo());
    phase(9);  o.v[9] = js(u.encoded_userinfo());
    phase(10); o.v[10] = js(u.userinfo_part());
    phase(11); o.v[11] = js(u.encoded_user());
    phase(12); string const us = u.user(); o.v[12] = js(us);
    phase(13); o.v[13] = js(u.encoded_password());
    phase(14); string const pw = u.password(); o.v[14] = js(pw);
    phase(15); o.v[15] = pass_part(u);
    phase(16); o.v[16] = "[" + std::to_string(code(u.host_type())) + "]";
    phase(17); string const ho = u.host(); o.v[17] = js(ho);
    phase(18); o.v[18] = js(u.encoded_host());
    phase(19); o.v[19] = js(u.encoded_host_and_port());
    phase(20); o.v[20] = js(u.port());
    phase(21); o.v[21] = js(u.port_part());
    phase(22); o.v[22] = js(u.encoded_path());
    phase(23); o.v[23] = js(u.encoded_query());
    phase(24); string const qu = u.query(); o.v[24] = js(qu);
    phase(25); o.v[25] = js(u.query_part());
    phase(26); o.v[26] = js(u.encoded_fragment());
    phase(27); string const fr = u.fragment(); o.v[27] = js(fr);
    phase(28); o.v[28] = js(u.fragment_part());
    phase(37);
    {
        check_alloc<char> a(-3);
        if( ! came(u.user(a), a, us) || ! came(u.password(a), a, pw) ||
            ! came(u.host(a), a, ho) || ! came(u.query(a), a, qu) ||
            ! came(u.fragment(a), a, fr))
            allocs = false;
        if(u.size() < 500) {
            bu::static_pool<8192> pool;
            auto pa = pool.allocator();
            if( ! came(u.user(pa), pa, us) || ! came(u.password(pa), pa, pw) ||
                ! came(u.host(pa), pa, ho) || ! came(u.query(pa), pa, qu) ||
                ! came(u.fragment(pa), pa, fr))
                allocs = false;
        }
    }
}

static obs see(bu::url_base& u) {
    at_ease quiet;
    obs o; bool allocs = true;
    see_parts(static_cast<bu::url_base const&>(u), o, allocs);
    see_segments(u.segments(), u.size() + 3, o, allocs);
    see_params(u.params(), u.size() + 3, o, allocs);
    o.v[37] = jb(allocs);
    return o;
}
static obs see(bu::url_view const& u) {
    at_ease quiet;
    obs o; bool allocs = true;
    see_parts(u, o, allocs);
    see_segments(u.segments(), u.size() + 3, o, allocs);
    see_params(u.params(), u.size() + 3, o, allocs);
    o.v[37] = jb(allocs);
    return o;
}
static obs see_const(bu::url_base const& u) {
    at_ease quiet;
    obs o; bool allocs = true;
    see_segments(u.segments(), u.size() + 3, o, allocs);
    see_params(u.params(), u.size() + 3, o, allocs);
    return o;
}

static void diff(string& d, int way, obs const& p, obs const& q) {
    for(int i = 1; i <= NOBS; ++i)
        if(! q.v[i].empty() && q.v[i] != p.v[i]) {
            if(! d.empty()) d += ',';
            d += "[" + std::to_string(way) + "," + std::to_string(i) + "," + q.v[i] + "]";
        }
}
static void refused(string& d, int way) {
    if(! d.empty()) d += ',';
    d += "[" + std::to_string(way) + ",0,[0]]";
}

// ---------------------------------------------------------------- outcome
template<class F>
static string outcome(F f) {
    try { f(); return "ok"; }
    catch(bu::invalid_part const&) { return "invalid_part"; }
    catch(bu::out_of_range const&) { return "out_of_range"; }
    catch(bu::too_large const&) { return "too_large"; }
    catch(std::bad_alloc const&) { return "bad_alloc"; }
    catch(std::exception const& e) { return string("other"); }
    catch(...) { return "unknown"; }
}

// exact-size copy, so that reading past the end is caught by ASan
struct exact {
    char* p; std::size_t n;
    explicit exact(string const& s) : p(static_cast<char*>(std::malloc(s.size() ? s.size() : 1))), n(s.size()) {
        std::memcpy(p, s.data(), n);
    }
    ~exact() { std::free(p); }
    // characters that are valid anywhere, so that nothing but the text changes
    void scribble() { std::memset(p, 'Z', n); }
    exact(exact const&) = delete;
    operator string_view() const { return {p, n}; }
};

static string unhex1(string const& h) {
    string s;
    if(h == "-") return s;
    for(std::size_t i = 0; i + 1 < h.size(); i += 2)
        s += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
    return s;
}

static string unhex(string const& h) { return lengthen(unhex1(h)); }
static void use_stretch(string const& flags) {
    auto const x = flags.find('x');
    stretch = x == string::npos ? 1 : std::stoul(flags.substr(x + 1));
}

static thread_local FILE* out;
static thread_local string buf;
static void emit(string const& s) {
    buf += "{\"n\":" + std::to_string(prog->line) + "," + s.substr(1) + "\n";
}
static void flush() { std::fwrite(buf.data(), 1, buf.size(), out); std::fflush(out); buf.clear(); }

// all the other ways of looking at u's text
static string others(bu::url_base& u, obs const& o, bool reparse) {
    string d;
    diff(d, 1, o, see_const(u));
    if(reparse) {
        phase(100);
        string const t = [&]{ auto s = u.encoded_url(); return string(s.data(), s.size()); }();
        exact ex(t);
        string r = outcome([&]{ bu::url_view v((string_view(ex))); phase(100); diff(d, 2, o, see(v)); });
        if(r != "ok") refused(d, 2);
        phase(100);
        r = outcome([&]{ bu::url v((string_view(ex))); phase(100); diff(d, 3, o, see(v)); });
        if(r != "ok") refused(d, 3);
    }
    phase(0);
    return d;
}

// ---------------------------------------------------------------- parse, schemes
static void do_parse(string const& s) {
    string r1, r2, r3, d;
    obs o; bool have = false;
    exact ex(s);
    std::unique_ptr<bu::url> u;
    std::unique_ptr<curl> w;
    phase(0);
    r1 = outcome([&]{ u.reset(new bu::url(string_view(ex))); });
    if(r1 == "ok") { o = see(*u); have = true; diff(d, 1, o, see_const(*u)); }
    phase(0);
    r2 = outcome([&]{
        bu::url_view v((string_view(ex)));
        obs q = see(v);
        if(s.size() && v.data() != ex.p) q.v[3] = "[0,1]";
        if(have) diff(d, 2, o, q);
    });
    if(s.empty() && have) {
        // views and containers made from nothing
        bu::url_view const v;
        diff(d, 2, o, see(v));
        bool a1 = true;
        obs c;
        see_segments(bu::url_view::segments_type(), 3, c, a1);
        see_params(bu::url_view::params_type(), 3, c, a1);
        diff(d, 2, o, c);
        see_segments(bu::url_base::segments_type(), 3, c, a1);
        see_params(bu::url_base::params_type(), 3, c, a1);
        diff(d, 2, o, c);
        curl const e;
        diff(d, 3, o, see_const(e));
    }
    phase(0);
    w.reset(new curl("http://u:p@h:1/p?q#f"));
    r3 = outcome([&]{ w->set_encoded_url(ex); });
    if(r3 == "ok" && have) diff(d, 3, o, see(*w));
    phase(0);
    emit("{\"k\":\"P\",\"s\":" + js(s) + ",\"r\":[\"" + r1 + "\",\"" + r2 + "\",\"" + r3 +
        "\"],\"o\":" + (have ? o.json() : string("[]")) + ",\"d\":[" + d + "]}");
}

static void sv(vector<string_view>& v, string_view s) { v.push_back(s); }
template<class U>
static vector<string_view> encoded_parts(U const& u) {
    vector<string_view> v;
    v.reserve(64 + u.size() * 4);
    sv(v, u.encoded_url()); sv(v, u.scheme()); sv(v, u.encoded_origin()); sv(v, u.encoded_authority());
    sv(v, u.encoded_userinfo()); sv(v, u.userinfo_part()); sv(v, u.encoded_user());
    sv(v, u.encoded_password()); sv(v, u.encoded_host()); sv(v, u.encoded_host_and_port());
    sv(v, u.port()); sv(v, u.port_part()); sv(v, u.encoded_path()); sv(v, u.encoded_query());
    sv(v, u.query_part()); sv(v, u.encoded_fragment()); sv(v, u.fragment_part());
    std::size_t n = 0;
    for(auto e : u.segments()) { if(++n > u.size() + 3) break; sv(v, e.encoded_string()); }
    n = 0;
    for(auto e : u.params()) { if(++n > u.size() + 3) break; sv(v, e.encoded_key()); sv(v, e.encoded_value()); }
    return v;
}
// moving one copy of an iterator leaves the others where they are
template<class C, class F>
static bool iterators_apart(C c, F f) {
    bool ok = true;
    std::size_t n = 0;
    C const c2 = c;
    for(auto it = c.begin(); it != c.end() && ++n < 60; ++it) {
        auto a = it;
        auto b = it;
        auto const was = f(it);
        ++a;
        ok = ok && b == it && f(b) == was && f(it) == was && a != it;
        b = a;
        --b;
        ok = ok && b == it && f(b) == was && (a == c.end() ? a == c2.end() : f(a) != string("none"));
    }
    return ok && c.size() == c2.size() && c.begin() == c2.begin();
}
template<class U>
static bool copies_apart(U& u) {
    return iterators_apart(u.segments(), [](auto it) { return js(it->encoded_string()); }) &&
           iterators_apart(u.params(), [](auto it) { return jpair(it->encoded_key(), it->encoded_value()); });
}

static void do_own(string const& s) {
    phase(0);
    string d, flags;
    obs o, vo;
    auto flag = [&](bool b) { flags += flags.empty() ? "" : ","; flags += b ? "1" : "0"; };
    std::unique_ptr<exact> ex(new exact(s));
    std::unique_ptr<curl> u;
    string const r = outcome([&]{ u.reset(new curl(string_view(*ex))); });
    if(r == "ok") {
        o = see(*u);
        prog->threw = 2;
        diff(d, 6, o, see(*u));
        flag(copies_apart(*u) && copies_apart(static_cast<curl const&>(*u)));
        diff(d, 6, o, see(*u));
        // the view
        long const n0 = news;
        bu::url_view v((string_view(*ex)));
        bu::url_view v2(v);
        bu::url_view v3;
        v3 = v2;
        flag(news == n0);
        // 200: room for the parts
        auto const parts = encoded_parts(v);
        flag(news <= n0 + 1);
        bool in = v.data() == ex->p || s.empty();
        for(auto const& x : parts)
            in = in && (x.empty() || (x.data() >= ex->p && x.data() + x.size() <= ex->p + ex->n));
        flag(in);
        flag(copies_apart(static_cast<bu::url_view const&>(v)));
        prog->threw = 0;
        vo = see(v);
        prog->threw = 2;
        { obs q = vo; q.v[15] = ""; diff(d, 7, q, see(v2)); diff(d, 7, q, see(v3)); diff(d, 6, q, see(v)); }
        // the characters change: the url keeps its own, the view shows the new ones
        string t = s;
        for(char& c : t) if(c == 'a') c = 'b';
        std::memcpy(ex->p, t.data(), t.size());
        diff(d, 4, o, see(*u));
        flag(string(v2.encoded_url().data(), v2.encoded_url().size()) == t);
        ex->scribble();
        diff(d, 4, o, see(*u));
        ex.reset();
        diff(d, 4, o, see(*u));
    }
    phase(0);
    emit("{\"k\":\"B\",\"s\":" + js(s) + ",\"r\":\"" + r + "\",\"f\":[" + flags + "],\"o\":" +
        (r == "ok" ? o.json() : string("[]")) + ",\"d\":[" + d + "]}");
}

static thread_local std::unique_ptr<exact> ybuf[3];
static thread_local std::unique_ptr<bu::url_view> yview[3];
static thread_local int yfrom[3];
static thread_local std::unique_ptr<curl> yurl;
static string ysee(obs o) { o.v[15] = "[]"; return o.json(); }
static void do_own_step(string const& a, int b, string const& x) {
    phase(0);
    int v = 0;
    string s;
    if(a == "new") {
        for(int i = 1; i <= 2; ++i) { ybuf[i].reset(); yview[i].reset(); yfrom[i] = 0; }
        yurl.reset(new curl);
    }
    else if(a == "fill") {
        s = unhex(x);
        if(ybuf[b] && ybuf[b]->n == s.size()) std::memcpy(ybuf[b]->p, s.data(), s.size());
        else {
            // a new buffer: no view refers to it
            ybuf[b].reset(new exact(s));
            for(int i = 1; i <= 2; ++i) if(yfrom[i] == b) { yview[i].reset(); yfrom[i] = 0; }
        }
    }
    else if(a == "free") {
        for(int i = 1; i <= 2; ++i) if(yfrom[i] == b) { yview[i].reset(); yfrom[i] = 0; }
        if(ybuf[b]) ybuf[b]->scribble();
        ybuf[b].reset();
    }
    else if(a == "url") yurl.reset(new curl(string_view(*ybuf[b])));
    else if(a == "set") yurl->set_encoded_url(*ybuf[b]);
    else if(a == "assign") { curl t((string_view(*ybuf[b]))); *yurl = t; }
    else if(a == "view") {
        v = std::stoi(x);
        yview[v].reset(new bu::url_view(string_view(*ybuf[b])));
        yfrom[v] = b;
    }
    else if(a == "copy") {
        v = std::stoi(x);
        if(yview[v]) *yview[v] = *yview[b];
        else yview[v].reset(new bu::url_view(*yview[b]));
        yfrom[v] = yfrom[b];
    }
    else std::_Exit(3);
    string w;
    for(int i = 1; i <= 2; ++i)
        w += (i > 1 ? "," : "") + (yview[i] ? ysee(see(*yview[i])) : string("[]"));
    phase(0);
    emit("{\"k\":\"Y\",\"a\":\"" + a + "\",\"b\":" + std::to_string(b) + ",\"v\":" + std::to_string(v) +
        ",\"s\":" + js(s) + ",\"u\":" + ysee(see(*yurl)) + ",\"w\":[" + w + "]}");
}

// the locale must not matter: each history runs in one of two
static bool other_locale = false;
static void use_locale(bool other) {
#ifndef VERIF_THREADS
    static bool now = false;
    if(other_locale && other != now) {
        std::setlocale(LC_ALL, other ? "tr" : "C");
        now = other;
    }
#endif
    (void) other;
}

static void do_scheme(string const& s) {
    exact ex(s);
    phase(0);
    string r;
    for(int k = 0; k < 2; ++k) {
        use_locale(k == 0);
        bu::scheme const id = bu::string_to_scheme(ex);
        int n = 9;
        switch(id) {
        case bu::scheme::unknown: n = 0; break;
        case bu::scheme::ftp: n = 1; break;
        case bu::scheme::file: n = 2; break;
        case bu::scheme::http: n = 3; break;
        case bu::scheme::https: n = 4; break;
        case bu::scheme::ws: n = 5; break;
        case bu::scheme::wss: n = 6; break;
        }
        r += string(k ? "," : "") + "[" + std::to_string(n) + "," + (bu::is_special(ex) ? "1" : "0") + "," +
            js(bu::to_string(id)) + "]";
    }
    emit("{\"k\":\"S\",\"s\":" + js(s) + ",\"r\":[" + r + "]}");
}

// ---------------------------------------------------------------- histories
static thread_local std::unique_ptr<curl> slot[3];
static thread_local bool open_ = false, c17 = false, reparse_ = true, own_ = false;

// where the urls keep their characters: [length, capacity, buffer] of each
// slot, and the buffers in use with what is left of them from data() on
static string stores() {
    string st, hp;
    for(int t = 1; t <= 2; ++t) {
        if(t > 1) st += ',';
        if(! slot[t]) { st += "[0,0,0]"; continue; }
        curl const& u = *slot[t];
        long id = 0;
        std::size_t left = 0;
        if(u.capacity()) {
            char const* const p = u.data();
            id = 99999999;
            auto it = A.live.upper_bound(p);
            if(it != A.live.begin()) {
                --it;
                if(p < it->first + it->second.n) {
                    id = it->second.id;
                    left = static_cast<std::size_t>(it->first + it->second.n - p);
                }
            }
            if(! hp.empty()) hp += ',';
            hp += "[" + std::to_string(id) + "," + num(left) + "]";
        }
        st += "[" + num(u.size()) + "," + num(u.capacity()) + "," + std::to_string(id) + "]";
    }
    return ",\"st\":[" + st + "],\"hp\":[" + hp + "]";
}

static void end_history(bool thrown = false) {
    if(! open_ && ! thrown) return;
    phase(200);
    slot[1].reset(); slot[2].reset();
    emit("{\"k\":\"E\",\"live\":" + std::to_string(A.live.size()) + ",\"bad\":" +
        std::to_string(A.bad) + ",\"thrown\":" + (thrown ? "1" : "0") + "}");
    A.live.clear(); A.bad = 0; A.max = 0;
    open_ = false;
}

static void start_history(string const& h, string const& flags) {
    open_ = true;
    c17 = flags.find('c') != string::npos;
    reparse_ = flags.find('n') == string::npos;
    own_ = flags.find('b') != string::npos;
    A.max = 0;
    A.fail_at = 0; A.count = 0; A.bad = 0; A.last = 0;
    string s;
    phase(0);
    string r = "ok";
    if(h == "D")
        slot[1].reset(new curl);
    else {
        s = unhex(h);
        exact ex(s);
        r = outcome([&]{
            slot[1].reset(s.size() % 2 ? new curl(string_view(ex), check_alloc<char>(++A.names))
                                       : new curl(string_view(ex)));
        });
        if(r != "ok") slot[1].reset(new curl);
    }
    obs o = see(*slot[1]);
    string d = others(*slot[1], o, reparse_);
    // "m<k>": from now on a buffer has at most room for the url, its end and k more
    auto const m = flags.find('m');
    if(m != string::npos) A.max = slot[1]->capacity() + 1 + std::stoul(flags.substr(m + 1));
    emit("{\"k\":\"H\",\"s\":" + js(s) + ",\"r\":\"" + r + "\",\"o\":" + o.json() + ",\"d\":[" + d + "]" + stores() + "}");
}

template<class It>
static long dist(It b, It e, It x, std::size_t cap) {
    long n = 0;
    for(;; ++b, ++n) {
        if(b == x) return n;
        if(b == e || n > static_cast<long>(cap)) return 999;
    }
}

// "F<prefix>:<k>": prefix, then 'a's such that the url would grow to its
// capacity + k if the prefix and the text were simply added
static string fill(string const& f, curl const& u) {
    auto const c = f.find(':');
    string s = f.substr(1, c - 1);
    if(s == "c") s = ":"; else if(s == "q") s = "?"; else if(s == "h") s = "#";
    long n = static_cast<long>(u.capacity()) - static_cast<long>(u.size()) -
        static_cast<long>(s.size()) + std::stol(f.substr(c + 1));
    if(n < 1) n = 1;
    if(n > 4000) n = 4000;
    return s + string(static_cast<std::size_t>(n), 'a');
}

static bool do_op(int t, string const& op, string const& h, long i, long j, long inj) {
    curl& u = *slot[t];
    string const s = h[0] == 'F' ? fill(h, u) : unhex(h);
    exact ex(s);
    string_view const a = ex;
    bool self = true;
    long pos = 0;
    auto segs = u.segments();
    auto const params = u.params();
    long const n = static_cast<long>(segs.size());
    if(op == "seg_insert" || op == "seg_insert_encoded") i %= n + 1;
    else if(op == "seg_replace" || op == "seg_replace_encoded" || op == "seg_erase") {
        if(n == 0) return false;
        i %= n;
    }
    else if(op == "seg_erase_range") {
        i %= n + 1; j %= n + 1;
        if(i > j) std::swap(i, j);
    }
    else i = j = 0;
    auto at = [&](long k) { auto it = segs.begin(); while(k-- > 0) ++it; return it; };
    auto where = [&](bu::url_base::segments_type::iterator it) {
        auto const now = u.segments();
        pos = dist(now.begin(), now.end(), it, u.size() + 3);
        if(pos == 999) return;
        // it is as good as the one that was reached by walking
        auto x = now.begin();
        for(long k = 0; k < pos; ++k) ++x;
        long left = static_cast<long>(u.size()) + 3;
        for(; x != now.end() && left > 0; ++x, ++it, --left)
            if(it == now.end() || (*it).encoded_string() != (*x).encoded_string()) { pos = 998; return; }
        if(it != now.end()) { pos = 998; return; }
        for(; x != now.begin() && left > -static_cast<long>(u.size()) - 3; --left) {
            --x; --it;
            if(it != x || (*it).encoded_string() != (*x).encoded_string()) { pos = 998; return; }
        }
    };
    A.count = 0; A.fired = false; A.fail_at = inj;
    phase(0);
    using it_t = bu::url_base::segments_type::iterator;
    it_t ret; bool have = false;
    string const res = outcome([&]{
        #define SET(f) else if(op == #f) self = &u.f(a) == &u
        if(op == "set_encoded_url") self = &u.set_encoded_url(a) == &u;
        SET(set_encoded_origin); SET(set_scheme); SET(set_encoded_authority);
        SET(set_encoded_userinfo); SET(set_userinfo_part);
        SET(set_user); SET(set_encoded_user);
        SET(set_password); SET(set_encoded_password); SET(set_password_part);
        SET(set_host); SET(set_encoded_host);
        SET(set_port); SET(set_port_part);
        SET(set_encoded_path);
        SET(set_query); SET(set_encoded_query); SET(set_query_part);
        SET(set_fragment); SET(set_encoded_fragment); SET(set_fragment_part);
        else if(op == "set_port_n")
            self = &u.set_port(static_cast<unsigned>(std::stoul(s))) == &u;
        else if(op == "normalize") self = &u.normalize() == &u;
        else if(op == "normalize_scheme") self = &u.normalize_scheme() == &u;
        else if(op == "seg_insert") { ret = segs.insert(at(i), a); have = true; }
        else if(op == "seg_insert_encoded") { ret = segs.insert_encoded(at(i), a); have = true; }
        else if(op == "seg_replace") { ret = segs.replace(at(i), a); have = true; }
        else if(op == "seg_replace_encoded") { ret = segs.replace_encoded(at(i), a); have = true; }
        else if(op == "seg_erase") { ret = segs.erase(at(i)); have = true; }
        else if(op == "seg_erase_range") { ret = segs.erase(at(i), at(j)); have = true; }
        else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::_Exit(3); }
    });
    long const na = A.count;
    bool const fired = A.fired;
    A.fail_at = 0;
    prog->threw = res != "ok";
    if(have) where(ret);
    obs o = see(u);
    string d = others(u, o, reparse_);
    {
        // the containers that were there before the call list what is there now
        at_ease quiet;
        obs c;
        bool ok = true;
        see_segments(segs, u.size() + 3, c, ok);
        see_params(params, u.size() + 3, c, ok);
        diff(d, 1, o, c);
        phase(0);
    }
    if(own_) {
        // reading changed nothing; the argument can go
        prog->threw = 2;
        diff(d, 6, o, see(u));
        ex.scribble();
        diff(d, 4, o, see(u));
    }
    string e = "{\"k\":\"O\",\"t\":" + std::to_string(t) + ",\"op\":\"" + op + "\",\"s\":" + js(s) +
        ",\"i\":" + std::to_string(i) + ",\"j\":" + std::to_string(j) +
        ",\"res\":\"" + res + "\",\"pos\":" + std::to_string(pos) +
        ",\"self\":" + (self ? "1" : "0") + ",\"c17\":" + (c17 ? "1" : "0") +
        ",\"mx\":" + num(A.max) + ",\"na\":" + std::to_string(na) + ",\"fired\":" + (fired ? "1" : "0") + stores() +
        ",\"o\":" + o.json() + ",\"d\":[" + d + "]";
    if(slot[3 - t]) e += ",\"o2\":" + see(*slot[3 - t]).json();
    phase(0);
    emit(e + "}");
    return true;
}

template<class Params>
static string lookup(Params p, string_view key, std::size_t cap) {
    at_ease quiet;
    bool const c = p.contains(key);
    std::size_t const n = p.count(key);
    auto const it = p.find(key);
    long const pos = dist(p.begin(), p.end(), it, cap);
    string const ix = p[key];
    string at;
    string const r = outcome([&]{
        at = p.at(key);
        auto at2 = p.at(key, check_alloc<char>{});
        if(! same(at, at2)) at = "\xff<allocator>";
    });
    return string("[") + (c ? "1" : "0") + "," + num(n) + "," + std::to_string(pos) +
        "," + js(ix) + "," + js(at) + ",\"" + r + "\"]";
}

static void do_lookup(int t, string const& key) {
    curl& u = *slot[t];
    exact ex(key);
    phase(0);
    string r = lookup(u.params(), ex, u.size() + 3);
    r += "," + lookup(static_cast<bu::url_base const&>(u).params(), ex, u.size() + 3);
    auto const tx = u.encoded_url();
    bu::url_view v(tx);
    r += "," + lookup(v.params(), ex, u.size() + 3);
    emit("{\"k\":\"L\",\"t\":" + std::to_string(t) + ",\"s\":" + js(key) + ",\"r\":[" + r + "]}");
}

// only look
static void do_look(int t) {
    curl& u = *slot[t];
    phase(0);
    obs o = see(u);
    string d = others(u, o, false);
    emit("{\"k\":\"Q\",\"t\":" + std::to_string(t) + ",\"o\":" + o.json() + ",\"d\":[" + d + "]}");
}

static string show(bu::url_view::segments_type::iterator it) { return js(it->encoded_string()); }
static string show(bu::url_base::segments_type::iterator it) { return js(it->encoded_string()); }
static string show(bu::url_view::params_type::iterator it) { return jpair(it->encoded_key(), it->encoded_value()); }
static string show(bu::url_base::params_type::iterator it) { return jpair(it->encoded_key(), it->encoded_value()); }

template<class C>
static string walk(C c, long p, vector<int> const& m, string const& endmark) {
    vector<string> v;
    auto it = c.begin();
    while(p-- > 0) ++it;
    int k = 0;
    for(int x : m) {
        // alternate prefix and postfix forms; the postfix form returns the old place
        ++k;
        if(k % 2) { if(x > 0) ++it; else --it; }
        else {
            auto const old = it;
            auto const got = x > 0 ? it++ : it--;
            if(! (got == old)) { v.push_back("[[998]]"); continue; }
        }
        v.push_back(it == c.end() ? endmark : show(it));
    }
    return jlist(v);
}

static void do_walk(int t, int c, long p, string const& moves) {
    curl& u = *slot[t];
    bu::url_view v(u.encoded_url());
    bu::url_base const& cu = u;
    long n = 0;
    phase(0);
    if(c == 0) n = static_cast<long>(u.segments().size());
    else n = static_cast<long>(u.params().size());
    p %= n + 1;
    vector<int> m;
    string mj = "[";
    long q = p;
    for(char ch : moves) {
        int x = ch == '+' ? 1 : -1;
        if(q + x < 0 || q + x > n) x = -x;
        if(q + x < 0 || q + x > n) continue;
        q += x;
        if(! m.empty()) mj += ',';
        mj += std::to_string(x);
        m.push_back(x);
    }
    mj += "]";
    string w;
    if(c == 0)
        w = walk(u.segments(), p, m, "[256]") + "," + walk(cu.segments(), p, m, "[256]") + "," +
            walk(v.segments(), p, m, "[256]");
    else
        w = walk(u.params(), p, m, "[[256],[256]]") + "," + walk(cu.params(), p, m, "[[256],[256]]") + "," +
            walk(v.params(), p, m, "[[256],[256]]");
    emit("{\"k\":\"W\",\"t\":" + std::to_string(t) + ",\"c\":" + std::to_string(c) + ",\"p\":" +
        std::to_string(p) + ",\"m\":" + mj + ",\"v\":[" + w + "]}");
}

static void open_slot(int t) {
    slot[t].reset(t == 2 ? new curl(check_alloc<char>(++A.names)) : new curl);
}

static void do_copy(int t, string const& op, long inj) {
    int const o = 3 - t;
    phase(0);
    if(! slot[o]) open_slot(o);
    if(! slot[t]) open_slot(t);
    A.count = 0; A.fired = false;
    string res;
    if(op == "fresh") {      // not a copy: for comparison with one
        string const s(slot[o]->data(), slot[o]->size());
        slot[t].reset(new curl(string_view(s)));
        return;
    }
    if(op == "copy" || op == "move") {
        slot[t].reset();
        A.fail_at = inj;
        A.count = 0;
        res = outcome([&]{
            if(op == "copy") slot[t].reset(new curl(static_cast<curl const&>(*slot[o])));
            else slot[t].reset(new curl(std::move(*slot[o])));
        });
        A.fail_at = 0;
        if(! slot[t]) open_slot(t);
    } else {
        A.fail_at = inj;
        curl& src = op == "selfassign" ? *slot[t] : *slot[o];
        bool self = true;
        res = outcome([&]{ self = &(*slot[t] = src) == slot[t].get(); });
        if(! self) res = "other";
        A.fail_at = 0;
    }
    bool const fired = A.fired;
    curl& src = op == "selfassign" ? *slot[t] : *slot[o];
    obs a = see(*slot[t]);
    obs b = see(src);
    phase(0);
    emit("{\"k\":\"A\",\"t\":" + std::to_string(t) + ",\"op\":\"" + op + "\",\"res\":\"" + res +
        "\",\"fired\":" + (fired ? "1" : "0") + stores() +
        ",\"o\":" + a.json() + ",\"o2\":" + b.json() + "}");
}

static void do_ctor_fail(string const& s, long inj) {
    exact ex(s);
    A.count = 0; A.fired = false; A.fail_at = inj; A.bad = 0;
    phase(0);
    (void) outcome([&]{ curl u((string_view(ex))); });
    A.fail_at = 0;
    end_history(true);
}

#ifdef VERIF_THREADS
static std::unique_ptr<curl const> shared_url;
static std::unique_ptr<bu::url_view const> shared_view;
static string shared_text;
// what this thread sees of the objects that all threads share
static void observe_shared(long k) {
    phase(0);
    obs o; bool allocs = true;
    string d;
    if(k % 2) {
        see_parts(static_cast<bu::url_base const&>(*shared_url), o, allocs);
        see_segments(shared_url->segments(), shared_url->size() + 3, o, allocs);
        see_params(shared_url->params(), shared_url->size() + 3, o, allocs);
    } else {
        see_parts(*shared_view, o, allocs);
        see_segments(shared_view->segments(), shared_view->size() + 3, o, allocs);
        see_params(shared_view->params(), shared_view->size() + 3, o, allocs);
        o.v[15] = js(shared_url->password_part());
    }
    o.v[37] = jb(allocs);
    if(k % 5 == 0) {
        A.fail_at = 0;
        curl copy(*shared_url);
        diff(d, 3, o, see(copy));
    }
    static char const* const keys[] = {"k", "k2", "x", "", "a", "kk"};
    string const key = keys[k % 6];
    string l = k % 2 ? lookup(shared_url->params(), key, shared_url->size() + 3) :
        lookup(shared_view->params(), key, shared_view->size() + 3);
    string const id = std::to_string(static_cast<int>(bu::string_to_scheme(shared_url->scheme())));
    emit("{\"k\":\"V\",\"s\":" + js(shared_text) + ",\"key\":" + js(key) + ",\"o\":" + o.json() + ",\"d\":[" + d + "],\"r\":" + l +
        ",\"id\":" + id + "}");
}
#endif

static int run(char const* script, char const* output, long first) {
    std::ifstream in(script);
    out = std::fopen(output, "a");
    if(! in || ! out) return 2;
    string line;
    long n = -1;
    while(std::getline(in, line)) {
        ++n;
        if(n < first) continue;
        std::istringstream is(line);
        string k; is >> k;
        if(k == "P" || k == "S" || k == "H" || k == "T" || k == "B" || line == "Y new") {
            end_history();
            flush();
            use_locale(std::count(line.begin(), line.end(), '6') % 2 != 0);
#ifndef VERIF_THREADS
            // CPU time for one history
            string a, f; is >> a >> f;
            is.clear(); is.str(line); is >> k;
            use_stretch(f);
            itimerval tv{}; tv.it_value.tv_sec = stretch == 1 ? 5 : 60;
            ::setitimer(ITIMER_VIRTUAL, &tv, nullptr);
#endif
        }
        flush();
        prog->line = n; prog->phase = 0; prog->threw = 0;
        if(k == "P") { string h; is >> h; do_parse(unhex(h)); }
        else if(k == "S") { string h; is >> h; do_scheme(unhex(h)); }
        else if(k == "B") { string h; is >> h; do_own(unhex(h)); }
        else if(k == "Y") { string a, x; int b = 0; is >> a >> b >> x; do_own_step(a, b, x); }
#ifdef VERIF_THREADS
        else if(k == "V") { long j; is >> j; observe_shared(j); }
#endif
        else if(k == "H") { string h, f; is >> h >> f; start_history(h, f); }
        else if(k == "T") { string h; long i; is >> h >> i; do_ctor_fail(unhex(h), i); }
        else if(! open_) continue; // resumed inside a history
        else if(k == "O") { int t; string op, h; long i, j, inj; is >> t >> op >> h >> i >> j >> inj;
            if(slot[t]) do_op(t, op, h, i, j, inj); }
        else if(k == "L") { int t; string h; is >> t >> h; if(slot[t]) do_lookup(t, unhex(h)); }
        else if(k == "Q") { int t; is >> t; if(slot[t]) do_look(t); }
        else if(k == "W") { int t, c; long p; string m; is >> t >> c >> p >> m; if(slot[t]) do_walk(t, c, p, m); }
        else if(k == "A") { int t; string op; long inj; is >> t >> op >> inj; do_copy(t, op, inj); }
    }
    end_history();
    flush();
    for(int i = 1; i <= 2; ++i) { yview[i].reset(); ybuf[i].reset(); }
    yurl.reset();
    prog->line = -1;
    std::fclose(out);
    return 0;
}

#ifdef VERIF_THREADS
// exec SHARED-URL-HEX SCRIPT OUT THREADS: thread i runs SCRIPT.i and writes OUT.i
int main(int argc, char** argv) {
    if(argc < 5) return 2;
    std::setlocale(LC_ALL, "tr");
    static progress ps[16];
    int const n = std::min(16, std::atoi(argv[4]));
    prog = &ps[0];
    shared_text = unhex(argv[1]);
    shared_url.reset(new curl(string_view(shared_text)));
    shared_view.reset(new bu::url_view(string_view(shared_text)));
    std::atomic<int> ready{0}, rc{0};
    vector<std::thread> ts;
    for(int i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
            progress mine{};
            prog = &mine;
            dice = static_cast<unsigned>(i * 7919 + 1);
            string const t = std::to_string(i);
            ++ready;
            while(ready < n) std::this_thread::yield();
            if(run((argv[2] + ("." + t)).c_str(), (argv[3] + ("." + t)).c_str(), 0)) rc = 2;
            slot[1].reset(); slot[2].reset();
        });
    for(auto& t : ts) t.join();
    shared_url.reset();
    return rc;
}
#else
int main(int argc, char** argv) {
    if(argc < 5) return 2;
    other_locale = std::setlocale(LC_ALL, "tr") != nullptr;
    std::setlocale(LC_ALL, "C");
    int fd = ::open(argv[3], O_RDWR | O_CREAT, 0600);
    if(fd < 0) return 2;
    if(::ftruncate(fd, sizeof(progress))) return 2;
    prog = static_cast<progress*>(::mmap(nullptr, sizeof(progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    return run(argv[1], argv[2], std::stol(argv[4]));
}
#endif
