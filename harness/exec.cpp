// Runs library calls described line by line and reports what they did.
//   exec IN OUT     (each case ends with an "end" line, flushed)
#include "flat.h"
#include <mshio/exception.h>

#include <algorithm>
#include <atomic>
#include <stdexcept>

#include <malloc.h>
#include <sys/resource.h>
#include <unistd.h>
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <clocale>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>

// Big allocations fail as on a machine with little memory, and so do many small ones.
static size_t g_cap = size_t(256) << 20;
static std::atomic<size_t> g_live{0};
static const size_t g_all = size_t(2500) << 20;
void* operator new(std::size_t n)
{
    if (n > g_cap || g_live + n > g_all) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    g_live += malloc_usable_size(p);
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
    if (p) g_live -= malloc_usable_size(p);
    std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

static FILE* g_out;
static void on_alarm(int)
{
    // Nothing buffered is lost but the current case.
    static const char m[] = "hang\n";
    if (write(fileno(g_out), m, sizeof m - 1) < 0) {}
    _exit(98);
}

// Division by zero inside a call.
static sigjmp_buf g_jump;
static volatile sig_atomic_t g_armed = 0;
static void on_fpe(int)
{
    if (g_armed) siglongjmp(g_jump, 1);
    std::signal(SIGFPE, SIG_DFL);
    std::raise(SIGFPE);
}

struct Failing : std::runtime_error
{
    Failing() : std::runtime_error("device failed") {}
};

// Accepts `k' bytes, then fails.  Mode 0: reports failure, 1: throws,
// 2, 3: the same, but only once; 4: accepts everything and fails when flushed.
struct FailOut : std::streambuf
{
    size_t k, n = 0;
    int mode;
    bool failed = false;
    std::string got;
    FailOut(size_t k_, int m) : k(k_), mode(m) {}
    int_type overflow(int_type c) override
    {
        if (mode < 4 && n >= k && !(mode >= 2 && failed)) {
            failed = true;
            if (mode & 1) throw Failing();
            return traits_type::eof();
        }
        n++;
        got += (char)c;
        return c == traits_type::eof() ? 0 : c;
    }
    std::streamsize xsputn(const char* s, std::streamsize m) override
    {
        std::streamsize i = 0;
        for (; i < m; i++)
            if (traits_type::eq_int_type(overflow((unsigned char)s[i]), traits_type::eof())) break;
        return i;
    }
    int sync() override
    {
        if (mode == 4 && n > k) return -1;
        return 0;
    }
};

// Delivers at most `chunk' bytes at a time; throws at byte `k', once or for good.
struct ChunkIn : std::streambuf
{
    std::string b;
    size_t pos = 0, chunk, k;
    bool once = false;
    ChunkIn(std::string s, size_t c, size_t fail = size_t(-1)) : b(std::move(s)), chunk(c), k(fail) {}
    int_type underflow() override
    {
        if (pos >= k) {
            if (once) k = size_t(-1);
            throw Failing();
        }
        if (pos >= b.size()) return traits_type::eof();
        size_t n = std::min(std::min(chunk, b.size() - pos), k - pos);
        setg(&b[pos], &b[pos], &b[pos] + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }
};

// Lets clients proceed one chunk at a time in a given order.
struct Baton
{
    std::mutex m;
    std::condition_variable cv;
    std::vector<int> order;
    size_t at = 0;
    std::map<int, bool> done;
    void skip()
    {
        // The schedule repeats; once everyone in it is done, it no longer matters.
        for (size_t i = 0; i < order.size() && done[order[at]]; i++) at = (at + 1) % order.size();
    }
    void turn(int c)
    {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { skip(); return order.empty() || order[at] == c || done[order[at]]; });
        if (!order.empty()) at = (at + 1) % order.size();
        skip();
        cv.notify_all();
    }
    void finish(int c)
    {
        std::unique_lock<std::mutex> l(m);
        done[c] = true;
        skip();
        cv.notify_all();
    }
};
struct GateIn : std::streambuf
{
    std::string b;
    size_t pos = 0, chunk;
    Baton* baton;
    int me;
    GateIn(std::string s, size_t c, Baton* t, int i) : b(std::move(s)), chunk(c), baton(t), me(i) {}
    int_type underflow() override
    {
        if (pos >= b.size()) return traits_type::eof();
        baton->turn(me);
        size_t n = std::min(chunk, b.size() - pos);
        setg(&b[pos], &b[pos], &b[pos] + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }
};
struct GateOut : std::streambuf
{
    std::string got;
    size_t n = 0, chunk;
    Baton* baton;
    int me;
    GateOut(size_t c, Baton* t, int i) : chunk(c), baton(t), me(i) {}
    int_type overflow(int_type c) override
    {
        if (n++ % chunk == 0) baton->turn(me);
        got += (char)c;
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize m) override
    {
        for (std::streamsize i = 0; i < m; i++) overflow((unsigned char)s[i]);
        return m;
    }
};

// Runs something else each time it has delivered or taken `chunk' bytes.
struct NestIn : std::streambuf
{
    std::string b;
    size_t pos = 0, chunk;
    std::function<void()> f;
    NestIn(std::string s, size_t c, std::function<void()> g) : b(std::move(s)), chunk(c), f(std::move(g)) {}
    int_type underflow() override
    {
        if (pos >= b.size()) return traits_type::eof();
        f();
        size_t n = std::min(chunk, b.size() - pos);
        setg(&b[pos], &b[pos], &b[pos] + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }
};
struct NestOut : std::streambuf
{
    std::string got;
    size_t n = 0, chunk;
    std::function<void()> f;
    NestOut(size_t c, std::function<void()> g) : chunk(c), f(std::move(g)) {}
    int_type overflow(int_type c) override
    {
        if (n++ % chunk == 0) f();
        got += (char)c;
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize m) override
    {
        for (std::streamsize i = 0; i < m; i++) overflow((unsigned char)s[i]);
        return m;
    }
};

// Locales that print and read numbers, and part words, in ways of their own.
struct Grouping : std::numpunct<char>
{
    char sep, point;
    std::string groups;
    Grouping(char s, char p, const char* g) : sep(s), point(p), groups(g) {}
    char do_thousands_sep() const override { return sep; }
    char do_decimal_point() const override { return point; }
    std::string do_grouping() const override { return groups; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct Spaces : std::ctype<char>
{
    static const mask* table_of()
    {
        static std::vector<mask> v;
        if (v.empty()) {
            v.assign(classic_table(), classic_table() + table_size);
            for (unsigned char c : {',', ';', ':', '\xa0', '\x85'}) v[c] = space;
        }
        return v.data();
    }
    Spaces() : std::ctype<char>(table_of()) {}
};
static const std::locale& locale_of(const std::string& k)
{
    static std::map<std::string, std::locale> m;
    if (m.empty()) {
        const std::locale& c = std::locale::classic();
        m["classic"] = c;
        m["comma"] = std::locale(c, new Grouping('.', ',', "\3"));
        m["ones"] = std::locale(c, new Grouping(',', '.', "\1"));
        m["space"] = std::locale(c, new Spaces);
        m["cnative"] = c;
        // one of the system's own, if the caller could make it (LOCPATH)
        try {
            m["native"] = std::locale("de_DE.UTF-8");
        } catch (const std::exception&) {
            m["native"] = c;
        }
    }
    return m.at(k);
}
// "native" is the locale of C++ and C alike, "cnative" that of C alone.
static std::string g_glob = "classic";
static void be_global(const std::string& k)
{
    std::locale::global(locale_of(k));
    if (k != "native") std::setlocale(LC_ALL, k == "cnative" ? "de_DE.UTF-8" : "C");
}
static std::vector<std::string> split(const std::string& s, char by)
{
    std::vector<std::string> r;
    std::string x;
    for (char c : s) {
        if (c == by) r.push_back(x), x.clear();
        else x += c;
    }
    r.push_back(x);
    return r;
}
// FLAGS(a+b or -) PRECISION WIDTH FILL(hex) LOCALE
struct Settings
{
    std::ios_base::fmtflags flags = std::ios_base::dec | std::ios_base::skipws;
    std::streamsize precision, width;
    char fill;
    std::locale loc;
    explicit Settings(flat::In& w)
    {
        typedef std::ios_base B;
        for (auto& f : split(w.word(), '+')) {
            if (f == "hex" || f == "oct") flags = (flags & ~B::basefield) | (f == "hex" ? B::hex : B::oct);
            else if (f == "showbase") flags |= B::showbase;
            else if (f == "showpos") flags |= B::showpos;
            else if (f == "showpoint") flags |= B::showpoint;
            else if (f == "uppercase") flags |= B::uppercase;
            else if (f == "boolalpha") flags |= B::boolalpha;
            else if (f == "scientific") flags |= B::scientific;
            else if (f == "fixed") flags |= B::fixed;
            else if (f == "left") flags |= B::left;
            else if (f == "right") flags |= B::right;
            else if (f == "internal") flags |= B::internal;
            else if (f == "unitbuf") flags |= B::unitbuf;
            else if (f == "noskipws") flags &= ~B::skipws;
        }
        precision = (std::streamsize)w.u();
        width = (std::streamsize)w.u();
        fill = w.str()[0];
        loc = locale_of(w.word());
    }
    void to(std::ios& s) const
    {
        s.flags(flags);
        s.precision(precision);
        s.width(width);
        s.fill(fill);
        s.imbue(loc);
    }
    // Everything but the field width, which any output uses up.
    std::string kept(const std::ios& s) const
    {
        if (s.flags() != flags) return " changed_flags";
        if (s.precision() != precision) return " changed_precision";
        if (s.fill() != fill) return " changed_fill";
        if (!(s.getloc() == loc)) return " changed_locale";
        if (s.exceptions() != std::ios_base::goodbit) return " changed_exceptions";
        return " kept";
    }
};

template <class F> std::string outcome(F f)
{
    try {
        f();
        return "ok";
    } catch (const mshio::UnsupportedFeature&) {
        return "ex UnsupportedFeature";
    } catch (const mshio::InvalidFormat&) {
        return "ex InvalidFormat";
    } catch (const mshio::CorruptData&) {
        return "ex CorruptData";
    } catch (const Failing&) {
        return "ex Failing";
    } catch (const std::ios_base::failure&) {
        return "ex ios_failure";
    } catch (const std::bad_alloc&) {
        return "ex bad_alloc";
    } catch (const std::length_error&) {
        return "ex length_error";
    } catch (const std::runtime_error&) {
        return "ex runtime_error";
    } catch (const std::exception&) {
        return "ex exception";
    } catch (...) {
        return "ex unknown";
    }
}

// Lets only `n' more files be open at a time (0: as many as the system does).
static void few_files(size_t n)
{
    static struct rlimit old;
    static bool known = false;
    struct rlimit lim;
    if (!known) getrlimit(RLIMIT_NOFILE, &old), known = true;
    lim = old;
    if (n) {
        int next = dup(0);
        if (next < 0) return;
        close(next);
        lim.rlim_cur = (rlim_t)next + n;
    }
    setrlimit(RLIMIT_NOFILE, &lim);
}

static std::map<std::string, mshio::MshSpec> S;
static std::map<std::string, std::string> B;

static std::string slurp(const std::string& p, bool& ok)
{
    std::ifstream f(p, std::ios::binary);
    ok = f.is_open();
    return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    g_out = std::fopen(argv[2], "a");
    if (g_out) std::setvbuf(g_out, nullptr, _IOLBF, 1 << 16);
    if (!in || !g_out) return 2;
    std::ofstream null("/dev/null");
    std::cerr.rdbuf(null.rdbuf());
    std::signal(SIGALRM, on_alarm);
    std::signal(SIGFPE, on_fpe);
    std::signal(SIGXFSZ, SIG_IGN);
    std::signal(SIGPIPE, SIG_IGN);
    std::string line;
    while (std::getline(in, line)) {
        const char* p = line.c_str();
        flat::In w(p);
        std::string op = w.word();
        std::string r;
        alarm(argc > 3 ? (unsigned)std::atoi(argv[3]) : 20);
        if (op == "case") {
            S.clear();
            B.clear();
            be_global(g_glob = "classic");
            few_files(0);
            r = "case " + w.word();
        } else if (op == "end") {
            r = "end";
        } else if (op == "set") {
            std::string a = w.word();
            S[a] = flat::read(w.p);
            r = "ok";
        } else if (op == "bytes") {
            std::string a = w.word();
            B[a] = w.str();
            r = "ok";
        } else if (op == "save") {
            std::string a = w.word(), b = w.word();
            std::ostringstream o;
            r = outcome([&] { mshio::save_msh(o, S[a]); });
            if (!o) r += " badstream";
            B[b] = o.str();
        } else if (op == "osave") { // behind something else
            std::string a = w.word(), b = w.word(), pre = w.str();
            std::ostringstream o;
            o << pre;
            r = outcome([&] { mshio::save_msh(o, S[a]); });
            if (!o) r += " badstream";
            std::string t = o.str();
            if (t.compare(0, pre.size(), pre) != 0) r += " overwritten";
            B[b] = t.size() < pre.size() ? t : t.substr(pre.size());
        } else if (op == "oload") { // from somewhere in a stream
            std::string b = w.word(), a = w.word(), pre = w.str();
            std::istringstream i(pre + B[b]);
            std::string t(pre.size(), 0);
            i.read(&t[0], (std::streamsize)pre.size());
            S.erase(a);
            r = outcome([&] { S[a] = mshio::load_msh(i); });
        } else if (op == "load") {
            std::string b = w.word(), a = w.word();
            std::istringstream i(B[b]);
            S.erase(a);
            r = outcome([&] { S[a] = mshio::load_msh(i); });
        } else if (op == "chload") {
            std::string b = w.word(), a = w.word();
            size_t n = w.u();
            ChunkIn buf(B[b], n);
            std::istream i(&buf);
            S.erase(a);
            r = outcome([&] { S[a] = mshio::load_msh(i); });
        } else if (op == "mode") { // mode REG VERSION FILETYPE
            std::string a = w.word();
            S[a].mesh_format.version = w.str();
            S[a].mesh_format.file_type = (int)w.i();
            S[a].mesh_format.data_size = 8;
            r = "ok";
        } else if (op == "copy") {
            std::string a = w.word(), b = w.word();
            S[b] = S[a];
            r = "ok";
        } else if (op == "eqs") {
            std::string a = w.word(), b = w.word();
            r = flat::write(S[a]) == flat::write(S[b]) ? "same" : "differ";
        } else if (op == "get") {
            std::string a = w.word();
            r = S.count(a) ? "spec" + flat::write(S[a]) : "none";
        } else if (op == "getb") {
            r = "bytes " + flat::hex(B[w.word()]);
        } else if (op == "eqb") {
            std::string a = w.word(), b = w.word();
            r = B[a] == B[b] ? "same" : "differ";
        } else if (op == "val") {
            std::string a = w.word();
            // Recorded findings V3, V4: an element block the validation divides by zero on.
            bool divides = false;
            for (auto& b : S[a].elements.entity_blocks)
                if (b.num_elements_in_block == 0 || b.data.size() < b.num_elements_in_block) divides = true;
            if (divides && w.word() == "safe") {
                r = "skipped";
            } else
            if (sigsetjmp(g_jump, 1) == 0) {
                g_armed = 1;
                r = outcome([&] { mshio::validate_spec(S[a]); });
            } else {
                r = "crash division by zero";
            }
            g_armed = 0;
        } else if (op == "npe") {
            int t = (int)w.i();
            size_t n = 0;
            r = outcome([&] { n = mshio::nodes_per_element(t); });
            if (r == "ok") r += " " + std::to_string(n);
        } else if (op == "dim") {
            int t = (int)w.i();
            long long n = 0;
            r = outcome([&] { n = mshio::get_element_dim(t); });
            if (r == "ok") r += " " + std::to_string(n);
        } else if (op == "savef") {
            std::string a = w.word(), f = w.str();
            r = outcome([&] { mshio::save_msh(f, S[a]); });
        } else if (op == "savefl") { // with a limited file size
            std::string a = w.word(), f = w.str();
            struct rlimit old, lim;
            getrlimit(RLIMIT_FSIZE, &old);
            lim = old;
            lim.rlim_cur = w.u();
            std::fflush(g_out);
            setrlimit(RLIMIT_FSIZE, &lim);
            r = outcome([&] { mshio::save_msh(f, S[a]); });
            setrlimit(RLIMIT_FSIZE, &old);
        } else if (op == "loadf") {
            std::string f = w.str(), a = w.word();
            S.erase(a);
            r = outcome([&] { S[a] = mshio::load_msh(f); });
        } else if (op == "ploadf") { // by the name of a pipe
            std::string b = w.word(), a = w.word();
            int fd[2];
            S.erase(a);
            if (::pipe(fd) != 0) {
                r = "missing";
            } else {
                const std::string bytes = B[b];
                std::thread t([&] {
                    size_t n = 0;
                    while (n < bytes.size()) {
                        const ssize_t k = ::write(fd[1], bytes.data() + n, std::min<size_t>(bytes.size() - n, 1000));
                        if (k <= 0) break;
                        n += (size_t)k;
                    }
                    ::close(fd[1]);
                });
                r = outcome([&] { S[a] = mshio::load_msh("/dev/fd/" + std::to_string(fd[0])); });
                ::close(fd[0]);
                t.join();
            }
        } else if (op == "psavef") {
            std::string a = w.word(), b = w.word(), got;
            int fd[2];
            if (::pipe(fd) != 0) {
                r = "missing";
            } else {
                std::thread t([&] {
                    char buf[4096];
                    ssize_t k;
                    while ((k = ::read(fd[0], buf, sizeof(buf))) > 0) got.append(buf, (size_t)k);
                });
                r = outcome([&] { mshio::save_msh("/dev/fd/" + std::to_string(fd[1]), S[a]); });
                ::close(fd[1]);
                t.join();
                ::close(fd[0]);
                B[b] = got;
            }
        } else if (op == "slurp") {
            std::string f = w.str(), b = w.word();
            bool ok;
            B[b] = slurp(f, ok);
            r = ok ? "ok" : "missing";
        } else if (op == "spill") {
            std::string b = w.word(), f = w.str();
            std::ofstream o(f, std::ios::binary);
            o << B[b];
            o.close();
            r = o ? "ok" : "missing";
        } else if (op == "unlink") {
            std::string f = w.str();
            r = ::unlink(f.c_str()) == 0 ? "ok" : "missing";
        } else if (op == "fsave") {
            std::string a = w.word();
            size_t k = w.u();
            FailOut buf(k, (int)w.i());
            std::ostream o(&buf);
            r = outcome([&] { mshio::save_msh(o, S[a]); });
            if (r == "ok") {
                if (o) o.flush();
                r += o ? " good" : " failed";
            }
            r += " " + std::to_string(buf.n);
        } else if (op == "fload") {
            std::string b = w.word(), a = w.word();
            size_t k = w.u();
            ChunkIn buf(B[b], w.u(), k);
            buf.once = w.i() != 0;
            std::istream i(&buf);
            S.erase(a);
            r = outcome([&] { S[a] = mshio::load_msh(i); });
        } else if (op == "par") {
            // par ORDER(comma separated, or -) CHUNK N { save A B | load B A | val A }
            std::string ord = w.word();
            size_t chunk = w.u(), n = w.u();
            Baton baton;
            if (ord != "-") {
                std::istringstream os(ord);
                std::string x;
                while (std::getline(os, x, ',')) baton.order.push_back(std::atoi(x.c_str()));
            }
            struct Client { std::string op, a, b, res, bytes; mshio::MshSpec spec; };
            std::vector<Client> cl(n);
            for (auto& c : cl) {
                c.op = w.word();
                c.a = w.word();
                c.b = w.word();
                if (c.op == "save") c.spec = S[c.a];
                else c.bytes = B[c.a];
            }
            std::vector<std::thread> th;
            for (size_t i = 0; i < n; i++) {
                th.emplace_back([&, i] {
                    Client& c = cl[i];
                    if (c.op == "save") {
                        GateOut g(chunk, &baton, (int)i);
                        std::ostream o(&g);
                        c.res = outcome([&] { mshio::save_msh(o, c.spec); });
                        c.bytes = g.got;
                    } else {
                        GateIn g(c.bytes, chunk, &baton, (int)i);
                        std::istream s(&g);
                        c.res = outcome([&] { c.spec = mshio::load_msh(s); });
                        if (c.res == "ok") c.res = outcome([&] { mshio::validate_spec(c.spec); }) == "ok" ? "ok valid" : "ok invalid";
                    }
                    baton.finish((int)i);
                });
            }
            for (auto& t : th) t.join();
            r = "par";
            for (auto& c : cl) {
                std::string q = c.res;
                for (char& x : q) if (x == ' ') x = '_';
                r += " " + q;
                if (c.op == "save") B[c.b] = c.bytes;
                else if (c.res[0] == 'o') S[c.b] = c.spec;
                else S.erase(c.b);
            }
        } else if (op == "nest") {
            // nest CHUNK { save A B | load B A } { save A B | load B A }: the second within the first, over and over
            size_t chunk = w.u();
            std::string op1 = w.word(), a1 = w.word(), b1 = w.word(), op2 = w.word(), a2 = w.word(), b2 = w.word();
            std::string r1, r2, bytes2, first;
            size_t runs = 0, differ = 0;
            auto inner = [&] {
                std::string q, res;
                if (op2 == "save") {
                    std::ostringstream o;
                    q = outcome([&] { mshio::save_msh(o, S[a2]); });
                    res = q == "ok" ? o.str() : q;
                    if (!runs) B[b2] = o.str();
                } else {
                    std::istringstream i(B[a2]);
                    mshio::MshSpec spec;
                    q = outcome([&] { spec = mshio::load_msh(i); });
                    res = q == "ok" ? flat::write(spec) : q;
                    if (!runs && q == "ok") S[b2] = spec;
                }
                if (!runs) r2 = q, first = res;
                else if (res != first) differ++;
                runs++;
            };
            if (op1 == "save") {
                NestOut buf(chunk, inner);
                std::ostream o(&buf);
                const mshio::MshSpec spec = S[a1];
                r1 = outcome([&] { mshio::save_msh(o, spec); });
                B[b1] = buf.got;
            } else {
                NestIn buf(B[a1], chunk, inner);
                std::istream i(&buf);
                S.erase(b1);
                r1 = outcome([&] { S[b1] = mshio::load_msh(i); });
            }
            for (char& x : r1) if (x == ' ') x = '_';
            for (char& x : r2) if (x == ' ') x = '_';
            r = "nest " + r1 + " " + (runs ? r2 : "none") + " " + std::to_string(differ);
        } else if (op == "glob") {
            be_global(g_glob = w.word());
            r = "ok";
        } else if (op == "ssave" || op == "sload") {
            // ssave A B SETTINGS ENV CHUNK | sload B A SETTINGS ENV CHUNK: on a stream with settings of its own,
            // the global locale changing (ENV: a,b,c or -) each time CHUNK bytes have passed
            std::string x = w.word(), y = w.word();
            const Settings set(w);
            const auto env = split(w.word(), ',');
            const size_t chunk = w.u();
            size_t at = 0;
            auto turn = [&] {
                if (env[0] != "-") be_global(env[std::min(at, env.size() - 1)]);
                at++;
            };
            if (op == "ssave") {
                const mshio::MshSpec spec = S[x];
                NestOut buf(chunk, turn);
                std::ostream o(&buf);
                set.to(o);
                r = outcome([&] { mshio::save_msh(o, spec); });
                if (!o) r += "_badstream";
                r += set.kept(o);
                B[y] = buf.got;
            } else {
                NestIn buf(B[x], chunk, turn);
                std::istream i(&buf);
                set.to(i);
                S.erase(y);
                r = outcome([&] { S[y] = mshio::load_msh(i); });
                r += set.kept(i);
            }
            be_global(g_glob);
        } else if (op == "few") { // files that can be opened besides those that are
            few_files(w.u());
            r = "ok";
        } else if (op == "cap") {
            g_cap = w.u();
            r = "ok";
        } else {
            r = "unknown-op " + op;
        }
        alarm(0);
        r += '\n';
        std::fwrite(r.data(), 1, r.size(), g_out);
        if (op == "end") std::fflush(g_out);
    }
    std::fclose(g_out);
    return 0;
}
