// The workload for C14: active variables and expressions written to and read from streams that fail,
// throw or end at any byte, next to the same with plain numbers; amid recordings on a tape.
#include "core.hpp"
#include <XAD/XAD.hpp>
#include <XAD/Complex.hpp>
#include <cmath>
#include <functional>
#include <istream>
#include <limits>
#include <locale>
#include <memory>
#include <ostream>

namespace sim
{
namespace
{
enum Code
{
    OPEN_OUT = 300, OPEN_IN, FORMAT, STATE, WRITE, READ, RECORD, SWEEP, RESTART, VARS, CODE_END
};
const char* sname(int c)
{
    static const char* n[] = {"OPEN_OUT", "OPEN_IN", "FORMAT", "STATE", "WRITE", "READ", "RECORD", "SWEEP", "RESTART", "VARS"};
    return c >= 300 && c < CODE_END ? n[c - 300] : "NONE";
}
struct BufError
{
    int serial;
};

// a device that accepts or delivers a number of characters, then fails in some way
template <class C>
struct Device : std::basic_streambuf<C>
{
    typedef std::char_traits<C> Tr;
    typedef typename Tr::int_type I;
    std::basic_string<C> data;   // what has been written, or is there to read
    size_t pos = 0;              // next character to read
    long limit = -1;             // characters until the fault
    int kind = 0;                // 0: fails, 1: throws, 2: throws once
    int chunk = 0;               // size of the buffer
    bool failSync = false;
    long faults = 0;
    std::basic_string<C> buf;

    bool hit(size_t n)
    {
        if (limit < 0 || long(n) < limit)
            return false;
        ++faults;
        if (kind == 2)
            limit = -1;
        if (kind)
            throw BufError{7};
        return true;
    }
    void flushBuf()
    {
        for (C* p = this->pbase(); p < this->pptr(); ++p) data.push_back(*p);
        if (chunk)
            this->setp(&buf[0], &buf[0] + buf.size());
    }
    void openOut()
    {
        buf.resize(size_t(chunk));
        if (chunk)
            this->setp(&buf[0], &buf[0] + buf.size());
    }
    I overflow(I c) override
    {
        if (hit(data.size() + size_t(this->pptr() - this->pbase())))
            return Tr::eof();
        flushBuf();
        if (!Tr::eq_int_type(c, Tr::eof()))
            data.push_back(Tr::to_char_type(c));
        return Tr::not_eof(c);
    }
    int sync() override
    {
        if (failSync)
        {
            ++faults;
            if (kind)
                throw BufError{8};
            return -1;
        }
        if (this->pbase())
            flushBuf();
        return 0;
    }
    I underflow() override
    {
        if (this->gptr() < this->egptr())
            return Tr::to_int_type(*this->gptr());
        if (hit(pos) || pos >= data.size())
            return Tr::eof();
        size_t n = std::min(data.size() - pos, size_t(chunk ? chunk : 1));
        if (limit >= 0)
            n = std::min(n, size_t(limit) - pos);
        buf.assign(data, pos, n);
        pos += n;
        this->setg(&buf[0], &buf[0], &buf[0] + n);
        return Tr::to_int_type(buf[0]);
    }
    size_t consumed() const { return pos - size_t(this->egptr() - this->gptr()); }
    std::basic_string<C> written() const
    {
        std::basic_string<C> s(data);
        for (C* p = this->pbase(); p < this->pptr(); ++p) s.push_back(*p);
        return s;
    }
};
template <class C>
struct Punct : std::numpunct<C>
{
    C do_decimal_point() const override { return C(','); }
    C do_thousands_sep() const override { return C('\''); }
    std::string do_grouping() const override { return "\3"; }
};

// a stream of active variables and one of plain numbers
template <class C>
struct Pair
{
    Device<C> d[2];
    std::unique_ptr<std::basic_ostream<C>> o[2];
    std::unique_ptr<std::basic_istream<C>> i[2];
    std::basic_ios<C>* ios(int k) { return o[k] ? static_cast<std::basic_ios<C>*>(o[k].get()) : i[k].get(); }
};

const double SPECIAL[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1e300, -1e300, 1e-300, 4.9e-324, 2.2250738585072014e-308, 123456.789, -9.99999999, 1e21, 0.5,
                          std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e6, 999999.5, 3.0};

typedef xad::AReal<double> AD;
typedef xad::FReal<double> FD;
typedef xad::AReal<float> AF;
typedef xad::FReal<float> FF;
typedef xad::AReal<FD> AFD;
typedef xad::FReal<FD> FFD;

struct World
{
    Ctx& ctx;
    std::string text;
    xad::Tape<double>* tape = nullptr;
    enum { NV = 6 };
    AD* v[NV] = {};
    double val[NV];
    bool reg[NV] = {};
    double adj[NV] = {};
    struct Ev
    {
        int lhs, a, b;
        double ca, cb;
    };
    std::vector<Ev> ev;
    bool seeded = false;
    std::unique_ptr<Pair<char>> pc;
    std::unique_ptr<Pair<wchar_t>> pw;

    explicit World(Ctx& c) : ctx(c)
    {
        {
            Lib l;
            tape = new xad::Tape<double>();
        }
        for (int i = 0; i < NV; ++i)
        {
            val[i] = double(i) / 4.0 - 0.5;
            v[i] = new AD(val[i]);
        }
    }
    ~World()
    {
        Lib l;
        for (auto*& p : v) delete p;
        delete tape;
    }
    void must(const char* w, const std::function<void()>& f)
    {
        try
        {
            Lib l;
            f();
        }
        catch (const std::exception& e)
        {
            ctx.fail("unexpected-exception", std::string(w) + ": " + e.what());
        }
    }

    // ------------------------------------------------------------------ comparing the twins
    template <class F>
    std::string outcome(F&& f)
    {
        try
        {
            f();
        }
        catch (const BufError& e)
        {
            return fmt("device exception %d", e.serial);
        }
        catch (const std::ios_base::failure&)
        {
            return "ios_base::failure";
        }
        catch (const std::exception& e)
        {
            return fmt("exception %s", e.what());
        }
        return "";
    }
    template <class C>
    static std::string narrow(const std::basic_string<C>& s)
    {
        std::string r;
        for (C c : s) r += c >= 32 && c < 127 ? char(c) : '?';
        return r;
    }
    template <class C>
    bool sameStreams(Pair<C>& p, const std::string& ra, const std::string& rb)
    {
        ctx.count("results_checked");
        if (ra != rb)
        {
            ctx.fail("stream-exception", "active: '" + ra + "', plain: '" + rb + "'");
            return false;
        }
        auto *a = p.ios(0), *b = p.ios(1);
        if (a->rdstate() != b->rdstate())
        {
            ctx.fail("stream-state", fmt("state %d instead of %d", int(a->rdstate()), int(b->rdstate())));
            return false;
        }
        if (a->width() != b->width() || a->precision() != b->precision() || a->flags() != b->flags() || a->fill() != b->fill() || a->exceptions() != b->exceptions())
        {
            ctx.fail("stream-format", fmt("formatting state differs (width %d instead of %d)", int(a->width()), int(b->width())));
            return false;
        }
        if (p.o[0])
        {
            auto x = p.d[0].written(), y = p.d[1].written();
            if (x != y)
            {
                ctx.fail("stream-output", "written '" + narrow(x) + "' instead of '" + narrow(y) + "'");
                return false;
            }
            ctx.observe(uint64_t(x.size()));
            ctx.state(hashMix(uint64_t(a->rdstate()) * 64 + uint64_t(a->flags()), uint64_t(x.size())));
        }
        else
        {
            if (p.d[0].consumed() != p.d[1].consumed())
            {
                ctx.fail("stream-input", fmt("consumed %d characters instead of %d", int(p.d[0].consumed()), int(p.d[1].consumed())));
                return false;
            }
            ctx.observe(uint64_t(p.d[0].consumed()));
            ctx.state(hashMix(uint64_t(a->rdstate()) * 64 + 32, uint64_t(p.d[0].consumed())));
        }
        return true;
    }
    static uint64_t bits(double x)
    {
        uint64_t u;
        std::memcpy(&u, &x, 8);
        return u;
    }
    static bool same(double x, double y) { return bits(x) == bits(y) || (x != x && y != y); }

    template <class C, class X, class Y>
    bool writePair(Pair<C>& p, const X& x, const Y& y)
    {
        bool other = false;
        std::string ra = outcome([&] {
            Lib l;
            auto& r = *p.o[0] << x;
            other = &r != p.o[0].get();
        });
        std::string rb = outcome([&] { *p.o[1] << y; });
        if (other)
            ctx.fail("stream-output", "returned another stream");
        return sameStreams(p, ra, rb);
    }
    template <class C>
    bool opWrite(Pair<C>& p, const int64_t* a)
    {
        if (!p.o[0])
            return false;
        int i = int(uint64_t(a[1]) % NV), j = int(uint64_t(a[2]) % NV), kind = int(uint64_t(a[3]) % 19);
        const AD &x = *v[i], &y = *v[j];
        double dx = val[i], dy = val[j];
        double s = SPECIAL[uint64_t(a[4]) % (sizeof SPECIAL / sizeof SPECIAL[0])];
        text += fmt("kind %d v%d v%d", kind, i, j);
        switch (kind)
        {
            case 0:
            case 1: return writePair(p, x, dx);
            case 2: return writePair(p, x * y + 2.0, dx * dy + 2.0);
            case 3: return writePair(p, -x, -dx);
            case 4: return writePair(p, sin(x), std::sin(dx));
            case 5: return writePair(p, x + y, dx + dy);
            case 6: return writePair(p, AD(s), s);
            case 7: { FD f(s); derivative(f) = 2.5; return writePair(p, f, s); }
            case 8: { FD f(dx); return writePair(p, f * 2.0 + f, dx * 2.0 + dx); }
            case 9: return writePair(p, AF(float(dx)), float(dx));
            case 10: return writePair(p, FF(float(s)), float(s));
            case 11: return writePair(p, AFD(s), s);
            case 12: return writePair(p, FFD(dx), dx);
            case 13: { FFD f(dx); return writePair(p, f * f, dx * dx); }
            case 14: return writePair(p, std::complex<AD>(x, y), std::complex<double>(dx, dy));
            case 15: return writePair(p, std::complex<FD>(FD(dx), FD(s)), std::complex<double>(dx, s));
            case 16: return writePair(p, max(x, y), std::max(dx, dy));
            case 17: { AD t(x); return writePair(p, t, dx); }
            default: return writePair(p, x, dx);
        }
    }
    // reads into the active number and the plain one; the value has to be the same
    template <class C, class X, class Y, class V>
    bool readPair(Pair<C>& p, X& x, Y& y, V&& value)
    {
        bool other = false;
        std::string ra = outcome([&] {
            Lib l;
            auto& r = *p.i[0] >> x;
            other = &r != p.i[0].get();
        });
        std::string rb = outcome([&] { *p.i[1] >> y; });
        if (other)
            ctx.fail("stream-input", "returned another stream");
        if (!sameStreams(p, ra, rb))
            return true;
        if (!same(double(value(x)), double(y)))
            ctx.fail("stream-value", fmt("read %.17g instead of %.17g", double(value(x)), double(y)));
        ctx.observe(double(y));
        return true;
    }
    template <class C>
    bool opRead(Pair<C>& p, const int64_t* a)
    {
        if (!p.i[0])
            return false;
        int i = int(uint64_t(a[1]) % NV), kind = int(uint64_t(a[3]) % 10);
        text += fmt("kind %d v%d", kind, i);
        switch (kind)
        {
            case 5:
            {
                FD f(val[i]);
                derivative(f) = 2.5;
                double d = val[i];
                readPair(p, f, d, [](FD& q) { return xad::value(q); });
                if (derivative(f) != 2.5)
                    ctx.fail("stream-input", "derivative of the forward variable has changed");
                return true;
            }
            case 6:
            {
                AF f(1.5f);
                float d = 1.5f;
                return readPair(p, f, d, [](AF& q) { return xad::value(q); });
            }
            case 7:
            {
                FFD f(val[i]);
                derivative(value(f)) = 0.25;
                double d = val[i];
                readPair(p, f, d, [](FFD& q) { return xad::value(xad::value(q)); });
                if (derivative(value(f)) != 0.25)
                    ctx.fail("stream-input", "derivative of the forward variable has changed");
                return true;
            }
            case 8:
            {
                AD t(0.75);   // not registered
                double d = 0.75;
                readPair(p, t, d, [](AD& q) { return xad::value(q); });
                if (t.shouldRecord())
                    ctx.fail("stream-input", "variable got registered");
                return true;
            }
            case 9:
            {
                AFD t(0.75);
                double d = 0.75;
                return readPair(p, t, d, [](AFD& q) { return xad::value(xad::value(q)); });
            }
            default:
            {
                auto slot = v[i]->getSlot();
                bool ok = readPair(p, *v[i], val[i], [](AD& q) { return xad::value(q); });
                if (v[i]->getSlot() != slot)
                    ctx.fail("stream-input", "slot of the variable has changed");
                if (!(std::fabs(val[i]) < 1e3))
                {
                    // keep derivatives in range
                    xad::value(*v[i]) = 0.5;
                    val[i] = 0.5;
                }
                return ok;
            }
        }
    }

    template <class C>
    std::unique_ptr<Pair<C>> open(bool out, const int64_t* a)
    {
        Rng r{uint64_t(a[1])};
        std::unique_ptr<Pair<C>> p(new Pair<C>());
        long limit = r.chance(50) ? -1 : long(r.below(r.chance(50) ? 12 : 60));
        int kind = int(r.below(3)), chunk = r.chance(40) ? 0 : 1 + int(r.below(12));
        bool failSync = r.chance(10);
        std::string data;
        if (!out)
        {
            static const char* tok[] = {"1.5", "-0.25", "3", "+7.125", "1e3", "1e999", "-1e999", "nan", "inf", "abc", "0x1p3", ".5", "5.", "1e", "-", "1,5", "1'234,5", "1e-999",
                                        "2.5x", "1.0e+2", "--1", "00012", "1234567890123456789012345", "0.1"};
            static const char* sep[] = {" ", "\n", "  ", "\t", ",", ""};
            for (int k = 0, n = 1 + int(r.below(10)); k < n; ++k)
            {
                if (r.chance(60))
                    data += fmt("%.*g", 1 + int(r.below(17)), double(int64_t(r.below(2001)) - 1000) / 128.0);
                else
                    data += tok[r.below(sizeof tok / sizeof *tok)];
                data += sep[r.chance(80) ? r.below(4) : r.below(6)];
            }
        }
        for (int k = 0; k < 2; ++k)
        {
            auto& d = p->d[k];
            d.limit = limit;
            d.kind = kind;
            d.chunk = chunk;
            d.failSync = failSync;
            d.data.assign(data.begin(), data.end());
            if (out)
            {
                d.openOut();
                p->o[k].reset(new std::basic_ostream<C>(&d));
            }
            else
                p->i[k].reset(new std::basic_istream<C>(&d));
        }
        text += fmt("%s buffer %d, fault at %ld kind %d", sizeof(C) == 1 ? "char" : "wchar_t", chunk, limit, kind);
        if (!out)
            text += " '" + data + "'";
        return p;
    }
    template <class C>
    bool opFormat(Pair<C>& p, const int64_t* a)
    {
        Rng r{uint64_t(a[1])};
        int k = int(r.below(9));
        uint64_t x = r.next();
        for (int i = 0; i < 2; ++i)
        {
            auto& s = *p.ios(i);
            switch (k)
            {
                case 0: s.width(long(x % 24)); break;
                case 1: s.precision(long(x % 20)); break;
                case 2: s.setf(x % 4 == 0 ? std::ios_base::fixed : x % 4 == 1 ? std::ios_base::scientific : x % 4 == 2 ? std::ios_base::fixed | std::ios_base::scientific : std::ios_base::fmtflags(0), std::ios_base::floatfield); break;
                case 3: s.setf(x % 3 == 0 ? std::ios_base::left : x % 3 == 1 ? std::ios_base::right : std::ios_base::internal, std::ios_base::adjustfield); break;
                case 4: s.flags(s.flags() ^ (x % 2 ? std::ios_base::showpos : std::ios_base::uppercase)); break;
                case 5: s.flags(s.flags() ^ (x % 2 ? std::ios_base::showpoint : std::ios_base::skipws)); break;
                case 6: s.fill(C("*0 _"[x % 4])); break;
                case 7: s.imbue(x % 2 ? std::locale(std::locale::classic(), new Punct<C>()) : std::locale::classic()); break;
                default:
                    // (the standard library terminates if flushing fails here and that is to throw)
                    if (!p.d[i].failSync)
                        s.flags(s.flags() ^ std::ios_base::unitbuf);
                    break;
            }
        }
        text += fmt("%d %d", k, int(x % 24));
        return true;
    }
    template <class C>
    bool opState(Pair<C>& p, const int64_t* a)
    {
        Rng r{uint64_t(a[1])};
        int k = int(r.below(5));
        auto st = std::ios_base::iostate(r.below(8));
        std::string res[2];
        for (int i = 0; i < 2; ++i)
            res[i] = outcome([&] {
                auto& s = *p.ios(i);
                switch (k)
                {
                    case 0: s.clear(); break;
                    case 1: s.exceptions(st); break;
                    case 2: s.setstate(st & std::ios_base::eofbit); break;
                    case 3:
                        if (p.o[i])
                            p.o[i]->flush();
                        break;
                    default: p.d[i].limit = -1; s.clear(); break;   // the device recovers
                }
            });
        text += fmt("%d %d", k, int(st));
        return sameStreams(p, res[0], res[1]);
    }

    // ------------------------------------------------------------------ the tape
    bool opRecord(const int64_t* a)
    {
        int i = int(uint64_t(a[1]) % NV), x = int(uint64_t(a[2]) % NV), y = int(uint64_t(a[3]) % NV);
        if (ev.size() > 60 || x == y)
            return false;
        double c = double(uint64_t(a[4]) % 7) / 4.0 - 0.75;
        double nv = val[x] * c + std::sin(val[y]);
        if (!(std::fabs(nv) < 100))
            return false;
        Ev e{i, x, y, c, std::cos(val[y])};
        bool rec = reg[x] || reg[y] || reg[i];
        must("recording", [&] { *v[i] = *v[x] * c + sin(*v[y]); });
        text += fmt("v%d = v%d * %g + sin(v%d)", i, x, c, y);
        val[i] = value(*v[i]);
        if (!same(nv, val[i]))
            ctx.fail("wrong-value", fmt("%.17g instead of %.17g", val[i], nv));
        if (rec)
        {
            if (!reg[x])
                e.ca = 0;
            if (!reg[y])
                e.cb = 0;
            reg[i] = true;
            ev.push_back(e);
        }
        return true;
    }
    bool opSweep(const int64_t* a)
    {
        int i = int(uint64_t(a[1]) % NV);
        if (!reg[i])
            return false;
        text += fmt("derivative(v%d) = 1", i);
        must("sweep", [&] {
            tape->clearDerivatives();
            derivative(*v[i]) = 1.0;
            tape->computeAdjoints();
        });
        for (double& d : adj) d = 0;
        adj[i] = 1;
        for (size_t k = ev.size(); k > 0; --k)
        {
            const Ev& e = ev[k - 1];
            double d = adj[e.lhs];
            adj[e.lhs] = 0;
            adj[e.a] += d * e.ca;
            adj[e.b] += d * e.cb;
        }
        seeded = true;
        checkAdj();
        return true;
    }
    void checkAdj()
    {
        if (!seeded || ctx.failed)
            return;
        for (int i = 0; i < NV; ++i)
            if (reg[i])
            {
                double d = 0;
                must("reading a derivative", [&] { d = derivative(*v[i]); });
                ctx.count("adjoints_checked");
                ctx.observe(d);
                if (!(std::fabs(d - adj[i]) <= 1e-8 * (1 + std::fabs(adj[i]))))
                    return ctx.fail("wrong-adjoint", fmt("v%d: %.12g instead of %.12g", i, d, adj[i]));
            }
    }
    bool exec(const Op& op)
    {
        text.clear();
        const int64_t* a = op.a;
        bool wide = a[0] % 3 == 0;
        unsigned nv = tape->getNumVariables();
        auto ns = tape->getNumStatements(), no = tape->getNumOperations();
        auto pos = tape->getPosition();
        bool ok = false, io = false;
        switch (op.code)
        {
            case OPEN_OUT:
            case OPEN_IN:
                if (wide)
                    pw = open<wchar_t>(op.code == OPEN_OUT, a);
                else
                    pc = open<char>(op.code == OPEN_OUT, a);
                ok = true;
                break;
            case FORMAT: ok = wide ? pw && opFormat(*pw, a) : pc && opFormat(*pc, a); break;
            case STATE: ok = wide ? pw && (opState(*pw, a), true) : pc && (opState(*pc, a), true); break;
            case WRITE:
                io = true;
                ok = wide ? pw && (pw->o[0] != nullptr) : pc && (pc->o[0] != nullptr);
                if (ok)
                    wide ? opWrite(*pw, a) : opWrite(*pc, a);
                break;
            case READ:
                io = true;
                ok = wide ? pw && (pw->i[0] != nullptr) : pc && (pc->i[0] != nullptr);
                if (ok)
                    wide ? opRead(*pw, a) : opRead(*pc, a);
                break;
            case RECORD: ok = opRecord(a); break;
            case SWEEP: ok = opSweep(a); break;
            case RESTART:
                must("restart", [&] { tape->newRecording(); });
                ev.clear();
                seeded = false;
                ok = true;
                break;
            case VARS:
            {
                int i = int(uint64_t(a[1]) % NV);
                if (reg[i])
                {
                    val[i] = double(int64_t(uint64_t(a[2]) % 33) - 16) / 8.0;
                    xad::value(*v[i]) = val[i];
                    text = fmt("v%d value %g", i, val[i]);
                }
                else
                {
                    must("registering", [&] { tape->registerInput(*v[i]); });
                    reg[i] = true;
                    ev.push_back(Ev{i, i, i, 0, 0});   // what it was before doesn't depend on it
                    text = fmt("register v%d", i);
                    if (seeded)
                    {
                        must("clearing", [&] { tape->clearDerivatives(); });
                        seeded = false;
                    }
                }
                ok = true;
                break;
            }
            default: return false;
        }
        if (ok && io && !ctx.failed)
        {
            // copies of registered variables are recorded, nothing else
            bool copies = op.code == WRITE && (uint64_t(a[3]) % 19 == 14 || uint64_t(a[3]) % 19 == 17);
            if (tape->getNumVariables() != nv)
                ctx.fail("stream-recorded", "number of variables has changed");
            if (!copies && (tape->getNumStatements() != ns || tape->getNumOperations() != no))
                ctx.fail("stream-recorded", "I/O was recorded on the tape");
            if (copies)
                must("resetTo", [&] { tape->resetTo(pos); });
            checkAdj();
            for (int i = 0; i < NV; ++i)
                if (!same(value(*v[i]), val[i]))
                    ctx.fail("stream-value", fmt("value of v%d has changed", i));
        }
        return ok;
    }
    void finish()
    {
        if (ctx.failed)
            return;
        for (int64_t i = 0; i < NV && !ctx.failed; ++i)
        {
            int64_t a[6] = {0, i, 0, 0, 0, 0};
            opSweep(a);
        }
        long f = 0;
        if (pc)
            f += pc->d[0].faults;
        if (pw)
            f += pw->d[0].faults;
        if (f)
            ctx.count("fault_stream", f);
    }
};

RunResult runStream(const RunRequest& rq)
{
    RunResult res;
    Ctx ctx;
    Rng rng(rq.seed);
    ctx.fill = (unsigned char)(0x11 * rng.below(16));
    if (rq.fill >= 0)
        ctx.fill = (unsigned char)rq.fill;
    Ctx* saved = tlsCtx;
    tlsCtx = &ctx;
    {
        World w(ctx);
        long faults = 0;
        auto noteFaults = [&](const Op& op) {
            if (op.code == OPEN_IN || op.code == OPEN_OUT)
                return;
            long f = (w.pc ? w.pc->d[0].faults : 0) + (w.pw ? w.pw->d[0].faults : 0);
            if (f > faults)
                ctx.count("fault_device", f - faults);
        };
        auto note = [&](const Op& op) {
            noteFaults(op);
            faults = (w.pc ? w.pc->d[0].faults : 0) + (w.pw ? w.pw->d[0].faults : 0);
            res.ops.push_back(op);
            ctx.log = hashMix(ctx.log, uint64_t(op.code));
            for (char ch : w.text) ctx.log = hashMix(ctx.log, uint64_t((unsigned char)ch));
            for (auto x : op.a) ctx.log = hashMix(ctx.log, uint64_t(x));
            ctx.log = hashMix(ctx.log, ctx.obs);
            ctx.stats[std::string("op_") + sname(op.code)]++;
            if (rq.keepText)
                res.opText.push_back(fmt("%s ", sname(op.code)) + w.text);
        };
        if (rq.replay)
        {
            for (auto& op : rq.ops)
            {
                if (ctx.failed)
                    break;
                ++ctx.step;
                if (w.exec(op))
                    note(op);
                else
                    --ctx.step;
            }
        }
        else
        {
            int n = 20 + int(rng.below(80));
            static const int weights[] = {3, 3, 8, 4, 30, 30, 10, 4, 1, 4};
            for (int i = 0; i < n * 5 && ctx.step < n && !ctx.failed; ++i)
            {
                Op op;
                int x = int(rng.below(97));
                op.code = OPEN_OUT;
                for (int k = 0; k < 10; ++k)
                {
                    if (x < weights[k])
                    {
                        op.code = OPEN_OUT + k;
                        break;
                    }
                    x -= weights[k];
                }
                for (auto& a : op.a) a = int64_t(rng.below(1u << 30));
                ++ctx.step;
                progress(res.ops.size(), op);
                if (!w.exec(op))
                {
                    --ctx.step;
                    continue;
                }
                note(op);
            }
        }
        ctx.stats["steps"] += ctx.step;
        progress(res.ops.size(), Op());
        w.finish();
        ctx.stats.erase("fault_stream");
    }
    if (!ctx.failed && ctx.live != 0)
        ctx.fail("leak", fmt("%ld allocations (%ld bytes) of the library never released", ctx.live, ctx.liveBytes));
    tlsCtx = saved;
    dropTracking(&ctx);
    res.failed = ctx.failed;
    res.cls = ctx.cls;
    res.msg = ctx.msg;
    res.failStep = ctx.failStep;
    res.obs = ctx.obs;
    res.log = ctx.log;
    ctx.stats["allocations"] += ctx.allocs;
    res.stats = ctx.stats;
    res.states = ctx.states;
    return res;
}
RegisterWorkload r("stream", "mixed", runStream);
}  // namespace
}  // namespace sim
