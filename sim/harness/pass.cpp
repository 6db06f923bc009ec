// P01: passwords from options, pipes and terminals. Standard input is a stream of the simulation: a pipe
// that delivers in pieces, or a terminal with a user who types one line whenever one is read.
#include "gen.h"
#include "log.h"

#include "commands.h"
#include "params_io.h"
#include "platform.h"

#include <cerrno>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <set>
#include <termios.h>
#include <unistd.h>

namespace h
{
using sim::strf;
using std::string;
namespace
{
const size_t kMax = 4000;    // documented by the error message
struct Term
{
    bool in_tty = false, err_tty = false;
    std::vector<string> lines;    // tty: as typed; pipe: one piece
    size_t next = 0, chunk = 0;
    string pending;
    termios cur{};
    int hidden = 0;
} T;
ssize_t on_stdin(void* b, size_t n)
{
    if (T.in_tty && (T.cur.c_lflag & ECHO))
        sim::violation("echo", "a password is read while the terminal shows what is typed");
    if (T.in_tty && !(T.cur.c_lflag & ICANON))
        sim::harness_error("the terminal is not read by lines");
    if (T.in_tty)
        ++T.hidden;
    if (T.pending.empty() && T.next < T.lines.size())
        T.pending = T.lines[T.next++];
    size_t k = std::min(n, T.pending.size());
    if (T.chunk)
        k = std::min(k, T.chunk);
    memcpy(b, T.pending.data(), k);
    T.pending.erase(0, k);
    return (ssize_t)k;
}
ssize_t ck_read(void*, char* b, size_t n) { return ::read(0, b, n); }
struct Secret
{
    string pass, key;    // key: path, or empty
    bool operator==(const Secret& o) const { return pass == o.pass && key == o.key; }
};
struct Passwords
{
    Plan& plan;
    VolCfg v;
    string config = "";
    std::vector<Secret> creds;
    bool there = false;
    Secret cur;
    securefs::DecryptedSecurefsParams params;

    explicit Passwords(Plan& p) : plan(p), v(VolCfg::from(p))
    {
        Rng r(sim::mix64(p.seed, 815));
        ::mkdir("/simroot/keys", 0700);
        config = g_data_dir + "/.config.pb";
        for (int i = 0; i < 5; ++i)
        {
            Secret c;
            if (r.chance(3, 4))
            {
                static const std::vector<size_t> lens = {0, 1, 8, 30, 200, kMax - 1, kMax, kMax + 1, kMax + 90, 9000};
                size_t n = r.chance(1, 2) ? lens[1 + r.below(4)] : r.pick(lens);
                bool tty = p.ci("tty");
                n = std::min<size_t>(n, tty ? 4094 : n);
                for (size_t k = 0; k < n; ++k)
                {
                    unsigned char ch;
                    do
                        ch = r.chance(1, 10) ? (unsigned char)r.oneof({0, 9, 127, 128, 254, 255, 32, 34, 39, 92}) : (unsigned char)r.below(256);
                    while (ch == '\n' || ch == '\r' || (tty && (ch < 32 || ch == 127)));
                    c.pass.push_back((char)ch);
                }
            }
            else
                c.pass = "-";
            if (r.chance(1, 4) || c.pass == "-")
            {
                c.key = strf("/simroot/keys/k%d", i);
                int fd = ::open(c.key.c_str(), O_WRONLY | O_CREAT, 0600);
                string data = gen_data(r.next() | 1, 32);
                if (fd < 0 || ::write(fd, data.data(), data.size()) != (ssize_t)data.size())
                    sim::harness_error("cannot write a key file");
                ::close(fd);
            }
            creds.push_back(c);
        }
    }
    [[noreturn]] void fail(const Op& op, const string& tag, const string& msg)
    {
        sim::violation(tag, strf("op %d (%s): ", op.id, op.k.c_str()) + msg);
    }
    static string slurp(const string& path, bool* there)
    {
        auto* i = sim::disk->get(sim::disk->resolve(path));
        *there = i != nullptr;
        return i ? i->read(0, i->size) : "";
    }
    bool opens(const Secret& c, securefs::DecryptedSecurefsParams* out)
    {
        bool t;
        string content = slurp(config, &t);
        if (!t)
            return false;
        try
        {
            auto ks = c.key.empty() ? nullptr : securefs::OSService::get_default().open_file_stream(c.key, O_RDONLY, 0);
            *out = securefs::decrypt(content, {(const unsigned char*)c.pass.data(), c.pass.size()}, ks.get());
            return true;
        }
        catch (const std::exception&)
        {
            return false;
        }
    }
    // What the command asks for, and what it gets.
    struct Input
    {
        bool ok = true;        // whether the command accepts what it reads
        bool ended = false;    // the input ends early
        bool prompted = false;
    };
    struct Lines
    {
        Rng r;
        bool tty;
        std::vector<string> l;    // with their ends
        explicit Lines(uint64_t s, bool t) : r(s), tty(t) {}
    };
    // One prompt: adds the line typed and returns the password that is to be used.
    string prompt(Lines& in, Input& res, const string& want, const std::vector<string>& others, bool confirm)
    {
        res.prompted = true;
        if (in.r.chance(1, 12) || res.ended)
        {
            // nothing more comes
            res.ended = true;
            return "";
        }
        auto typed = [&](const string& w)
        {
            string s = w;
            if (!in.r.chance(1, 8))
                return s;
            switch (in.r.below(5))
            {
            case 0:
                s = in.r.pick(others);
                break;
            case 1:
                s += "x";
                break;
            case 2:
                if (!s.empty())
                    s.pop_back();
                break;
            case 3:
                s = s.substr(0, kMax);
                break;
            default:
                if (!s.empty())
                    s[in.r.below(s.size())] ^= 0x40;
                for (auto& c : s)
                    if (c == '\n' || c == '\r' || (in.tty && ((unsigned char)c < 32 || c == 127)))
                        c = 'y';
            }
            if (in.tty && s.size() > 4094)
                s.resize(4094);
            return s;
        };
        string w = typed(want);
        in.l.push_back(w + "\n");
        if (!in.tty && in.r.chance(1, 10))
            in.l.back().back() = '\r';
        if (w.size() > kMax)
        {
            res.ok = false;
            return w;
        }
        if (confirm && T.in_tty && T.err_tty)
        {
            string again = typed(w);
            in.l.push_back(again + "\n");
            if (again != w)
                res.ok = false;
        }
        return w;
    }
    // Adds what makes the command use c; returns what it is going to use.
    Secret give(const Op& op, Lines& in, Input& res, std::vector<string>& a, const Secret& c, const char* pass,
                const char* key, const char* ask, bool confirm)
    {
        Secret got;
        got.key = c.key;
        if (!c.key.empty())
            a.insert(a.end(), {key, c.key});
        std::vector<string> others;
        for (auto& x : creds)
            others.push_back(x.pass);
        bool none = c.pass == "-" && !c.key.empty();
        if (none)
        {
            got.pass = " ";
            return got;
        }
        if (!c.pass.empty() && c.pass[0] != '-' && c.pass.find('\0') == string::npos && in.r.chance(1, 4))
        {
            a.insert(a.end(), {pass, c.pass});
            got.pass = c.pass;
            if (in.r.chance(1, 2) && !c.key.empty())
                a.push_back(ask);
            return got;
        }
        if (!c.key.empty())
            a.push_back(ask);
        if (!res.ok)
            return got;
        got.pass = prompt(in, res, c.pass, others, confirm);
        return got;
    }
    void exec(const Op& op)
    {
        ++sim::R->ops;
        Rng r(sim::mix64(op.ds, 99));
        T = Term{};
        T.in_tty = plan.ci("tty") != 0;
        T.err_tty = plan.ci("errtty") != 0;
        T.cur.c_lflag = ICANON | ISIG | IEXTEN | ECHOE | ECHOK | (r.chance(7, 8) ? ECHO : 0);
        T.cur.c_iflag = ICRNL | IXON;
        T.cur.c_oflag = OPOST | ONLCR;
        T.cur.c_cflag = CS8 | CREAD | B38400;
        for (auto& c : T.cur.c_cc)
            c = (cc_t)r.below(256);
        T.chunk = T.in_tty ? 0 : r.oneof<size_t>({0, 0, 1, 7, 100});
        termios old = T.cur;
        Lines in(sim::mix64(op.ds, 5), T.in_tty);
        Input res;
        std::vector<string> a = {"securefs", op.k};
        Secret first, second;
        if (op.k == "chpass")
        {
            first = give(op, in, res, a, creds[op.a], "--oldpass", "--oldkeyfile", "--askoldpass", false);
            second = give(op, in, res, a, creds[op.b], "--newpass", "--newkeyfile", "--asknewpass", true);
        }
        else
            first = give(op, in, res, a, creds[op.a], "--pass", "--keyfile", "--askpass", op.k == "create");
        if (op.k == "create")
            a.insert(a.end(), {"--format", v.full ? "full" : "lite"});
        if (op.k != "info")
            a.insert(a.end(), {"--argon2-t", "1", "--argon2-m", "8", "--argon2-p", "1"});
        a.push_back(g_data_dir);
        if (T.in_tty)
            T.lines = in.l;
        else
        {
            string all;
            for (auto& s : in.l)
                all += s;
            if (!all.empty() && r.chance(1, 3))
                all.pop_back();    // the last line is not complete
            else if (!res.ended && r.chance(1, 4))
                all += "left over";
            T.lines.push_back(all);
        }
        bool was;
        string before = slurp(config, &was);
        if (g_secrets)
            for (auto& s : in.l)
                if (s.size() > 8 && s.size() < 300)
                    g_secret_words.insert(s.substr(0, s.size() - 1));
        cookie_io_functions_t io{ck_read, nullptr, nullptr, nullptr};
        stdin = fopencookie(nullptr, "r", io);
        std::vector<const char*> argv;
        for (auto& s : a)
            argv.push_back(s.c_str());
        argv.push_back(nullptr);
        uint64_t f0 = sim::faults_total();
        sim::begin_op(op.id);
        int rc = securefs::commands_main((int)a.size(), argv.data());
        sim::end_op();
        bool faulted = sim::faults_total() != f0;
        fclose(stdin);
        sim::trace("%s rc=%d faulted=%d hidden=%d", op.k.c_str(), rc, faulted, T.hidden);
        if (T.cur.c_lflag != old.c_lflag || T.cur.c_iflag != old.c_iflag || T.cur.c_oflag != old.c_oflag
            || T.cur.c_cflag != old.c_cflag || memcmp(T.cur.c_cc, old.c_cc, sizeof old.c_cc))
            fail(op, "terminal", strf("the command returns %d and leaves the terminal %s", rc,
                                      (T.cur.c_lflag & ECHO) ? "in another mode" : "not showing what is typed"));
        bool is;
        string after = slurp(config, &is);
        bool right = op.k == "create" ? !there : there && first == cur;
        bool may = right && res.ok, must = may && !faulted && !res.ended;
        if (rc != 0)
        {
            if (must)
                fail(op, "refused", strf("the command returns %d though the passwords are right", rc));
            if (is != was || after != before)
                fail(op, "changed", strf("the command returns %d and changes the configuration", rc));
            if (faulted)
                sim::probe("reading a password failed");
            else if (!res.ok)
                sim::probe(T.in_tty ? "password refused at a terminal" : "password refused");
            return;
        }
        if (!may)
            fail(op, "accepted", !res.ok ? "the command succeeds though the password is too long, or repeated differently"
                     : op.k == "create"  ? "a repository is created over another one"
                                         : "the command succeeds with other credentials");
        if (T.hidden)
            sim::probe("password typed at a terminal");
        if (op.k == "info")
            return;
        securefs::DecryptedSecurefsParams p;
        Secret now = op.k == "create" ? first : second;
        sim::begin_op(-5);
        if (!opens(now, &p))
        {
            string by;
            for (size_t n = 0; n < now.pass.size() && by.empty(); n = n < 60 || n + 60 > now.pass.size() ? n + 1 : now.pass.size() - 60)
                if (opens({now.pass.substr(0, n), now.key}, &p))
                    by = strf(", but its first %d of %d bytes do", (int)n, (int)now.pass.size());
            fail(op, "other-password",
                 strf("the command succeeds%s and the password does not open the repository",
                      faulted ? " in spite of an I/O error" : "")
                     + by);
        }
        if (op.k == "chpass" && p.SerializeAsString() != params.SerializeAsString())
            fail(op, "params", "another password has another repository");
        std::vector<Secret> bad = {{now.pass + "\n", now.key}, {now.pass + "x", now.key}, {"", now.key}, {" ", now.key}};
        if (!now.pass.empty())
            bad.push_back({now.pass.substr(0, now.pass.size() - 1), now.key});
        if (op.k == "chpass")
            bad.push_back(cur);
        for (auto& b : bad)
            if (!(b == now) && opens(b, &p))
                fail(op, "other-password", "another password opens the repository");
        sim::end_op();
        cur = now;
        params = p;
        if (!there || op.k == "chpass")
            opens(now, &params);
        there = true;
    }
};
void run_p01(Plan& p)
{
    sim::g_on_stdin = on_stdin;
    sim::g_on_isatty = [](int fd) { return fd == 0 ? (int)T.in_tty : fd == 2 ? (int)T.err_tty : 0; };
    ::mkdir(g_data_dir.c_str(), 0755);
    Passwords w(p);
    for (auto& op : p.ops)
        w.exec(op);
}
Plan gen_p01(uint64_t seed, bool thorough)
{
    Gen g("P01", seed);
    g.config(-1);
    g.p.set("plain", (int64_t)0);
    g.p.set("tty", g.r.chance(1, 2));
    g.p.set("errtty", g.r.chance(3, 4));
    int cred = (int)g.r.below(5);
    int n = (int)g.r.range(2, thorough ? 14 : 7);
    for (int i = 0; i < n; ++i)
    {
        auto& o = g.p.add(i == 0 || g.r.chance(1, 12) ? "create" : g.r.chance(3, 4) ? "chpass" : "info");
        o.a = g.r.chance(1, 8) ? (int)g.r.below(5) : cred;
        o.b = (int)g.r.below(5);
        o.ds = g.r.next() >> 8;
        if (o.k == "chpass")
            cred = (int)(g.r.chance(4, 5) ? o.b : o.a);
        if (g.r.chance(1, 6))
        {
            sim::Fault f;
            f.op = o.id;
            f.cls = sim::C_READ;
            f.nth = (int)g.r.range(1, g.r.chance(1, 3) ? 40 : 4);
            f.err = g.r.oneof({EIO, EIO, EINTR, EAGAIN});
            f.count = g.r.oneof({1, 1, 1000});
            g.p.faults.push_back(f);
        }
    }
    return g.p;
}
}    // namespace
extern const std::vector<Prop> kPassProps;
const std::vector<Prop> kPassProps = {{"P01", gen_p01, run_p01, "passwords"}};
}    // namespace h

using h::T;
extern "C"
{
int tcgetattr(int fd, termios* t) noexcept
{
    if (fd != 0 && fd != 2)
    {
        errno = ENOTTY;
        return -1;
    }
    if (fd == 0 ? !T.in_tty : !T.err_tty)
    {
        errno = ENOTTY;
        return -1;
    }
    *t = T.cur;
    return 0;
}
int tcsetattr(int fd, int how, const termios* t) noexcept
{
    termios x;
    if (tcgetattr(fd, &x) != 0)
        return -1;
    T.cur = *t;
    if (how == TCSAFLUSH)
        T.pending.clear();
    return 0;
}
}
