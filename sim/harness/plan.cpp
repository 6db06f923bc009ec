#include "h.h"

#include <cstdio>
#include <sstream>

namespace h
{
std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c > 0x20 && c < 0x7f && c != '%' && c != '=')
            o.push_back((char)c);
        else
            o += strf("%%%02x", c);
    }
    return o.empty() ? "%" : o;
}
std::string unesc(const std::string& s)
{
    std::string o;
    if (s == "%")
        return o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1)
        {
            o.push_back((char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
            i += 2;
        }
        else
            o.push_back(s[i]);
    }
    return o;
}
std::string show(const std::string& s, size_t max)
{
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; ++i)
    {
        unsigned char c = s[i];
        if (c >= 0x20 && c < 0x7f)
            o.push_back((char)c);
        else
            o += strf("\\x%02x", c);
    }
    if (s.size() > max)
        o += strf("...(%zu)", s.size());
    return o;
}
std::string parent_of(const std::string& p)
{
    auto i = p.rfind('/');
    if (i == 0 || i == std::string::npos)
        return "/";
    return p.substr(0, i);
}
std::string base_of(const std::string& p) { return p.substr(p.rfind('/') + 1); }

std::string gen_data(uint64_t ds, size_t len)
{
    std::string o(len, '\0');
    switch (ds & 7)
    {
    case 0:
        break;    // zeros
    case 1:
    {
        char m[64];
        snprintf(m, sizeof m, "MARKER-%016llx-PLAINTEXT-TEXT.", (unsigned long long)ds);
        size_t n = strlen(m);
        for (size_t i = 0; i < len; ++i)
            o[i] = m[i % n];
        break;
    }
    default:
    {
        Rng r(ds);
        size_t i = 0;
        for (; i + 8 <= len; i += 8)
        {
            uint64_t x = r.next();
            memcpy(&o[i], &x, 8);
        }
        uint64_t x = r.next();
        if (i < len)
            memcpy(&o[i], &x, len - i);
        break;
    }
    }
    return o;
}

std::string Op::str() const
{
    std::string r = strf("op %d t%d %s", id, thr, k.c_str());
    if (!p.empty())
        r += " p=" + esc(p);
    if (!q.empty())
        r += " q=" + esc(q);
    if (!s.empty())
        r += " s=" + esc(s);
    if (h >= 0)
        r += strf(" h=%d", h);
    if (off)
        r += strf(" off=%lld", (long long)off);
    if (len)
        r += strf(" len=%lld", (long long)len);
    if (flags)
        r += strf(" flags=0x%x", flags);
    if (mode)
        r += strf(" mode=0%o", mode);
    if (ds)
        r += strf(" ds=%llu", (unsigned long long)ds);
    if (a)
        r += strf(" a=%lld", (long long)a);
    if (b)
        r += strf(" b=%lld", (long long)b);
    return r;
}

std::string Plan::text() const
{
    std::string r = "securefs-sim-plan 1\n";
    r += "prop " + prop + "\n";
    r += strf("seed %llu\n", (unsigned long long)seed);
    for (auto& [k, v] : c)
        r += "cfg " + k + "=" + esc(v) + "\n";
    for (auto& o : ops)
        r += o.str() + "\n";
    for (auto& f : faults)
        r += strf("fault op=%d cls=%s nth=%d count=%d err=%d short=%lld\n",
                  f.op,
                  sim::kClsName[f.cls],
                  f.nth,
                  f.count,
                  f.err,
                  (long long)f.shortlen);
    for (auto& x : crashes)
        r += strf("crash op=%d nth=%d kind=%s torn=%lld seed=%llu\n",
                  x.op,
                  x.nth,
                  x.power ? "power" : "process",
                  (long long)x.torn,
                  (unsigned long long)x.seed);
    for (auto& d : devs)
        r += strf("sched op=%d step=%u to=%d\n", d.op, d.step, d.to);
    return r;
}

Plan Plan::parse(const std::string& text)
{
    Plan p;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#')
            continue;
        std::istringstream ls(line);
        std::string w;
        ls >> w;
        auto kv = [&](std::string& k, std::string& v) -> bool
        {
            std::string t;
            if (!(ls >> t))
                return false;
            auto e = t.find('=');
            if (e == std::string::npos)
            {
                k = t;
                v.clear();
                return true;
            }
            k = t.substr(0, e);
            v = t.substr(e + 1);
            return true;
        };
        std::string k, v;
        if (w == "prop")
            ls >> p.prop;
        else if (w == "seed")
            ls >> p.seed;
        else if (w == "cfg")
        {
            while (kv(k, v))
                p.c[k] = unesc(v);
        }
        else if (w == "op")
        {
            Op o;
            std::string t;
            ls >> o.id >> t >> o.k;
            o.thr = atoi(t.c_str() + 1);
            while (kv(k, v))
            {
                if (k == "p")
                    o.p = unesc(v);
                else if (k == "q")
                    o.q = unesc(v);
                else if (k == "s")
                    o.s = unesc(v);
                else if (k == "h")
                    o.h = atoi(v.c_str());
                else if (k == "off")
                    o.off = strtoll(v.c_str(), nullptr, 0);
                else if (k == "len")
                    o.len = strtoll(v.c_str(), nullptr, 0);
                else if (k == "flags")
                    o.flags = strtoul(v.c_str(), nullptr, 0);
                else if (k == "mode")
                    o.mode = strtoul(v.c_str(), nullptr, 0);
                else if (k == "ds")
                    o.ds = strtoull(v.c_str(), nullptr, 0);
                else if (k == "a")
                    o.a = strtoll(v.c_str(), nullptr, 0);
                else if (k == "b")
                    o.b = strtoll(v.c_str(), nullptr, 0);
            }
            p.ops.push_back(o);
        }
        else if (w == "fault")
        {
            sim::Fault f;
            while (kv(k, v))
            {
                if (k == "op")
                    f.op = atoi(v.c_str());
                else if (k == "cls")
                    f.cls = sim::cls_from_name(v);
                else if (k == "nth")
                    f.nth = atoi(v.c_str());
                else if (k == "count")
                    f.count = atoi(v.c_str());
                else if (k == "err")
                    f.err = atoi(v.c_str());
                else if (k == "short")
                    f.shortlen = strtoll(v.c_str(), nullptr, 0);
            }
            p.faults.push_back(f);
        }
        else if (w == "crash")
        {
            sim::CrashSpec x;
            while (kv(k, v))
            {
                if (k == "op")
                    x.op = atoi(v.c_str());
                else if (k == "nth")
                    x.nth = atoi(v.c_str());
                else if (k == "kind")
                    x.power = v == "power";
                else if (k == "torn")
                    x.torn = strtoll(v.c_str(), nullptr, 0);
                else if (k == "seed")
                    x.seed = strtoull(v.c_str(), nullptr, 0);
            }
            p.crashes.push_back(x);
        }
        else if (w == "sched")
        {
            sim::SchedDev d{};
            while (kv(k, v))
            {
                if (k == "op")
                    d.op = atoi(v.c_str());
                else if (k == "step")
                    d.step = (uint32_t)strtoul(v.c_str(), nullptr, 0);
                else if (k == "to")
                    d.to = atoi(v.c_str());
            }
            p.devs.push_back(d);
        }
    }
    return p;
}

// ---------------------------------------------------------------- Blob
std::string Blob::read(uint64_t off, uint64_t len) const
{
    std::string o;
    if (off >= size)
        return o;
    len = std::min(len, size - off);
    o.assign(len, '\0');
    uint64_t done = 0;
    while (done < len)
    {
        uint64_t pg = (off + done) / P, in = (off + done) % P, n = std::min(P - in, len - done);
        auto it = pages.find(pg);
        if (it != pages.end())
            memcpy(&o[done], &it->second[in], n);
        done += n;
    }
    return o;
}
void Blob::write(uint64_t off, const std::string& d)
{
    if (d.empty())
        return;
    uint64_t done = 0;
    while (done < d.size())
    {
        uint64_t pg = (off + done) / P, in = (off + done) % P,
                 n = std::min<uint64_t>(P - in, d.size() - done);
        auto& s = pages[pg];
        if (s.empty())
            s.assign(P, '\0');
        memcpy(&s[in], &d[done], n);
        done += n;
    }
    size = std::max<uint64_t>(size, off + d.size());
}
void Blob::truncate(uint64_t n)
{
    if (n < size)
    {
        pages.erase(pages.lower_bound((n + P - 1) / P), pages.end());
        if (n % P)
        {
            auto it = pages.find(n / P);
            if (it != pages.end())
                memset(&it->second[n % P], 0, P - n % P);
        }
    }
    size = n;
}
bool Blob::operator==(const Blob& o) const
{
    if (size != o.size)
        return false;
    std::set<uint64_t> ks;
    for (auto& p : pages)
        ks.insert(p.first);
    for (auto& p : o.pages)
        ks.insert(p.first);
    for (auto k : ks)
        if (read(k * P, P) != o.read(k * P, P))
            return false;
    return true;
}
}    // namespace h
