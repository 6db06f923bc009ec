// Implementations of the out-of-line abseil functions securefs uses, built against the
// std::string_view configuration of the headers (apt's library was built with another one).
#include <absl/base/config.h>
#include <absl/strings/ascii.h>
#include <absl/strings/escaping.h>
#include <absl/strings/match.h>
#include <absl/strings/numbers.h>
#include <absl/strings/str_cat.h>
#include <absl/strings/str_format.h>
#include <absl/strings/str_replace.h>
#include <absl/strings/str_split.h>
#include <absl/synchronization/mutex.h>
#include <absl/time/clock.h>
#include <absl/time/time.h>

#include "sim.h"

#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <ctime>

namespace sim
{
void (*g_on_print)(FILE* fp, const std::string& text) = nullptr;
FILE* (*g_on_fopen)(const char* path) = nullptr;
}
namespace absl
{
ABSL_NAMESPACE_BEGIN
namespace sim_format
{
    void put_padded(const Spec& s, std::string_view v, Sink& out)
    {
        if (s.prec >= 0 && v.size() > static_cast<size_t>(s.prec))
            v = v.substr(0, s.prec);
        size_t pad = s.width > 0 && v.size() < static_cast<size_t>(s.width) ? s.width - v.size() : 0;
        if (!s.left)
            out.Append(pad, ' ');
        out.Append(v);
        if (s.left)
            out.Append(pad, ' ');
    }
    void put_int(const Spec& s, long long v, unsigned long long u, bool is_signed, Sink& out)
    {
        char buf[256];
        std::string f = "%" + s.flags;
        if (s.conv == 'c')
        {
            f += 'c';
            snprintf(buf, sizeof buf, f.c_str(), static_cast<int>(v));
        }
        else if (s.conv == 'x' || s.conv == 'X' || s.conv == 'o' || s.conv == 'u')
        {
            f += "ll";
            f += s.conv;
            snprintf(buf, sizeof buf, f.c_str(), u);
        }
        else if (strchr("eEfFgGaA", s.conv) && s.conv)
        {
            put_double(s, is_signed ? static_cast<long double>(v) : static_cast<long double>(u), out);
            return;
        }
        else
        {
            if (is_signed)
                snprintf(buf, sizeof buf, (f + "lld").c_str(), v);
            else
                snprintf(buf, sizeof buf, (f + "llu").c_str(), u);
        }
        out.Append(std::string_view(buf));
    }
    void put_double(const Spec& s, long double v, Sink& out)
    {
        char buf[512];
        std::string f = "%" + s.flags + "L";
        f += (s.conv && strchr("eEfFgGaA", s.conv)) ? s.conv : 'g';
        snprintf(buf, sizeof buf, f.c_str(), v);
        out.Append(std::string_view(buf));
    }
    void put_ptr(const Spec& s, const void* p, Sink& out)
    {
        char buf[64];
        if (p)
            snprintf(buf, sizeof buf, "%p", p);
        else
            snprintf(buf, sizeof buf, "(nil)");
        Spec t = s;
        t.prec = -1;
        put_padded(t, buf, out);
    }
    void format_impl(std::string* out, std::string_view fmt, const Arg* args, size_t n)
    {
        Sink sink(out);
        size_t next = 0;
        for (size_t i = 0; i < fmt.size();)
        {
            if (fmt[i] != '%')
            {
                size_t j = fmt.find('%', i);
                if (j == std::string_view::npos)
                    j = fmt.size();
                sink.Append(fmt.substr(i, j - i));
                i = j;
                continue;
            }
            ++i;
            if (i < fmt.size() && fmt[i] == '%')
            {
                sink.Append(1, '%');
                ++i;
                continue;
            }
            Spec s;
            while (i < fmt.size() && strchr("-+ #0", fmt[i]))
            {
                if (fmt[i] == '-')
                    s.left = true;
                s.flags += fmt[i++];
            }
            auto number = [&](int& dst)
            {
                if (i < fmt.size() && fmt[i] == '*')
                {
                    dst = next < n ? args[next].as_int(args[next].obj) : 0;
                    ++next;
                    ++i;
                    return;
                }
                dst = 0;
                while (i < fmt.size() && fmt[i] >= '0' && fmt[i] <= '9')
                    dst = dst * 10 + (fmt[i++] - '0');
            };
            if (i < fmt.size() && (fmt[i] == '*' || (fmt[i] >= '1' && fmt[i] <= '9')))
            {
                number(s.width);
                if (s.width < 0)
                {
                    s.left = true;
                    s.width = -s.width;
                    s.flags += '-';
                }
                s.flags += std::to_string(s.width);
            }
            if (i < fmt.size() && fmt[i] == '.')
            {
                ++i;
                number(s.prec);
                s.flags += "." + std::to_string(s.prec);
            }
            while (i < fmt.size() && strchr("hljztLq", fmt[i]))
                ++i;
            if (i >= fmt.size())
                break;
            s.conv = fmt[i++];
            if (next < n)
                args[next].fmt(args[next].obj, s, sink);
            ++next;
        }
    }
    int emit(std::FILE* fp, const std::string& s)
    {
        if (sim::g_on_print)
            sim::g_on_print(fp, s);
        return static_cast<int>(std::fwrite(s.data(), 1, s.size(), fp));
    }
}    // namespace sim_format

// ---- str_cat ----
static std::string_view P(const AlphaNum& a) { return std::string_view(a.data(), a.size()); }
std::string StrCat(const AlphaNum& a, const AlphaNum& b)
{
    std::string r;
    r.append(P(a)).append(P(b));
    return r;
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c)
{
    std::string r;
    r.append(P(a)).append(P(b)).append(P(c));
    return r;
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d)
{
    std::string r;
    r.append(P(a)).append(P(b)).append(P(c)).append(P(d));
    return r;
}
namespace strings_internal
{
    std::string CatPieces(std::initializer_list<absl::string_view> pieces)
    {
        std::string r;
        for (auto p : pieces)
            r.append(p.data(), p.size());
        return r;
    }
    void AppendPieces(std::string* dest, std::initializer_list<absl::string_view> pieces)
    {
        for (auto p : pieces)
            dest->append(p.data(), p.size());
    }
}    // namespace strings_internal
void StrAppend(std::string* d, const AlphaNum& a) { d->append(P(a)); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b)
{
    d->append(P(a)).append(P(b));
}
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c)
{
    d->append(P(a)).append(P(b)).append(P(c));
}
void StrAppend(
    std::string* d, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& e)
{
    d->append(P(a)).append(P(b)).append(P(c)).append(P(e));
}
AlphaNum::AlphaNum(Hex hex)
{
    char* end = &digits_[numbers_internal::kFastToBufferSize];
    char* w = end;
    uint64_t v = hex.value;
    do
    {
        *--w = "0123456789abcdef"[v & 15];
        v >>= 4;
    } while (v);
    while (static_cast<size_t>(end - w) < hex.width)
        *--w = hex.fill;
    piece_ = absl::string_view(w, end - w);
}
AlphaNum::AlphaNum(Dec dec)
{
    char* end = &digits_[numbers_internal::kFastToBufferSize];
    char* w = end;
    uint64_t v = dec.value;
    do
    {
        *--w = static_cast<char>('0' + v % 10);
        v /= 10;
    } while (v);
    if (dec.neg)
        *--w = '-';
    while (static_cast<size_t>(end - w) < dec.width)
        *--w = dec.fill;
    piece_ = absl::string_view(w, end - w);
}

// ---- numbers ----
namespace numbers_internal
{
    char* FastIntToBuffer(int32_t i, char* b) { return b + sprintf(b, "%d", i); }
    char* FastIntToBuffer(uint32_t i, char* b) { return b + sprintf(b, "%u", i); }
    char* FastIntToBuffer(int64_t i, char* b) { return b + sprintf(b, "%lld", (long long)i); }
    char* FastIntToBuffer(uint64_t i, char* b)
    {
        return b + sprintf(b, "%llu", (unsigned long long)i);
    }
    size_t SixDigitsToBuffer(double d, char* b) { return snprintf(b, kSixDigitsToBufferSize, "%g", d); }
    template <class T>
    static bool parse_int(absl::string_view text, T* value, int base)
    {
        text = StripAsciiWhitespace(text);
        std::string s(text);
        *value = 0;
        if (s.empty())
            return false;
        char* end = nullptr;
        errno = 0;
        if (std::is_signed<T>::value)
        {
            long long v = strtoll(s.c_str(), &end, base);
            if (end != s.c_str() + s.size() || errno == ERANGE
                || v < static_cast<long long>(std::numeric_limits<T>::min())
                || v > static_cast<long long>(std::numeric_limits<T>::max()))
                return false;
            *value = static_cast<T>(v);
        }
        else
        {
            if (s[0] == '-')
                return false;
            unsigned long long v = strtoull(s.c_str(), &end, base);
            if (end != s.c_str() + s.size() || errno == ERANGE
                || v > static_cast<unsigned long long>(std::numeric_limits<T>::max()))
                return false;
            *value = static_cast<T>(v);
        }
        return true;
    }
    bool safe_strto32_base(absl::string_view t, int32_t* v, int b) { return parse_int(t, v, b); }
    bool safe_strto64_base(absl::string_view t, int64_t* v, int b) { return parse_int(t, v, b); }
    bool safe_strtou32_base(absl::string_view t, uint32_t* v, int b) { return parse_int(t, v, b); }
    bool safe_strtou64_base(absl::string_view t, uint64_t* v, int b) { return parse_int(t, v, b); }
}    // namespace numbers_internal
bool SimpleAtod(absl::string_view str, double* out)
{
    std::string s(StripAsciiWhitespace(str));
    char* end = nullptr;
    *out = strtod(s.c_str(), &end);
    return !s.empty() && end == s.c_str() + s.size();
}
bool SimpleAtob(absl::string_view str, bool* out)
{
    for (const char* t : {"true", "t", "yes", "y", "1"})
        if (EqualsIgnoreCase(str, t))
            return *out = true, true;
    for (const char* t : {"false", "f", "no", "n", "0"})
        if (EqualsIgnoreCase(str, t))
            return *out = false, true;
    return false;
}

// ---- match / split ----
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
bool EqualsIgnoreCase(absl::string_view a, absl::string_view b) noexcept
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (lower(a[i]) != lower(b[i]))
            return false;
    return true;
}
bool StartsWithIgnoreCase(absl::string_view t, absl::string_view p) noexcept
{
    return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p);
}
bool EndsWithIgnoreCase(absl::string_view t, absl::string_view p) noexcept
{
    return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p);
}
absl::string_view ByChar::Find(absl::string_view text, size_t pos) const
{
    size_t f = text.find(c_, pos);
    if (f == absl::string_view::npos)
        return absl::string_view(text.data() + text.size(), 0);
    return text.substr(f, 1);
}
ByString::ByString(absl::string_view sp) : delimiter_(sp.data(), sp.size()) {}
absl::string_view ByString::Find(absl::string_view text, size_t pos) const
{
    if (delimiter_.empty() && text.size() > 0)
        return absl::string_view(text.data() + pos + 1, 0);
    size_t f = text.find(delimiter_, pos);
    if (f == absl::string_view::npos)
        return absl::string_view(text.data() + text.size(), 0);
    return text.substr(f, delimiter_.size());
}
ByAnyChar::ByAnyChar(absl::string_view sp) : delimiters_(sp.data(), sp.size()) {}
absl::string_view ByAnyChar::Find(absl::string_view text, size_t pos) const
{
    size_t f = text.find_first_of(delimiters_, pos);
    if (f == absl::string_view::npos)
        return absl::string_view(text.data() + text.size(), 0);
    return text.substr(f, 1);
}
int StrReplaceAll(std::initializer_list<std::pair<absl::string_view, absl::string_view>> reps,
                  std::string* target)
{
    std::string out;
    int n = 0;
    for (size_t i = 0; i < target->size();)
    {
        const std::pair<absl::string_view, absl::string_view>* best = nullptr;
        for (auto& r : reps)
            if (!r.first.empty() && target->compare(i, r.first.size(), r.first) == 0
                && (!best || r.first.size() > best->first.size()))
                best = &r;
        if (best)
        {
            out.append(best->second);
            i += best->first.size();
            ++n;
        }
        else
            out += (*target)[i++];
    }
    *target = out;
    return n;
}
std::string
StrReplaceAll(absl::string_view s,
              std::initializer_list<std::pair<absl::string_view, absl::string_view>> reps)
{
    std::string r(s);
    StrReplaceAll(reps, &r);
    return r;
}
void AsciiStrToLower(std::string* s)
{
    for (auto& c : *s)
        c = lower(c);
}
void AsciiStrToUpper(std::string* s)
{
    for (auto& c : *s)
        if (c >= 'a' && c <= 'z')
            c -= 32;
}

// ---- escaping ----
static std::string escape(absl::string_view src, bool hex, bool utf8)
{
    std::string r;
    for (unsigned char c : src)
    {
        switch (c)
        {
        case '\n':
            r += "\\n";
            break;
        case '\r':
            r += "\\r";
            break;
        case '\t':
            r += "\\t";
            break;
        case '"':
            r += "\\\"";
            break;
        case '\'':
            r += "\\'";
            break;
        case '\\':
            r += "\\\\";
            break;
        default:
            if ((utf8 && c >= 0x80) || (c >= 0x20 && c < 0x7f))
                r += static_cast<char>(c);
            else
            {
                char b[8];
                snprintf(b, sizeof b, hex ? "\\x%02x" : "\\%03o", c);
                r += b;
            }
        }
    }
    return r;
}
std::string CEscape(absl::string_view s) { return escape(s, false, false); }
std::string CHexEscape(absl::string_view s) { return escape(s, true, false); }
std::string Utf8SafeCEscape(absl::string_view s) { return escape(s, false, true); }
std::string Utf8SafeCHexEscape(absl::string_view s) { return escape(s, true, true); }
static const char kStd[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char kWeb[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static std::string b64(absl::string_view s, const char* t, bool pad)
{
    std::string r;
    uint32_t acc = 0;
    int bits = 0;
    for (unsigned char c : s)
    {
        acc = acc << 8 | c;
        bits += 8;
        while (bits >= 6)
        {
            bits -= 6;
            r += t[(acc >> bits) & 63];
        }
    }
    if (bits)
        r += t[(acc << (6 - bits)) & 63];
    if (pad)
        while (r.size() % 4)
            r += '=';
    return r;
}
static bool unb64(absl::string_view s, const char* t, std::string* out)
{
    std::string r;
    uint32_t acc = 0;
    int bits = 0;
    size_t pads = 0, n = 0;
    for (char c : s)
    {
        if (c == ' ' || (c >= 9 && c <= 13))
            continue;
        if (c == '=' || c == '.')
        {
            ++pads;
            continue;
        }
        const char* p = c ? strchr(t, c) : nullptr;
        if (!p || pads)
        {
            out->clear();
            return false;
        }
        ++n;
        acc = acc << 6 | static_cast<uint32_t>(p - t);
        bits += 6;
        if (bits >= 8)
        {
            bits -= 8;
            r += static_cast<char>(acc >> bits);
        }
    }
    if (n % 4 == 1 || (bits && (acc & ((1u << bits) - 1))) || (pads && (n + pads) % 4))
    {
        out->clear();
        return false;
    }
    *out = r;
    return true;
}
std::string Base64Escape(absl::string_view s) { return b64(s, kStd, true); }
void Base64Escape(absl::string_view s, std::string* d) { *d = b64(s, kStd, true); }
std::string WebSafeBase64Escape(absl::string_view s) { return b64(s, kWeb, false); }
void WebSafeBase64Escape(absl::string_view s, std::string* d) { *d = b64(s, kWeb, false); }
bool Base64Unescape(absl::string_view s, std::string* d) { return unb64(s, kStd, d); }
bool WebSafeBase64Unescape(absl::string_view s, std::string* d) { return unb64(s, kWeb, d); }
std::string BytesToHexString(absl::string_view s)
{
    std::string r;
    for (unsigned char c : s)
    {
        r += "0123456789abcdef"[c >> 4];
        r += "0123456789abcdef"[c & 15];
    }
    return r;
}
std::string HexStringToBytes(absl::string_view s)
{
    auto v = [](char c)
    { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += static_cast<char>(v(s[i]) << 4 | v(s[i + 1]));
    return r;
}

// ---- time ----
absl::Time Now() { return absl::FromUnixNanos(simrt::now_ns()); }
std::string FormatTime(absl::string_view fmt, absl::Time t, absl::TimeZone)
{
    int64_t ns = absl::ToUnixNanos(t);
    time_t s = ns / 1000000000;
    struct tm tm;
    gmtime_r(&s, &tm);
    char b[128];
    (void)fmt;
    size_t n = strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S", &tm);
    snprintf(b + n, sizeof b - n, ".%09lld+00:00", (long long)(ns % 1000000000));
    return b;
}
ABSL_NAMESPACE_END
}    // namespace absl
