// Self-contained stand-in for absl/strings/str_format.h (apt's absl is too old for %v / AbslStringify).
#pragma once
#include <absl/base/config.h>
#include <absl/strings/string_view.h>
#include <absl/time/time.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>

namespace absl
{
ABSL_NAMESPACE_BEGIN
namespace sim_format
{
    class Sink
    {
    public:
        explicit Sink(std::string* s) : s_(s) {}
        void Append(size_t n, char c) { s_->append(n, c); }
        void Append(std::string_view v) { s_->append(v.data(), v.size()); }
        bool PutPaddedString(std::string_view v, int, int, bool)
        {
            Append(v);
            return true;
        }
        std::string* raw() { return s_; }

    private:
        std::string* s_;
    };

    struct Spec
    {
        char conv = 0;
        std::string flags;    // "%" flags width .prec without length modifier
        int width = -1;
        int prec = -1;
        bool left = false;
    };

    struct Arg
    {
        const void* obj;
        void (*fmt)(const void* obj, const Spec& spec, Sink& sink);
        int (*as_int)(const void* obj);
    };

    template <class T, class = void>
    struct has_stringify : std::false_type
    {
    };
    template <class T>
    struct has_stringify<
        T,
        std::void_t<decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))>>
        : std::true_type
    {
    };

    void put_padded(const Spec& s, std::string_view v, Sink& out);
    void put_int(const Spec& s, long long v, unsigned long long u, bool is_signed, Sink& out);
    void put_double(const Spec& s, long double v, Sink& out);
    void put_ptr(const Spec& s, const void* p, Sink& out);

    template <class T>
    struct Formatter
    {
        static void run(const void* obj, const Spec& s, Sink& out)
        {
            using U = std::remove_cv_t<std::remove_reference_t<T>>;
            const U& v = *static_cast<const U*>(obj);
            if constexpr (has_stringify<U>::value)
            {
                std::string tmp;
                Sink inner(&tmp);
                AbslStringify(inner, v);
                put_padded(s, tmp, out);
            }
            else if constexpr (std::is_same_v<U, bool>)
            {
                if (s.conv == 'v')
                    put_padded(s, v ? "true" : "false", out);
                else
                    put_int(s, v, v, true, out);
            }
            else if constexpr (std::is_enum_v<U>)
            {
                auto w = static_cast<std::underlying_type_t<U>>(v);
                put_int(s,
                        static_cast<long long>(w),
                        static_cast<unsigned long long>(w),
                        std::is_signed_v<decltype(w)>,
                        out);
            }
            else if constexpr (std::is_integral_v<U>)
            {
                put_int(s,
                        static_cast<long long>(v),
                        static_cast<unsigned long long>(static_cast<std::make_unsigned_t<U>>(v)),
                        std::is_signed_v<U>,
                        out);
            }
            else if constexpr (std::is_floating_point_v<U>)
            {
                put_double(s, v, out);
            }
            else if constexpr (std::is_same_v<U, std::nullptr_t>)
            {
                put_ptr(s, nullptr, out);
            }
            else if constexpr (std::is_array_v<U>)
            {
                put_padded(s, std::string_view(static_cast<const char*>(&v[0])), out);
            }
            else if constexpr (std::is_pointer_v<U>)
            {
                using P = std::remove_cv_t<std::remove_pointer_t<U>>;
                if constexpr (std::is_same_v<P, char>)
                {
                    if (s.conv == 'p')
                        put_ptr(s, v, out);
                    else
                        put_padded(s, v ? std::string_view(v) : std::string_view("(null)"), out);
                }
                else if constexpr (std::is_function_v<P>)
                    put_ptr(s, reinterpret_cast<const void*>(v), out);
                else
                    put_ptr(s, const_cast<const void*>(static_cast<const volatile void*>(v)), out);
            }
            else if constexpr (std::is_convertible_v<const U&, std::string_view>)
            {
                put_padded(s, std::string_view(v), out);
            }
            else if constexpr (std::is_same_v<U, absl::Duration>)
            {
                put_padded(s, absl::FormatDuration(v), out);
            }
            else if constexpr (std::is_same_v<U, absl::Time>)
            {
                put_padded(s, absl::FormatTime(v), out);
            }
            else if constexpr (sizeof(U) == 16 && std::is_constructible_v<long double, U>)
            {
                put_double(s, static_cast<long double>(v), out);
            }
            else
            {
                put_padded(s, "<unformattable>", out);
            }
        }
        static int as_int(const void* obj)
        {
            using U = std::remove_cv_t<std::remove_reference_t<T>>;
            const U& v = *static_cast<const U*>(obj);
            if constexpr (std::is_integral_v<U> || std::is_enum_v<U>)
                return static_cast<int>(v);
            (void)v;
            return 0;
        }
    };

    template <class T>
    Arg make_arg(const T& v)
    {
        return Arg{&v, &Formatter<T>::run, &Formatter<T>::as_int};
    }

    void format_impl(std::string* out, std::string_view fmt, const Arg* args, size_t n);

    struct FormatSpecImpl
    {
        std::string_view fmt;
        FormatSpecImpl(const char* s) : fmt(s) {}
        FormatSpecImpl(std::string_view s) : fmt(s) {}
        FormatSpecImpl(const std::string& s) : fmt(s) {}
    };
    template <size_t>
    struct SpecOf
    {
        using type = FormatSpecImpl;
    };
}    // namespace sim_format

using FormatSink = sim_format::Sink;
template <class... Args>
using FormatSpec = typename sim_format::SpecOf<sizeof...(Args)>::type;
template <char... C>
using ParsedFormat = sim_format::FormatSpecImpl;

template <class... Args>
std::string& StrAppendFormat(std::string* dst, const FormatSpec<Args...>& f, const Args&... args)
{
    sim_format::Arg a[] = {sim_format::make_arg(args)..., sim_format::Arg{}};
    sim_format::format_impl(dst, f.fmt, a, sizeof...(Args));
    return *dst;
}
template <class... Args>
std::string StrFormat(const FormatSpec<Args...>& f, const Args&... args)
{
    std::string r;
    sim_format::Arg a[] = {sim_format::make_arg(args)..., sim_format::Arg{}};
    sim_format::format_impl(&r, f.fmt, a, sizeof...(Args));
    return r;
}
namespace sim_format
{
    int emit(std::FILE* fp, const std::string& s);
}
template <class... Args>
int FPrintF(std::FILE* fp, const FormatSpec<Args...>& f, const Args&... args)
{
    return sim_format::emit(fp, StrFormat(f, args...));
}
template <class... Args>
int PrintF(const FormatSpec<Args...>& f, const Args&... args)
{
    return sim_format::emit(stdout, StrFormat(f, args...));
}
template <class... Args>
int SNPrintF(char* out, size_t size, const FormatSpec<Args...>& f, const Args&... args)
{
    std::string s = StrFormat(f, args...);
    if (size)
    {
        size_t n = s.size() < size - 1 ? s.size() : size - 1;
        std::memcpy(out, s.data(), n);
        out[n] = 0;
    }
    return static_cast<int>(s.size());
}
template <class S, class... Args>
bool Format(S* sink, const FormatSpec<Args...>& f, const Args&... args)
{
    std::string s = StrFormat(f, args...);
    if constexpr (std::is_same_v<S, std::string>)
        sink->append(s);
    else if constexpr (std::is_same_v<S, std::FILE>)
        sim_format::emit(sink, s);
    else
        sink->Append(std::string_view(s));
    return true;
}
template <class T>
struct sim_streamed
{
};
ABSL_NAMESPACE_END
}    // namespace absl
