// uni-algo is not installed here; its four functions used by securefs are provided on top of ICU.
#include <string>
#include <string_view>
#include <unicode/normalizer2.h>
#include <unicode/unistr.h>
#include <uni_algo/all.h>

namespace
{
icu::UnicodeString from(std::string_view s)
{
    return icu::UnicodeString::fromUTF8(icu::StringPiece(s.data(), static_cast<int32_t>(s.size())));
}
std::string to(const icu::UnicodeString& u)
{
    std::string r;
    u.toUTF8String(r);
    return r;
}
bool ascii(std::string_view s)
{
    for (unsigned char c : s)
        if (c >= 0x80)
            return false;
    return true;
}
}    // namespace
namespace una
{
namespace cases
{
    std::string to_casefold_utf8(std::string_view s)
    {
        if (ascii(s))
        {
            std::string r(s);
            for (auto& c : r)
                if (c >= 'A' && c <= 'Z')
                    c += 32;
            return r;
        }
        return to(from(s).foldCase());
    }
    std::string to_lowercase_utf8(std::string_view s) { return to(from(s).toLower()); }
    std::string to_uppercase_utf8(std::string_view s) { return to(from(s).toUpper()); }
}    // namespace cases
namespace caseless
{
    int compare_utf8(std::string_view a, std::string_view b)
    {
        return from(a).foldCase().compareCodePointOrder(from(b).foldCase());
    }
}    // namespace caseless
namespace casesens
{
    int compare_utf8(std::string_view a, std::string_view b)
    {
        return from(a).compareCodePointOrder(from(b));
    }
}    // namespace casesens
namespace norm
{
    static std::string run(std::string_view s, bool nfc)
    {
        if (ascii(s))
            return std::string(s);
        UErrorCode e = U_ZERO_ERROR;
        const icu::Normalizer2* n
            = nfc ? icu::Normalizer2::getNFCInstance(e) : icu::Normalizer2::getNFDInstance(e);
        icu::UnicodeString u = n->normalize(from(s), e);
        return to(u);
    }
    std::string to_nfc_utf8(std::string_view s) { return run(s, true); }
    std::string to_nfd_utf8(std::string_view s) { return run(s, false); }
    bool is_nfc_utf8(std::string_view s) { return run(s, true) == s; }
    bool is_nfd_utf8(std::string_view s) { return run(s, false) == s; }
}    // namespace norm
bool is_valid_utf8(std::string_view s)
{
    return to(from(s)) == s;
}
}    // namespace una
