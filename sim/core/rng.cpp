// The library's random generator, with object ids drawn from few leading bytes when a plan asks for it:
// a draw any generator can make, which lets independent objects meet in one storage directory.
#include "sim.h"

#include <cryptopp/filters.h>
#include <cryptopp/randpool.h>

#include <dlfcn.h>

namespace CryptoPP
{
void RandomPool::GenerateIntoBufferedTransformation(BufferedTransformation& target,
                                                    const std::string& channel,
                                                    lword size)
{
    using F = void (*)(RandomPool*, BufferedTransformation&, const std::string&, lword);
    static F real = reinterpret_cast<F>(dlsym(
        RTLD_NEXT,
        "_ZN8CryptoPP10RandomPool34GenerateIntoBufferedTransformationERNS_22BufferedTransformatio"
        "nERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEm"));
    if (!sim::R || !sim::cfg.few_ids || size != 32)
        return real(this, target, channel, size);
    byte buf[32];
    ArraySink sink(buf, sizeof buf);
    real(this, sink, channel, sizeof buf);
    buf[0] &= (unsigned char)sim::cfg.few_ids;
    target.ChannelPut(channel, buf, sizeof buf);
}
}    // namespace CryptoPP
