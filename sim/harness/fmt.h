// An independent reader of the on-disk formats, written from their description and not sharing code
// with securefs: it only uses Crypto++ primitives and the simulated disk.
#pragma once
#include "h.h"

namespace h
{
struct DFile
{
    bool exists = false;
    bool mac_ok = false;       // full: HMAC of the meta file; lite: the header is complete
    bool header_ok = false;    // full: encrypted header present and authentic
    uint32_t mode = 0, uid = 0, gid = 0, nlink = 0, root_page = 0, free_page = 0, nfree = 0;
    timespec at{}, mt{}, ct{}, bt{};
    uint64_t size = 0;             // virtual size, after padding
    unsigned padding = 0;          // full: bytes of padding in front of the content
    unsigned head_padding = 0;     // lite: bytes of padding behind the id
    Blob raw;                      // decoded bytes including the padding; bad blocks read as zero
    uint64_t nblocks = 0;
    std::map<uint64_t, uint8_t> blocks;    // per raw block: 0 authentic, 2 damaged; the others are holes
    std::map<std::string, std::string> xattrs;
    std::string xattr_err;
    std::string err;
    std::string content() const { return raw.size <= padding ? "" : raw.read(padding, raw.size - padding); }
    bool damaged() const
    {
        for (auto& b : blocks)
            if (b.second == 2)
                return true;
        return false;
    }
};
struct DEnt
{
    std::string name, id;
    uint32_t type = 0;
};
struct Fmt
{
    VolCfg v;
    sim::Disk& d;
    explicit Fmt(const VolCfg& vv, sim::Disk& dd) : v(vv), d(dd) {}
    // full format
    std::string path_of(const std::string& id) const;    // below the data directory
    DFile full_file(const std::string& id) const;
    static uint64_t ino_of(const std::string& id);
    std::vector<std::string> all_ids() const;
    // Entries of a directory; "" or what is wrong with the B-tree.
    std::string full_dir(const DFile& f, std::vector<DEnt>& out) const;
    // lite format
    DFile lite_file(uint64_t ino) const;
    std::string enc_name(const std::string& name) const;         // on-disk component
    std::string long_cipher(const std::string& name) const;      // what the lookup table stores
    std::string dec_symlink(const std::string& target) const;    // throws std::string
    // Compares everything stored with the model; "" when equal.
    std::string compare(Model& m, bool times);
};
std::string siv_encrypt(const std::string& key, const std::string& text);
std::string siv_decrypt(const std::string& key, const std::string& blob, bool& ok);
std::string b32(const std::string&);
std::string unb32(const std::string&);
std::string key_bytes(uint64_t seed, int which);
}    // namespace h
