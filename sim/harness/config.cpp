// The configuration file, modified by somebody, opened with wrong passwords and key files (T02), and in
// the forms that earlier releases wrote (S09).
#include "crash.h"

#include "params_io.h"
#include "platform.h"

#include <argon2.h>
#include <cerrno>
#include <cryptopp/aes.h>
#include <cryptopp/gcm.h>
#include <cryptopp/hmac.h>
#include <cryptopp/pwdbased.h>
#include <cryptopp/scrypt.h>
#include <cryptopp/sha.h>
#include <fcntl.h>
#include <google/protobuf/util/json_util.h>
#include <unistd.h>

namespace h
{
using std::string;
static const char* const kPbkdf[] = {"pkcs5-pbkdf2-hmac-sha256", "scrypt", "argon2id", ""};
static CryptoPP::byte* ub(string& s) { return reinterpret_cast<CryptoPP::byte*>(&s[0]); }
static const CryptoPP::byte* ub(const string& s) { return reinterpret_cast<const CryptoPP::byte*>(s.data()); }
static string hexs(const string& s)
{
    string o;
    for (unsigned char c : s)
        o += sim::strf("%02x", c);
    return o;
}
static string hmac(const string& key, const string& msg)
{
    string o(32, '\0');
    CryptoPP::HMAC<CryptoPP::SHA256> m(ub(key), key.size());
    m.Update(ub(msg), msg.size());
    m.Final(ub(o));
    return o;
}
struct Config
{
    Plan& plan;
    Rng r;
    string password, keyfile, content;
    bool has_key = false, legacy = false;
    securefs::DecryptedSecurefsParams want;
    securefs::LegacySecurefsJsonParams json;
    securefs::EncryptedSecurefsParams enc;

    explicit Config(Plan& p) : plan(p), r(sim::mix64(p.seed, 77)) {}
    string rnd(size_t n)
    {
        string s(n, '\0');
        for (auto& c : s)
            c = (char)r.next();
        return s;
    }
    static void put(const string& path, const string& data)
    {
        int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        for (size_t o = 0; fd >= 0 && o < data.size();)
        {
            ssize_t n = ::write(fd, data.data() + o, data.size() - o);
            if (n < 0 && errno == EINTR)
                continue;
            if (n <= 0)
                sim::harness_error("cannot write " + path);
            o += n;
        }
        ::close(fd);
    }
    // what every release so far did to make a key out of a password
    string derive(const string& salt)
    {
        string k(32, '\0');
        if (json.pbkdf() == kPbkdf[2])
            argon2id_hash_raw(json.iterations(), json.argon2_m_cost(), json.argon2_p(), password.data(),
                              password.size(), salt.data(), salt.size(), &k[0], k.size());
        else if (json.pbkdf() == kPbkdf[1])
        {
            CryptoPP::Scrypt s;
            s.DeriveKey(ub(k), k.size(), ub(password), password.size(), ub(salt), salt.size(), json.iterations(),
                        json.scrypt_r(), json.scrypt_p());
        }
        else
        {
            CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::SHA256> s;
            s.DeriveKey(ub(k), k.size(), 0, ub(password), password.size(), ub(salt), salt.size(), json.iterations());
        }
        return k;
    }
    void make_legacy()
    {
        json.set_version(r.range(1, 4));
        if (r.chance(3, 4))
            json.set_block_size(r.oneof({64, 512, 4096}));
        if (r.chance(3, 4))
            json.set_iv_size(r.oneof({12, 16, 32}));
        json.set_pbkdf(kPbkdf[r.below(4)]);
        json.set_iterations(r.oneof({1, 2, 4}));
        if (json.pbkdf() == kPbkdf[1])
            json.set_iterations(r.oneof({2, 4, 16})), json.set_scrypt_r(r.range(1, 8)), json.set_scrypt_p(r.range(1, 2));
        if (json.pbkdf() == kPbkdf[2])
            json.set_argon2_m_cost(r.oneof({8, 16, 64})), json.set_argon2_p(1);
        json.set_max_padding(r.oneof({0, 0, 16, 255}));
        bool lite = json.version() == 4;
        json.set_long_name_component(lite && r.chance(1, 2));
        string salt = rnd(32), iv = rnd(12), mac(16, '\0'), key = rnd(lite ? (json.max_padding() ? 128 : 96) : 32);
        json.set_salt(hexs(salt));
        string wrap = !has_key ? derive(salt) : r.chance(1, 2) ? derive(hmac(salt, keyfile)) : hmac(derive(salt), keyfile);
        string ct(key.size(), '\0'), header = lite ? "version=4" : "version=1";
        CryptoPP::GCM<CryptoPP::AES>::Encryption e;
        e.SetKeyWithIV(ub(wrap), 32, ub(iv), iv.size());
        e.EncryptAndAuthenticate(ub(ct), ub(mac), 16, ub(iv), (int)iv.size(), ub(header), header.size(), ub(key),
                                 key.size());
        auto k = json.mutable_encrypted_key();
        k->set_iv(hexs(iv));
        k->set_mac(hexs(mac));
        k->set_ciphertext(hexs(ct));
        auto sz = want.mutable_size_params();
        sz->set_block_size(json.has_block_size() ? json.block_size() : 4096);
        sz->set_iv_size(json.has_iv_size() ? json.iv_size() : 32);
        sz->set_max_padding_size(json.max_padding());
        if (lite)
        {
            auto l = want.mutable_lite_format_params();
            l->set_name_key(key.substr(0, 32));
            l->set_content_key(key.substr(32, 32));
            l->set_xattr_key(key.substr(64, 32));
            if (key.size() == 128)
                l->set_padding_key(key.substr(96));
            if (json.long_name_component())
                l->set_long_name_threshold(128);
        }
        else
        {
            auto f = want.mutable_full_format_params();
            f->set_master_key(key);
            if (json.version() == 1)
                f->set_legacy_file_table_io(true);
            if (json.version() == 3)
                f->set_store_time(true);
        }
        google::protobuf::util::JsonPrintOptions o;
        o.add_whitespace = r.chance(1, 2);
        if (!google::protobuf::util::MessageToJsonString(json, &content, o).ok())
            sim::harness_error("json");
    }
    void make()
    {
        password = rnd(r.oneof({0, 1, 8, 40}));
        has_key = r.chance(1, 2);
        keyfile = rnd(r.oneof({0, 1, 32, 4095, 4096, 4097, 9000}));
        put("/simroot/key", keyfile);
        string other = keyfile;
        if (other.empty() || r.chance(1, 2))
            other.push_back('x');
        else
            other[r.below(other.size())] ^= 1;
        put("/simroot/otherkey", other);
        legacy = plan.ci("legacy");
        if (legacy)
            return make_legacy();
        Plan vp;
        vp.seed = plan.seed;
        vp.set("full", r.below(2));
        vp.set("block", r.oneof({64, 4096}));
        vp.set("iv", 12);
        vp.set("longname", r.oneof({0, 128}));
        want = VolCfg::from(vp).params();
        securefs::EncryptedSecurefsParams::Argon2idParams a;
        a.set_time_cost(r.range(1, 2));
        a.set_memory_cost(r.oneof({8, 16, 64}));
        a.set_parallelism(1);
        auto ks = key_stream(has_key ? "/simroot/key" : "");
        enc = securefs::encrypt(want, a, {ub(password), password.size()}, ks.get());
        content = enc.SerializeAsString();
    }
    std::shared_ptr<securefs::FileStream> key_stream(const string& p)
    {
        return p.empty() ? nullptr : securefs::OSService::get_default().open_file_stream(p, O_RDONLY, 0);
    }
    bool mangle(Rng& q, string& s)
    {
        string was = s;
        switch (q.below(5))
        {
        case 0:
            s.resize(q.below(s.size() + 1));
            break;
        case 1:
            s.clear();
            break;
        case 2:
            s += rnd(1 + q.below(20));
            break;
        default:
            if (!s.empty())
                s[q.below(s.size())] ^= (char)(1u << q.below(8));
        }
        return s != was;
    }
    bool mangle_hex(Rng& q, string* s)
    {
        static const char hx[] = "0123456789abcdef";
        string was = *s;
        switch (q.below(4))
        {
        case 0:
            s->resize(q.below(s->size() / 2 + 1) * 2);
            break;
        case 1:
            s->clear();
            break;
        case 2:
            *s += hexs(rnd(1 + q.below(16)));
            break;
        default:
            if (!s->empty())
                (*s)[q.below(s->size())] = hx[q.below(16)];
        }
        return *s != was;
    }
    // Only keys and format are protected in the old JSON form.
    static string essence(securefs::DecryptedSecurefsParams p, bool legacy)
    {
        if (legacy)
        {
            p.clear_size_params();
            if (p.has_lite_format_params())
                p.mutable_lite_format_params()->clear_long_name_threshold();
            else
                p.mutable_full_format_params()->clear_store_time(),
                    p.mutable_full_format_params()->clear_legacy_file_table_io();
        }
        return p.SerializeAsString();
    }
    void exec(const Op& op)
    {
        Rng q(op.ds);
        const string& K = op.s;
        string c = content, pw = password, key = has_key ? "/simroot/key" : "";
        bool changed = false;
        if (K == "wrongpw")
        {
            // HMAC, which derives the key, does not tell a password from one with zeros appended
            auto bare = [](string x)
            {
                while (!x.empty() && !x.back())
                    x.pop_back();
                return x;
            };
            mangle(q, pw);
            if (bare(pw) == bare(password))
                return;
            changed = true;
        }
        else if (K == "wrongkey")
        {
            changed = true;
            key = has_key ? (q.chance(1, 2) ? "" : "/simroot/otherkey") : "/simroot/key";
        }
        else if (K == "raw" && !legacy)
        {
            changed = mangle(q, c);
            securefs::EncryptedSecurefsParams e;
            if (e.ParseFromString(c))
            {
                auto& a = e.argon2id_params();
                if (a.memory_cost() > 4096 || a.time_cost() > 16 || a.parallelism() != 1)
                    return;
            }
            else if (q.chance(1, 2))
                return;
        }
        else if (K == "field" && !legacy)
        {
            auto e = enc;
            switch (q.below(5))
            {
            case 0:
                changed = mangle(q, *e.mutable_salt());
                break;
            case 1:
                changed = mangle(q, *e.mutable_iv());
                break;
            case 2:
                changed = mangle(q, *e.mutable_ciphertext());
                break;
            case 3:
                changed = mangle(q, *e.mutable_mac()) || mangle(q, *e.mutable_ciphertext());
                break;
            default:
                changed = mangle(q, *e.mutable_mac());
            }
            c = e.SerializeAsString();
        }
        else if (K == "field" && legacy)
        {
            auto j = json;
            auto k = j.mutable_encrypted_key();
            switch (q.below(5))
            {
            case 0:
                changed = mangle_hex(q, j.mutable_salt());
                break;
            case 1:
                changed = mangle_hex(q, k->mutable_iv());
                break;
            case 2:
                changed = mangle_hex(q, k->mutable_ciphertext());
                break;
            case 3:
                changed = mangle_hex(q, k->mutable_mac()) || mangle_hex(q, k->mutable_ciphertext());
                break;
            default:
                changed = mangle_hex(q, k->mutable_mac());
            }
            c.clear();
            (void)google::protobuf::util::MessageToJsonString(j, &c);
        }
        else if (K != "ok")
            return;
        // an empty key file is a key file, but an absent one is not
        if (changed)
            ++sim::R->tampers;
        string got, why;
        bool ok = false, exact = false;
        try
        {
            auto ks = key_stream(key);
            auto p = securefs::decrypt(c, {ub(pw), pw.size()}, ks.get());
            got = essence(p, legacy && changed);
            ok = true;
            exact = got == essence(want, legacy && changed);
        }
        catch (const std::exception& e)
        {
            why = e.what();
        }
        sim::trace("config %s changed=%d ok=%d", K.c_str(), changed, ok);
        ++sim::R->ops;
        auto fail = [&](const string& tag, const string& m)
        { sim::violation(tag, m + "\n  at: " + op.str()); };
        if (ok && !exact)
            fail("config-accepted",
                 changed ? "a configuration that was modified, or opened with the wrong secret, yields parameters that nobody stored"
                         : "the configuration yields parameters other than the stored ones");
        if (!ok && !changed)
            fail("config-refused", "the configuration cannot be opened with its own password: " + why);
        if (ok && changed && (K == "wrongpw" || K == "wrongkey"))
            fail("config-accepted", "the configuration opens with a wrong password or key file");
    }
};
std::string legacy_config(Plan& p, const string& password, bool has_key, const string& keyfile,
                          securefs::DecryptedSecurefsParams* want)
{
    Config c(p);
    c.password = password;
    c.has_key = has_key;
    c.keyfile = keyfile;
    c.legacy = true;
    c.make_legacy();
    *want = c.want;
    return c.content;
}
void run_config(Plan& p)
{
    Config c(p);
    sim::begin_op(-1000);
    c.make();
    sim::end_op();
    for (auto& op : p.ops)
    {
        sim::begin_op(op.id);
        c.exec(op);
        sim::end_op();
    }
}
void gen_config(Plan& p, Rng& r, bool tampered)
{
    p.set("config", 1);
    p.set("legacy", r.below(2));
    int n = (int)r.range(3, 25);
    for (int i = 0; i < n; ++i)
    {
        auto& o = p.add("config");
        static const char* k[] = {"ok", "wrongpw", "wrongkey", "raw", "field", "field", "field"};
        o.s = tampered ? k[r.below(7)] : "ok";
        o.ds = r.next() >> 8;
    }
}
}    // namespace h
