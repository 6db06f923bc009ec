// Executable reference model: a POSIX name space with inodes.
#include "h.h"

#include <algorithm>
#include <cerrno>
#include <uni_algo/case.h>
#include <uni_algo/norm.h>

namespace h
{
static std::vector<std::string> comps(const std::string& p)
{
    std::vector<std::string> v;
    size_t i = 0;
    while (i < p.size())
    {
        while (i < p.size() && p[i] == '/')
            ++i;
        size_t j = i;
        while (j < p.size() && p[j] != '/')
            ++j;
        if (j > i)
            v.push_back(p.substr(i, j - i));
        i = j;
    }
    return v;
}
std::string Model::canon(const std::string& n) const
{
    if (!ci_names && !nfc_names)
        return n;
    if (full)
    {
        // full format: names are equal when their (decomposed, folded) forms are equal
        std::string s = nfc_names ? una::norm::to_nfd_utf8(n) : n;
        if (ci_names)
            s = una::cases::to_casefold_utf8(s);
        return s;
    }
    return stored(n);
}
std::string Model::stored(const std::string& n) const
{
    if (full || (!ci_names && !nfc_names))
        return n;
    std::string s = n;
    if (nfc_names)
        s = una::norm::to_nfc_utf8(s);
    if (ci_names)
        s = una::cases::to_casefold_utf8(s);
    return s;
}
NodeP Model::find(const std::string& path) const
{
    NodeP cur = root;
    for (auto& c : comps(path))
    {
        if (!cur || cur->kind != KD)
            return nullptr;
        auto it = cur->ents.find(canon(c));
        if (it == cur->ents.end())
            return nullptr;
        cur = it->second.n;
    }
    return cur;
}
int Model::lookup_err(const std::string& path) const
{
    std::string next = base_of(path);
    for (std::string d = parent_of(path); d != "/"; d = parent_of(d))
    {
        NodeP n = find(d);
        if (n)
            return n->kind != KD ? ENOTDIR : name_ok(next) ? ENOENT : ENAMETOOLONG;
        next = base_of(d);
    }
    return name_ok(next) ? ENOENT : ENAMETOOLONG;
}
bool Model::through_link(const std::string& path) const
{
    if (path.size() < 2 || path[0] != '/')
        return false;
    for (std::string d = parent_of(path); d != "/"; d = parent_of(d))
    {
        NodeP n = find(d);
        if (n)
            return n->kind == KL;
    }
    return false;
}
Node::Ent* Model::find_ent(const std::string& path) const
{
    auto d = parent(path);
    if (!d)
        return nullptr;
    auto it = d->ents.find(canon(base_of(path)));
    return it == d->ents.end() ? nullptr : &it->second;
}
NodeP Model::parent(const std::string& path) const
{
    auto d = find(parent_of(path));
    return d && d->kind == KD ? d : nullptr;
}
NodeP Model::mk(Kind k, uint32_t mode)
{
    auto n = std::make_shared<Node>();
    n->id = next_id++;
    n->kind = k;
    n->mode = mode;
    n->uid = uid;
    n->gid = gid;
    return n;
}
int Model::create(const std::string& p, Kind k, uint32_t mode, const std::string& target)
{
    auto d = parent(p);
    if (!d)
        return lookup_err(p);
    std::string c = canon(base_of(p));
    if (d->ents.count(c))
        return EEXIST;
    if (!name_ok(base_of(p)))
        return ENAMETOOLONG;
    if (k == KL && target_ok && !target_ok(target))
    {
        d->stale_rows = true;
        return ENAMETOOLONG;
    }
    auto n = mk(k, mode);
    n->target = target;
    d->ents[c] = {stored(base_of(p)), n};
    return 0;
}
int Model::unlink(const std::string& p)
{
    auto d = parent(p);
    if (!d)
        return lookup_err(p);
    auto it = d->ents.find(canon(base_of(p)));
    if (it == d->ents.end())
        return lookup_err(p);
    if (it->second.n->kind == KD)
        return EISDIR;
    --it->second.n->nlink;
    d->ents.erase(it);
    return 0;
}
int Model::rmdir(const std::string& p)
{
    auto d = parent(p);
    if (!d)
        return lookup_err(p);
    auto it = d->ents.find(canon(base_of(p)));
    if (it == d->ents.end())
        return lookup_err(p);
    if (it->second.n->kind != KD)
        return ENOTDIR;
    if (!it->second.n->ents.empty())
        return ENOTEMPTY;
    it->second.n->nlink = 0;
    d->ents.erase(it);
    return 0;
}
int Model::link(const std::string& a, const std::string& b)
{
    auto n = find(a);
    if (!n)
        return lookup_err(a);
    if (n->kind == KD)
        return EPERM;
    auto d = parent(b);
    if (!d)
        return lookup_err(b);
    std::string c = canon(base_of(b));
    if (d->ents.count(c))
        return EEXIST;
    if (!name_ok(base_of(b)))
        return ENAMETOOLONG;
    ++n->nlink;
    d->ents[c] = {stored(base_of(b)), n};
    return 0;
}
int Model::rename(const std::string& a, const std::string& b)
{
    auto da = parent(a);
    if (!da)
        return lookup_err(a);
    auto ia = da->ents.find(canon(base_of(a)));
    if (ia == da->ents.end())
        return lookup_err(a);
    auto db = parent(b);
    if (!db)
        return lookup_err(b);
    if (!name_ok(base_of(b)))
        return ENAMETOOLONG;
    NodeP n = ia->second.n;
    // b inside a?
    if (n->kind == KD)
    {
        auto cb = comps(b), ca = comps(a);
        if (cb.size() > ca.size())
        {
            bool pre = true;
            for (size_t i = 0; i < ca.size(); ++i)
                pre &= canon(ca[i]) == canon(cb[i]);
            if (pre)
                return EINVAL;
        }
    }
    std::string kb = canon(base_of(b)), ka = canon(base_of(a));
    auto ib = db->ents.find(kb);
    bool same_entry = da == db && ka == kb;
    if (ib != db->ents.end() && !same_entry)
    {
        NodeP t = ib->second.n;
        if (t == n)
            return 0;    // two links to the same file: nothing happens
        {
            auto cb = comps(b), ca = comps(a);
            if (ca.size() > cb.size())
            {
                bool pre = true;
                for (size_t i = 0; i < cb.size(); ++i)
                    pre &= canon(ca[i]) == canon(cb[i]);
                if (pre)
                    return ENOTEMPTY;
            }
        }
        if (n->kind == KD && t->kind != KD)
            return ENOTDIR;
        if (n->kind != KD && t->kind == KD)
            return EISDIR;
        if (t->kind == KD && !t->ents.empty())
            return ENOTEMPTY;
        --t->nlink;
        if (t->kind == KD)
            t->nlink = 0;
    }
    da->ents.erase(ka);
    db->ents[kb] = {stored(base_of(b)), n};
    return 0;
}
Model Model::clone(std::map<Node*, NodeP>* remap) const
{
    std::map<Node*, NodeP> local;
    auto& mp = remap ? *remap : local;
    std::function<NodeP(const NodeP&)> cp = [&](const NodeP& n) -> NodeP
    {
        auto it = mp.find(n.get());
        if (it != mp.end())
            return it->second;
        auto c = std::make_shared<Node>(*n);
        mp[n.get()] = c;
        for (auto& e : c->ents)
            e.second.n = cp(e.second.n);
        return c;
    };
    Model m = *this;
    m.root = cp(root);
    return m;
}
void Model::walk(const std::function<void(const std::string&, const NodeP&)>& f) const
{
    std::function<void(const std::string&, const NodeP&)> rec
        = [&](const std::string& p, const NodeP& n)
    {
        f(p.empty() ? "/" : p, n);
        for (auto& e : n->ents)
            rec(p + "/" + e.second.name, e.second.n);
    };
    rec("", root);
}
std::string Model::dump() const
{
    std::string r;
    walk(
        [&](const std::string& p, const NodeP& n)
        {
            r += strf("%s kind=%d mode=%o nlink=%d size=%llu\n",
                      show(p, 60).c_str(),
                      n->kind,
                      n->mode,
                      n->nlink,
                      (unsigned long long)n->data.size);
        });
    return r;
}
}    // namespace h
