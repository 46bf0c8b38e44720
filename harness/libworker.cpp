// Persistent worker around the library classes: document tree, comparison, distances, history buffers.
#include "proto.hh"
#include <map>
#include <sstream>
#include <memory>
#include "streamConsumer.hh"
#include "jsonContainer.hh"
#include "jsonObject.hh"
#include "jsonObjectEntry.hh"
#include "jsonArray.hh"
#include "jsonPrimitive.hh"
#include "levenshtein.hpp"
#include "levenshteinMatrice.hpp"
#include "linearHistory.hh"
#include "wrappedBuffer.hpp"

struct Config : public AParams
{
    bool sorted, strict;
    bool isIgnoringUnicode() const { return false; }
    bool isStrict() const { return strict; }
    bool colorEnabled() const { return true; }
    bool sortObjects() const { return sorted; }
};

typedef std::map<const JSonElement *, int> Ids;
struct Tree
{
    std::istringstream in;
    Config config;
    std::unique_ptr<StreamConsumer> reader;
    std::vector<const JSonElement *> nodes;     // document order
    Ids ids;

    Tree(const std::string &doc, bool sorted) : in(doc)
    {
        config.sorted = sorted; config.strict = true;
        reader.reset(new StreamConsumer(in));
        reader->withConfig(&config)->read();
        visit(reader->getRoot());
    }
    void visit(const JSonElement *e)
    {
        if (!e) return;
        ids[e] = nodes.size();
        nodes.push_back(e);
        if (const JSonContainer *c = dynamic_cast<const JSonContainer *>(e)) {
            for (const JSonElement *i : *c) visit(i);
        }
        else if (const JSonObjectEntry *o = dynamic_cast<const JSonObjectEntry *>(e))
            visit(**o);
    }
    int id(const JSonElement *e) const
    {
        if (!e) return -1;
        Ids::const_iterator i = ids.find(e);
        return i == ids.end() ? -2 : i->second;
    }
};

static char kind(const JSonElement *e)
{
    if (dynamic_cast<const JSonObject *>(e)) return 'o';
    if (dynamic_cast<const JSonArray *>(e)) return 'a';
    if (dynamic_cast<const JSonObjectEntry *>(e)) return 'e';
    if (dynamic_cast<const JSonPrimitive<std::string> *>(e)) return 's';
    if (dynamic_cast<const JSonPrimitive<bool> *>(e)) return 'b';
    if (dynamic_cast<const JSonPrimitive<double> *>(e)) return 'd';
    if (dynamic_cast<const JSonPrimitive<Null> *>(e)) return 'z';
    if (dynamic_cast<const AJSonPrimitive *>(e)) return 'n';
    return '?';
}
static std::string num(long long v) { return std::to_string(v); }

static Msg tree(const Msg &m)       // tree, doc, sorted, keys...
{
    Tree t(m[1], m[2] == "1");
    Msg r(1, "ok");
    r.push_back(num(t.reader->getRoot() ? (long long) t.nodes.size() : -1));
    for (const JSonElement *e : t.nodes) {
        const JSonContainer *c = dynamic_cast<const JSonContainer *>(e);
        const JSonObjectEntry *o = dynamic_cast<const JSonObjectEntry *>(e);
        std::ostringstream ss;
        ss << kind(e) << ' ' << t.id(e->getParent()) << ' ' << e->getLevel() << ' ' << t.id(e->findPrev()) << ' ' << t.id(e->findNext())
            << ' ' << (c ? (long long) c->size() : -1) << ' ' << (c ? t.id(c->firstChild()) : -1) << ' ' << (o ? t.id(**o) : -1) << ' ' << e->strlen();
        const JSonObject *ob = dynamic_cast<const JSonObject *>(e);
        if (ob) {
            for (size_t i = 3; i < m.size(); ++i) {
                JSonObject::const_iterator f = ob->find(m[i]);
                ss << ' ' << (ob->contains(m[i]) ? 1 : 0) << ' ' << t.id(ob->get(m[i])) << ' ' << (f == ob->cend() ? -1 : t.id(*f));
            }
        }
        r.push_back(ss.str());
        r.push_back(e->stringify());
    }
    return r;
}

static void marks(Msg &r, const Tree &t, const Tree &other, const LevenshteinMatrice_base *d)
{
    r.push_back(num(t.nodes.size()));
    for (const JSonElement *e : t.nodes) {
        std::string op = "none";
        try {
            switch (d->get(e)) {
                case eLevenshteinOperator::add: op = "add"; break;
                case eLevenshteinOperator::rem: op = "rem"; break;
                case eLevenshteinOperator::mod: op = "mod"; break;
                case eLevenshteinOperator::equ: op = "equ"; break;
                default: op = "?";
            }
        }
        catch (std::out_of_range &) { }
        const JSonElement *p = d->getEquivalence(e);
        std::ostringstream ss;
        ss << kind(e) << ' ' << t.id(e->getParent()) << ' ' << op << ' ' << other.id(p);
        r.push_back(ss.str());
        r.push_back(e->stringify());
    }
}

static Msg diff(const Msg &m)       // diff, a, b, sorted
{
    Tree a(m[1], m[3] == "1"), b(m[2], m[3] == "1");
    std::unique_ptr<LevenshteinMatrice_base> d(LevenshteinMatrice_base::Builder().build(a.reader->getRoot(), b.reader->getRoot()));
    Msg r(1, "ok");
    {
        std::unique_ptr<LevenshteinMatrice_base> back(LevenshteinMatrice_base::Builder().build(b.reader->getRoot(), a.reader->getRoot()));
        r.push_back(num(d->result()));
        r.push_back(num(back->result()));
    }
    r.push_back(num(d->areEqual()));
    marks(r, a, b, d.get());
    marks(r, b, a, d.get());
    return r;
}

static Msg lev(const Msg &m)        // lev, (a, b)...
{
    Msg r(1, "ok");
    for (size_t i = 1; i + 1 < m.size(); i += 2) {
        char buf[64];
        snprintf(buf, sizeof buf, "%a", (double) levenshteinPercent(m[i], m[i + 1]));
        r.push_back(num(levenshtein(m[i], m[i + 1])));
        r.push_back(buf);
    }
    return r;
}

template <class B> static void op(B &b, const std::string &o)
{
    if (o[0] == 'p') b.put(o[1]);
    else if (o[0] == 'P') {
        std::vector<char> v(o.begin() + 1, o.end());    // exact size, so that reads beyond it are noticed
        b.put(v.data(), v.size());
    }
    else if (o[0] == 'b') b.pop_back();
    else if (o[0] == 'r') b.reset();
}
template <int N> static Msg ring(const Msg &m)
{
    WrappedBuffer<char, N> b;
    Msg r(1, "ok");
    for (size_t i = 2; i < m.size(); ++i) {
        op(b, m[i]);
        r.push_back(num(b.size()) + " " + num(b.totalSize()));
        r.push_back(b.toString());
    }
    return r;
}
static Msg hist(const Msg &m)       // hist, ops...
{
    LinearHistory b;
    Msg r(1, num(ERROR_HISTORY_LEN));
    for (size_t i = 1; i < m.size(); ++i) {
        op(b, m[i]);
        r.push_back(num(b.size()) + " " + num(b.totalSize()) + " " + num(b.currentLine()));
        r.push_back(b.toString());
    }
    return r;
}

int main()
{
    openPipes();
    signal(SIGPIPE, SIG_IGN);
    signal(SIGPROF, onCpuLimit);
    while (true) {
        Msg m = readMsg(), r;
        if (m.empty()) return 0;
        cpuLimit(20);
        try {
            if (m[0] == "tree") r = tree(m);
            else if (m[0] == "diff") r = diff(m);
            else if (m[0] == "lev") r = lev(m);
            else if (m[0] == "hist") r = hist(m);
            else if (m[0] == "buf") {
                switch (atoi(m[1].c_str())) {
                    case 1: r = ring<1>(m); break;
                    case 2: r = ring<2>(m); break;
                    case 3: r = ring<3>(m); break;
                    case 4: r = ring<4>(m); break;
                    case 5: r = ring<5>(m); break;
                    case 7: r = ring<7>(m); break;
                    case 10: r = ring<10>(m); break;
                    case 16: r = ring<16>(m); break;
                    case 45: r = ring<45>(m); break;
                    default: r = Msg(1, "bad");
                }
            }
            else r = Msg(1, "bad");
        }
        catch (EofException &e) { r = Msg(1, "exc: EofException"); }
        catch (std::exception &e) { r = Msg(1, std::string("exc: ") + e.what()); }
        cpuLimit(0);
        writeMsg(r);
    }
}
