// C16 XML loading: documents generated from a tree with known expected member values; arbitrary texts judged by expat itself.
#include "common.hpp"
#include <cmath>
#include "longtext.hpp"
#include <coda/txml.hpp>
#include <memory>
using namespace vp;
using std::string;

// names that share their beginnings: 16, 32 and 300 characters
static string LNAME(int k) { return k == 0 ? "servers-of-names" : k == 1 ? "servers-of-names-and-of-settings" : string("servers-of-names-and-of-settings-") + string(267, 'x'); }
// ---- the members, and what they should hold ----------------------------------------------
struct Sub { string x; int32_t y; bool operator==(const Sub &o) const { return x == o.x && y == o.y; } };
struct Item
{
    string a; int32_t b; string text; std::vector<string> tag; Sub sub; std::list<Item> kid; bool text_known;
    Item(): b(0), text_known(true) { sub.y = 0; }
};
struct Conf
{
    string name; bool b; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; uint8_t u8; float f; double d; long double ld;
    string untouched, lname[3]; int32_t un;
    std::list<string> ls; std::vector<int32_t> vi; std::vector<double> vd; std::list<uint64_t> lu; std::list<Item> item; std::vector<Item> vitem; Item one; Sub sub;
    Conf(): b(true), i32(-77), u32(77), i64(-7777), u64(7777), u8(77), f(7.5f), d(77.5), ld(777.5L), untouched("before"), un(42)
    { name = "default name"; sub.y = 5; sub.x = "sx"; one.b = 9; one.text = "one"; ls.push_back("already"); }
};

struct XSub: coda::txml_determination_object
{
    string x; int32_t y; XSub(): y(0) { }
    void determine(coda::txml_parser *p) { p->determineMember("x", x); p->determineMember("y", y); }
};
struct XItem: coda::txml_determination_object
{
    string a; int32_t b; string text; std::vector<string> tag; XSub sub; std::list<XItem> kid;
    XItem(): b(0) { }
    void determine(coda::txml_parser *p)
    {
        p->determineMember("a", a); txml_member(p, b); p->determineMember("", text);
        p->determineMember("tag", tag); p->determineMember("sub", sub); p->determineMember("kid", kid);
    }
};
struct XConf: coda::txml_determination_object
{
    string name; bool b; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; uint8_t u8; float f; double d; long double ld;
    string untouched, lname[3]; int32_t un;
    std::list<string> ls; std::vector<int32_t> vi; std::vector<double> vd; std::list<uint64_t> lu; std::list<XItem> item; std::vector<XItem> vitem; XItem one; XSub sub;
    XConf(): b(true), i32(-77), u32(77), i64(-7777), u64(7777), u8(77), f(7.5f), d(77.5), ld(777.5L), untouched("before"), un(42)
    { name = "default name"; sub.y = 5; sub.x = "sx"; one.b = 9; one.text = "one"; ls.push_back("already"); }
    void determine(coda::txml_parser *p)
    {
        p->determineMember("name", name); txml_member(p, b); txml_member(p, i32); txml_member(p, u32); txml_member(p, i64); txml_member(p, u64);
        txml_member(p, u8); txml_member(p, f); txml_member(p, d); txml_member(p, ld); txml_member(p, untouched); txml_member(p, un);
        for (int k = 0; k < 3; ++k) p->determineMember(LNAME(k), lname[k]);
        txml_member(p, ls); txml_member(p, vi); txml_member(p, vd); txml_member(p, lu); txml_member(p, item); txml_member(p, vitem); txml_member(p, one); txml_member(p, sub);
    }
};
struct XDoc: coda::txml_determination_object
{
    XConf conf;
    void determine(coda::txml_parser *p) { p->determineMember("conf", conf); }
};

#define SAME(m) CHECK(w.m == g.m, key.c_str(), "%s: member %s%s is %s, expected %s", what.c_str(), path.c_str(), #m, str(g.m).c_str(), str(w.m).c_str())
static string str(const string &s) { return show(s); }
template <typename T> static typename std::enable_if<std::is_arithmetic<T>::value, string>::type str(T v) { return fmt("%.20Lg", (long double) v); }
template <typename C> static auto str(const C &c) -> decltype(c.begin(), string()) { string r = fmt("%zu items:", c.size()); for (auto &x : c) r += " " + str(x); return r; }
static void same(const Sub &w, const XSub &g, const string &key, const string &what, const string &path) { SAME(x); SAME(y); }
static void same(const Item &w, const XItem &g, const string &key, const string &what, const string &path)
{
    SAME(a); SAME(b); SAME(tag);
    if (w.text_known) SAME(text);
    same(w.sub, g.sub, key, what, path + "sub.");
    CHECK(w.kid.size() == g.kid.size(), key.c_str(), "%s: %skid has %zu items, expected %zu", what.c_str(), path.c_str(), g.kid.size(), w.kid.size());
    auto j = g.kid.begin(); int n = 0;
    for (auto &i : w.kid) same(i, *j++, key, what, path + fmt("kid[%d].", n++));
}
template <typename A, typename B> static void same_items(const A &w, const B &g, const string &key, const string &what, const string &path)
{
    CHECK(w.size() == g.size(), key.c_str(), "%s: %s has %zu items, expected %zu", what.c_str(), path.c_str(), g.size(), w.size());
    auto j = g.begin(); int n = 0;
    for (auto &i : w) same(i, *j++, key, what, path + fmt("[%d].", n++));
}
static void same(const Conf &w, const XConf &g, const string &key, const string &what)
{
    string path = "conf.";
    SAME(name); SAME(b); SAME(i32); SAME(u32); SAME(i64); SAME(u64); SAME(u8); SAME(f); SAME(d); SAME(ld); SAME(untouched); SAME(un); SAME(lname[0]); SAME(lname[1]); SAME(lname[2]);
    SAME(ls); SAME(vi); SAME(vd); SAME(lu);
    same_items(w.item, g.item, key, what, "conf.item"); same_items(w.vitem, g.vitem, key, what, "conf.vitem");
    same(w.one, g.one, key, what, "conf.one."); same(w.sub, g.sub, key, what, "conf.sub.");
}

// ---- ways to load ------------------------------------------------------------------------
static string tmpfile_name;
enum { WAYS = 4 };
static const char *const WAY[] = { "string", "buffer", "file", "pieces" };
// returns "" on success, otherwise the message
static string load(int way, const string &doc, XDoc &d, uint32_t seed)
{
    try
    {
        switch (way)
        {
        case 0: { ExactZ z(doc); d.load_from_string(z.p); break; }
        case 1: { Exact e(doc); d.load_from_string(e.p, e.n); break; }
        case 2: { write_file(tmpfile_name, doc); d.load_from_file(tmpfile_name.c_str()); break; }
        default:
        {
            coda::txml_parser p(&d);
            Rng r(seed); size_t i = 0;
            do
            {
                size_t n = 1 + r.below(r.chance(1, 4) ? 3 : r.chance(1, 2) ? 40 : 5000);
                if (n > doc.size() - i) n = doc.size() - i;
                Exact e(doc.substr(i, n)); i += n;
                p.parse(e.p, e.n, i == doc.size());
            } while (i < doc.size());
        }
        }
    }
    catch (const std::exception &e) { return string("!") + e.what(); }
    return "";
}

// expat without coda: is the document well formed?
struct Verdict { bool ok; long line, column; string why; };
static Verdict verdict(const string &doc)
{
    XML_Parser p = XML_ParserCreate("UTF-8"); Verdict v;
    v.ok = XML_Parse(p, doc.data(), (int) doc.size(), 1) != XML_STATUS_ERROR;
    v.line = (long) XML_GetCurrentLineNumber(p); v.column = (long) XML_GetCurrentColumnNumber(p);
    v.why = v.ok ? "" : XML_ErrorString(XML_GetErrorCode(p));
    XML_ParserFree(p);
    return v;
}
// the numbers in a text
static bool mentions(const string &s, long n)
{
    for (size_t i = 0; i < s.size(); )
    {
        if (!isdigit((unsigned char) s[i])) { ++i; continue; }
        size_t e = i; while (e < s.size() && isdigit((unsigned char) s[e])) ++e;
        if (strtol(s.c_str() + i, 0, 10) == n) return true;
        i = e;
    }
    return false;
}

// ---- document generator ------------------------------------------------------------------
#define MINE "an entity of\xC3\xA9 mine"
struct Doc
{
    In &in; string out; unsigned feat, most; bool entity, deep;
    std::set<string> names;
    explicit Doc(In &i): in(i), feat(0), most(0), entity(false), deep(false) { }
    enum { ENT = 1, CDATA = 2, CHARREF = 4, COMMENT = 8, UNKNOWN = 16, LONG = 32, ATTR = 64, NEST = 128, EMPTY = 256, REPEAT = 512, DRESSED = 1024, ENTDEF = 2048, DEEP = 4096, ENCODING = 8192 };

    void one(const string &ch, bool attr, char q)
    {
        unsigned char c = (unsigned char) ch[0];
        if (ch.size() == 1 && (in.chance(1, 25) || c == '\r' || (attr && (c == '\n' || c == '\t'))))
        {
            out += in.chance(1, 2) ? fmt("&#%u;", c) : fmt("&#x%X;", c); feat |= CHARREF; return;
        }
        switch (c)
        {
        case '&': out += "&amp;"; feat |= ENT; break;
        case '<': out += "&lt;"; feat |= ENT; break;
        case '>': out += "&gt;"; feat |= ENT; break;
        case '"': if (q == '"' || in.chance(1, 2)) { out += "&quot;"; feat |= ENT; } else out += ch; break;
        case '\'': if (q == '\'' || in.chance(1, 2)) { out += "&apos;"; feat |= ENT; } else out += ch; break;
        default: out += ch;
        }
    }
    static std::vector<string> chars(const string &s)
    {
        std::vector<string> v;
        for (size_t i = 0; i < s.size(); )
        {
            size_t n = (unsigned char) s[i] < 0x80 ? 1 : (unsigned char) s[i] < 0xE0 ? 2 : (unsigned char) s[i] < 0xF0 ? 3 : 4;
            v.push_back(s.substr(i, n)); i += n;
        }
        return v;
    }
    void text(const string &s)
    {
        if (entity && s == MINE && in.chance(2, 3)) { out += "&mine;"; feat |= ENTDEF; return; }
        std::vector<string> v = chars(s);
        size_t i = 0;
        if (s.size() > 1000) feat |= LONG;
        while (i < v.size())
        {
            if (s.size() < 200 && in.chance(1, 30)) { out += in.chance(1, 2) ? "<!-- a <b> & comment -->" : "<?pi some data?>"; feat |= COMMENT; }
            if (s.size() >= 200 && i < v.size() - 1)
            {
                // long text: mostly raw
                size_t n = std::min<size_t>(v.size() - i, 500);
                while (n--) { const string &c = v[i++]; if (strchr("&<>\"'\r", c[0])) one(c, false, 0); else out += c; }
                continue;
            }
            if (v[i] != "\r" && in.chance(1, 25))
            {
                size_t n = 1 + in.below(8); string c;
                while (n-- && i < v.size() && v[i] != "\r") c += v[i++];
                if (c.find("]]>") == string::npos) { out += "<![CDATA[" + c + "]]>"; feat |= CDATA; }
                else for (auto &x : chars(c)) one(x, false, 0);
                continue;
            }
            one(v[i++], false, 0);
        }
    }
    void attr(const string &n, const string &v)
    {
        char q = in.chance(1, 2) ? '"' : '\'';
        out += in.chance(1, 8) ? "\n  " : " "; out += n; out += in.chance(1, 8) ? " = " : "="; out += q;
        if (entity && v == MINE && in.chance(2, 3)) { out += "&mine;"; feat |= ENTDEF; }
        else for (auto &c : chars(v)) one(c, true, q);
        out += q; feat |= ATTR;
    }
    void ws() { if (in.chance(1, 3)) out += in.chance(1, 2) ? "\n\t" : " "; if (in.chance(1, 25)) { out += "<!-- c -->"; feat |= COMMENT; } }
    void leaf(const string &n, const string &v)
    {
        out += "<" + n;
        if (in.chance(1, 15)) attr("unknownattr", "value");
        if (in.chance(1, 300)) { for (unsigned k = 0, m = 20 + in.below(300); k < m; ++k) attr(fmt("ua%u", k), "v"); ev("elements of many attributes"); }
        if (v.empty() && in.chance(1, 2)) { out += in.chance(1, 2) ? "/>" : " />"; feat |= EMPTY; return; }
        out += ">"; text(v); out += "</" + n + (in.chance(1, 20) ? " >" : ">");
    }
    void unknown(unsigned depth)
    {
        static const char *const n[] = { "unk", "conf", "other", "nam", "names", "X", "Name" };
        static const char *const k[] = { "name", "i32", "item", "tag", "unk", "ls", "a", "text" };
        string e = in.pick(n);
        feat |= UNKNOWN;
        if (!depth && in.chance(1, 100))
        {
            // one in the other
            unsigned m = 30 + in.below(400); string end;
            for (unsigned k = 0; k < m; ++k) { out += "<" + e + ">"; end += "</" + e + ">"; }
            leaf("name", "99"); out += end; ev("elements nested hundreds deep"); return;
        }
        out += "<" + e; if (in.chance(1, 3)) attr("name", "wrong"); out += ">";
        if (depth < 3) for (unsigned i = in.below(3); i--; ) { if (in.chance(1, 3)) unknown(depth + 1); else leaf(in.pick(k), "99"); }
        out += "</" + e + ">";
        ws();
    }
    string gen_text()
    {
        if (entity && in.chance(1, 4)) return MINE;
        static const char *const w[] = { "plain", "a b  c", "", " lead", "trail ", "<&>\"'", "\xD0\xB9\xD1\x86\xD1\x83", "\xE2\x82\xAC\xF0\x9F\x98\x80", "line\nbreak", "tab\there", "]]>", "x]]y", "cr\rlf", "0", "-1" };
        string s = in.pick(w);
        for (unsigned k = in.below(4); k-- > 1; ) s += in.pick(w);
        if (in.chance(1, 40) && in.more()) { size_t n = opt.phase == "rand" && in.chance(1, 10) ? 65500 + in.below(3000) : 900 + in.below(9000); string p = in.pick(w); if (p.empty()) p = "z"; while (s.size() < n) s += p; }
        return s;
    }
    void sub(Sub &s, const char *name)
    {
        out += string("<") + name;
        bool ax = in.chance(1, 3), ay = in.chance(1, 3), ex = !ax && in.chance(3, 4), ey = !ay && in.chance(3, 4);
        string x = gen_text(); int32_t y = (int32_t) in.u32();
        if (ax || ex) s.x = x;
        if (ay || ey) s.y = y;
        if (ax) attr("x", x);
        if (ay) attr("y", fmt("%d", y));
        if (!ex && !ey && in.chance(1, 2)) { out += "/>"; return; }
        out += ">"; ws();
        if (in.chance(1, 8)) unknown(0);
        if (ey) { leaf("y", fmt("%d", y)); ws(); }
        if (ex) { leaf("x", x); ws(); }
        out += string("</") + name + ">";
        feat |= NEST;
    }
    void item(Item &t, const char *name, unsigned depth)
    {
        if (!depth) { deep = in.chance(1, 60); most = in.chance(1, 6) ? 250 + in.below(20) : 40; }
        out += string("<") + name;
        if (in.chance(1, 2)) { t.a = gen_text(); attr("a", t.a); }
        if (in.chance(1, 2)) { t.b = (int32_t) in.u16() - 30000; attr("b", fmt("%d", t.b)); }
        if (in.chance(1, 6)) { string g = gen_text(); t.tag.push_back(g); attr("tag", g); }
        if (!deep && in.chance(1, 2))
        {
            t.text = gen_text(); t.text_known = true;
            if (t.text.empty() && in.chance(1, 2)) { out += "/>"; return; }
            out += ">"; text(t.text);
        }
        else
        {
            t.text_known = false;
            out += ">"; ws();
            for (unsigned k = deep && depth < most ? 1 : in.below(deep ? 1 : 5); k--; )
            {
                switch (deep ? 5 : in.below(6))
                {
                case 0: case 1: { string g = gen_text(); t.tag.push_back(g); leaf("tag", g); break; }
                case 2: sub(t.sub, "sub"); break;
                case 3: t.b = (int32_t) in.u16(); leaf("b", fmt("%d", t.b)); break;
                case 4: unknown(0); break;
                default: if (depth < 3 || deep) { if (depth > 20) feat |= DEEP; t.kid.push_back(Item()); item(t.kid.back(), "kid", depth + 1); feat |= NEST; }
                }
                ws();
            }
        }
        out += string("</") + name + ">";
    }
    static string num(In &in, int64_t v, bool neg) { (void) in; return neg ? fmt("%lld", (long long) v) : fmt("%llu", (unsigned long long) v); }
    uint64_t pick64() { switch (in.below(5)) { case 0: return in.below(300); case 1: return ~(uint64_t) 0 - in.below(3); case 2: return (1ull << in.below(64)) - in.below(2); default: return in.u64(); } }
    static string bool_text(In &in, bool v)
    {
        static const char *const t[] = { "true", "on", "yes", "1", "TRUE", "On", "YES", "-5", "42", "256", "65536", "4294967296", "-2147483648" };
        static const char *const f[] = { "false", "off", "no", "0", "FALSE", "Off", "NO", "00", "", "maybe", "once", "trues", "yesterday" };
        return v ? in.pick(t) : in.pick(f);
    }
    static string dbl(In &in, double &v)
    {
        if (in.chance(1, 8)) { static const char *const t[] = { "1e3", "-.5", "2.5E-3", "1.", "+7e+2", "-0" }; const char *x = in.pick(t); v = strtod(x, 0); return x; }
        switch (in.below(4)) { case 0: v = (double) (int32_t) in.u32(); break; case 1: v = (int32_t) in.u32() / 1024.0; break; case 2: v = (int16_t) in.u16() * 1e10; break; default: v = in.below(1000) * 1e-5; }
        return fmt("%.17g", v);
    }
    // a number as people write it: signs, zeros and white space around it
    string dress(string v)
    {
        if (!in.chance(1, 6)) return v;
        bool neg = v[0] == '-'; string d = neg || v[0] == '+' ? v.substr(1) : v;
        if (in.chance(1, 2)) d = string(1 + in.below(3), '0') + d;
        v = neg ? "-" + d : in.chance(1, 3) ? "+" + d : d;
        static const char *const w[] = { "", " ", "\n\t", "  \n", "\r\n" };
        feat |= DRESSED;
        return in.pick(w) + v + in.pick(w);
    }
    // one member; as attribute (returns false when it cannot be one) or element
    bool member(Conf &c, bool as_attr)
    {
        string n, v;
        switch (in.below(as_attr ? 12 : 20))
        {
        case 0: n = "name"; v = c.name = gen_text(); break;
        case 1: n = "b"; c.b = in.chance(1, 2); v = bool_text(in, c.b); break;
        case 2: n = "i32"; c.i32 = (int32_t) pick64(); v = dress(fmt("%d", c.i32)); break;
        case 3: n = "u32"; c.u32 = (uint32_t) pick64(); v = dress(fmt("%u", c.u32)); break;
        case 4: n = "i64"; c.i64 = (int64_t) pick64(); v = dress(fmt("%lld", (long long) c.i64)); break;
        case 5: n = "u64"; c.u64 = pick64(); v = dress(fmt("%llu", (unsigned long long) c.u64)); break;
        case 6: n = "u8"; c.u8 = in.u8(); v = dress(fmt("%u", c.u8)); break;
        case 7:
        {
            double x; n = "f"; dbl(in, x); c.f = (float) x; v = dress(fmt("%.9g", (double) c.f));
            if (in.chance(1, 4))
            {
                // close to the middle of two numbers: more digits than a double holds decide
                float a = (float) (1 + in.below(0xffffff)) * (in.chance(1, 2) ? 1.f : 1 / 1024.f), b = std::nextafter(a, 1e30f); bool up = in.chance(1, 2);
                v = fmt("%.40f", ((double) a + b) / 2); v.resize(v.find_last_not_of('0') + 1);
                if (up) { v += string(in.below(20), '0') + "1"; c.f = b; } else { v.back()--; v += string(20 + in.below(20), '9'); c.f = a; }
                feat |= DRESSED;
            }
            break;
        }
        case 8: n = "d"; v = dress(dbl(in, c.d)); break;
        case 9: { n = "ld"; c.ld = (long double) (int64_t) pick64() / 1024; v = dress(fmt("%.21Lg", c.ld)); break; }
        case 10: n = "ls"; v = gen_text(); if (as_attr && names.count(n)) return false; c.ls.push_back(v); break;
        case 11: { n = "vi"; if (as_attr && names.count(n)) return false; int32_t x = (int32_t) in.u32(); c.vi.push_back(x); v = dress(fmt("%d", x)); break; }
        case 12: { n = "vd"; double x; v = dbl(in, x); c.vd.push_back(x); break; }
        case 13: { n = "lu"; uint64_t x = pick64(); c.lu.push_back(x); v = dress(fmt("%llu", (unsigned long long) x)); break; }
        case 14: case 15: c.item.push_back(Item()); item(c.item.back(), "item", 0); return true;
        case 16: c.vitem.push_back(Item()); item(c.vitem.back(), "vitem", 0); return true;
        case 17: item(c.one, "one", 0); return true;
        case 18: sub(c.sub, "sub"); return true;
        default:
            if (in.chance(1, 4))
            {
                // one of the long names, or nearly
                int k = (int) in.below(3); n = LNAME(k); v = gen_text();
                if (in.chance(1, 3)) { if (in.chance(1, 2)) n += "y"; else n[n.size() - 1] = 'z'; } else c.lname[k] = v;
                break;
            }
            unknown(0); return true;
        }
        if (!as_attr && names.count(n)) feat |= REPEAT;
        names.insert(n);
        if (as_attr) attr(n, v); else leaf(n, v);
        return true;
    }
    void conf(Conf &c)
    {
        if (in.chance(1, 3))
        {
            static const char *const p[] = { "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n",
                                             "<?xml version='1.0' encoding='ISO-8859-1'?>\n", "<?xml version=\"1.0\" encoding=\"koi8-r\"?>" };
            const char *x = in.pick(p); out += x; if (strstr(x, "ISO") || strstr(x, "koi")) feat |= ENCODING;
        }
        else if (in.chance(1, 10)) out += "\xEF\xBB\xBF";
        if (in.chance(1, 8))
        {
            if (in.chance(1, 2)) out += "<!DOCTYPE conf>\n";
            else { out += "<!DOCTYPE conf [<!ENTITY mine \"" MINE "\">\n<!-- c --> ]>\n"; entity = true; }
        }
        if (in.chance(1, 8)) out += "<!-- first -->";
        out += "<conf";
        if (in.chance(1, 60)) { for (unsigned k = 0, m = 20 + in.below(300); k < m; ++k) attr(fmt("ua%u", k), "v"); ev("elements of many attributes"); }
        // attributes must be unique: take the fresh ones only
        for (unsigned k = in.below(4); k--; )
        {
            string saved = out; Conf keep = c; std::set<string> kn = names;
            if (!member(c, true) || names.size() == kn.size()) { out = saved; c = keep; names = kn; }
        }
        out += ">"; ws();
        unsigned n = in.below(in.chance(1, 20) ? 120 : 12);
        for (unsigned k = 0; k < n; ++k) { member(c, false); ws(); }
        if (in.chance(1, 60))
        {
            // long lists of structures, of which some say little
            for (unsigned k = 0, m = 200 + in.below(400), v = in.below(2); k < m; ++k)
            {
                string nm = v ? "vitem" : "item"; if (v) c.vitem.push_back(Item()); else c.item.push_back(Item());
                Item &x = v ? c.vitem.back() : c.item.back(); out += "<" + nm;
                if (k % 3) { x.b = (int32_t) k; out += fmt(" b='%u'", k); }
                out += ">"; if (k % 5) { x.text = fmt("item %u", k); out += x.text; }
                out += "</" + nm + ">";
            }
            ev("lists of hundreds of structures");
        }
        if (in.chance(1, 30))
        {
            // bring the document to a size around the file buffer's multiples
            size_t want = 4096 * (1 + in.below(3)) - 9 + in.below(20);
            string end = "</conf>";
            if (out.size() + end.size() + 7 < want) out += "<!--" + string(want - out.size() - end.size() - 7, '.') + "-->";
        }
        out += "</conf>";
        if (in.chance(1, 8)) out += "\n<!-- last -->\n";
    }
};

static void loads(const string &doc, const Conf &w, uint32_t seed)
{
    for (int way = 0; way < WAYS; ++way)
    {
        int fds = open_fds();
        std::unique_ptr<XDoc> d(new XDoc);
        string r = load(way, doc, *d, seed);
        CHECK(r.empty(), "rejected", "loading from %s of %s: %s", WAY[way], show(doc, 600).c_str(), r.c_str());
        same(w, d->conf, string("value"), fmt("loading from %s of %s", WAY[way], show(doc, 600).c_str()));
        CHECK(open_fds() == fds, "fd-leak", "loading from %s leaks a descriptor", WAY[way]);
        ev("documents loaded");
        if (way == 2 && doc.size() > 4096) ev("files above one buffer");
        if (way == 2 && doc.size() % 4096 == 0) ev("files of whole buffers");
    }
}
static void judged(const string &doc, uint32_t seed)
{
    Verdict v = verdict(doc); bool ok = v.ok;
    string message;
    for (int way = 0; way < WAYS; ++way)
    {
        if (way == 0 && doc.find('\0') != string::npos) continue;
        int fds = open_fds();
        std::unique_ptr<XDoc> d(new XDoc);
        string r = load(way, doc, *d, seed);
        CHECK(r.empty() == ok, ok ? "rejected" : "accepted", "loading from %s of %s: %s, expat finds it %s", WAY[way], show(doc, 400).c_str(), r.empty() ? "accepted" : r.c_str(), ok ? "well formed" : "malformed");
        CHECK(open_fds() == fds, "fd-leak", "loading from %s of %s leaks a descriptor", WAY[way], show(doc, 200).c_str());
        CHECK(ok || r.size() > 1, "no-message", "the exception has no text");
        // (in pieces expat may notice another error first)
        if (!ok && way == 2) CHECK(r.find(tmpfile_name) != string::npos, "file-name", "loading from a file of %s: '%s' does not name the file", show(doc, 200).c_str(), S(r));
        if (!ok && (way < 2 || (way == 2 && doc.size() < 4096)))
        {
            CHECK(r.find(v.why) != string::npos, "message", "loading from %s of %s: '%s' does not tell the error, %s", WAY[way], show(doc, 400).c_str(), S(r), S(v.why));
            CHECK(mentions(r, v.line) && mentions(r, v.column), "position", "loading from %s of %s: '%s', the error is on line %ld, column %ld", WAY[way], show(doc, 400).c_str(), S(r), v.line, v.column);
            if (v.line > 40000) ev("errors beyond line 40 000");
        }
        if (ok)
        {
            // all ways give the same members
            string k = d->conf.name + "|" + str(d->conf.ls) + "|" + str(d->conf.vi) + fmt("|%d|%zu|%zu|", d->conf.i32, d->conf.item.size(), d->conf.vitem.size()) + d->conf.one.text;
            if (way && !message.empty()) CHECK(k == message, "ways-differ", "loading from %s of %s differs from another way: %s / %s", WAY[way], show(doc, 400).c_str(), S(k), S(message));
            message = k;
        }
    }
    ev(ok ? "arbitrary texts that are well formed" : "malformed texts refused");
}

void vp_case(In &in)
{
    Conf w; Doc d(in);
    d.conf(w);
    uint32_t seed = in.u32();
    sig(hash(d.out));
    switch (in.below(8))
    {
    case 0: case 1:
    {
        // break it
        string s = d.out;
        for (unsigned k = 1 + in.below(3); k--; )
        {
            size_t at = in.below(s.size() + 1);
            switch (in.below(7))
            {
            case 0: s.resize(at); break;
            case 1: if (at < s.size()) s.erase(at, 1 + in.below(5)); break;
            case 2: s.insert(at, in.bytes(1, "<>&\"'/=;! ")); break;
            case 3: s.insert(at, in.bytes(1 + in.below(3))); break;
            case 4: if (at < s.size()) s[at] = (char) in.u8(); break;
            case 5: s.insert(at, in.chance(1, 2) ? "</conf>" : "<unclosed>"); break;
            default: s += in.chance(1, 3) ? "trailing" : in.chance(1, 2) ? string("\0junk<", 6) : "<conf/>";
            }
        }
        if (opt.phase == "rand" && in.chance(1, 150)) { size_t at = s.find("<conf"); if (at != string::npos) s.insert(at, string(in.below(90000), '\n') + string(in.below(70000), ' ')); if (s.compare(0, 5, "<?xml") && s.compare(0, 1, "\xEF")) s = "<!--c-->" + s; }
        sig(hash(s)); judged(s, seed); mark();
        break;
    }
    case 2:
    {
        string s = in.chance(1, 4) ? "" : in.chance(1, 2) ? "<conf><ls>" + in.bytes(in.len(200)) + "</ls></conf>" : in.bytes(in.len(60), "<conf/>ab=' ");
        sig(hash(s)); judged(s, seed); mark();
        break;
    }
    case 3:
    {
        if (!in.chance(1, 6)) goto faithful;
        // files that cannot be read
        static const char *const bad[] = { "/nonexistent/file.xml", ".", "/proc/self/mem", "", "/dev/null", "/dev/null/x" };
        string f = in.pick(bad);
        if (in.chance(1, 8)) f = "/nonexistent/" + string(in.chance(1, 2) ? 250 : 3000 + in.below(3000), 'n');
        int fds = open_fds();
        XDoc x; bool thrown = false;
        try { x.load_from_file(f.c_str()); } catch (const std::exception &e) { thrown = *e.what() != 0; }
        CHECK(thrown, "unreadable", "loading the file %s raised nothing", S(f));
        CHECK(open_fds() == fds, "fd-leak", "loading the file %s leaks a descriptor", S(f));
        same(Conf(), x.conf, "value", "after loading an unreadable file");
        ev("unreadable files"); sig(hash(f)); mark();
        break;
    }
    default:
    faithful:
        loads(d.out, w, seed);
        if (d.feat & Doc::ENT) ev("documents with entities");
        if (d.feat & Doc::CDATA) ev("documents with CDATA");
        if (d.feat & Doc::CHARREF) ev("documents with character references");
        if (d.feat & Doc::UNKNOWN) ev("documents with unknown elements");
        if (d.feat & Doc::DRESSED) ev("documents with signs, zeros or white space around numbers");
        if (d.feat & Doc::ENTDEF) ev("documents using an entity of their own");
        if (d.feat & Doc::DEEP) ev("documents nested deeper than 20");
        if (d.feat & Doc::ENCODING) ev("documents declaring another encoding");
        if (d.feat & Doc::LONG) ev("documents with long text");
        if (d.feat & Doc::NEST) ev("documents with nested structures");
        if (w.item.size() + w.vitem.size() + w.vi.size() + w.ls.size() > 3) ev("documents with several list items");
        if (d.feat) mark();
        if (want_sample() && d.feat & Doc::NEST) sample("%s", show(d.out, 400).c_str());
    }
}

// exhaustive: every split of a document into two pieces; file sizes around the buffer
static std::vector<std::pair<string, Conf>> docs;
static void prepare()
{
    if (!docs.empty()) return;
    for (uint64_t s = 1; docs.size() < 40; ++s)
    {
        static Current c; c.len = 0;
        Rng r(s); In in(&r, &c);
        Conf w; Doc d(in); d.conf(w);
        if (d.out.size() > 900 || d.out.size() < 60) continue;
        docs.push_back(std::make_pair(d.out, w));
    }
}
static const int NF = 400;
uint64_t vp_exh_count(bool) { prepare(); uint64_t n = NF; for (auto &d : docs) n += d.first.size() + 1; return n; }
void vp_exh(uint64_t i)
{
    prepare();
    if (i < NF)
    {
        // text of every length around the file buffer's multiples, element or document reaching the boundary
        size_t base = 4096 * (1 + (i / 100) % 4), len = base - 60 + i % 100;
        Conf w; string t(len, 'q');
        for (size_t k = 0; k < len; ++k) t[k] = (char) ('a' + k % 26);
        w.name = t; w.vi.push_back(5);
        loads("<conf><name>" + t + "</name><vi>5</vi></conf>", w, (uint32_t) i);
        string pad = "<conf><vi>7</vi><!--"; string end = "--><ls>x&amp;y</ls></conf>";
        Conf w2; w2.vi.push_back(7); w2.ls.push_back("x&y");
        if (len > pad.size() + end.size()) loads(pad + string(len - pad.size() - end.size(), '-' + 1) + end, w2, (uint32_t) i);
        sig(len); mark();
        return;
    }
    i -= NF;
    size_t k = 0;
    while (i > docs[k].first.size()) { i -= docs[k].first.size() + 1; ++k; }
    const string &s = docs[k].first;
    {
        std::unique_ptr<XDoc> x(new XDoc);
        coda::txml_parser p(x.get());
        try { Exact a(s.substr(0, i)), b(s.substr(i)); p.parse(a.p, a.n, false); p.parse(b.p, b.n, true); }
        catch (const std::exception &e) { CHECK(false, "rejected", "in two pieces at %zu, %s: %s", (size_t) i, show(s, 600).c_str(), e.what()); }
        same(docs[k].second, x->conf, string("value"), fmt("in two pieces at %zu, %s", (size_t) i, show(s, 600).c_str()));
        ev("documents loaded in two pieces");
    }
    if (i < s.size()) judged(s.substr(0, i), (uint32_t) i);
    sig(k); sig(i); mark();
}

void vp_init() { tmpfile_name = opt.dir + "/doc.xml"; }

// ---- texts longer than expat's own lengths ------------------------------------------------------------------------------------
void vp_custom()
{
    string doc = "<conf><name>long</name></conf>\n\n"; Rng r(opt.seed);
    const string comment = "<!--filling!-->\n", space = " ", zero(1, '\0');      // 16 bytes, as half of the document
    struct { const char *what; string head, fill; size_t size; string tail; bool ok; } t[] = {
        { "followed by 2 GiB of comments", doc, comment, ((size_t) 1 << 31) + 16 * r.below(100), "", true },
        { "followed by 2 GiB of comments and rubbish", doc, comment, ((size_t) 1 << 31) + 320 + r.below(100), "<x>", false },
        { "followed by zeros, 4 GiB longer than it", doc, zero, ((size_t) 1 << 32) + doc.size(), "", false },
        { "followed by white space and rubbish, 4 GiB longer than it", doc, space, ((size_t) 1 << 32) + doc.size() + 3, "&", false },
        { "beginning in the first and ending in the third GiB", "<conf><un>1</un>", comment, ((size_t) 1 << 31) + 160, "<name>long</name></conf>        ", true },
    };
    size_t k = opt.shard;
    for (; k < sizeof t / sizeof *t; k += opt.shards)
    {
        if (!opt.thorough && (k == 1 || k == 4)) continue;
        Long l(t[k].head, t[k].fill, t[k].size, t[k].tail); XDoc d; bool threw = false; string why;
        try { if (t[k].fill != zero && (k & 1)) d.load_from_string(l.p); else d.load_from_string(l.p, l.n); } catch (const std::exception &e) { threw = true; why = e.what(); }
        if (t[k].ok) CHECK(!threw && d.conf.name == "long", "long-text", "a document %s cannot be loaded: %s", t[k].what, why.c_str());
        else CHECK(threw, "long-text", "a document %s is loaded", t[k].what);
        evaluated(1); distinct(hash(t[k].what, strlen(t[k].what))); ev("texts above 2 GiB");
    }
}
