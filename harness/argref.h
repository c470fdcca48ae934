// A parser with one option of every kind, and an independent reading of the documented grammar to compare it with.
#pragma once
#include "amsym.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <string>
#include <vector>
#include <amtl/experimental/am-argparser.cpp>
using namespace ke::args;
typedef std::string Text;
typedef std::vector<std::string> Texts;
enum Kind { STR, INT, BOOL, ENABLE, TOGGLE, STOP, REP };
struct Spec { const char* s; const char* l; Kind k; };
static const Spec kSpecs[] = {{"s", "str", STR}, {"n", "num", INT}, {"b", "bool", BOOL}, {"e", "en", ENABLE}, {"t", nullptr, TOGGLE},
                              {"x", "stop", STOP}, {"r", "rep", REP}, {"kw", nullptr, STR}, {"f", "no-f", BOOL}, {nullptr, "f", ENABLE}};
static const int kN = sizeof kSpecs / sizeof kSpecs[0];
struct Cfg { bool inl, slash, extra, pass, help; int npos; bool defEnable, defToggle; int defs; int defInt; };
// A configuration switch: either way, unless this run fixes it (the runs of one check share the work).
static bool flag(const char* param, const char* name) { int v = (int)amsym_param(param, 2); return v == 2 ? amsym_bool(name) : v != 0; }
static Cfg anyCfg(bool help, int npos) {
    Cfg c;
    c.inl = flag("inl", "inline values");
    c.slash = flag("slash", "slashes");
    c.extra = flag("extra", "collect extra");
    c.pass = flag("pass", "passthrough");
    c.help = help && flag("help", "help");
    c.npos = npos ? amsym_choice(npos + 1, "positionals") : 0;
    c.defEnable = amsym_any<uint8_t>("enable default") & 1;
    c.defToggle = amsym_any<uint8_t>("toggle default") & 1;
    c.defs = amsym_bool("defaults");
    c.defInt = amsym_any<int>("int default");
    return c;
}
struct Val { bool set = false, b = false; int i = 0; Text s; Texts v; };
struct Outcome {
    bool ok = false;
    Val o[kN], pos[2];
    Texts extra, pass;
};
static bool eq(const char* a, size_t an, const char* b) {
    size_t n = strlen(b);
    if (n != an) return false;
    unsigned d = 0;
    for (size_t i = 0; i < n; i++) d |= (unsigned char)(a[i] ^ b[i]);
    return d == 0;
}
static bool eq(const Text& a, const char* b) { return eq(a.data(), a.size(), b); }
static bool eqNoCase(const Text& a, const char* b) {
    size_t n = strlen(b);
    if (n != a.size()) return false;
    unsigned d = 0;
    for (size_t i = 0; i < n; i++) d |= (unsigned)((a[i] ^ b[i]) & ~0x20);     // b is all letters
    return d == 0;
}
// A decimal integer: blanks, a sign, digits.
static bool readInt(const Text& t, int* out) {
    size_t i = 0;
    while (i < t.size() && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) i++;
    bool neg = false;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    if (i == t.size()) return false;
    uint64_t v = 0;
    unsigned digits = 0;
    for (; i < t.size(); i++) {
        int ch = (unsigned char)t[i];
        if (ch < '0' || ch > '9') return false;
        if (digits || ch != '0') digits++;
        if (digits <= 15) v = v * 10 + (ch - '0');
    }
    int64_t n = neg ? -(int64_t)v : (int64_t)v;
    if (digits > 15 || n < -2147483648ll || n > 2147483647ll) return false;
    *out = (int)n;
    return true;
}
// Gives a value of kind k its text (or none); false if the text is not acceptable.
static bool take(Kind k, Val& v, const Text* t, bool def) {
    switch (k) {
    case STR: if (t->empty()) return false; v.s = *t; break;
    case REP: if (t->empty()) return false; v.v.push_back(*t); break;
    case INT: { int i; if (!readInt(*t, &i)) return false; v.i = i; break; }
    case BOOL:
        if (!t || eqNoCase(*t, "true")) v.b = true;
        else if (eqNoCase(*t, "false")) v.b = false;
        else return false;
        break;
    case ENABLE: v.b = true; break;
    case TOGGLE: case STOP: v.b = !def; break;
    }
    v.set = true;
    return true;
}
static Kind posKind(int i) { return i ? INT : STR; }
static bool reference(const Cfg& c, const Texts& av, Outcome& r) {
    size_t pos = 0;
    bool passing = false, help = false;
    for (size_t i = 0; i < av.size(); i++) {
        const Text& a = av[i];
        if (passing) { r.pass.push_back(a); continue; }
        if (c.pass && eq(a, "--")) { passing = true; continue; }
        bool dash = a.size() && a[0] == '-';
        if (!dash && !(c.slash && a.size() && a[0] == '/')) {
            if (pos < (size_t)c.npos) {
                if (!take(posKind((int)pos), r.pos[pos], &a, false)) return false;
                pos++;
            } else if (c.extra) r.extra.push_back(a);
            else return false;
            continue;
        }
        bool isLong = dash && a.size() > 1 && a[1] == '-';
        // The value, when one is attached with a separator.
        size_t name = isLong ? 2 : 1, end = a.size();
        bool has = false;
        Text value;
        for (size_t j = name; j < a.size(); j++) {
            if (a[j] != '=' && !(c.inl && a[j] == ':')) continue;
            if (c.inl && j + 1 == a.size()) break;
            end = j;
            has = true;
            value = a.substr(j + 1);
            break;
        }
        int opt = -1;
        bool negated = false, helpOpt = false;
        const char* key = a.data() + name;
        size_t klen = end - name;
        if (c.help && (isLong ? eq(key, klen, "help") : eq(key, klen, "h"))) helpOpt = true;
        for (int k = 0; k < kN && opt < 0 && !helpOpt; k++) {
            const char* form = isLong ? kSpecs[k].l : kSpecs[k].s;
            if (form && eq(key, klen, form)) opt = k;
        }
        if (opt < 0 && !helpOpt && !isLong && c.inl && a.size() > 1) {
            if (c.help && a[1] == 'h') helpOpt = true;
            for (int k = 0; k < kN && opt < 0 && !helpOpt; k++)
                if (kSpecs[k].s && !kSpecs[k].s[1] && kSpecs[k].s[0] == a[1]) opt = k;
            if (helpOpt || opt >= 0) { has = a.size() > 2; value = a.substr(2); }
        }
        if (opt < 0 && !helpOpt && isLong && klen > 3 && eq(key, 3, "no-"))
            for (int k = 0; k < kN && opt < 0; k++)
                if (kSpecs[k].l && eq(key + 3, klen - 3, kSpecs[k].l)) {
                    if (kSpecs[k].k != ENABLE) break;
                    opt = k;
                    negated = true;
                }
        if (helpOpt) { if (has) return false; help = true; break; }
        if (opt < 0) return false;
        Kind kind = kSpecs[opt].k;
        Val& v = r.o[opt];
        if (v.set && kind != REP) return false;
        if (kind == ENABLE || kind == TOGGLE || kind == STOP) {
            if (has) return false;
            take(kind, v, nullptr, kind == TOGGLE ? c.defToggle : false);
            if (negated) v.b = false;
            if (kind == STOP) return r.ok = true;
        } else if (has) {
            if (!take(kind, v, &value, false)) return false;
        } else if (i + 1 < av.size() && take(kind, v, &av[i + 1], false)) {
            i++;
        } else if (kind != BOOL) return false;
        else take(BOOL, v, nullptr, false);
    }
    if (help) return false;
    return r.ok = pos == (size_t)c.npos;
}
// The real thing.
struct Real {
    std::unique_ptr<Parser> p;
    std::unique_ptr<StringOption> s, kw;
    std::unique_ptr<IntOption> n;
    std::unique_ptr<Option<bool>> b, nf;
    std::unique_ptr<EnableOption> e, f;
    std::unique_ptr<ToggleOption> t;
    std::unique_ptr<StopOption> x;
    std::unique_ptr<RepeatOption<std::string>> r;
    std::unique_ptr<StringOption> p1;
    std::unique_ptr<IntOption> p2;
    const Cfg c;
    explicit Real(const Cfg& cfg) : c(cfg) {
        p = c.help ? std::make_unique<Parser>("Help.") : std::make_unique<Parser>();
        ke::Maybe<std::string> ds;
        ke::Maybe<int> di;
        if (c.defs) { ds = ke::Some(std::string("dflt")); di = ke::Some(c.defInt); }
        if (c.npos > 0) p1 = std::make_unique<StringOption>(*p, "one", "First.");
        if (c.npos > 1) p2 = std::make_unique<IntOption>(*p, "two", "Second.");
        s = std::make_unique<StringOption>(*p, "s", "str", ds, "A string.");
        n = std::make_unique<IntOption>(*p, "-n", "--num", di, "A number.");
        b = std::make_unique<Option<bool>>(*p, "b", "bool", ke::Maybe<bool>(), "A boolean.");
        e = std::make_unique<EnableOption>(*p, "e", "en", c.defEnable, "A switch.");
        t = std::make_unique<ToggleOption>(*p, "t", nullptr, ke::Some((bool)c.defToggle), "A toggle.");
        x = std::make_unique<StopOption>(*p, "x", "stop", ke::Maybe<bool>(), "Stops.");
        r = std::make_unique<RepeatOption<std::string>>(*p, "r", "rep", "Repeats.");
        kw = std::make_unique<StringOption>(*p, "kw", nullptr, ke::Maybe<std::string>(), "A long short form.");
        nf = std::make_unique<Option<bool>>(*p, "f", "no-f", ke::Maybe<bool>(), "A boolean that reads like a negation.");
        f = std::make_unique<EnableOption>(*p, nullptr, "f", c.defEnable, "A switch without a short form.");
        if (c.inl) p->enable_inline_values();
        if (c.slash) p->allow_slashes();
        if (c.extra) p->collect_extra_args();
        if (c.pass) p->allow_passthrough_args();
    }
};
static bool same(const Text& a, const Text& b) {
    if (a.size() != b.size()) return false;
    unsigned d = 0;
    for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]);
    return d == 0;
}
static bool same(const Texts& a, const Texts& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
    return true;
}
// Values after a successful parse.
static void compare(Real& R, const Outcome& w) {
    const Cfg& c = R.c;
    const Val* o = w.o;
    CHECKM(R.s->hasValue() == (o[0].set || c.defs), "a string option has a value when given one or a default");
    if (R.s->hasValue()) CHECKM(same(R.s->value(), o[0].set ? o[0].s : Text("dflt")), "a string option holds exactly the text given, or its default");
    CHECKM(R.n->hasValue() == (o[1].set || c.defs), "an integer option has a value when given one or a default");
    if (R.n->hasValue()) CHECKM(R.n->value() == (o[1].set ? o[1].i : c.defInt), "an integer option holds exactly the number given, or its default");
    auto maybe = R.n->maybeValue();
    CHECKM(maybe.isValid() == (o[1].set || c.defs) && (!maybe.isValid() || maybe.get() == R.n->value()), "maybeValue agrees with value");
    CHECKM(R.b->hasValue() == o[2].set && (!o[2].set || R.b->value() == o[2].b), "a boolean option holds exactly what was given");
    CHECKM(R.e->value() == (o[3].set ? o[3].b : c.defEnable), "an enable option holds what was given, or its default");
    CHECKM(R.t->value() == (o[4].set ? !c.defToggle : c.defToggle), "a toggle is flipped exactly when given");
    CHECKM(R.x->value() == o[5].set, "a stop option is set exactly when given");
    CHECKM(same(R.r->values(), o[6].v), "a repeated option holds every value in order");
    CHECKM(R.kw->hasValue() == o[7].set && (!o[7].set || same(R.kw->value(), o[7].s)), "an option with a longer short form holds what was given");
    CHECKM(R.nf->hasValue() == o[8].set && (!o[8].set || R.nf->value() == o[8].b), "an option whose long form starts with no- holds what was given");
    CHECKM(R.f->value() == (o[9].set ? o[9].b : c.defEnable), "a switch without a short form holds what was given, or its default");
    if (c.npos > 0) CHECKM(R.p1->hasValue() == w.pos[0].set && (!w.pos[0].set || same(R.p1->value(), w.pos[0].s)), "the first positional holds its argument");
    if (c.npos > 1) CHECKM(R.p2->hasValue() == w.pos[1].set && (!w.pos[1].set || R.p2->value() == w.pos[1].i), "the second positional holds its argument");
    CHECKM(same(R.p->extra_args(), w.extra), "extra arguments are collected verbatim and in order");
    CHECKM(same(R.p->passthrough_args(), w.pass), "passthrough arguments are collected verbatim and in order");
}
// Arguments the parser sees are heap copies of exactly their size, so that reading past one is seen.
struct Argv {
    std::vector<const char*> v;
    explicit Argv(const Texts& t) {
        for (auto& s : t) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); v.push_back(p); }
    }
    ~Argv() { for (auto p : v) free((void*)p); }
};
static Text anyText(unsigned n, const char* name) {
    Text s(n, 'a');
    for (unsigned i = 0; i < n; i++) { char ch = amsym_any<char>(name); amsym_assume(ch != 0); s[i] = ch; }
    return s;
}
static Text upTo(unsigned max, const char* name) { return anyText((unsigned)amsym_choice(max + 1, "length"), name); }
