#include "argref.h"
// Whatever was parsed before, a parse after reset() is the parse of a fresh parser.
static Text token() {
    static const char* const kFixed[] = {"-s", "-n", "-b", "-e", "--no-en", "-t", "-x", "-r", "-s=v", "-n=5", "--", "-f", "-h"};
    const int n = sizeof kFixed / sizeof *kFixed;
    int k = amsym_choice(n + 1, "token");
    return k < n ? Text(kFixed[k]) : anyText(1, "byte");
}
static Texts line(int n) { Texts t; for (int i = 0; i < n; i++) t.push_back(token()); return t; }
static Text usageOf(Parser& p) {
    FILE* f = amsym_out_open();
    char* argv[] = {(char*)"prog"};
    p.usage(f, 1, argv);
    Text t = amsym_out_text(f);
    amsym_out_close(f);
    return t;
}
static void run(Cfg c, const Texts& before, const Texts& after) {
    Real R(c);
    bool ok;
    { Argv a(before); R.p->parse(a.v); }
    R.p->reset();
    { Argv a(after); ok = R.p->parse(a.v); }
    Outcome w;
    bool want = reference(c, after, w);
    CHECKM(ok == want, "after reset, parsing succeeds exactly when a fresh parser would");
    if (ok) { compare(R, w); COVER("accepted"); } else COVER("rejected");
}
ENTRY(history) {
    amsym_mark_heap();
    {
        Cfg c = anyCfg(true, 1);
        c.defs = false;
        c.inl = false;
        c.slash = false;
        Texts before = line((int)amsym_param("before", 2)), after = line((int)amsym_param("after", 1));
        run(c, before, after);
    }
    amsym_check_leaks();
}
// What is left over also includes outcomes nobody looks at until the parser fails or succeeds: compare with a fresh parser,
// values included, even when the parse fails, and what usage() has to say about it.
ENTRY(against_fresh) {
    amsym_mark_heap();
    {
        Cfg c = anyCfg(true, 1);
        c.inl = c.slash = false;
        Texts before = line(1), after = line((int)amsym_param("after", 1));
        Real R(c), F(c);
        R.p->parse(before);
        R.p->reset();
        bool nothing = amsym_bool("nothing parsed");
        bool ok = nothing || R.p->parse(after), fresh = nothing || F.p->parse(after);
        CHECKM(ok == fresh, "the outcome is that of a fresh parser");
        CHECK(R.s->hasValue() == F.s->hasValue() && (!F.s->hasValue() || same(R.s->value(), F.s->value())));
        CHECK(R.n->hasValue() == F.n->hasValue() && (!F.n->hasValue() || R.n->value() == F.n->value()));
        CHECK(R.b->hasValue() == F.b->hasValue() && (!F.b->hasValue() || R.b->value() == F.b->value()));
        CHECK(R.e->value() == F.e->value() && R.t->value() == F.t->value() && R.x->value() == F.x->value());
        CHECK(same(R.r->values(), F.r->values()));
        CHECKM(same(R.p->extra_args(), F.p->extra_args()) && same(R.p->passthrough_args(), F.p->passthrough_args()), "extra and passthrough arguments are those of a fresh parser");
        if (c.npos) CHECK(R.p1->hasValue() == F.p1->hasValue());
        if (nothing || !ok) {                   // what follows an accepted line is the same text as for nothing at all
            Text u = usageOf(*R.p), f = usageOf(*F.p);
            CHECKM(same(u, f), "usage output is that of a fresh parser");
        }
        if (ok) COVER("accepted"); else COVER("rejected");
    }
    amsym_check_leaks();
}
// Many resets in between.
ENTRY(repeatedly) {
    amsym_mark_heap();
    {
        Cfg c = anyCfg(true, 1);
        c.defs = false;
        c.inl = c.slash = false;
        Texts before = line(1);
        Real R(c);
        for (int i = 0; i < 5; i++) {
            R.p->parse(before);
            R.p->parse(Texts{"-s", "a", "-r", "b", "c", "--", "d"});
            R.p->reset();
            R.p->reset();
        }
        Texts after = line(1);
        bool ok = R.p->parse(after);
        Outcome w;
        CHECKM(ok == reference(c, after, w), "after reset, parsing succeeds exactly when a fresh parser would");
        if (ok) { compare(R, w); COVER("accepted"); } else COVER("rejected");
    }
    amsym_check_leaks();
}
// Every option and positional set before, everything looked at afterwards; static options and options added later included.
static bool sameState(Real& R, Real& F) {
    bool d = R.s->hasValue() == F.s->hasValue() && (!F.s->hasValue() || same(R.s->value(), F.s->value()));
    d = d && R.kw->hasValue() == F.kw->hasValue() && (!F.kw->hasValue() || same(R.kw->value(), F.kw->value()));
    d = d && R.n->hasValue() == F.n->hasValue() && (!F.n->hasValue() || R.n->value() == F.n->value());
    d = d && R.b->hasValue() == F.b->hasValue() && (!F.b->hasValue() || R.b->value() == F.b->value());
    d = d && R.nf->hasValue() == F.nf->hasValue() && (!F.nf->hasValue() || R.nf->value() == F.nf->value());
    d = d && R.e->value() == F.e->value() && R.f->value() == F.f->value() && R.t->value() == F.t->value() && R.x->value() == F.x->value();
    d = d && same(R.r->values(), F.r->values()) && same(R.p->extra_args(), F.p->extra_args()) && same(R.p->passthrough_args(), F.p->passthrough_args());
    if (R.p1) d = d && R.p1->hasValue() == F.p1->hasValue() && (!F.p1->hasValue() || same(R.p1->value(), F.p1->value()));
    if (R.p2) d = d && R.p2->hasValue() == F.p2->hasValue() && (!F.p2->hasValue() || R.p2->value() == F.p2->value());
    return d;
}
typedef Option<bool> BoolOpt;
ENTRY(everything_set) {
    StringOption* stat = new StringOption("q", "static", ke::Maybe<std::string>(), "A static option.");
    Cfg c = anyCfg(true, 0);
    c.npos = amsym_choice(2, "positionals") * 2;
    c.defs = c.help;
    c.inl = c.slash;
    Real R(c), F(c);
    Texts full{"one", "7", "-s", "text", "--num=9", "--bool=false", "--no-en", "-t", "--rep", "a", "-r", "b", "-kw", "w", "--no-f=true", "--f", "--static", "here"};
    if (!c.npos) full.erase(full.begin(), full.begin() + 2);
    if (c.extra) full.push_back("more");
    int end = amsym_choice(4, "how it ends");
    if (end == 1) full.push_back("-x");
    if (end == 2) full.push_back("-n");
    if (end == 3 && c.pass) { full.push_back("--"); full.push_back("--f"); }
    bool first = R.p->parse(full);
    CHECKM(first == (end != 2), "the first parse goes as planned");
    if (first) CHECK(R.s->value() == "text" && R.n->value() == 9 && R.f->value() && stat->value() == "here");
    R.p->reset();
    CHECKM(!stat->hasValue(), "static options are reset as well");
    CHECKM(sameState(R, F), "after reset everything is as on a fresh parser");
    std::unique_ptr<BoolOpt> lateR, lateF;
    static const char* const kAfter[] = {"-s", "--num=3", "-b", "--f", "-kw", "one", "--", "-r", "-t", "--no-f", "-x", "--late"};
    const int n = sizeof kAfter / sizeof *kAfter;
    Texts after;
    if (c.npos) after = Texts{"first", "2"};
    int token = amsym_choice(n, "token");
    after.push_back(kAfter[token]);
    if (token == n - 1 || token < 2) {
        lateR.reset(new BoolOpt(*R.p, nullptr, "late", ke::Maybe<bool>(), "Late."));
        lateF.reset(new BoolOpt(*F.p, nullptr, "late", ke::Maybe<bool>(), "Late."));
    }
    bool ok = R.p->parse(after), fresh = F.p->parse(after);
    CHECKM(ok == fresh && sameState(R, F), "the outcome is that of a fresh parser");
    if (lateR) CHECK(lateR->hasValue() == lateF->hasValue());
    if (token % 3 == 0) {
        Text u = usageOf(*R.p), f = usageOf(*F.p);
        CHECKM(same(u, f), "usage output is that of a fresh parser");
    }
    if (ok) COVER("accepted"); else COVER("rejected");
}
