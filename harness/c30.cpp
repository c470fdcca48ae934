#include "argref.h"
// Arguments that are neither options nor values nor positionals, and everything after a standalone "--".
static Text token() {
    static const char* const kFixed[] = {"--", "-r", "-b", "false", "-s", "x"};
    const int n = sizeof kFixed / sizeof *kFixed;
    int k = amsym_choice(n + 1, "token");
    return k < n ? Text(kFixed[k]) : upTo((unsigned)amsym_param("len", 2), "bytes");
}
ENTRY(sequences) {
    Cfg c = {};
    c.npos = amsym_choice(2, "positionals");
    c.extra = flag("extra", "collect extra");
    c.pass = flag("pass", "passthrough");
    c.slash = flag("slash", "slashes");
    Texts av;
    int n = (int)amsym_param("args", 4);
    for (int i = 0; i < n; i++) av.push_back(token());
    amsym_mark_heap();
    {
        Real R(c);
        bool ok;
        { Argv a(av); ok = R.p->parse(a.v); }
        Outcome w;
        bool want = reference(c, av, w);
        CHECKM(ok == want, "parsing succeeds exactly for arguments in the documented grammar");
        if (ok) {
            compare(R, w);
            COVER("accepted");
        } else COVER("rejected");
    }
    amsym_check_leaks();
}
// Longer texts, kept byte for byte.
ENTRY(verbatim) {
    Cfg c = {};
    c.extra = c.pass = true;
    Text a = upTo((unsigned)amsym_param("alen", 3), "extra"), b = upTo((unsigned)amsym_param("blen", 5), "passed");
    a += amsym_bool("long") ? "a text too long for the string's own buffer" : "";
    amsym_assume(a.empty() || a[0] != '-');
    Real R(c);
    bool ok;
    { Argv v(Texts{a, "-t", a, "--", b, "-s", b, "--", "--zzz"}); ok = R.p->parse(v.v); }
    CHECKM(ok, "nothing after the double dash is interpreted");
    CHECKM(same(R.p->extra_args(), Texts{a, a}), "extra arguments are kept verbatim and in order");
    CHECKM(same(R.p->passthrough_args(), Texts{b, "-s", b, "--", "--zzz"}), "passthrough arguments are kept verbatim and in order");
    CHECK(!R.s->hasValue() && R.t->value());
    COVER("end");
}
// Many of both kinds.
ENTRY(many) {
    amsym_mark_heap();
    {
        Cfg c = {};
        c.extra = c.pass = true;
        Real R(c);
        int n = amsym_bool("more") ? 150 : 20;
        Texts av, extra, pass;
        Text odd = anyText(2, "bytes");
        amsym_assume(odd[0] != '-');
        for (int i = 0; i < n; i++) {
            extra.push_back(i == n / 2 ? odd : "e" + std::to_string(i));
            av.push_back(extra.back());
            if (i % 10 == 3) { av.push_back("-r"); av.push_back("value"); }
        }
        av.push_back("--");
        for (int i = 0; i < n; i++) { pass.push_back(i % 3 ? "-r" : i == 6 ? "-" + odd : "--"); av.push_back(pass.back()); }
        CHECKM(R.p->parse(av), "parsing succeeds");
        CHECKM(same(R.p->extra_args(), extra), "extra arguments are kept verbatim and in order");
        CHECKM(same(R.p->passthrough_args(), pass), "passthrough arguments are kept verbatim and in order");
        CHECK(R.r->values().size() == (size_t)n / 10);
        COVER("end");
    }
    amsym_check_leaks();
}
ENTRY(huge) {
    amsym_mark_heap();
    {
        const int n = 65540;
        Cfg c = {};
        c.extra = c.pass = true;
        Real R(c);
        Text odd(1, amsym_any<char>("byte")), texts[] = {Text(70000, 'l')};
        amsym_assume(odd[0] != 0 && odd[0] != '-');
        std::vector<const char*> av;
        av.reserve(2 * n + 1);
        for (int i = 0; i < n; i++) av.push_back(i == 2 || i == n - 1 ? odd.c_str() : i == 5 ? texts[0].c_str() : i & 1 ? "a" : "b");
        av.push_back("--");
        for (int i = 0; i < n; i++) av.push_back(i == 2 || i == n - 1 ? odd.c_str() : i == 5 ? texts[0].c_str() : i & 1 ? "-t" : "--");
        CHECKM(R.p->parse(av), "parsing succeeds");
        const Texts& e = R.p->extra_args();
        const Texts& p = R.p->passthrough_args();
        CHECKM(e.size() == (size_t)n && p.size() == (size_t)n, "nothing is dropped or duplicated");
        for (int i = 0; i < n; i += i < 6 || i > n - 4 ? 1 : 4099) {
            CHECKM(same(e[i], i == 2 || i == n - 1 ? odd : i == 5 ? texts[0] : i & 1 ? "a" : "b"), "extra arguments are kept verbatim and in order");
            CHECKM(same(p[i], i == 2 || i == n - 1 ? odd : i == 5 ? texts[0] : i & 1 ? "-t" : "--"), "passthrough arguments are kept verbatim and in order");
            if (i > n - 4200 && i < n - 4) i = n - 4;
        }
        CHECK(!R.t->value());
        COVER("end");
    }
    amsym_check_leaks();
}
