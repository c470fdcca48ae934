#include "argref.h"
static bool check(const Cfg& c, const Texts& av) {
    bool ok;
    amsym_mark_heap();
    {
        Real R(c);
        { Argv a(av); ok = R.p->parse(a.v); }
        Outcome w;
        bool want = reference(c, av, w);
        CHECKM(ok == want, "parsing succeeds exactly for arguments in the documented grammar");
        if (ok) compare(R, w);
    }
    amsym_check_leaks();
    return ok;
}
// One argument of any bytes.
ENTRY(one) {
    Cfg c = anyCfg(true, 1);
    if (check(c, {upTo((unsigned)amsym_param("len", 5), "arg")})) COVER("accepted"); else COVER("rejected");
}
// Longer forms: a fixed beginning and any bytes after it.
static const char* const kStems[] = {"--str", "--num", "--bool", "--en", "--no-en", "--no-f", "--no-", "--stop", "--rep", "--help", "--no-str", "-kw", "-s=", "/kw", "-r:", "--no-no-f"};
ENTRY(stems) {
    Cfg c = anyCfg(true, 0);
    Text t = kStems[amsym_choice(sizeof kStems / sizeof *kStems, "stem")];
    t += upTo((unsigned)amsym_param("len", 3), "rest");
    Texts av{t};
    if (amsym_bool("more")) av.push_back("1");
    if (check(c, av)) COVER("accepted"); else COVER("rejected");
}
// Two arguments of any bytes.
ENTRY(two) {
    Cfg c = anyCfg(false, 1);
    c.defs = false;
    Texts av{upTo((unsigned)amsym_param("len1", 2), "first"), upTo((unsigned)amsym_param("len2", 3), "second")};
    if (check(c, av)) COVER("accepted"); else COVER("rejected");
}
// Several arguments: forms of every option, values, and things that may be either.
static Text token() {
    static const char* const kFixed[] = {"-s", "--num", "-b", "-e", "--no-en", "-t", "-x", "-r", "--rep=q", "-n=7", "true", "--", "-f"};
    const int n = sizeof kFixed / sizeof *kFixed;
    int k = amsym_choice(n + 1, "token");
    return k < n ? Text(kFixed[k]) : anyText(1, "byte");
}
ENTRY(several) {
    Cfg c = anyCfg(false, 2);
    c.defs = false;
    Texts av;
    int n = (int)amsym_param("args", 3);
    for (int i = 0; i < n; i++) av.push_back(token());
    if (check(c, av)) COVER("accepted"); else COVER("rejected");
}
// Every way of handing over the arguments does the same.
ENTRY(entry_points) {
    amsym_mark_heap();
    {
        Cfg c = {};
        c.npos = amsym_choice(2, "positionals");
        c.extra = true;
        Texts av;
        int n = amsym_choice(4, "args");
        for (int i = 0; i < n; i++) av.push_back(amsym_bool("option") ? Text("-r") : upTo(1, "byte"));
        Outcome w;
        bool want = reference(c, av, w);
        int how = amsym_choice(4, "how");
        Real R(c);
        Argv a(av);
        bool ok;
        switch (how) {
        case 0: {
            std::vector<char*> full(1, (char*)"program");
            for (auto p : a.v) full.push_back((char*)p);
            ok = R.p->parse((int)full.size(), full.data());
            COVER("argc and argv");
            break;
        }
        case 1: ok = R.p->parse(av); COVER("strings"); break;
        case 2:
            if (n == 0) ok = R.p->parsev(nullptr);
            else if (n == 1) ok = R.p->parsev(a.v[0], (const char*)nullptr);
            else if (n == 2) ok = R.p->parsev(a.v[0], a.v[1], (const char*)nullptr);
            else ok = R.p->parsev(a.v[0], a.v[1], a.v[2], (const char*)nullptr);
            COVER("variable arguments");
            break;
        default: ok = R.p->parse(a.v); COVER("pointers"); break;
        }
        CHECKM(ok == want, "every entry point accepts the same arguments");
        if (ok) compare(R, w);
        // No program name at all.
        Parser empty;
        CHECK(empty.parse(0, nullptr));
    }
    amsym_check_leaks();
}
// Options registered for every parser.
static StringOption* gStr;
static ToggleOption* gTog;
static StringOption* gPos;
ENTRY(static_options) {
    gStr = new StringOption("g", "glob", ke::Maybe<std::string>(), "A static string.");
    gTog = new ToggleOption("y", "yes", ke::Nothing(), "A static toggle.");
    gPos = new StringOption("path", "A static positional.");
    bool help = amsym_bool("help");
    std::unique_ptr<Parser> p = help ? std::make_unique<Parser>("Help.") : std::make_unique<Parser>();
    StringOption own(*p, "s", "str", ke::Maybe<std::string>(), "Its own.");
    Text v = anyText(1, "value"), w = anyText(1, "path"), o = anyText(1, "own");
    Texts av{"-g", v, "-s", o};
    if (amsym_bool("toggle")) av.insert(av.begin(), "--yes");
    bool path = amsym_bool("path given");
    if (path) av.push_back(w);
    bool ok = p->parse(av);
    CHECKM(ok == (path && w[0] != '-'), "static options are recognized by every parser, and static positionals are required");
    if (ok) {
        CHECK(same(gStr->value(), v));
        CHECK(same(gPos->value(), w));
        CHECK(same(own.value(), o));
        CHECK(gTog->value() == (av[0] == "--yes"));
        p->reset();
        CHECK(!gStr->hasValue() && !gPos->hasValue() && !gTog->value());
        COVER("accepted");
    } else COVER("rejected");
}
// Dozens of options and of arguments.
ENTRY(many) {
    amsym_mark_heap();
    {
        static const int M = 40;
        Parser p;
        bool inl = amsym_bool("inline values");
        if (inl) p.enable_inline_values();
        p.collect_extra_args();
        Texts names;             // options refer to the names they are given
        names.reserve(3 * M);
        auto name = [&](Text t) { names.push_back(t); return names.back().c_str(); };
        std::vector<std::unique_ptr<IntOption>> num;
        std::vector<std::unique_ptr<StringOption>> str;
        for (int i = 0; i < M; i++) {
            num.push_back(std::make_unique<IntOption>(p, name(Text(1, (char)('A' + i))), name("number-" + std::to_string(i)), ke::Maybe<int>(), "A number."));
            str.push_back(std::make_unique<StringOption>(p, nullptr, name("string-" + std::to_string(i)), ke::Maybe<std::string>(), "A string."));
        }
        bool shortForm = amsym_bool("short form"), attached = amsym_bool("attached"), reverse = amsym_bool("reverse");
        Text odd = anyText(1, "byte"), longText(300, 'q');
        Texts av, extra;
        for (int k = 0; k < M; k++) {
            int i = reverse ? M - 1 - k : k;
            Text form = shortForm ? "-" + Text(1, (char)('A' + i)) : "--number-" + std::to_string(i);
            if (attached) av.push_back(form + "=" + std::to_string(i * 1000));
            else { av.push_back(form); av.push_back(std::to_string(i * 1000)); }
            av.push_back("extra " + std::to_string(i));
            extra.push_back(av.back());
            av.push_back("--string-" + std::to_string(i) + "=" + (i == 17 ? odd : i == 18 ? longText : Text("v") + std::to_string(i)));
        }
        CHECKM(p.parse(av), "parsing succeeds");
        for (int i = 0; i < M; i++) {
            CHECKM(num[i]->hasValue() && num[i]->value() == i * 1000, "every option holds exactly its number");
            CHECKM(str[i]->hasValue() && same(str[i]->value(), i == 17 ? odd : i == 18 ? longText : Text("v") + std::to_string(i)), "every option holds exactly its text");
        }
        CHECKM(same(p.extra_args(), extra), "extra arguments are kept verbatim and in order");
        COVER("end");
    }
    amsym_check_leaks();
}
// Names, values and command lines too long for sixteen bits.
ENTRY(huge) {
    amsym_mark_heap();
    {
        static const unsigned kLen[] = {254, 255, 256, 257, 65534, 65535, 65536, 65540, 70000};
        unsigned len = kLen[amsym_choice(9, "length")];
        Text name(len, 'n'), half(name.substr(0, len & 0xff ? len & 0xff : 256)), low(len > 65536 ? name.substr(0, len - 65536) : half);
        Parser p;
        StringOption one(p, nullptr, name.c_str(), ke::Maybe<std::string>(), "A string.");
        IntOption two(p, low.size() == len ? "z" : low.c_str(), nullptr, ke::Maybe<int>(), "A number.");
        RepeatOption<std::string> r(p, "r", "rep", "Strings.");
        Text v(amsym_bool("long value") ? 70000 : 3, 'v');
        v.back() = amsym_any<char>("last");
        amsym_assume(v.back() != 0);
        switch (amsym_choice(4, "how")) {
        case 0: CHECKM(p.parse(Texts{"--" + name + "=" + v, "-r", v}), "parsing succeeds"); COVER("attached"); break;
        case 1: CHECKM(p.parse(Texts{"-r", v, "--" + name, v}), "parsing succeeds"); COVER("following"); break;
        case 2: CHECKM(!p.parse(Texts{"--" + name + "n=" + v}), "a longer name is another name"); COVER("longer"); return;
        default: CHECKM(!p.parse(Texts{"--" + low.substr(1) + "=" + v}), "a shorter name is another name"); COVER("shorter"); return;
        }
        CHECKM(one.hasValue() && same(one.value(), v) && same(r.values(), Texts{v}), "each option holds exactly the value given");
        CHECK(!two.hasValue());
    }
    amsym_check_leaks();
}
ENTRY(huge_line) {
    amsym_mark_heap();
    {
        int n = amsym_bool("more") ? 33000 : 130;
        Parser p;
        StringOption one(p, "one", "First.");
        IntOption two(p, "n", "num", ke::Maybe<int>(), "A number.");
        RepeatOption<std::string> r(p, "r", "rep", "Strings.");
        Text v(1, amsym_any<char>("value")), w(1, amsym_any<char>("positional"));
        amsym_assume(v[0] != 0 && w[0] != 0 && w[0] != '-');
        std::vector<const char*> av;
        av.reserve(2 * n + 3);
        for (int i = 0; i < n; i++) { av.push_back("-r"); av.push_back(i == n - 1 ? v.c_str() : "x"); }
        av.push_back("-n");
        av.push_back("7");
        av.push_back(w.c_str());
        CHECKM(p.parse(av), "parsing succeeds");
        CHECKM(r.values().size() == (size_t)n && same(r.values()[n - 1], v) && r.values()[0] == "x" && r.values()[n / 2] == "x", "every value is kept in order");
        CHECKM(two.value() == 7 && same(one.value(), w), "what follows is read as well");
        COVER("end");
    }
    amsym_check_leaks();
}
