#include "argref.h"
#include <algorithm>
static char* kArgv[] = {(char*)"prog", nullptr};
static Text usageOf(Parser& p, int argc = 1, char** argv = kArgv) {
    FILE* f = amsym_out_open();
    p.usage(f, argc, argv);
    Text t = amsym_out_text(f);
    amsym_out_close(f);
    return t;
}
// The pieces of a text between separators, found with plain pointers.
static Texts pieces(const Text& t, char sep, bool empty, size_t* rest) {
    Texts r;
    const char* b = t.data();
    size_t n = t.size(), from = 0;
    for (size_t i = 0; i < n; i++) {
        if (b[i] != sep) continue;
        if (i > from || empty) r.emplace_back(b + from, i - from);
        from = i + 1;
    }
    *rest = from;
    return r;
}
static Texts linesOf(const Text& t) {
    size_t rest;
    Texts r = pieces(t, '\n', true, &rest);
    CHECKM(rest == t.size(), "the output ends with a line break");
    return r;
}
static Texts wordsOf(const Text& t) {
    size_t rest;
    Texts r = pieces(t, ' ', false, &rest);
    if (rest < t.size()) r.emplace_back(t.data() + rest, t.size() - rest);
    return r;
}
// The listing: what follows the line that starts with "Usage:".
static Texts listing(const Text& out) {
    Texts l = linesOf(out), r;
    bool on = false;
    for (auto& s : l) {
        if (on) r.push_back(s);
        else if (s.compare(0, 6, "Usage:") == 0) on = true;
    }
    CHECKM(on, "the usage line is printed");
    return r;
}
static Text upper(Text t) { for (auto& c : t) c = c == '-' ? '_' : c >= 'a' && c <= 'z' ? c - 32 : c; return t; }
// How often a form is listed: alone, before a comma, or with the name of its value.
static unsigned listed(const Texts& lines, const Text& form, const Text& value) {
    unsigned n = 0;
    for (auto& l : lines) for (auto& w : wordsOf(l)) n += w == form || w == form + "," || w == form + "=" + value;
    return n;
}
// The help words of one option, recognized by their first character: all of them, in order, within the columns.
static void helpIn(const Texts& lines, char mark, const Texts& words) {
    size_t k = 0;
    for (auto& l : lines) {
        unsigned here = 0;
        size_t width = 0;
        for (auto& w : wordsOf(l)) if (w[0] == mark) {
            CHECKM(k < words.size() && w == words[k], "every word of the help text is shown, in order and once");
            k++;
            width += w.size() + (here != 0);
            here++;
        }
        if (here > 1) {
            CHECKM(l.size() <= 80, "a help line keeps within the width of the page");
            CHECKM(width <= 52, "a help line keeps within its column");
        }
    }
    CHECKM(k == words.size(), "every word of the help text is shown, in order and once");
}
static Text join(const Texts& w) { Text r; for (size_t i = 0; i < w.size(); i++) { if (i) r += ' '; r += w[i]; } return r; }
static Text word(char mark, unsigned len, unsigned i) { Text t(len, (char)('a' + i % 26)); t[0] = mark; return t; }
// Word lengths around the column's width.
ENTRY(wrapping) {
    amsym_mark_heap();
    {
        static const unsigned kLen[] = {1, 24, 25, 26, 27, 48, 49, 50, 51, 52, 53, 60};
        Texts words;
        int n = (int)amsym_param("words", 3);
        for (int i = 0; i < n; i++) words.push_back(word('1', kLen[amsym_choice(12, "word length")], i));
        Text help = join(words);
        Parser p;
        StringOption s(p, "s", "str", ke::Maybe<std::string>(), help.c_str());
        Texts l = listing(usageOf(p));
        helpIn(l, '1', words);
        CHECKM(listed(l, "-s", "S") == 1 && listed(l, "--str", "STR") == 1, "each form of an option is listed once");
        COVER("end");
    }
    amsym_check_leaks();
}
// Many words of one length, then one of another.
ENTRY(many_words) {
    unsigned len = 1 + amsym_choice(9, "length"), n = amsym_choice((int)amsym_param("count", 30), "count"), last = 1 + amsym_choice(5, "last length");
    Texts words;
    for (unsigned i = 0; i < n; i++) words.push_back(word('1', len, i));
    words.push_back(word('1', last, n));
    Text help = join(words);
    Parser p;
    ToggleOption t(p, "t", nullptr, ke::Nothing(), help.c_str());
    Texts l = listing(usageOf(p));
    helpIn(l, '1', words);
    CHECK(listed(l, "-t", "T") == 1);
    COVER("end");
}
// Any short text: blanks anywhere, any characters.
ENTRY(any_text) {
    int n = amsym_choice((int)amsym_param("len", 7), "length");
    Text help;
    for (int i = 0; i < n; i++) { char c = amsym_any<char>("help"); amsym_assume((unsigned char)c >= 32); help += c; }
    Parser p;
    bool pos = amsym_bool("positional");
    std::unique_ptr<IOption> o;
    if (pos) o = std::make_unique<StringOption>(p, "name", help.c_str());
    else o = std::make_unique<ToggleOption>(p, nullptr, "tog", ke::Nothing(), help.c_str());
    Texts l = listing(usageOf(p)), got, want = wordsOf(help);
    bool found = false;
    for (auto& s : l) for (auto& w : wordsOf(s)) {
        if (found) got.push_back(w);
        else if (w == (pos ? "name" : "--tog")) found = true;
    }
    CHECKM(found, "the option is listed");
    CHECKM(same(got, want), "every word of the help text is shown, in order and once");
    COVER("end");
}
// Names of every length around the width of the left column, with and without values and short forms.
ENTRY(names) {
    amsym_mark_heap();
    {
        unsigned len = amsym_param("from", 1) + amsym_choice((int)amsym_param("names", 32), "name length");
        Text lf(len, 'n'), sf = amsym_bool("longer short form") ? "short" : "s";
        if (len > 3) lf[2] = '-';
        int forms = amsym_choice(3, "forms");
        bool value = amsym_bool("takes a value");
        Texts w1, w2;
        int n = amsym_choice(4, "words");
        unsigned wide = n && amsym_bool("wide words") ? 60 : 30;
        for (int i = 0; i < n; i++) w1.push_back(word('1', wide, i));
        w2.push_back(word('2', 3, 0));
        Text h1 = join(w1), h2 = join(w2);
        Parser p;
        const char* s = forms == 1 ? nullptr : sf.c_str();
        const char* g = forms == 2 ? nullptr : lf.c_str();
        std::unique_ptr<IOption> o;
        if (value) o = std::make_unique<StringOption>(p, s, g, ke::Maybe<std::string>(), h1.c_str());
        else o = std::make_unique<ToggleOption>(p, s, g, ke::Nothing(), h1.c_str());
        EnableOption e(p, "e", "en", true, h2.c_str());
        Texts l = listing(usageOf(p));
        helpIn(l, '1', w1);
        helpIn(l, '2', w2);
        Text suffix = value ? upper(g ? lf : sf) : Text();
        if (s) CHECKM(listed(l, "-" + sf, suffix) == 1, "each form of an option is listed once");
        if (g) CHECKM(listed(l, "--" + lf, suffix) == 1, "each form of an option is listed once");
        CHECKM(listed(l, "-e", "") == 1 && listed(l, "--en", "") == 1, "each form of an option is listed once");
        if (value && g) {
            unsigned full = 0;
            for (auto& x : l) for (auto& w : wordsOf(x)) full += w == "--" + lf + "=" + suffix;
            CHECKM(full == 1, "the value's name is shown");
        }
        COVER("end");
    }
    amsym_check_leaks();
}
// Sets of options of every kind, in order, and extra usage lines.
ENTRY(sets) {
    amsym_mark_heap();
    {
        bool help = amsym_bool("help option");
        std::unique_ptr<Parser> p = help ? std::make_unique<Parser>("About this program.") : std::make_unique<Parser>();
        int npos = amsym_choice(3, "positionals"), nopt = amsym_choice((int)amsym_param("options", 2) + 1, "options"), nextra = amsym_choice(3, "extra lines");
        static const char* const kPos[] = {"first", "second"};
        static const char* const kExtra[] = {"@file", "%other"};
        std::vector<std::unique_ptr<IOption>> keep;
        Texts help0[5];
        Text texts[5];
        for (int i = 0; i < 5; i++) { for (int j = 0; j < 2; j++) help0[i].push_back(word((char)('1' + i), 3 + 23 * j, j)); texts[i] = join(help0[i]); }
        for (int i = 0; i < npos; i++) keep.push_back(std::make_unique<StringOption>(*p, kPos[i], texts[i].c_str()));
        static const char* const kShort[] = {"a", "b", "c"};
        static const char* const kLong[] = {"aaa", "bbb-bbb", "ccc"};
        for (int i = 0; i < nopt; i++) {
            const char* h = texts[2 + i].c_str();
            switch (amsym_choice(4, "kind")) {
            case 0: keep.push_back(std::make_unique<ToggleOption>(*p, kShort[i], kLong[i], ke::Nothing(), h)); break;
            case 1: keep.push_back(std::make_unique<RepeatOption<int>>(*p, kShort[i], kLong[i], h)); break;
            case 2: keep.push_back(std::make_unique<Option<bool>>(*p, kShort[i], kLong[i], ke::Maybe<bool>(), h)); break;
            default: keep.push_back(std::make_unique<IntOption>(*p, kShort[i], kLong[i], ke::Maybe<int>(), nullptr)); help0[2 + i].clear(); break;
            }
        }
        for (int i = 0; i < nextra; i++) p->add_usage_line(kExtra[i], i ? "" : "Extra help.");
        Text out = usageOf(*p);
        Texts l = listing(out);
        for (int i = 0; i < npos; i++) CHECKM(listed(l, kPos[i], "") == 1, "each positional is listed once");
        for (int i = npos; i < 2; i++) CHECKM(listed(l, kPos[i], "") == 0, "nothing else is listed");
        for (int i = 0; i < 3; i++) CHECKM(listed(l, Text("-") + kShort[i], upper(kLong[i])) == (i < nopt) && listed(l, Text("--") + kLong[i], upper(kLong[i])) == (i < nopt), "each option is listed once");
        for (int i = 0; i < 2; i++) CHECKM(listed(l, kExtra[i], "") == (i < nextra), "each extra line is listed once");
        CHECKM(listed(l, "-h", "") == help && listed(l, "--help", "") == help, "the help option is listed once");
        for (int i = 0; i < 5; i++) helpIn(l, (char)('1' + i), i < 2 ? (i < npos ? help0[i] : Texts()) : i - 2 < nopt ? help0[i] : Texts());
        if (help) { Texts all = linesOf(out); CHECKM(!all.empty() && all[0] == "About this program.", "the program's help text comes first"); COVER("help"); }
        // The usage line names the program and the positionals in order.
        Texts all = linesOf(out), u;
        for (auto& x : all) if (x.compare(0, 6, "Usage:") == 0) u = wordsOf(x);
        CHECKM(u.size() == (size_t)(3 + npos) && u[1] == "prog", "the usage line names the program and each positional");
        for (int i = 0; i < npos; i++) CHECKM(u[3 + i] == kPos[i], "the usage line names the program and each positional");
        COVER("end");
    }
    amsym_check_leaks();
}
// After a failed parse the error is printed instead, unless help was requested.
ENTRY(errors) {
    amsym_mark_heap();
    {
        bool help = amsym_bool("help option");
        std::unique_ptr<Parser> p = help ? std::make_unique<Parser>("About this program.") : std::make_unique<Parser>();
        IntOption n(*p, "n", "num", ke::Maybe<int>(), "A number.");
        StringOption pos(*p, "path", "A path.");
        p->set_usage_line("[options] path");
        Texts av;
        Text named;            // what the error must name
        Text tail = upTo(2, "byte");
        amsym_assume(tail != "-h" && tail != "--help");
        for (char c : tail) amsym_assume((unsigned char)c >= 32);
        switch (amsym_choice(5, "failure")) {
        case 0: av = {"--zz" + tail}; named = "--zz" + tail; break;
        case 1: av = {"p", "-n"}; named = "num"; break;
        case 2: av = {"-n", "x" + tail}; named = "x" + tail; break;
        case 3: av = {}; named = "path"; break;
        default: av = {"p", "-n", "1", "--num=2"}; named = "num"; break;
        }
        int ask = amsym_choice(3, "help asked");
        if (ask) av.push_back(ask == 1 ? "-h" : "--help");
        Argv a(av);
        std::vector<char*> full(1, (char*)"prog");
        for (auto q : a.v) full.push_back((char*)q);
        bool ok = p->parse((int)full.size(), full.data());
        bool stoppedEarly = help && ask && av.size() == 1;      // only the help option was seen
        amsym_assume(!stoppedEarly);
        CHECKM(!ok, "the parse fails");
        Text out = usageOf(*p, (int)full.size(), full.data());
        Texts l = linesOf(out);
        if (help && ask) {
            CHECKM(out.find("error:") == Text::npos, "when help is asked for it is shown instead of the error");
            CHECKM(out.find("--num=NUM") != Text::npos && out.find("A number.") != Text::npos, "when help is asked for it is shown instead of the error");
            COVER("help");
        } else {
            CHECKM(l.size() == 2 && l[0] == "Usage: prog [options] path", "the usage line is printed");
            CHECKM(l[1].compare(0, 7, "error: ") == 0, "the error is printed");
            if (!ask) CHECKM(l[1].find(named, 7) != Text::npos, "the error names what failed");
            COVER("error");
        }
    }
    amsym_check_leaks();
}
// Help requested on its own, and nothing to list.
ENTRY(help_only) {
    Parser p("About.");
    ToggleOption t(p, "t", "tog", ke::Nothing(), "A toggle.");
    StringOption pos(p, "path", "A path.");
    bool lng = amsym_bool("long");
    CHECKM(!p.parse(Texts{lng ? "--help" : "-h"}), "asking for help does not succeed");
    Text out = usageOf(p);
    CHECKM(out.find("error:") == Text::npos && out.find("--tog") != Text::npos && out.find("A toggle.") != Text::npos, "help is shown");
    Parser none;
    Text o = usageOf(none, 0, nullptr);
    CHECKM(o.compare(0, 6, "Usage:") == 0 && linesOf(o).size() == 1, "without anything to list there is the usage line only");
    COVER("end");
}
// Words, names, texts and sets of options too large for eight or sixteen bits.
ENTRY(huge) {
    amsym_mark_heap();
    {
        static const unsigned kLen[] = {127, 135, 203, 204, 251, 255, 256, 257, 65532, 65536, 65540};
        unsigned len = kLen[amsym_choice(11, "length")];
        Parser p;
        if (amsym_bool("name")) {
            Texts w1{"1one", word('1', 40, 0), word('1', 20, 1), word('1', 20, 2)};
            Text lf(len, 'n'), h = join(w1);
            bool value = amsym_bool("takes a value");
            std::unique_ptr<IOption> o;
            if (value) o = std::make_unique<StringOption>(p, "s", lf.c_str(), ke::Maybe<std::string>(), h.c_str());
            else o = std::make_unique<ToggleOption>(p, "s", lf.c_str(), ke::Nothing(), h.c_str());
            ToggleOption t(p, "t", nullptr, ke::Nothing(), "2three");
            Texts l = listing(usageOf(p));
            helpIn(l, '1', w1);
            helpIn(l, '2', Texts{"2three"});
            unsigned lng = 0, shrt = 0, tog = 0;
            Text full = "--" + lf + "=";
            for (auto& x : l) for (auto& w : wordsOf(x)) {
                lng += value ? w.compare(0, full.size(), full) == 0 && w.size() > full.size() : w == "--" + lf;
                shrt += w == "-s" || w == "-s," || w.compare(0, 3, "-s=") == 0;
                tog += w == "-t";
            }
            CHECKM(lng == 1 && shrt == 1 && tog == 1, "each form of an option is listed once");
            COVER("name");
        } else {
            Texts w{"1a", word('1', len, 1), "1b", word('1', 20, 2), word('1', 20, 3), word('1', 20, 4)};
            Text h = join(w);
            StringOption s(p, "s", "str", ke::Maybe<std::string>(), h.c_str());
            ToggleOption t(p, "t", nullptr, ke::Nothing(), "2three");
            Texts l = listing(usageOf(p));
            helpIn(l, '1', w);
            helpIn(l, '2', Texts{"2three"});
            CHECK(listed(l, "-s", "S") == 1 && listed(l, "-t", "") == 1);
            COVER("word");
        }
    }
    amsym_check_leaks();
}
ENTRY(huge_set) {
    amsym_mark_heap();
    {
        int n = (int)amsym_param("options", 300);
        Texts names;
        names.reserve(2 * n + 1);
        Texts w;
        for (int i = 0; i < 3000; i++) w.push_back(word('1', 1 + i % 7, i));
        names.push_back(join(w));
        Parser p;
        std::vector<std::unique_ptr<IOption>> o;
        for (int i = 0; i < n; i++) {
            names.push_back("name-" + std::to_string(i));
            const char* name = names.back().c_str();
            names.push_back("2help" + std::to_string(i) + " 3more");
            const char* h = i == 7 ? names[0].c_str() : names.back().c_str();
            if (i % 3 == 0) o.push_back(std::make_unique<StringOption>(p, name, h));
            else o.push_back(std::make_unique<ToggleOption>(p, nullptr, name, ke::Nothing(), h));
        }
        Texts l = listing(usageOf(p)), got, want2, got2;
        Texts pos, opt;
        for (auto& s : l) for (auto& x : wordsOf(s)) {
            if (x[0] == '1') got.push_back(x);
            else if (x[0] == '2') got2.push_back(x);
            else if (x.compare(0, 7, "--name-") == 0) opt.push_back(x);
            else if (x.compare(0, 5, "name-") == 0) pos.push_back(x);
        }
        CHECKM(got == w, "every word of the help text is shown, in order and once");
        Texts wpos, wopt;
        for (int i = 0; i < n; i += 3) { wpos.push_back("name-" + std::to_string(i)); if (i != 7) want2.push_back("2help" + std::to_string(i)); }
        for (int i = 0; i < n; i++) if (i % 3) { wopt.push_back("--name-" + std::to_string(i)); if (i != 7) want2.push_back("2help" + std::to_string(i)); }
        auto sorted = [](Texts t) { std::sort(t.begin(), t.end()); return t; };
        CHECKM(sorted(pos) == sorted(wpos) && sorted(opt) == sorted(wopt), "each option is listed once");
        CHECKM(sorted(got2) == sorted(want2), "every option's help is shown once");
        COVER("end");
    }
    amsym_check_leaks();
}
