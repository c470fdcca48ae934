#include "argref.h"
// The number a text stands for, read independently of the C library: blanks, a sign, decimal digits, nothing else.
ENTRY(integers) {
    Text t = upTo((unsigned)amsym_param("len", 4), "text");
    Parser p;
    IntOption n(p, "n", "num", ke::Maybe<int>(), "A number.");
    bool ok = p.parse(Texts{"-n", t});
    int want = 0;
    bool valid = readInt(t, &want);
    CHECKM(ok == valid, "an integer option accepts exactly decimal integers an int can represent");
    if (ok) { CHECKM(n.hasValue() && n.value() == want, "an integer option yields the integer given"); COVER("accepted"); } else COVER("rejected");
}
// Around the limits of an int and of wider types: a sign, zeros, leading digits and any few digits after them.
ENTRY(limits) {
    Text t;
    int sign = amsym_choice(3, "sign");
    if (sign) t += sign == 1 ? '-' : '+';
    if (amsym_bool("zeros")) t += "000";
    static const char* const kStart[] = {"", "21474836", "21474835", "21474837", "2147483", "42949672", "92233720368547758", "429496729", "100000000"};
    t += kStart[amsym_choice(9, "leading digits")];
    unsigned d = 1 + (unsigned)amsym_choice((int)amsym_param("more", 3), "digits");
    for (unsigned i = 0; i < d; i++) { char ch = amsym_any<char>("digit"); amsym_assume(ch >= '0' && ch <= '9'); t += ch; }
    Parser p;
    IntOption n(p, "n", "num", ke::Maybe<int>(), "A number.");
    bool ok = p.parse(Texts{"--num=" + t});
    int want = 0;
    bool valid = readInt(t, &want);
    CHECKM(ok == valid, "an integer option accepts exactly the integers an int can represent");
    if (ok) { CHECKM(n.value() == want, "an integer option yields the integer given"); COVER("accepted"); } else COVER("rejected");
}
// Beyond 64 bits too, and whatever errno held before.
ENTRY(huge) {
    Text t = amsym_bool("negative") ? "-" : "";
    static const char* const kBig[] = {"9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "4294967296", "99999999999999999999999999",
                                       "2147483647", "0000000000000000000000000000000000000000000000012"};
    int k = amsym_choice(8, "number");
    t += kBig[k];
    char last = amsym_any<char>("last");
    amsym_assume(last != 0);
    bool more = amsym_bool("one more");
    if (more) t += last;
    errno = amsym_any<int>("errno");
    Parser p;
    IntOption n(p, "n", "num", ke::Maybe<int>(), "A number.");
    bool ok = p.parse(Texts{"-n", t});
    int want = 0;
    bool valid = readInt(t, &want);
    CHECKM(ok == valid, "an integer option accepts exactly the integers an int can represent");
    if (ok) { CHECKM(n.value() == want, "an integer option yields the integer given"); COVER("accepted"); } else COVER("rejected");
}
ENTRY(booleans) {
    int form = amsym_choice(3, "form");
    Text t = upTo((unsigned)amsym_param("len", 5), "text");
    Parser p;
    p.collect_extra_args();
    ke::Maybe<bool> def;
    bool hasDef = amsym_bool("has a default"), defVal = amsym_any<uint8_t>("default") & 1;
    if (hasDef) def = ke::Some((bool)defVal);
    Option<bool> b(p, "b", "bool", def, "A boolean.");
    int r = eqNoCase(t, "true") ? 1 : eqNoCase(t, "false") ? 0 : -1;
    if (form == 0) {
        CHECKM(p.parse(Texts{"--bool=" + t}) == (r >= 0), "an attached value is accepted exactly when it is true or false in any case");
        if (r >= 0) { CHECKM(b.hasValue() && b.value() == (r == 1), "the boolean given is the one held"); COVER("attached"); } else COVER("rejected");
    } else if (form == 1) {
        amsym_assume(t.empty() || t[0] != '-');
        CHECK(p.parse(Texts{"-b", t}));
        CHECKM(b.hasValue() && b.value() == (r != 0), "without a value a boolean option is true");
        CHECKM(p.extra_args().size() == (r < 0 ? 1 : 0) && (r >= 0 || same(p.extra_args()[0], t)), "an argument that is no boolean is left to be parsed on its own");
        if (r >= 0) COVER("following"); else COVER("left alone");
    } else if (amsym_bool("given")) {
        CHECK(p.parse(Texts{"-b"}));
        CHECKM(b.hasValue() && b.value(), "without a value a boolean option is true");
        COVER("bare");
    } else {
        CHECK(p.parse(Texts{}));
        CHECKM(b.hasValue() == hasDef && (!hasDef || b.value() == defVal), "without being given a boolean option has its default");
        COVER("absent");
    }
}
ENTRY(strings) {
    Text t = upTo((unsigned)amsym_param("len", 8), "text");
    Parser p;
    bool pos = amsym_bool("positional");
    StringOption* s = pos ? new StringOption(p, "name", "A string.") : new StringOption(p, "s", "str", ke::Maybe<std::string>(), "A string.");
    RepeatOption<int> r(p, "r", "rep", "Numbers.");
    if (pos) amsym_assume(t.empty() || t[0] != '-');
    bool ok = pos ? p.parse(Texts{t}) : amsym_bool("attached") ? p.parse(Texts{"--str=" + t}) : p.parse(Texts{"-s", t});
    CHECKM(ok == !t.empty(), "a string option rejects the empty text only");
    if (ok) { CHECKM(same(s->value(), t), "a string option yields exactly the text given"); COVER("accepted"); } else COVER("empty");
    delete s;
}
// Repeated and positional integers convert the same way.
ENTRY(repeated_integers) {
    Text a = upTo((unsigned)amsym_param("len", 2), "first"), b = upTo((unsigned)amsym_param("len", 2), "second");
    Parser p;
    RepeatOption<int> r(p, "r", "rep", "Numbers.");
    IntOption pos(p, "count", "A number.");
    amsym_assume(b.empty() || b[0] != '-');
    bool ok = p.parse(Texts{"-r", a, b, "--rep=12"});
    int x = 0, y = 0;
    bool va = readInt(a, &x), vb = readInt(b, &y);
    CHECKM(ok == (va && vb), "every value is converted or rejected");
    if (ok) {
        CHECKM(r.values().size() == 2 && r.values()[0] == x && r.values()[1] == 12 && pos.value() == y, "every value is exactly the integer given");
        COVER("accepted");
    } else COVER("rejected");
}
// Long texts.
ENTRY(long_strings) {
    static const unsigned kLen[] = {15, 16, 63, 64, 255, 256, 257, 1023, 1024, 5000, 70000};
    Text t(kLen[amsym_choice(11, "length")], 'x');
    t[0] = amsym_any<char>("first");
    t.back() = amsym_any<char>("last");
    amsym_assume(t[0] != 0 && t.back() != 0);
    Parser p;
    StringOption s(p, "s", "str", ke::Maybe<std::string>(), "A string.");
    RepeatOption<std::string> r(p, "r", "rep", "Strings.");
    CHECK(p.parse(Texts{"--str=" + t, "-r", t, "--rep=" + t}));
    CHECKM(same(s.value(), t) && same(r.values(), Texts{t, t}), "a string option yields exactly the text given");
    COVER("end");
}
