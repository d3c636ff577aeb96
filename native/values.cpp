// Typed retrieval (C10) and splitting (C11) through the public interface.
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <type_traits>
#include "common.hpp"
#include "Argos/ArgosException.hpp"
#include "Argos/ArgumentParser.hpp"

namespace
{
    using argos::ArgumentValue;
    using argos::ArgumentValues;

    /// Reads an integer the way the C standard describes strtol & co. nullopt: not a number of type T.
    template <typename T>
    std::optional<T> read_integer(const std::string& s, int base)
    {
        if (base < 0 || base == 1 || base > 36)
            return {};
        size_t i = 0;
        while (i < s.size() && strchr(" \t\n\v\f\r", s[i]) && s[i] != 0)
            ++i;
        bool neg = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
            neg = s[i++] == '-';
        auto digit = [](char c)
        {
            if (c >= '0' && c <= '9')
                return c - '0';
            if (c >= 'a' && c <= 'z')
                return c - 'a' + 10;
            if (c >= 'A' && c <= 'Z')
                return c - 'A' + 10;
            return 99;
        };
        if ((base == 0 || base == 16) && i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && digit(s[i + 2]) < 16)
        {
            i += 2;
            base = 16;
        }
        // Only some versions of the C library know binary prefixes.
        else if (static const bool binary = strtol("0b1", nullptr, 0) == 1; binary && (base == 0 || base == 2) && i + 2 < s.size()
                 && s[i] == '0' && (s[i + 1] == 'b' || s[i + 1] == 'B') && digit(s[i + 2]) < 2)
        {
            i += 2;
            base = 2;
        }
        else if (base == 0)
            base = i < s.size() && s[i] == '0' ? 8 : 10;
        if (i == s.size())
            return {};
        unsigned __int128 n = 0;
        for (; i < s.size(); ++i)
        {
            const int d = digit(s[i]);
            if (d >= base)
                return {};
            n = n * unsigned(base) + unsigned(d);
            if (n > (unsigned __int128)1 << 100)
                n = (unsigned __int128)1 << 100;
        }
        if (std::is_signed_v<T>)
        {
            const __int128 v = neg ? -__int128(n) : __int128(n);
            if (v < __int128(std::numeric_limits<T>::min()) || v > __int128(std::numeric_limits<T>::max()))
                return {};
            return T(v);
        }
        // The unsigned functions of the C library negate in unsigned long.
        if (n > ULONG_MAX)
            return {};
        unsigned long v = (unsigned long)n;
        if (neg)
            v = 0UL - v;
        if (v > std::numeric_limits<T>::max())
            return {};
        return T(v);
    }

    template <typename T>
    std::optional<T> read_float(const std::string& s)
    {
        if (s.empty() || s.find('\0') != std::string::npos)
            return {};
        char* end = nullptr;
        errno = 0;
        T v;
        if constexpr (std::is_same_v<T, float>)
            v = strtof(s.c_str(), &end);
        else
            v = strtod(s.c_str(), &end);
        if (*end || end == s.c_str() || errno)
            return {};
        return v;
    }

    template <typename T>
    std::string show(const T& v)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            char b[80];
            snprintf(b, sizeof b, "%a", double(v));
            return b;
        }
        else if constexpr (std::is_same_v<T, std::string>)
            return q(v);
        else
            return std::to_string(v);
    }

    template <typename F>
    std::string attempt(F f)
    {
        try
        {
            return f();
        }
        catch (argos::ArgosException&)
        {
            return "error";
        }
    }

    template <typename T>
    std::string show_all(const std::vector<T>& v)
    {
        std::string r = "{";
        for (const auto& x : v)
            r += show(x) + ",";
        return r + "}";
    }

    std::string number_text(Rng& r)
    {
        static const std::vector<std::string> fixed = {
            "", "0", "1", "-1", "+1", "false", "true", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295",
            "4294967296", "-4294967295", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
            "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551615",
            "-18446744073709551616", "-18446744073709551617", "0x", "0x1", "0X1f", "-0x10", "0x7fffffff", "0xffffffff", "0x100000000",
            "010", "08", "0b1", " 1", "\t-5", "1 ", " ", "-", "+", "--1", "- 1", "+-1", "1,000", "1.5", "1e3", "1e400", "-1e400",
            "1e-400", "1e-310", "3.5e38", "3.4e38", "1e-39", "1e-46", "inf", "-INF", "nan", "infinity", "0x1p3", "0x1.8p-1", ".5", "5.", ".",
            "1e", "1e+", "zz", "ZZ", "abc", "0 ", "FALSE", "00", "0.0", "\xc3\xa5", "1\xa0", "0x8000000000000000", "1_0", "\v1", "\f2", "\n3"};
        switch (r.below(6))
        {
        case 0:
        case 1:
            return r.pick(fixed);
        case 2:
        {
            // around the limits
            static const std::vector<__int128> limits = {INT_MAX, INT_MIN, UINT_MAX, LONG_MAX, LONG_MIN, __int128(ULONG_MAX), -__int128(ULONG_MAX), 0};
            __int128 v = r.pick(limits) + r.range(-3, 3);
            const bool neg = v < 0;
            unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
            static const std::vector<int> bases = {10, 10, 10, 16, 8, 2, 36};
            const int b = r.pick(bases);
            std::string s;
            do
            {
                s += "0123456789abcdefghijklmnopqrstuvwxyz"[size_t(u % unsigned(b))];
                u /= unsigned(b);
            } while (u);
            if (b == 16 && r.pct(70))
                s += "x0";
            else if (b == 8 && r.pct(70))
                s += "0";
            if (neg)
                s += "-";
            else if (r.pct(20))
                s += "+";
            return std::string(s.rbegin(), s.rend());
        }
        case 3:
        {
            std::string s = r.pick(fixed);
            const size_t at = r.below(unsigned(s.size() + 1));
            static const std::string extra = std::string(" \t-+0x19aeE.p_z\n,") + '\0';
            s.insert(at, 1, r.pick(extra));
            return s;
        }
        case 4:
        {
            std::string s;
            for (int n = r.range(0, 6); n > 0; --n)
                s += r.pick(std::string("0123456789+-x.eE aF"));
            return s;
        }
        default:
        {
            std::string s;
            for (int n = r.range(1, 22); n > 0; --n)
                s += char('0' + r.below(10));
            if (r.pct(30))
                s.insert(r.below(unsigned(s.size())), ".");
            if (r.pct(20))
                s += "e" + std::to_string(r.range(-330, 330));
            return (r.pct(40) ? "-" : "") + s;
        }
        }
    }

    struct Holder
    {
        std::ostringstream out;
        argos::ParsedArguments args;

        explicit Holder(const Strings& values, const Strings& others)
            : args(parse(values, others))
        {}

        argos::ParsedArguments parse(const Strings& values, const Strings& others)
        {
            argos::ArgumentParser p("prog");
            p.auto_exit(false).stream(&out).generate_help_option(false);
            p.add(argos::Option({"--v"}).argument("V").operation(argos::OptionOperation::APPEND).id(1));
            p.add(argos::Option({"--w"}).argument("V").operation(argos::OptionOperation::APPEND).id(2).alias("--v"));
            p.add(argos::Option({"--x"}).argument("V").operation(argos::OptionOperation::APPEND).id(3));
            Strings tokens;
            size_t n = 0;
            for (auto& v : values)
            {
                tokens.push_back(n < others.size() ? others[n] : "--v");
                tokens.push_back(v);
                ++n;
            }
            return std::move(p).parse(std::vector<std::string_view>(tokens.begin(), tokens.end()));
        }
    };

    template <typename T, typename Read>
    std::string expect_one(const Strings& values, T def, Read read)
    {
        if (values.empty())
            return show(def);
        const auto v = read(values[0]);
        return v ? show(*v) : "error";
    }

    template <typename T, typename Read>
    std::string expect_all(const Strings& values, const std::vector<T>& def, Read read)
    {
        if (values.empty())
            return show_all(def);
        std::vector<T> r;
        for (auto& s : values)
        {
            const auto v = read(s);
            if (!v)
                return "error";
            r.push_back(*v);
        }
        return show_all(r);
    }

    Outcome typed_case(Rng& r)
    {
        Outcome o;
        Strings values;
        const int n = r.pct(8) ? 0 : r.pct(60) ? 1 : r.range(2, 4);
        for (int i = 0; i < n; ++i)
        {
            auto s = number_text(r);
            // Several values are only interesting if most are right.
            for (int k = 0; n > 1 && k < 3 && !read_integer<long>(s, 10); ++k)
                s = number_text(r);
            values.push_back(s);
        }
        static const std::vector<int> bases = {10, 10, 10, 0, 0, 16, 8, 2, 36, 1, 37, -1, 3};
        const int base = r.pick(bases);
        const int def = r.pct(20) ? 0 : r.range(-5, 200);
        o.case_text = "values " + ql(values) + " base " + std::to_string(base) + " default " + std::to_string(def) + "\n";
        o.trivial = n == 0;
        set_case_text(o.case_text);
        Holder h(values, {});
        Strings expected, actual;
        auto check = [&](const char* what, const std::string& e, const std::string& a)
        {
            expected.push_back(std::string(what) + " " + e);
            actual.push_back(std::string(what) + " " + a);
        };
        const auto all = h.args.values("--v");
#define ONE_INT(T, F) \
        check(#F, expect_one<T>(values, (T)(def), [&](const std::string& s) { return read_integer<T>(s, base); }), \
              attempt([&] { return show<T>(one.F((T)(def), base)); }))
#define ALL_INT(T, F) \
        check(#F, expect_all<T>(values, {(T)(def), (T)(3)}, [&](const std::string& s) { return read_integer<T>(s, base); }), \
              attempt([&] { return show_all<T>(all.F({(T)(def), (T)(3)}, base)); }))
        if (n <= 1)
        {
            const auto one = h.args.value("--v");
            ONE_INT(int, as_int);
            ONE_INT(unsigned, as_uint);
            ONE_INT(long, as_long);
            ONE_INT(long long, as_llong);
            ONE_INT(unsigned long, as_ulong);
            ONE_INT(unsigned long long, as_ullong);
            check("as_float", expect_one<float>(values, float(def), read_float<float>), attempt([&] { return show<float>(one.as_float(float(def))); }));
            check("as_double", expect_one<double>(values, double(def), read_float<double>), attempt([&] { return show<double>(one.as_double(double(def))); }));
            for (const bool d : {false, true})
                check("as_bool", n == 0 ? show(int(d)) : show(int(!(values[0].empty() || values[0] == "0" || values[0] == "false"))),
                      attempt([&] { return show(int(one.as_bool(d))); }));
            check("as_string", n == 0 ? q("dflt") : q(values[0]), attempt([&] { return show(one.as_string("dflt")); }));
            check("value", n == 0 ? "none" : q(values[0]), attempt([&] { return one.value() ? q(*one.value()) : "none"; }));
            check("bool", n == 0 ? "0" : "1", one ? "1" : "0");
            // The defaults of the defaults.
            check("as_int()", n == 0 ? "0" : expect_one<int>(values, 0, [](const std::string& s) { return read_integer<int>(s, 10); }),
                  attempt([&] { return show<int>(one.as_int()); }));
        }
        ALL_INT(int, as_ints);
        ALL_INT(unsigned, as_uints);
        ALL_INT(long, as_longs);
        ALL_INT(long long, as_llongs);
        ALL_INT(unsigned long, as_ulongs);
        ALL_INT(unsigned long long, as_ullongs);
        check("as_floats", expect_all<float>(values, {1.5f, float(def)}, read_float<float>), attempt([&] { return show_all<float>(all.as_floats({1.5f, float(def)})); }));
        check("as_doubles", expect_all<double>(values, {1.5, double(def)}, read_float<double>), attempt([&] { return show_all<double>(all.as_doubles({1.5, double(def)})); }));
        check("as_strings", n == 0 ? show_all<std::string>({"a", ""}) : show_all(values), attempt([&] { return show_all<std::string>(all.as_strings({"a", ""})); }));
        for (int i = 0; i < n; ++i)
        {
            check("[i]", q(values[size_t(i)]), attempt([&] { return q(*all[size_t(i)].value()); }));
            check("value(i).as_int", expect_one<int>({values[size_t(i)]}, 0, [](const std::string& s) { return read_integer<int>(s, 10); }),
                  attempt([&] { return show<int>(all.value(size_t(i)).as_int(7)); }));
        }
        o.problem = compare_lines(expected, actual);
        return o;
    }

    // ---- C11

    struct Part
    {
        std::string text;
        int by;
    };

    /// nullopt: error
    std::optional<std::vector<Part>> split_all(const std::vector<Part>& in, char sep, size_t lo, size_t hi)
    {
        std::vector<Part> r;
        for (auto& v : in)
        {
            size_t parts = 0, start = 0;
            for (size_t i = 0; i <= v.text.size(); ++i)
            {
                if (i == v.text.size() || (v.text[i] == sep && (hi == 0 || parts + 1 < hi)))
                {
                    r.push_back({v.text.substr(start, i - start), v.by});
                    start = i + 1;
                    ++parts;
                }
            }
            if (parts < lo)
                return {};
        }
        return r;
    }

    std::string show_parts(const std::optional<std::vector<Part>>& p)
    {
        if (!p)
            return "error";
        std::string r;
        for (auto& x : *p)
            r += q(x.text) + "#" + std::to_string(x.by) + ", ";
        return r;
    }

    Outcome split_case(Rng& r)
    {
        Outcome o;
        static const std::string seps = std::string(",;: =a") + '\0' + "\xc3";
        const char sep = r.pick(seps);
        Strings values, flags;
        std::vector<Part> parts;
        for (int n = r.pct(6) ? 0 : r.pct(40) ? 1 : r.range(2, 4); n > 0; --n)
        {
            std::string s;
            for (int k = r.pct(15) ? 0 : r.range(0, 12); k > 0; --k)
                s += r.pct(35) ? sep : r.pick(seps + "bcd");
            values.push_back(s);
            flags.push_back(r.pct(60) ? "--v" : "--w");
            parts.push_back({s, flags.back() == "--v" ? 1 : 2});
        }
        const size_t lo = r.pct(40) ? 0 : r.below(6);
        const size_t hi = r.pct(35) ? 0 : r.pct(5) ? std::string::npos - r.below(2) : r.below(7);
        o.case_text = "values " + ql(values) + " given by " + ql(flags) + " separator " + q(std::string(1, sep)) + " min_parts "
                      + std::to_string(lo) + " max_parts " + std::to_string(hi) + "\n";
        o.trivial = values.empty();
        set_case_text(o.case_text);
        Holder h(values, flags);
        Strings expected, actual;
        const auto all = h.args.values("--v");
        auto ids = [&](std::optional<std::vector<Part>> p)
        { return show_parts(p); };
        // Ids given to an option are not the same as the internal ones, hence the views are asked for the former.
        auto show_by = [&](const ArgumentValues& vs)
        {
            std::string s;
            size_t n = 0;
            const auto raw = vs.raw_values();
            for (const auto v : vs)
            {
                const auto a = v.argument();
                s += q(*v.value()) + "#" + std::to_string(a ? a->id() : -1) + ", ";
                if (n >= raw.size() || raw[n] != *v.value())
                    s += "(raw_values() differs)";
                ++n;
            }
            if (n != vs.size() || n != raw.size())
                s += "(size() is wrong)";
            return s;
        };
        expected.push_back("values.split " + ids(split_all(parts, sep, lo, hi)));
        actual.push_back("values.split " + attempt([&] { return show_by(all.split(sep, lo, hi)); }));
        expected.push_back("values.split_n " + ids(split_all(parts, sep, hi, hi)));
        actual.push_back("values.split_n " + attempt([&] { return show_by(all.split_n(sep, hi)); }));
        for (size_t i = 0; i < parts.size(); ++i)
        {
            const auto v = all[i];
            expected.push_back("value.split " + ids(split_all({parts[i]}, sep, lo, hi)));
            actual.push_back("value.split " + attempt([&] { return show_by(v.split(sep, lo, hi)); }));
            expected.push_back("value.split_n " + ids(split_all({parts[i]}, sep, hi, hi)));
            actual.push_back("value.split_n " + attempt([&] { return show_by(v.split_n(sep, hi)); }));
        }
        expected.push_back("absent ");
        actual.push_back("absent " + attempt([&] { return show_by(h.args.value("--x").split(sep, lo, hi)) + show_by(h.args.values("--x").split(sep, lo, hi)); }));
        // Parts can be split again.
        if (const auto once = split_all(parts, sep, 0, hi); once)
        {
            const char sep2 = r.pick(seps);
            expected.push_back("twice " + ids(split_all(*once, sep2, lo, 0)));
            actual.push_back("twice " + attempt([&] { return show_by(all.split(sep, 0, hi).split(sep2, lo, 0)); }));
        }
        o.problem = compare_lines(expected, actual);
        return o;
    }
}

void value_modes(std::vector<Mode>& m)
{
    m.push_back({"C10", typed_case});
    m.push_back({"C11", split_case});
}
