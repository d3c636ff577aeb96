// Layout and content of help and error texts through the public interface (C14, C15, C16, C17).
#include <algorithm>
#include <cctype>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <utility>
#include "common.hpp"
#include "Argos/ArgosException.hpp"
#include "Argos/ArgumentParser.hpp"
#include "Argos/Command.hpp"

namespace
{
    using argos::TextId;
    using argos::Visibility;

    size_t char_length(std::string_view s, size_t i)
    {
        const auto c = (unsigned char)s[i];
        size_t n = c < 0x80 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c & 0xF8) == 0xF0 ? 4 : 0;
        if (n == 0 || i + n > s.size())
            return 0;
        for (size_t k = 1; k < n; ++k)
            if (((unsigned char)s[i + k] & 0xC0) != 0x80)
                return 0;
        return n;
    }

    /// Code points of well-formed text, otherwise bytes.
    size_t columns(std::string_view s)
    {
        size_t n = 0;
        for (size_t i = 0; i < s.size(); ++n)
        {
            const auto len = char_length(s, i);
            if (len == 0)
                return s.size();
            i += len;
        }
        return n;
    }

    bool valid(std::string_view s)
    {
        for (size_t i = 0; i < s.size();)
        {
            const auto len = char_length(s, i);
            if (len == 0)
                return false;
            i += len;
        }
        return true;
    }

    Strings lines_of(const std::string& s)
    {
        Strings r;
        size_t start = 0;
        for (size_t i = 0; i < s.size(); ++i)
            if (s[i] == '\n')
            {
                r.push_back(s.substr(start, i - start));
                start = i + 1;
            }
        if (start < s.size())
            r.push_back(s.substr(start));
        return r;
    }

    Strings words_of(const std::string& s)
    {
        Strings r;
        std::string w;
        for (char c : s + " ")
        {
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r')
            {
                if (!w.empty())
                    r.push_back(w);
                w.clear();
            }
            else
                w += c;
        }
        return r;
    }

    std::string letter(Rng& r, int kind)
    {
        static const std::vector<std::string> two = {"\xc3\xa6", "\xc3\xb8", "\xce\xb1", "\xd0\xaf", "\xdf\xbf", "\xc2\x80"};
        static const std::vector<std::string> three = {"\xe2\x82\xac", "\xe6\x97\xa5", "\xef\xbf\xbd", "\xe0\xa4\x85"};
        static const std::vector<std::string> four = {"\xf0\x9f\x98\x80", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"};
        switch (kind)
        {
        case 2: return r.pick(two);
        case 3: return r.pick(three);
        case 4: return r.pick(four);
        default: return std::string(1, char('a' + r.below(26)));
        }
    }

    struct TextProfile
    {
        int max_words = 30;
        int multi_pct = 30;    // of words
        int invalid_pct = 0;   // of words
        int newline_pct = 8;
        int tab_pct = 4;
        int marker_pct = 8;
        int long_pct = 12;
        int punctuation_pct = 15;
        Strings rule_words;
    };

    std::string make_word(Rng& r, const TextProfile& t)
    {
        if (!t.rule_words.empty() && r.pct(25))
        {
            auto w = r.pick(t.rule_words);
            if (r.pct(25))
                w[0] = char(toupper((unsigned char)w[0]));
            if (r.pct(30))
                w += r.pick(std::string(".,;:!?)"));
            if (r.pct(8))
                w += "...";
            return w;
        }
        if (r.pct(unsigned(t.marker_pct)))
            return r.pick(Strings{"-", "*", "1.", "23.", "--", "a."});
        std::string w;
        const int n = r.pct(unsigned(t.long_pct)) ? r.range(8, 60) : r.range(1, 9);
        const bool multi = r.pct(unsigned(t.multi_pct));
        for (int i = 0; i < n; ++i)
        {
            if (r.pct(unsigned(t.punctuation_pct)))
                w += r.pick(std::string("-._/0123456789,=ABC"));
            else
                w += letter(r, multi ? r.range(1, 4) : 1);
        }
        if (r.pct(unsigned(t.invalid_pct)))
            w.insert(r.below(unsigned(w.size() + 1)), 1, r.pick(std::string("\xff\x80\xc3\xe2\xf0")));
        return w;
    }

    std::string make_text(Rng& r, const TextProfile& t)
    {
        std::string s;
        const int n = r.range(0, t.max_words);
        if (r.pct(5))
            s += " ";
        for (int i = 0; i < n; ++i)
        {
            s += make_word(r, t);
            if (r.pct(unsigned(t.newline_pct)))
                s += r.pick(Strings{"\n", "\n\n", "\r\n", "\n ", "\n  ", "\n\n\n", "\r", "\n    ", "\n\t"});
            else if (r.pct(unsigned(t.tab_pct)))
                s += r.pick(Strings{"\t", "\t\t", " \t"});
            else if (i + 1 < n)
                s += std::string(r.pct(85) ? 1u : unsigned(r.range(2, 9)), ' ');
        }
        return s;
    }

    struct Page
    {
        unsigned width = 80;
        Strings rules;         // as given to add_word_splitting_rule
        std::string text;      // the text under test
        std::string name;      // of the argument that has the text as its help text, empty: the text is the about text
    };

    std::string describe(const Page& p)
    {
        return "line_width " + std::to_string(p.width) + " word splitting rules " + ql(p.rules) + "\n"
               + (p.name.empty() ? "about text" : "help text of argument " + q(p.name)) + ": " + q(p.text) + "\n";
    }

    std::string show(const Page& p, bool subcommand)
    {
        std::ostringstream out;
        argos::ArgumentParser a("p");
        a.auto_exit(false).stream(&out).generate_help_option(false).line_width(p.width);
        for (auto& r : p.rules)
            a.add_word_splitting_rule(r);
        argos::Command c("sub");
        auto fill = [&](auto& x)
        {
            x.text(TextId::USAGE, "");
            if (p.name.empty())
                x.about(p.text);
            else
                x.add(argos::Argument(p.name).help(p.text));
        };
        if (subcommand)
        {
            fill(c);
            a.add(std::move(c));
            a.write_subcommand_help_text({"sub"});
        }
        else
        {
            fill(a);
            a.write_help_text();
        }
        return out.str();
    }

    struct Rule
    {
        std::set<size_t> breaks;
    };

    std::string lower(std::string s)
    {
        for (auto& c : s)
            if (c >= 'A' && c <= 'Z')
                c = char(c - 'A' + 'a');
        return s;
    }

    std::map<std::string, Rule> rules_of(const Strings& rules)
    {
        std::map<std::string, Rule> r;
        for (auto& s : rules)
        {
            std::string key;
            Rule x;
            for (char c : s)
            {
                if (c == ' ')
                    x.breaks.insert(key.size());
                else
                    key += c;
            }
            x.breaks.insert(key.size()); // before punctuation
            r.insert({lower(key), x});
        }
        return r;
    }

    bool rule_allows(const std::map<std::string, Rule>& rules, const std::string& word, size_t pos)
    {
        const auto last = word.find_last_not_of(".,;:!?()[]{}<>\"'`");
        const auto it = rules.find(lower(word.substr(0, last + 1)));
        return it != rules.end() && it->second.breaks.count(pos);
    }

    std::string check_widths(const std::string& out, size_t width)
    {
        for (auto& l : lines_of(out))
        {
            const auto indent = l.find_first_not_of(' ');
            if (indent != std::string::npos && indent + 3 > width)
                continue;
            // Well-formed parts count as they are displayed, other parts as bytes.
            size_t n = 0;
            std::string part;
            for (char c : l + " ")
            {
                if (c == ' ')
                {
                    n += columns(part) + 1;
                    part.clear();
                }
                else
                    part += c;
            }
            --n;
            if (n > width)
                return "a line has " + std::to_string(n) + " columns: " + q(l);
        }
        return "";
    }

    /// Matches the text against the output: an output is read as the text with added line breaks, indentation and, where a
    /// word is broken, hyphens.
    struct Matcher
    {
        const std::string& out;
        std::string text;
        size_t width;
        const std::map<std::string, Rule>& rules;
        bool check_breaks, check_content;
        std::map<std::pair<size_t, size_t>, bool> seen;

        static std::string normal(const std::string& s)
        {
            std::string r;
            for (size_t i = 0; i < s.size(); ++i)
            {
                if (s[i] == '\r')
                {
                    if (i + 1 == s.size() || s[i + 1] != '\n')
                        r += '\n';
                }
                else
                    r += s[i] == '\t' ? ' ' : s[i];
            }
            return r;
        }

        bool inside_word(size_t t) const
        {
            return t > 0 && t < text.size() && text[t - 1] != ' ' && text[t - 1] != '\n' && text[t] != ' ' && text[t] != '\n';
        }

        bool may_break(size_t o, size_t t) const
        {
            if (!check_breaks)
                return true;
            size_t a = t, b = t;
            while (a > 0 && text[a - 1] != ' ' && text[a - 1] != '\n')
                --a;
            while (b < text.size() && text[b] != ' ' && text[b] != '\n')
                ++b;
            const auto word = text.substr(a, b - a);
            if (rule_allows(rules, word, t - a))
                return true;
            // o is the line break; the indentation of the next line is that of the word's lines.
            size_t indent = 0;
            while (o + 1 + indent < out.size() && out[o + 1 + indent] == ' ')
                ++indent;
            return columns(word) + indent > width;
        }

        bool match(size_t o, size_t t)
        {
            while (true)
            {
                const auto key = std::make_pair(o, t);
                if (auto it = seen.find(key); it != seen.end())
                    return it->second;
                seen[key] = false;
                if (o == out.size())
                {
                    for (size_t i = t; i < text.size(); ++i)
                        if (text[i] != ' ' && text[i] != '\n')
                            return false;
                    return seen[key] = true;
                }
                if (out[o] == ' ')
                {
                    if (inside_word(t) && o > 0 && out[o - 1] != '\n' && out[o - 1] != ' ')
                        return false;
                    ++o;
                    continue;
                }
                if (out[o] == '\n')
                {
                    // A line break of the text ...
                    size_t u = t;
                    while (u < text.size() && text[u] == ' ')
                        ++u;
                    if (u < text.size() && text[u] == '\n' && match(o + 1, u + 1))
                        return seen[key] = true;
                    // ... or one that was added
                    if (inside_word(t) && !may_break(o, t))
                        return false;
                    return seen[key] = match(o + 1, t);
                }
                if (out[o] == '-' && o + 1 < out.size() && out[o + 1] == '\n' && inside_word(t) && may_break(o + 1, t)
                    && match(o + 1, t))
                    return seen[key] = true;
                size_t u = t;
                while (u < text.size() && text[u] == ' ')
                    ++u;
                if (u < text.size() && text[u] == out[o])
                {
                    ++o;
                    t = u + 1;
                    continue;
                }
                return false;
            }
        }
    };

    bool utf8_divided(const std::string& out)
    {
        // For valid texts every line must be valid.
        for (auto& l : lines_of(out))
            if (!valid(l))
                return true;
        return false;
    }

    TextProfile some_profile(Rng& r, Page& p)
    {
        TextProfile t;
        t.max_words = r.pct(20) ? 120 : 25;
        t.multi_pct = r.pct(40) ? 0 : 50;
        t.invalid_pct = r.pct(10) ? 20 : 0;
        t.newline_pct = r.pct(50) ? 2 : 15;
        t.tab_pct = r.pct(70) ? 0 : 12;
        t.long_pct = r.pct(50) ? 5 : 40;
        t.punctuation_pct = r.pct(50) ? 3 : 30;
        if (r.pct(50))
        {
            for (int n = r.range(1, 4); n > 0; --n)
            {
                std::string rule, word;
                const int parts = r.range(1, 4);
                for (int i = 0; i < parts; ++i)
                {
                    std::string part;
                    for (int k = r.range(1, 9); k > 0; --k)
                        part += letter(r, r.pct(15) ? 2 : 1);
                    if (r.pct(25))
                        part += "-";
                    rule += (i ? " " : "") + part;
                    word += part;
                }
                p.rules.push_back(rule);
                t.rule_words.push_back(word);
            }
        }
        p.width = r.pct(25) ? unsigned(r.range(3, 12)) : r.pct(60) ? unsigned(r.range(10, 40)) : unsigned(r.range(30, 100));
        if (r.pct(30))
            p.name = std::string(size_t(r.range(1, 12)), 'n');
        return t;
    }

    void shrink_text(std::string& s, const std::function<bool()>& fails)
    {
        for (size_t chunk = s.size(); chunk > 0; chunk /= 2)
            for (size_t i = 0; i + chunk <= s.size();)
            {
                const auto old = s;
                s.erase(i, chunk);
                if (!fails())
                {
                    s = old;
                    i += chunk;
                }
            }
    }

    std::string judge_page(const Page& p, bool sub, char what)
    {
        std::string out;
        try
        {
            out = show(p, sub);
        }
        catch (argos::ArgosException& ex)
        {
            return std::string("exception: ") + ex.what();
        }
        if (what == 'w')
        {
            auto s = check_widths(out, p.width);
            if (!s.empty())
                return s + "\noutput " + q(out);
        }
        // The name and the default heading come before the text.
        std::string head = p.name.empty() ? "" : "ARGUMENTS\n<" + p.name + "> ";
        const auto rules = rules_of(p.rules);
        Matcher m{out, head + Matcher::normal(p.text), p.width, rules, what == 'w', true, {}};
        if (!m.match(0, 0))
        {
            if (what == 'w')
            {
                Matcher free{out, head + Matcher::normal(p.text), p.width, rules, false, true, {}};
                if (free.match(0, 0))
                    return "a word is broken that fits a line\noutput " + q(out);
                return "";
            }
            return "the output does not contain the text\noutput " + q(out);
        }
        if (what == 'c' && valid(p.text) && utf8_divided(out))
            return "a character is divided\noutput " + q(out);
        return "";
    }

    Outcome page_case(Rng& r, char what)
    {
        Outcome o;
        Page p;
        const auto t = some_profile(r, p);
        p.text = make_text(r, t);
        const bool sub = r.pct(30);
        set_case_text(describe(p));
        o.problem = judge_page(p, sub, what);
        if (!o.problem.empty())
        {
            shrink_text(p.text, [&] { return !judge_page(p, sub, what).empty(); });
            while (!p.rules.empty())
            {
                auto shorter = p;
                shorter.rules.pop_back();
                if (judge_page(shorter, sub, what).empty())
                    break;
                p = shorter;
            }
            o.problem = judge_page(p, sub, what);
        }
        o.case_text = describe(p);
        o.trivial = words_of(p.text).empty();
        return o;
    }

    /// Error messages are wrapped too.
    Outcome message_case(Rng& r, char what)
    {
        Outcome o;
        Page p;
        TextProfile t = some_profile(r, p);
        t.invalid_pct = 0;
        t.newline_pct = t.tab_pct = 0;
        p.name.clear();
        const auto arg = make_text(r, t);
        o.case_text = "line_width " + std::to_string(p.width) + " word splitting rules " + ql(p.rules) + " unknown option " + q("--" + arg) + "\n";
        set_case_text(o.case_text);
        std::ostringstream out;
        argos::ArgumentParser a("prog");
        a.auto_exit(false).stream(&out).generate_help_option(false).line_width(p.width).text(TextId::USAGE, "").text(TextId::ERROR_USAGE, "");
        for (auto& x : p.rules)
            a.add_word_splitting_rule(x);
        const auto flag = "--" + arg;
        std::move(a).parse(std::vector<std::string_view>{flag});
        const auto text = out.str();
        if (what == 'w')
            o.problem = check_widths(text, p.width);
        const auto rules = rules_of(p.rules);
        Matcher m{text, "prog: Unknown option: " + flag, p.width, rules, what == 'w', true, {}};
        if (o.problem.empty() && !m.match(0, 0))
        {
            Matcher free{text, "prog: Unknown option: " + flag, p.width, rules, false, true, {}};
            if (what == 'c')
                o.problem = "the output does not contain the message";
            else if (free.match(0, 0))
                o.problem = "a word is broken that fits a line";
        }
        if (what == 'c' && o.problem.empty() && utf8_divided(text))
            o.problem = "a character is divided";
        if (!o.problem.empty())
            o.problem += "\noutput " + q(text);
        return o;
    }

    /// The layout of a text in any script is that of a text with the same number of letters.
    Outcome script_case(Rng& r)
    {
        Outcome o;
        Page p;
        p.width = unsigned(r.range(3, 60));
        // Where a name is broken depends on its letters: there must be room for them.
        const bool names = r.pct(50);
        if (names)
            p.width += 22;
        auto text = [&](int words, bool spaces)
        {
            std::string s;
            for (int i = r.range(1, words); i > 0; --i)
            {
                for (int k = spaces && r.pct(15) ? r.range(5, 40) : r.range(1, 9); k > 0; --k)
                    s += 'x';
                if (spaces && i > 1)
                    s += r.pct(12) ? "\n" : " ";
            }
            return s;
        };
        auto translate = [&](const std::string& s)
        {
            std::string t;
            const int kind = r.range(1, 4);
            for (char c : s)
                t += c == 'x' ? letter(r, r.pct(70) ? kind : r.range(1, 4)) : std::string(1, c);
            return t;
        };
        std::vector<std::pair<std::string, std::string>> plain, other;
        const auto about = text(30, true);
        const auto about2 = translate(about);
        for (int i = names ? r.range(1, 4) : 0; i > 0; --i)
        {
            plain.emplace_back(text(1, false), text(12, true));
            other.emplace_back(translate(plain.back().first), translate(plain.back().second));
        }
        auto show = [&](const std::string& about_text, const std::vector<std::pair<std::string, std::string>>& args)
        {
            std::ostringstream out;
            argos::ArgumentParser a("xxx");
            a.auto_exit(false).stream(&out).generate_help_option(false).line_width(p.width);
            a.about(about_text);
            for (auto& [n, h] : args)
                a.add(argos::Argument(n).help(h));
            a.write_help_text();
            std::string s;
            const auto raw = out.str();
            for (size_t i = 0; i < raw.size();)
            {
                const auto len = char_length(raw, i);
                if (len == 0)
                    return "not UTF-8: " + raw;
                s += len > 1 || islower((unsigned char)raw[i]) ? 'x' : raw[i];
                i += len;
            }
            return s;
        };
        o.case_text = "line_width " + std::to_string(p.width) + " about " + q(about2);
        for (auto& [n, h] : other)
            o.case_text += " argument " + q(n) + " help " + q(h);
        o.case_text += "\n";
        set_case_text(o.case_text);
        const auto e = show(about, plain), a = show(about2, other);
        if (e != a)
        {
            o.problem = compare_lines(lines_of(e), lines_of(a));
            if (o.problem.empty())
                o.problem = "layouts differ";
        }
        return o;
    }

    // ---- C17

    struct Entry
    {
        int kind; // 0 argument, 1 option, 2 command
        Strings names;
        std::string argument, help, section;
        Visibility visibility = Visibility::NORMAL;
        unsigned lo = 1, hi = 1;
        bool optional = true;
        argos::OptionType type = argos::OptionType::NORMAL;
        std::string current; // section that was current when added
        int require = -1;    // of sub-commands of a command
    };

    struct Sheet
    {
        std::string name;
        std::vector<Entry> entries;
        std::map<TextId, std::string> texts;
        std::string about;
        int require = -1;
    };

    std::string argument_label(const Entry& e)
    {
        const auto& n = e.names[0];
        if (n[0] == '<' || n[0] == '[')
            return n;
        std::string r;
        for (unsigned i = 0; i < e.lo; ++i)
            r += (r.empty() ? "<" : " <") + n + ">";
        if (e.hi == e.lo)
            return r;
        r += r.empty() ? "" : " ";
        return r + "[<" + n + ">]" + (e.hi - e.lo == 1 ? "" : "...");
    }

    std::string flag_label(const std::string& flag, const std::string& argument)
    {
        if (argument.empty())
            return flag;
        return flag + (flag.back() == '=' ? "" : " ") + (argument[0] == '<' ? argument : "<" + argument + ">");
    }

    bool stops(const Entry& e)
    {
        return e.type == argos::OptionType::HELP || e.type == argos::OptionType::STOP || e.type == argos::OptionType::EXIT;
    }

    std::string usage_label(const Entry& e, bool long_flag)
    {
        auto flag = e.names[0];
        if (long_flag)
            for (auto& f : e.names)
                if (f.size() > 2)
                {
                    flag = f;
                    break;
                }
        const auto s = flag_label(flag, e.argument);
        return e.optional && !stops(e) ? "[" + s + "]" : s;
    }

    /// The expected help text as words; headings are marked.
    Strings expected_words(const Sheet& s, const std::string& full_name)
    {
        Strings r;
        auto add = [&](const std::string& t)
        {
            for (auto& w : words_of(t))
                r.push_back(w);
        };
        auto custom = [&](TextId id) -> const std::string*
        {
            const auto it = s.texts.find(id);
            return it == s.texts.end() ? nullptr : &it->second;
        };
        if (auto t = custom(TextId::INITIAL_TEXT))
            add(*t);
        const auto usage = custom(TextId::USAGE);
        if (!usage || !usage->empty())
        {
            if (auto t = custom(TextId::USAGE_TITLE))
                add(*t);
            else
                r.push_back("USAGE");
            if (usage)
                add(*usage);
            else
            {
                auto shown = [](const Entry& e) { return (int(e.visibility) & int(Visibility::USAGE)) != 0; };
                for (auto& e : s.entries)
                    if (e.kind == 1 && shown(e) && stops(e))
                    {
                        add(full_name);
                        add(usage_label(e, true));
                    }
                add(full_name);
                for (auto& e : s.entries)
                    if (e.kind == 1 && shown(e) && !stops(e))
                        add(usage_label(e, false));
                for (auto& e : s.entries)
                    if (e.kind == 0 && shown(e))
                        add(argument_label(e));
                std::string cmds;
                bool any = false;
                for (auto& e : s.entries)
                {
                    if (e.kind != 2)
                        continue;
                    any = true;
                    if (shown(e))
                        cmds += (cmds.empty() ? "" : "|") + e.names[0];
                }
                if (any)
                    add(s.require == 0 ? "[" + cmds + "]" : cmds);
            }
        }
        if (!s.about.empty())
            add(s.about);
        else if (auto t = custom(TextId::HELP))
            add(*t);
        std::vector<std::pair<std::string, Strings>> sections;
        for (const int kind : {0, 2, 1})
        {
            static const char* titles[] = {"ARGUMENTS", "OPTIONS", "COMMANDS"};
            static const TextId ids[] = {TextId::ARGUMENTS_TITLE, TextId::OPTIONS_TITLE, TextId::SUBCOMMANDS_TITLE};
            std::string title = titles[kind];
            if (auto t = custom(ids[kind]))
                title = *t;
            for (auto& e : s.entries)
            {
                if (e.kind != kind || (int(e.visibility) & int(Visibility::TEXT)) == 0)
                    continue;
                const auto& heading = !e.section.empty() ? e.section : !e.current.empty() ? e.current : title;
                auto it = std::find_if(sections.begin(), sections.end(), [&](auto& x) { return x.first == heading; });
                if (it == sections.end())
                {
                    sections.push_back({heading, {}});
                    it = std::prev(sections.end());
                }
                std::string label;
                if (kind == 0)
                    label = argument_label(e);
                else if (kind == 2)
                    label = e.names[0];
                else
                    for (auto& f : e.names)
                        label += (label.empty() ? "" : ", ") + flag_label(f, e.argument);
                for (auto& w : words_of(label + " " + e.help))
                    it->second.push_back(w);
            }
        }
        for (auto& [heading, words] : sections)
        {
            r.push_back("HEADING " + heading);
            r.insert(r.end(), words.begin(), words.end());
        }
        if (auto t = custom(TextId::FINAL_TEXT))
            add(*t);
        return r;
    }

    Strings actual_words(const std::string& out, const std::set<std::string>& headings)
    {
        Strings r;
        for (auto& l : lines_of(out))
        {
            if (headings.count(l))
                r.push_back("HEADING " + l);
            else
                for (auto& w : words_of(l))
                    r.push_back(w);
        }
        return r;
    }

    template <typename T>
    void apply_common(T& x, const Entry& e, Rng& how)
    {
        if (!e.help.empty())
            x.help(e.help);
        if (!e.section.empty())
            x.section(e.section);
        if (e.visibility != Visibility::NORMAL || how.pct(20))
            x.visibility(e.visibility);
    }

    template <typename P>
    void add_entry(P& p, const Entry& e, uint64_t seed)
    {
        Rng how(seed);
        p.current_section(e.current);
        if (e.kind == 0)
        {
            argos::Argument a(e.names[0]);
            a.count(e.lo, e.hi);
            apply_common(a, e, how);
            p.add(std::move(a));
        }
        else if (e.kind == 1)
        {
            argos::Option o;
            o.flags(e.names);
            if (!e.argument.empty())
                o.argument(e.argument);
            o.type(e.type);
            o.mandatory(!e.optional);
            apply_common(o, e, how);
            p.add(std::move(o));
        }
        else
        {
            argos::Command c(e.names[0]);
            apply_common(c, e, how);
            p.add(std::move(c));
        }
    }

    Sheet make_sheet(Rng& r, bool with_commands, const std::set<std::string>& taken)
    {
        Sheet s;
        static const Strings sections = {"ALPHA", "BETA", "GAMMA", "OPTIONS", "ARGUMENTS", "COMMANDS"};
        std::string current;
        int n = 0;
        const int kinds = with_commands ? 2 : 0;
        for (int i = r.range(0, 6); i > 0; --i)
        {
            Entry e;
            e.kind = r.pct(50) ? 1 : kinds;
            ++n;
            const std::string id = std::to_string(n);
            if (e.kind == 1)
            {
                const int flags = r.range(1, 3);
                const bool arg = r.pct(50);
                for (int k = 0; k < flags; ++k)
                    e.names.push_back(k == 1 && n < 10 ? "-" + id : "--o" + id + std::string(size_t(k), 'k') + (arg && r.pct(25) ? "=" : ""));
                if (arg)
                    e.argument = r.pick(Strings{"N", "<num>", "FILE", "<a>|<b>"});
                else if (r.pct(25))
                    e.type = r.pick(std::vector<argos::OptionType>{argos::OptionType::HELP, argos::OptionType::STOP, argos::OptionType::EXIT,
                                                                   argos::OptionType::LAST_ARGUMENT, argos::OptionType::LAST_OPTION});
                e.optional = !r.pct(30);
            }
            else if (e.kind == 0)
            {
                e.names = {r.pick(Strings{"arg", "<arg", "[arg", "a b"}) + id};
                if (e.names[0][0] == '<')
                    e.names[0] += ">";
                if (e.names[0][0] == '[')
                    e.names[0] += "]";
                e.lo = unsigned(r.range(0, 3));
                e.hi = e.lo + unsigned(r.range(e.lo ? 0 : 1, 3));
            }
            else
                e.names = {"cmd" + id};
            if (r.pct(70))
                for (int k = r.range(1, 4); k > 0; --k)
                    e.help += (e.help.empty() ? "h" : " h") + id + std::to_string(k);
            if (r.pct(25))
                e.section = r.pick(sections);
            if (r.pct(25))
                current = r.pct(20) ? "" : r.pick(sections);
            e.current = current;
            e.visibility = r.pick(std::vector<Visibility>{Visibility::NORMAL, Visibility::NORMAL, Visibility::TEXT, Visibility::USAGE, Visibility::HIDDEN});
            s.entries.push_back(e);
        }
        if (r.pct(50))
            s.about = "about this";
        auto text = [&](TextId id, const std::string& t)
        {
            if (r.pct(15))
                s.texts[id] = t;
        };
        text(TextId::INITIAL_TEXT, "initial text");
        text(TextId::FINAL_TEXT, "final text");
        text(TextId::USAGE_TITLE, "How to use");
        text(TextId::ARGUMENTS_TITLE, "MYARGS");
        text(TextId::OPTIONS_TITLE, "MYOPTS");
        text(TextId::SUBCOMMANDS_TITLE, "MYCMDS");
        if (r.pct(10))
            s.texts[TextId::USAGE] = r.pct(50) ? "" : "use it";
        if (with_commands && r.pct(50))
            s.require = int(r.below(2));
        (void)taken;
        return s;
    }

    std::string describe(const Sheet& s)
    {
        std::string r = "about " + q(s.about);
        for (auto& [id, t] : s.texts)
            r += " text " + std::to_string(int(id)) + " " + q(t);
        r += " require_subcommand " + std::to_string(s.require) + "\n";
        for (auto& e : s.entries)
            r += std::string("  ") + (e.kind == 0 ? "argument " : e.kind == 1 ? "option " : "command ") + ql(e.names) + " argument " + q(e.argument)
                 + " help " + q(e.help) + " section " + q(e.section) + " current " + q(e.current) + " visibility " + std::to_string(int(e.visibility))
                 + " count " + std::to_string(e.lo) + ".." + std::to_string(e.hi) + (e.optional ? "" : " mandatory") + " type "
                 + std::to_string(int(e.type)) + "\n";
        return r;
    }

    Outcome sheet_case(Rng& r)
    {
        Outcome o;
        const bool with_commands = r.pct(40);
        auto s = make_sheet(r, with_commands, {});
        const bool sub = r.pct(40); // the sheet is that of a sub-command
        const bool help = r.pct(60); // an option of its own requests the help
        const std::string full = sub ? "prog deep" : "prog";
        if (help)
        {
            Entry e;
            e.kind = 1;
            e.names = {"-?", "--showhelp"};
            e.type = argos::OptionType::HELP;
            e.current = s.entries.empty() ? "" : s.entries.back().current;
            s.entries.push_back(e);
        }
        o.case_text = (sub ? "sub-command " : "parser ") + describe(s);
        set_case_text(o.case_text);
        const auto seed = r.u64();
        std::ostringstream out;
        auto fill = [&](auto& p)
        {
            size_t i = 0;
            for (auto& e : s.entries)
                add_entry(p, e, seed + i++);
            if (!s.about.empty())
                p.about(s.about);
            for (auto& [id, t] : s.texts)
            {
                if ((seed >> int(id)) & 1)
                    p.text(id, t);
                else
                    p.text(id, [t] { return t; });
            }
            if (s.require >= 0 && std::any_of(s.entries.begin(), s.entries.end(), [](auto& e) { return e.kind == 2; }))
                p.require_subcommand(s.require == 1);
        };
        auto make = [&]
        {
            argos::ArgumentParser p("prog");
            p.auto_exit(false).stream(&out).generate_help_option(false).line_width(400);
            if (sub)
            {
                argos::Command c("deep");
                fill(c);
                p.add(std::move(c));
            }
            else
                fill(p);
            return p;
        };
        std::set<std::string> headings = {"ALPHA", "BETA", "GAMMA", "OPTIONS", "ARGUMENTS", "COMMANDS", "MYARGS", "MYOPTS", "MYCMDS"};
        // Without an own setting sub-commands are required.
        auto spec = s;
        const auto expected = expected_words(spec, full);
        auto take = [&]
        {
            auto t = out.str();
            out.str("");
            return t;
        };
        auto text_of = [&](const argos::ArgumentParser& p)
        {
            if (sub)
                p.write_subcommand_help_text({"deep"});
            else
                p.write_help_text();
            return take();
        };
        auto p = make();
        const auto first = text_of(p);
        o.problem = compare_lines(expected, actual_words(first, headings));
        if (!o.problem.empty())
        {
            o.problem += "\noutput " + q(first);
            return o;
        }
        Strings a, b;
        auto same = [&](const char* what, const std::string& t)
        {
            a.push_back(std::string(what) + " " + q(first));
            b.push_back(std::string(what) + " " + q(t));
        };
        same("again", text_of(p));
        same("const", text_of(std::as_const(p)));
        if (help)
        {
            std::vector<std::string_view> args;
            if (sub)
                args.push_back("deep");
            args.push_back(r.pct(50) ? "-?" : "--showhelp");
            std::as_const(p).parse(args);
            same("option (const)", take());
            same("after parsing (const)", text_of(p));
            auto p2 = make();
            p2.parse(args);
            same("option", take());
        }
        o.problem = compare_lines(a, b);
        return o;
    }

    /// The generated help option is part of the help however it is requested.
    Outcome generated_case(Rng& r)
    {
        Outcome o;
        auto s = make_sheet(r, r.pct(40), {});
        const bool version = r.pct(40);
        const auto style = r.pick(std::vector<argos::OptionStyle>{argos::OptionStyle::STANDARD, argos::OptionStyle::SLASH, argos::OptionStyle::DASH});
        // An own help option replaces the generated one.
        std::erase_if(s.entries, [](auto& e) { return e.type == argos::OptionType::HELP; });
        if (style != argos::OptionStyle::STANDARD)
            std::erase_if(s.entries, [](auto& e) { return e.kind == 1; });
        o.case_text = "style " + std::to_string(int(style)) + (version ? " version " : " ") + describe(s);
        set_case_text(o.case_text);
        std::ostringstream out;
        auto make = [&]
        {
            argos::ArgumentParser p("prog");
            p.auto_exit(false).stream(&out).line_width(200).option_style(style);
            size_t i = 0;
            for (auto& e : s.entries)
                add_entry(p, e, i++);
            for (auto& [id, t] : s.texts)
                p.text(id, t);
            if (version)
                p.version("1.0");
            return p;
        };
        auto take = [&]
        {
            auto t = out.str();
            out.str("");
            return t;
        };
        auto p = make();
        p.write_help_text();
        const auto first = take();
        const char* flag = style == argos::OptionStyle::SLASH ? "/?" : style == argos::OptionStyle::DASH ? "-h" : "--help";
        Strings a, b;
        auto same = [&](const char* what, const std::string& t)
        {
            a.push_back(std::string(what) + " " + q(first));
            b.push_back(std::string(what) + " " + q(t));
        };
        if (!s.texts.count(TextId::USAGE) && first.find(flag) == std::string::npos)
            o.problem = "the help option is missing: " + q(first);
        p.write_help_text();
        same("again", take());
        auto res = std::as_const(p).parse(std::vector<std::string_view>{flag});
        same("option (const)", take());
        if (res.result_code() != argos::ParserResultCode::STOP)
            o.problem = "the help option does not stop the parser";
        auto p2 = make();
        p2.parse(std::vector<std::string_view>{flag});
        same("option", take());
        if (o.problem.empty())
            o.problem = compare_lines(a, b);
        return o;
    }
}

void text_modes(std::vector<Mode>& m)
{
    m.push_back({"C14", [](Rng& r) { return r.pct(85) ? page_case(r, 'w') : message_case(r, 'w'); }});
    m.push_back({"C15", [](Rng& r) { return r.pct(85) ? page_case(r, 'c') : message_case(r, 'c'); }});
    m.push_back({"C16", script_case});
    m.push_back({"C17", [](Rng& r) { return r.pct(70) ? sheet_case(r) : generated_case(r); }});
}
