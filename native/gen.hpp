// Random parser definitions and command lines.
#pragma once
#include <algorithm>
#include "model.hpp"

namespace gen
{
    using namespace ref;

    struct Profile
    {
        int opts_lo = 0, opts_hi = 4;     // options per command
        int args_lo = 0, args_hi = 3;     // arguments per command
        int depth = 0;                    // levels of sub-commands
        int cmds_lo = 1, cmds_hi = 3;
        unsigned cmd_pct = 60;            // a command (above depth 0) has sub-commands
        unsigned multi_pct = 40;
        unsigned abbr_pct = 30, ci_pct = 30, ignore_opts_pct = 10, ignore_args_pct = 15;
        unsigned special_pct = 12;        // option type other than NORMAL
        unsigned cb_pct = 20, wide_pct = 20, insert_pct = 40, value_action_pct = 20;
        unsigned mandatory_pct = 10, initial_pct = 10, alias_pct = 12;
        unsigned help_pct = 60, version_pct = 15;
        unsigned count_pct = 40;          // an argument has a count other than 1
        unsigned clash_pct = 2;           // do not care whether flags clash
        unsigned value_pct = 55;          // an option takes a value
        unsigned bad_pct = 0;             // definitions that may be malformed
        unsigned long_pct = 55;           // long flags
        unsigned noise_pct = 12;          // tokens that have nothing to do with the definition
        unsigned group_pct = 30;
        unsigned adjust_count_pct = 60;
        int tokens_lo = 0, tokens_hi = 9;
        std::string letters = "abcAB1";
    };

    inline char flip(char c)
    {
        if (c >= 'a' && c <= 'z')
            return char(c - 'a' + 'A');
        return ref::fold(c);
    }

    inline std::string flip_some(Rng& r, std::string s)
    {
        for (auto& c : s)
            if (r.pct(50))
                c = flip(c);
        return s;
    }

    inline std::string word(Rng& r, const std::string& letters, int lo, int hi)
    {
        std::string s;
        for (int n = r.range(lo, hi); n > 0; --n)
            s += letters[r.below(unsigned(letters.size()))];
        return s;
    }

    inline std::string gen_flag(Rng& r, Style style, const Profile& f, bool with_arg)
    {
        const std::string p = style == SLASH ? "/" : "-";
        if (style == STANDARD)
        {
            if (!r.pct(f.long_pct))
                return p + word(r, f.letters, 1, 1);
            auto s = "--" + word(r, f.letters + "-", 1, 4);
            if (with_arg && r.pct(30))
                s += "=";
            return s;
        }
        if (!r.pct(f.long_pct))
            return p + word(r, f.letters + "?", 1, 1);
        auto s = p + word(r, f.letters + "-", 1, 4);
        if (with_arg && r.pct(30) && s.size() > 2)
            s += "=";
        return s;
    }

    inline std::string bad_flag(Rng& r, Style style)
    {
        static const Strings v = {"", "-", "/", "--", "//", "a", "-ab", "--a=b", "--a=", "--=", "-a=", "/a=b", "/a=", "--a b", "-\t", "-\n",
                                  "--a\r", "/a\t", "/ ", "- ", "-=", "/=", "--a==", "--=a", "x-a", "x--abc", "/a", "-a", "--abc", "/abc", "-/",
                                  "/-", "---", "---a", "--a\x0b", "--\xc3\xa6", "-\xc3\xa6", "-\xe6", "--a\xa0", "=", "==", "-a b", "ab", " -a", " --ab"};
        if (r.pct(70))
            return r.pick(v);
        (void)style;
        return word(r, "-/ab= \t", 0, 5);
    }

    inline const Strings& values()
    {
        static const Strings v = {"x", "y", "zz", "1", "", "-", "--", "=", "a=b", "v", "w w", "-x", "--x", "/x", "/", "\xc3\xa6", "0"};
        return v;
    }

    struct Gen
    {
        Rng& r;
        const Profile& f;
        Parser p;
        int next_id = 1;

        Gen(Rng& r_, const Profile& f_) : r(r_), f(f_) {}

        Script script(unsigned pct)
        {
            Script s;
            s.set = r.pct(pct);
            return s;
        }

        Opt option(const Cmd& c)
        {
            Opt o;
            o.id = next_id++;
            const bool arg = r.pct(f.value_pct);
            if (arg)
                o.argument = r.pct(20) ? "<N>" : "N";
            const int n = r.pct(60) ? 1 : r.range(2, 3);
            for (int i = 0; i < n; ++i)
            {
                std::string flag;
                for (int tries = 0; tries < 20; ++tries)
                {
                    flag = gen_flag(r, p.style, f, arg);
                    bool clash = false;
                    for (auto& x : c.opts)
                        for (auto& g : x.flags)
                            clash = clash || same(g, flag, p.ci);
                    for (auto& g : o.flags)
                        clash = clash || same(g, flag, p.ci);
                    if (!clash || r.pct(f.clash_pct))
                        break;
                    flag.clear();
                }
                if (!flag.empty())
                    o.flags.push_back(flag);
            }
            const unsigned k = r.below(100);
            if (arg)
                o.op = k < 55 ? ASSIGN : k < 95 ? APPEND : k < 98 ? CLEAR : NONE;
            else
                o.op = k < 50 ? ASSIGN : k < 70 ? APPEND : k < 88 ? CLEAR : NONE;
            if (!arg && (o.op == APPEND || (o.op == ASSIGN && r.pct(40))))
                o.constant = r.pick(Strings{"1", "c", "0", "k=v"});
            if (r.pct(f.special_pct))
                o.type = Type(r.range(1, 5));
            if (o.op != CLEAR && o.op != NONE)
                o.mandatory = r.pct(f.mandatory_pct);
            if (o.op != NONE && r.pct(f.initial_pct))
                o.initial = r.pick(Strings{"i", "j", "i=1"});
            if (o.op != NONE && r.pct(f.alias_pct))
                o.alias = alias(c);
            if (f.bad_pct)
            {
                if (r.pct(f.bad_pct) && !o.flags.empty())
                    o.flags[r.below(unsigned(o.flags.size()))] = bad_flag(r, p.style);
                if (r.pct(f.bad_pct / 4))
                    o.flags.clear();
                if (r.pct(f.bad_pct))
                    o.constant = r.pct(50) ? "q" : "";
                if (r.pct(f.bad_pct))
                    o.argument = r.pct(50) ? "Q" : "";
                if (r.pct(f.bad_pct))
                    o.op = Op(r.range(0, 3));
                if (r.pct(f.bad_pct / 2))
                    o.alias = r.pct(50) ? "al" : "";
                if (r.pct(f.bad_pct / 2))
                    o.mandatory = !o.mandatory;
                if (o.op == NONE)
                    o.initial.clear();
            }
            o.cb = script(f.cb_pct);
            return o;
        }

        std::string alias(const Cmd& c)
        {
            if (r.pct(60))
            {
                Strings names;
                for (auto& a : c.args)
                    names.push_back(a.name);
                for (auto& o : c.opts)
                    for (auto& g : o.flags)
                        names.push_back(g);
                if (!names.empty())
                    return r.pick(names);
            }
            return r.pick(Strings{"al1", "al2", "ARG", "x", "al3"});
        }

        Arg argument(const Cmd& c)
        {
            static const Strings names = {"ARG", "file", "x", "N", "al1", "src", "dst"};
            Arg a;
            a.id = next_id++;
            for (int i = 0; i < 10; ++i)
            {
                a.name = r.pick(names);
                bool used = false;
                for (auto& b : c.args)
                    used = used || b.name == a.name;
                if (!used || r.pct(5))
                    break;
            }
            if (r.pct(f.count_pct))
            {
                const int k = r.range(0, 7);
                a.min = unsigned(k < 3 ? 0 : r.range(0, 2));
                a.max = k == 0 ? 1 : k == 1 ? 0xFFFFFFFFu : unsigned(int(a.min) + r.range(0, 3));
                if (a.max == 0)
                    a.max = 1;
            }
            if (r.pct(f.alias_pct))
                a.alias = alias(c);
            a.cb = script(f.cb_pct);
            return a;
        }

        void cmd(Cmd& c, int depth)
        {
            c.id = next_id++;
            for (int n = r.range(f.opts_lo, f.opts_hi); n > 0; --n)
            {
                auto o = option(c);
                if (!o.flags.empty() || f.bad_pct)
                    c.opts.push_back(o);
            }
            if (depth > 0 && r.pct(f.cmd_pct))
            {
                static const Strings names = {"go", "run", "Run", "x", "a", "add", "ADD", "zz"};
                for (int n = r.range(f.cmds_lo, f.cmds_hi); n > 0; --n)
                {
                    Cmd s;
                    for (int i = 0; i < 10; ++i)
                    {
                        s.name = r.pick(names);
                        bool used = false;
                        for (auto& b : c.cmds)
                            used = used || same(b.name, s.name, true);
                        if (!used || r.pct(10))
                            break;
                    }
                    cmd(s, depth - 1);
                    c.cmds.push_back(std::move(s));
                }
                c.multi = r.pct(f.multi_pct);
                if (r.pct(25))
                    c.require = r.pct(60) ? false : true;
            }
            else
            {
                for (int n = r.range(f.args_lo, f.args_hi); n > 0; --n)
                    c.args.push_back(argument(c));
                if (r.pct(4))
                    c.require = r.pct(80) ? false : true;
                if (r.pct(4))
                    c.multi = true;
            }
        }

        void fill_scripts(Cmd& c)
        {
            for (auto& o : c.opts)
                actions(o.cb, c);
            for (auto& a : c.args)
                actions(a.cb, c);
            for (auto& s : c.cmds)
                fill_scripts(s);
        }

        void actions(Script& s, const Cmd& c)
        {
            if (!s.set)
                return;
            if (r.pct(f.insert_pct))
                for (int n = r.range(1, 2); n > 0; --n)
                {
                    Action a;
                    a.call = r.pct(70) ? 1 : r.range(1, 3);
                    a.kind = 'i';
                    const Cmd* cur = &c;
                    for (int k = r.range(1, 3); k > 0; --k)
                        token(a.inserted, cur);
                    s.actions.push_back(a);
                }
            while (r.pct(f.value_action_pct))
            {
                Action a;
                a.call = r.pct(60) ? 1 : r.range(1, 3);
                a.kind = r.pick(std::string("asc"));
                Strings names{"al1", "nosuch"};
                for (auto& x : c.args)
                    names.push_back(x.name);
                for (auto& o : c.opts)
                    names.insert(names.end(), o.flags.begin(), o.flags.end());
                a.name = r.pick(names);
                a.value = r.pick(values());
                s.actions.push_back(a);
                if (s.actions.size() > 6)
                    break;
            }
        }

        void parser()
        {
            p.style = r.pct(55) ? STANDARD : r.pct(50) ? SLASH : DASH;
            p.abbr = r.pct(f.abbr_pct);
            p.ci = r.pct(f.ci_pct);
            p.ignore_opts = r.pct(f.ignore_opts_pct);
            p.ignore_args = r.pct(f.ignore_args_pct);
            p.gen_help = r.pct(f.help_pct);
            if (r.pct(f.version_pct))
                p.version = "1.2";
            p.top.name = "prog";
            cmd(p.top, f.depth);
            p.opt_cb.set = r.pct(f.wide_pct);
            p.arg_cb.set = r.pct(f.wide_pct);
            fill_scripts(p.top);
            actions(p.opt_cb, p.top);
            actions(p.arg_cb, p.top);
        }

        // ------------------------------------------------------------ command lines
        const Opt* any_option(const Cmd& c) { return c.opts.empty() ? nullptr : &c.opts[r.below(unsigned(c.opts.size()))]; }

        void token(Strings& out, const Cmd*& cur)
        {
            if (r.pct(f.noise_pct))
            {
                out.push_back(noise());
                return;
            }
            if (!cur->cmds.empty() && r.pct(40))
            {
                const auto& s = r.pick(cur->cmds);
                out.push_back(p.ci && r.pct(30) ? flip_some(r, s.name) : s.name);
                cur = &s;
                return;
            }
            const Opt* o = any_option(*cur);
            if (!o || (cur->cmds.empty() && !cur->args.empty() && r.pct(45)) || (cur->cmds.empty() && r.pct(10)))
            {
                positional(out, cur);
                return;
            }
            option_use(out, *cur, *o);
        }

        void positional(Strings& out, const Cmd*& cur)
        {
            if (r.pct(12) && !p.top.cmds.empty())
            {
                // a sibling's name
                const auto& s = r.pick(p.top.cmds);
                out.push_back(p.ci && r.pct(30) ? flip_some(r, s.name) : s.name);
                if (p.top.multi && r.pct(80))
                    cur = &s;
                return;
            }
            out.push_back(r.pct(80) ? r.pick(Strings{"x", "y", "zz", "1", "v"}) : r.pick(values()));
        }

        std::string noise()
        {
            const unsigned k = r.below(6);
            if (k == 0)
                return r.pick(values());
            if (k == 1 && p.gen_help)
                return p.style == SLASH ? "/?" : r.pct(50) ? "-h" : p.style == STANDARD ? "--help" : "-help";
            if (k == 2 && !p.version.empty())
                return p.style == STANDARD ? "--version" : p.style == SLASH ? "/VERSION" : "-version";
            if (k <= 4)
            {
                auto s = gen_flag(r, p.style, f, true);
                if (r.pct(20))
                    s += "=" + r.pick(values());
                return s;
            }
            return word(r, f.letters + "-=/", 0, 5);
        }

        void option_use(Strings& out, const Cmd& c, const Opt& o)
        {
            if (o.flags.empty())
                return;
            auto flag = r.pick(o.flags);
            if (r.pct(p.ci ? 30 : 4))
                flag = flip_some(r, flag);
            if (r.pct(p.abbr ? 40 : 5) && flag.size() > 2)
                flag.resize(size_t(r.range(2, int(flag.size()))));
            if (p.style == STANDARD && flag.size() == 2 && flag[1] != '-' && r.pct(f.group_pct))
            {
                // concatenated flags
                std::string group = "-";
                for (int n = r.range(0, 2); n > 0; --n)
                    if (auto x = any_option(c))
                        for (auto& g : x->flags)
                            if (g.size() == 2 && g[1] != '-')
                            {
                                group += g[1];
                                break;
                            }
                group += flag[1];
                if (r.pct(25))
                    group += r.pick(values());
                out.push_back(group);
                if (o.takes_value() && r.pct(40))
                    out.push_back(r.pick(values()));
                return;
            }
            const bool eq = flag.size() > 1 && flag.back() == '=';
            if (o.takes_value() || r.pct(4))
            {
                const auto& v = r.pick(values());
                if (eq)
                {
                    out.push_back(r.pct(85) ? flag + v : flag.substr(0, flag.size() - 1));
                    return;
                }
                if (flag.size() > 2 && r.pct(35))
                {
                    out.push_back(flag + "=" + v);
                    return;
                }
                out.push_back(flag);
                if (r.pct(92))
                    out.push_back(v);
                return;
            }
            out.push_back(flag);
        }

        void argv()
        {
            const Cmd* cur = &p.top;
            for (int n = r.range(f.tokens_lo, f.tokens_hi); n > 0; --n)
                token(p.argv, cur);
        }
    };

    // ---------------------------------------------------------------- descriptions
    inline std::string describe(const Script& s)
    {
        if (!s.set)
            return "";
        std::string r = " callback{";
        for (auto& a : s.actions)
            r += std::string(" call ") + std::to_string(a.call) + ": "
                 + (a.kind == 'i' ? "new_arguments " + ql(a.inserted)
                                  : (a.kind == 'a' ? "append " : a.kind == 's' ? "assign " : "clear ") + q(a.name) + " " + q(a.value));
        return r + " }";
    }

    inline std::string describe(const Cmd& c, const std::string& indent)
    {
        static const char* ops[] = {"NONE", "ASSIGN", "APPEND", "CLEAR"};
        static const char* types[] = {"NORMAL", "HELP", "STOP", "EXIT", "LAST_ARGUMENT", "LAST_OPTION"};
        std::string s = indent + "command #" + std::to_string(c.id) + " " + q(c.name) + (c.multi ? " multi" : "")
                        + (c.require ? *c.require ? " require_subcommand(true)" : " require_subcommand(false)" : "") + "\n";
        for (auto& o : c.opts)
        {
            s += indent + "  option #" + std::to_string(o.id) + " " + ql(o.flags) + " " + ops[o.op] + " " + types[o.type];
            if (!o.argument.empty())
                s += " argument " + q(o.argument);
            if (!o.constant.empty())
                s += " constant " + q(o.constant);
            if (!o.alias.empty())
                s += " alias " + q(o.alias);
            if (!o.initial.empty())
                s += " initial_value " + q(o.initial);
            if (o.mandatory)
                s += " mandatory";
            if (o.visibility != 3)
                s += " visibility " + std::to_string(o.visibility);
            if (!o.section.empty())
                s += " section " + q(o.section);
            if (!o.help.empty())
                s += " help " + q(o.help);
            s += describe(o.cb) + "\n";
        }
        for (auto& a : c.args)
        {
            s += indent + "  argument #" + std::to_string(a.id) + " " + q(a.name) + " count " + std::to_string(a.min) + ".."
                 + std::to_string(a.max);
            if (!a.alias.empty())
                s += " alias " + q(a.alias);
            if (a.visibility != 3)
                s += " visibility " + std::to_string(a.visibility);
            if (!a.section.empty())
                s += " section " + q(a.section);
            if (!a.help.empty())
                s += " help " + q(a.help);
            s += describe(a.cb) + "\n";
        }
        for (auto& x : c.cmds)
            s += describe(x, indent + "  ");
        return s;
    }

    inline std::string describe(const Parser& p)
    {
        static const char* styles[] = {"STANDARD", "SLASH", "DASH"};
        std::string s = std::string("parser ") + styles[p.style] + (p.abbr ? " allow_abbreviated_options" : "")
                        + (p.ci ? " case_insensitive" : "") + (p.ignore_opts ? " ignore_undefined_options" : "")
                        + (p.ignore_args ? " ignore_undefined_arguments" : "") + (p.gen_help ? "" : " generate_help_option(false)")
                        + (p.version.empty() ? "" : " version " + q(p.version)) + (p.auto_exit ? " auto_exit" : "") + "\n";
        if (p.opt_cb.set)
            s += "  option_callback:" + describe(p.opt_cb) + "\n";
        if (p.arg_cb.set)
            s += "  argument_callback:" + describe(p.arg_cb) + "\n";
        s += describe(p.top, "  ");
        s += "  arguments given: " + ql(p.argv) + "\n";
        return s;
    }
}
