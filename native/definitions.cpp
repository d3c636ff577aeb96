// Adding to containers (C06), copies (C19) and objects without content (C20).
#include "bind.hpp"
#include "gen.hpp"
#include "common.hpp"

namespace
{
    using namespace argos;

    // ------------------------------------------------------------ descriptions of definitions

    std::string common(const IArgumentView& v)
    {
        return " help=" + q(v.help()) + " section=" + q(v.section()) + " alias=" + q(v.alias()) + " visibility="
               + std::to_string(unsigned(v.visibility())) + " id=" + std::to_string(v.id());
    }

    std::string describe(const OptionView& v)
    {
        return "option " + ql(v.flags()) + common(v) + " op=" + std::to_string(int(v.operation())) + " type=" + std::to_string(int(v.type()))
               + " argument=" + q(v.argument()) + " constant=" + q(v.constant()) + " initial=" + q(v.initial_value())
               + (v.optional() ? " optional" : " mandatory");
    }

    std::string describe(const ArgumentView& v)
    {
        return "argument " + q(v.name()) + common(v) + " count=" + std::to_string(v.count().first) + ".." + std::to_string(v.count().second);
    }

    void describe(const CommandView& v, const std::string& path, Strings& out)
    {
        out.push_back(path + "command " + q(v.name()) + common(v) + (v.require_subcommand() ? " requires" : ""));
        for (auto& o : v.options())
            out.push_back(path + describe(o));
        for (auto& a : v.arguments())
            out.push_back(path + describe(a));
        size_t n = 0;
        for (auto& c : v.subcommands())
            describe(c, path + std::to_string(n++) + "/", out);
    }

    void lines_of(const std::string& text, const std::string& label, Strings& out)
    {
        std::istringstream s(text);
        for (std::string l; std::getline(s, l);)
            out.push_back(label + l);
    }

    template <typename F>
    std::string attempt(F f)
    {
        try
        {
            return f();
        }
        catch (ArgosException&)
        {
            return "throws";
        }
    }

    /// Everything that can be seen of a parser without using it up. stream is where the parser writes.
    Strings describe(const ArgumentParser& p, std::ostringstream& stream, const std::vector<Strings>& paths)
    {
        Strings r;
        try
        {
            const auto a = p.parse(std::vector<std::string_view>());
            describe(a.command(), "", r);
        }
        catch (ArgosException&)
        {
            r.push_back("parse throws");
        }
        for (auto& path : paths)
        {
            stream.str("");
            const auto s = attempt([&] { p.write_subcommand_help_text(path); return std::string(); });
            r.push_back("help " + ql(path) + s);
            lines_of(stream.str(), "| ", r);
        }
        stream.str("");
        return r;
    }

    void paths_of(const ref::Cmd& c, const Strings& path, std::vector<Strings>& out)
    {
        out.push_back(path);
        for (auto& s : c.cmds)
        {
            auto p = path;
            p.push_back(s.name);
            paths_of(s, p, out);
        }
    }

    // ------------------------------------------------------------ C06: adding

    Outcome add_case(Rng& r)
    {
        static const Strings names = {"", "a", "b", "file", " ", "-x", "A"};
        static const std::vector<Strings> flags = {{}, {"-a"}, {"-b", "--bee"}, {"--c="}, {"-d"}, {}};
        static const Strings sections = {"", "", "S1", "S2"};
        struct Step
        {
            char kind; // 'a', 'o', 'c' or 's' for current_section
            size_t n;
            std::string section;
            bool lvalue, good;
        };
        std::vector<Step> steps;
        Outcome o;
        bool args = false, cmds = false, bad = false;
        for (int n = r.range(1, 7); n > 0; --n)
        {
            Step s{};
            s.kind = r.pct(25) ? 'o' : r.pct(50) ? 'a' : r.pct(80) ? 'c' : 's';
            if (r.pct(40) && (args || cmds))
                s.kind = args ? 'a' : 'c';
            s.n = r.below(unsigned(s.kind == 'o' ? flags.size() : names.size()));
            s.section = r.pick(sections);
            s.lvalue = r.pct(40);
            switch (s.kind)
            {
            case 'a': s.good = !names[s.n].empty() && !cmds; args |= s.good; break;
            case 'o': s.good = !flags[s.n].empty(); break;
            case 'c': s.good = !names[s.n].empty() && !args; cmds |= s.good; break;
            default: s.good = true;
            }
            bad |= !s.good;
            o.case_text += std::string("add ") + s.kind + " "
                           + (s.kind == 'o' ? ql(flags[s.n]) : s.kind == 's' ? q(s.section) : q(names[s.n]))
                           + " section " + q(s.section) + "\n";
            steps.push_back(s);
        }
        const bool in_command = r.pct(50);
        o.case_text += in_command ? "in a Command\n" : "in an ArgumentParser\n";
        o.trivial = !bad;
        set_case_text(o.case_text);

        Strings thrown[2];
        auto fill = [&](auto& c, bool all)
        {
            int id = 100;
            for (auto& s : steps)
            {
                ++id;
                if (!all && !s.good)
                    continue;
                std::string result = "accepted";
                try
                {
                    if (s.kind == 's')
                        c.current_section(s.section);
                    else if (s.kind == 'a')
                    {
                        auto x = names[s.n].empty() ? Argument() : Argument(names[s.n]);
                        x.id(id).help("help " + std::to_string(id));
                        if (!s.section.empty())
                            x.section(s.section);
                        if (s.lvalue)
                            c.add(x);
                        else
                            c.add(std::move(x));
                    }
                    else if (s.kind == 'o')
                    {
                        Option x;
                        x.flags(flags[s.n]).id(id).help("help " + std::to_string(id));
                        if (flags[s.n].size() == 1 && flags[s.n][0].back() == '=')
                            x.argument("V");
                        if (!s.section.empty())
                            x.section(s.section);
                        if (s.lvalue)
                            c.add(x);
                        else
                            c.add(std::move(x));
                    }
                    else
                    {
                        auto x = names[s.n].empty() ? Command() : Command(names[s.n]);
                        x.id(id).about("help " + std::to_string(id));
                        x.add(Argument("inner").id(id + 1000));
                        if (!s.section.empty())
                            x.section(s.section);
                        if (s.lvalue)
                            c.add(x);
                        else
                            c.add(std::move(x));
                    }
                }
                catch (ArgosException&)
                {
                    result = "rejected";
                }
                thrown[all].push_back(std::string(1, s.kind) + " " + result);
            }
        };
        Strings expected, actual;
        auto make = [&](bool all)
        {
            std::ostringstream out;
            ArgumentParser p("prog");
            p.auto_exit(false).stream(&out);
            if (in_command)
            {
                Command c("top");
                fill(c, all);
                p.add(std::move(c));
            }
            else
                fill(p, all);
            // Flags are used more than once on purpose, that only matters when parsing.
            auto d = describe(p, out, {{}});
            // The order of the elements and their properties, even if the flags clash.
            return d;
        };
        expected = make(false);
        actual = make(true);
        for (auto& s : steps)
            expected.push_back(std::string(1, s.kind) + (s.good ? " accepted" : " rejected"));
        actual.insert(actual.end(), thrown[1].begin(), thrown[1].end());
        for (auto& t : thrown[0])
            if (t.find("rejected") != std::string::npos)
                actual.push_back("a good element was rejected: " + t);
        o.problem = compare_lines(expected, actual);
        return o;
    }

    // ------------------------------------------------------------ C19: copies

    template <typename T>
    T junk(Rng& r);

    template <>
    Argument junk<Argument>(Rng& r)
    {
        Argument a("JUNK");
        if (r.pct(50))
            a.help("junk").section("junk").alias("--junk").callback([](ArgumentCallbackArguments&) { std::abort(); })
                .visibility(Visibility::HIDDEN).id(-7).count(3, 4);
        return a;
    }

    template <>
    Option junk<Option>(Rng& r)
    {
        Option o({"--junk", "-J"});
        if (r.pct(50))
            o.help("junk").section("junk").alias("--junk").callback([](OptionCallbackArguments&) { std::abort(); })
                .visibility(Visibility::HIDDEN).id(-7).operation(OptionOperation::APPEND).argument("J").constant("j")
                .initial_value("j").type(OptionType::STOP).mandatory();
        return o;
    }

    template <>
    Command junk<Command>(Rng& r)
    {
        Command c("junk");
        if (r.pct(70))
        {
            c.section("junk").visibility(Visibility::HIDDEN).id(-7).allow_multiple_subcommands(true).require_subcommand(true)
                .text(TextId::FINAL_TEXT, "JUNK").text(TextId::USAGE, "JUNK").current_section("junk");
            c.add(Option("--junk").id(-8));
            if (r.pct(50))
                c.add(Argument("junk"));
            else
                c.add(Command("junk").add(Argument("junk")));
        }
        return c;
    }

    /// A copy of x, made in one of several ways.
    template <typename T>
    T copy_of(Rng& r, const T& x)
    {
        switch (r.below(6))
        {
        case 0:
            return T(x);
        case 1:
        {
            T y;
            y = x;
            return y;
        }
        case 2:
        {
            auto y = junk<T>(r);
            y = x;
            return y;
        }
        case 3:
        {
            T y(x);
            T& z = y;
            y = z;
            return y;
        }
        case 4:
        {
            T y(junk<T>(r));
            T z(std::move(y));
            y = x; // y had lost its content
            return y;
        }
        default:
        {
            auto y = std::make_unique<T>(x);
            T z(*y);
            z = z;
            y.reset();
            return z;
        }
        }
    }

    void spoil(Rng& r, Argument& a)
    {
        switch (r.below(10))
        {
        case 0: a.name("SPOILED"); break;
        case 1: a.help("SPOILED"); break;
        case 2: a.section("SPOILED"); break;
        case 3: a.alias("SPOILED"); break;
        case 4: a.callback([](ArgumentCallbackArguments&) { std::abort(); }); break;
        case 5: a.visibility(Visibility::HIDDEN); break;
        case 6: a.id(-9); break;
        case 7: a.count(7, 9); break;
        case 8: a.help([] { return "SPOILED"; }); break;
        default: { auto b = std::move(a); }
        }
    }

    void spoil(Rng& r, Option& o)
    {
        switch (r.below(13))
        {
        case 0: o.flag("--spoiled"); break;
        case 1: o.flags({"--spoiled"}); break;
        case 2: o.help("SPOILED"); break;
        case 3: o.section("SPOILED"); break;
        case 4: o.alias("SPOILED"); break;
        case 5: o.callback([](OptionCallbackArguments&) { std::abort(); }); break;
        case 6: o.visibility(Visibility::HIDDEN); break;
        case 7: o.id(-9); break;
        case 8: o.operation(OptionOperation::NONE); break;
        case 9: o.argument("SPOILED").constant(""); break;
        case 10: o.constant("SPOILED").initial_value("SPOILED"); break;
        case 11: o.type(OptionType::EXIT).mandatory(); break;
        default: { auto b = std::move(o); }
        }
    }

    void spoil(Rng& r, Command& c)
    {
        switch (r.below(12))
        {
        case 0: c.add(Option("--spoiled")); break;
        case 1: try { c.add(Argument("spoiled")); } catch (ArgosException&) { c.add(Command("spoiled")); } break;
        case 2: c.name("SPOILED"); break;
        case 3: c.text(TextId::ABOUT, "SPOILED").text(TextId::INITIAL_TEXT, "SPOILED").text(TextId::ERROR_USAGE, "SPOILED"); break;
        case 4: c.section("SPOILED"); break;
        case 5: c.visibility(Visibility::HIDDEN); break;
        case 6: c.id(-9); break;
        case 7: c.allow_multiple_subcommands(r.pct(50)); break;
        case 8: c.require_subcommand(r.pct(50)); break;
        case 9: { Command d("x"); d.add(Option("--spoiled")); c.copy_from(d); break; }
        case 10: c = Command("SPOILED"); break;
        default: { auto b = std::move(c); }
        }
    }

    struct Side
    {
        std::ostringstream out;
        real::Log log;
        std::vector<Argument> args;
        std::vector<Option> opts;
        std::vector<Command> cmds;
        std::unique_ptr<ArgumentParser> parser;

        void build(const ref::Parser& settings)
        {
            parser = std::make_unique<ArgumentParser>(real::make(settings, out, log));
            for (auto& o : opts)
                parser->add(o);
            for (auto& a : args)
                parser->add(a);
            for (auto& c : cmds)
                parser->add(c);
        }
    };

    Outcome copy_case(Rng& r)
    {
        gen::Profile f;
        f.opts_lo = 1;
        f.depth = r.pct(65) ? 2 : 0;
        f.multi_pct = 50;
        f.cb_pct = 40;
        f.initial_pct = 20;
        gen::Gen g(r, f);
        g.parser();
        g.argv();
        const auto& args = g.p.argv;
        Outcome o;
        o.case_text = gen::describe(g.p) + "argv " + ql(args) + "\n";
        set_case_text(o.case_text);
        auto settings = g.p;
        settings.top.args.clear();
        settings.top.opts.clear();
        settings.top.cmds.clear();
        std::vector<Strings> paths;
        paths_of(g.p.top, {}, paths);

        // side[0] has the elements as they were made, side[1] has copies of them.
        Side side[2];
        std::vector<Argument> other_args;
        std::vector<Option> other_opts;
        std::vector<Command> other_cmds;
        auto two = [&](auto& elements, auto& direct, auto& copies, auto& others)
        {
            for (auto& e : elements)
            {
                direct.push_back(real::make(e, side[0].log));
                auto x = real::make(e, side[1].log);
                auto y = copy_of(r, x);
                if (r.pct(50))
                    std::swap(x, y); // keep the original, spoil the copy
                const int n = r.range(1, 3);
                for (int i = 0; i < n; ++i)
                {
                    try
                    {
                        spoil(r, x);
                    }
                    catch (ArgosException&)
                    {
                        break; // it has lost its content
                    }
                }
                copies.push_back(std::move(y));
                others.push_back(std::move(x));
            }
        };
        two(g.p.top.opts, side[0].opts, side[1].opts, other_opts);
        two(g.p.top.args, side[0].args, side[1].args, other_args);
        two(g.p.top.cmds, side[0].cmds, side[1].cmds, other_cmds);
        // The option data that can be seen directly.
        Strings lines[2];
        for (size_t i = 0; i < side[0].opts.size(); ++i)
            for (int k : {0, 1})
                lines[k].push_back("data " + describe(OptionView(&side[k].opts[i].data())));
        for (auto& s : side)
            s.build(settings);
        other_opts.clear();
        other_args.clear();
        if (r.pct(50))
            other_cmds.clear();
        for (int k : {0, 1})
        {
            auto d = describe(*side[k].parser, side[k].out, paths);
            lines[k].insert(lines[k].end(), d.begin(), d.end());
            side[k].log.events.clear();
            side[k].log.calls.clear();
            const bool as_const = k == 1 && r.pct(30);
            const auto outcome = attempt([&]
            {
                const std::vector<std::string_view> v(args.begin(), args.end());
                const auto a = as_const ? std::as_const(*side[k].parser).parse(v) : side[k].parser->parse(v);
                real::print_result(a, &g.p.top, "r", {}, lines[k]);
                return std::string("parsed");
            });
            lines[k].push_back(outcome);
            lines[k].insert(lines[k].end(), side[k].log.events.begin(), side[k].log.events.end());
            lines_of(side[k].out.str(), "out ", lines[k]);
        }
        o.problem = compare_lines(lines[0], lines[1]);
        return o;
    }

    // ------------------------------------------------------------ C19: const parsers

    Outcome const_case(Rng& r)
    {
        gen::Profile f;
        f.depth = r.pct(65) ? 2 : 0;
        f.multi_pct = 50;
        f.cb_pct = 25;
        f.initial_pct = 15;
        f.version_pct = 40;
        gen::Gen g(r, f);
        g.parser();
        // Some properties are left as they are by default.
        auto spec = g.p;
        if (r.pct(50))
            spec.top.require = r.pct(50) && !spec.top.cmds.empty();
        std::vector<Strings> lines_args;
        for (int i = r.range(1, 3); i > 0; --i)
        {
            g.argv();
            lines_args.push_back(r.pct(15) ? Strings() : g.p.argv);
        }
        real::with_texts = r.pct(40);
        Outcome o;
        o.case_text = gen::describe(spec) + (real::with_texts ? "" : "no texts\n");
        for (auto& a : lines_args)
            o.case_text += "argv " + ql(a) + "\n";
        set_case_text(o.case_text);
        std::ostringstream out1;
        real::Log log1;
        auto shared = real::make(spec, out1, log1); // used through const only
        Strings lines[2];
        std::vector<Strings> paths;
        paths_of(spec.top, {}, paths);
        for (auto& args : lines_args)
        {
            const std::vector<std::string_view> v(args.begin(), args.end());
            const bool iterate = r.pct(30);
            const bool help = r.pct(40);
            const auto path = r.pick(paths);
            auto use = [&](auto& p, std::ostringstream& out, real::Log& log, Strings& l)
            {
                out.str("");
                log.events.clear();
                log.calls.clear();
                if (help)
                {
                    const auto s = attempt([&] { p.write_subcommand_help_text(path); return std::string("help"); });
                    l.push_back(s);
                    lines_of(out.str(), "help ", l);
                    out.str("");
                }
                l.push_back(attempt([&]
                {
                    if (iterate)
                    {
                        auto it = p.make_iterator(v);
                        std::unique_ptr<IArgumentView> view;
                        std::string_view value;
                        while (it.next(view, value))
                            l.push_back("item " + (dynamic_cast<CommandView*>(view.get()) ? "command" : real::key(view.get())) + " " + q(value));
                        real::print_result(it.parsed_arguments(), &spec.top, "r", {"r"}, l);
                    }
                    else
                        real::print_result(p.parse(v), &spec.top, "r", {"r"}, l);
                    return std::string("parsed");
                }));
                l.insert(l.end(), log.events.begin(), log.events.end());
                lines_of(out.str(), "out ", l);
            };
            std::ostringstream out0;
            real::Log log0;
            auto own = real::make(spec, out0, log0);
            use(own, out0, log0, lines[0]);
            use(std::as_const(shared), out1, log1, lines[1]);
        }
        real::with_texts = true;
        o.problem = compare_lines(lines[0], lines[1]);
        return o;
    }

    // ------------------------------------------------------------ C20: objects without content

    template <typename T>
    struct Member
    {
        const char* name;
        std::function<void(T&)> call;
        bool can_throw_anyway = false;
    };

    ArgumentCallback arg_cb()
    {
        return [](ArgumentCallbackArguments&) {};
    }

    OptionCallback opt_cb()
    {
        return [](OptionCallbackArguments&) {};
    }

    const std::vector<Member<Argument>>& members(Argument*)
    {
        static const std::vector<Member<Argument>> v = {
            {"help(text)", [](Argument& a) { a.help("x"); }},
            {"help(callback)", [](Argument& a) { a.help([] { return std::string("x"); }); }},
            {"section", [](Argument& a) { a.section("x"); }},
            {"alias", [](Argument& a) { a.alias("x"); }},
            {"callback", [](Argument& a) { a.callback(arg_cb()); }},
            {"visibility", [](Argument& a) { a.visibility(Visibility::TEXT); }},
            {"id", [](Argument& a) { a.id(3); }},
            {"name", [](Argument& a) { a.name("x"); }},
            {"optional", [](Argument& a) { a.optional(); }},
            {"optional(false)", [](Argument& a) { a.optional(false); }},
            {"mandatory", [](Argument& a) { a.mandatory(); }},
            {"mandatory(false)", [](Argument& a) { a.mandatory(false); }},
            {"count(n)", [](Argument& a) { a.count(2); }},
            {"count(n, m)", [](Argument& a) { a.count(2, 3); }},
        };
        return v;
    }

    const std::vector<Member<Option>>& members(Option*)
    {
        static const std::vector<Member<Option>> v = {
            {"help(text)", [](Option& a) { a.help("x"); }},
            {"help(callback)", [](Option& a) { a.help([] { return std::string("x"); }); }},
            {"section", [](Option& a) { a.section("x"); }},
            {"alias", [](Option& a) { a.alias("x"); }},
            {"callback", [](Option& a) { a.callback(opt_cb()); }},
            {"visibility", [](Option& a) { a.visibility(Visibility::TEXT); }},
            {"id", [](Option& a) { a.id(3); }},
            {"operation", [](Option& a) { a.operation(OptionOperation::APPEND); }},
            {"flag", [](Option& a) { a.flag("-x"); }},
            {"flags", [](Option& a) { a.flags({"-x"}); }},
            {"argument", [](Option& a) { a.argument("x"); }},
            {"initial_value", [](Option& a) { a.initial_value("x"); }},
            {"constant(const char*)", [](Option& a) { a.constant("x"); }},
            {"constant(string)", [](Option& a) { a.constant(std::string("x")); }},
            {"constant(bool)", [](Option& a) { a.constant(true); }},
            {"constant(int)", [](Option& a) { a.constant(1); }},
            {"constant(long long)", [](Option& a) { a.constant(1ll); }},
            {"type", [](Option& a) { a.type(OptionType::STOP); }},
            {"optional", [](Option& a) { a.optional(); }},
            {"optional(false)", [](Option& a) { a.optional(false); }},
            {"mandatory", [](Option& a) { a.mandatory(); }},
            {"mandatory(false)", [](Option& a) { a.mandatory(false); }},
            {"data", [](Option& a) { (void)a.data(); }},
        };
        return v;
    }

    const std::vector<Member<Command>>& members(Command*)
    {
        static const std::vector<Member<Command>> v = {
            {"add(Argument&)", [](Command& c) { Argument a("x"); c.add(a); }},
            {"add(Argument&&)", [](Command& c) { c.add(Argument("x")); }},
            {"add(Option&)", [](Command& c) { Option a("-x"); c.add(a); }},
            {"add(Option&&)", [](Command& c) { c.add(Option("-x")); }},
            {"add(Command&)", [](Command& c) { Command a("x"); c.add(a); }},
            {"add(Command&&)", [](Command& c) { c.add(Command("x")); }},
            {"name", [](Command& c) { c.name("x"); }},
            {"help", [](Command& c) { c.help("x"); }},
            {"about", [](Command& c) { c.about("x"); }},
            {"section", [](Command& c) { c.section("x"); }},
            {"current_section", [](Command& c) { c.current_section("x"); }},
            {"text(text)", [](Command& c) { c.text(TextId::ABOUT, "x"); }},
            {"text(callback)", [](Command& c) { c.text(TextId::ABOUT, [] { return std::string("x"); }); }},
            {"visibility", [](Command& c) { c.visibility(Visibility::TEXT); }},
            {"id", [](Command& c) { c.id(3); }},
            {"allow_multiple_subcommands", [](Command& c) { c.allow_multiple_subcommands(true); }},
            {"require_subcommand", [](Command& c) { c.require_subcommand(true); }},
            {"copy_from", [](Command& c) { Command d("x"); c.copy_from(d); }},
        };
        return v;
    }

    std::ostringstream& sink()
    {
        static std::ostringstream s;
        return s;
    }

    char prog_text[] = "prog";
    char* prog_argv[] = {prog_text, nullptr};

    const std::vector<Member<ArgumentParser>>& members(ArgumentParser*)
    {
        using P = ArgumentParser;
        static const std::vector<Member<P>> v = {
            {"add(Argument&)", [](P& c) { Argument a("x"); c.add(a); }},
            {"add(Argument&&)", [](P& c) { c.add(Argument("x")); }},
            {"add(Option&)", [](P& c) { Option a("-x"); c.add(a); }},
            {"add(Option&&)", [](P& c) { c.add(Option("-x")); }},
            {"add(Command&)", [](P& c) { Command a("x"); c.add(a); }},
            {"add(Command&&)", [](P& c) { c.add(Command("x")); }},
            {"copy_from", [](P& c) { Command d("x"); c.copy_from(d); }},
            {"parse(argc, argv)", [](P& c) { (void)c.parse(1, prog_argv); }},
            {"parse(0, argv)", [](P& c) { (void)c.parse(0, prog_argv + 1); }},
            {"const parse(argc, argv)", [](P& c) { (void)std::as_const(c).parse(1, prog_argv); }},
            {"const parse(0, argv)", [](P& c) { (void)std::as_const(c).parse(0, prog_argv + 1); }},
            {"parse(args)", [](P& c) { (void)c.parse(std::vector<std::string_view>()); }},
            {"const parse(args)", [](P& c) { (void)std::as_const(c).parse(std::vector<std::string_view>()); }},
            {"make_iterator(argc, argv)", [](P& c) { (void)c.make_iterator(1, prog_argv); }},
            {"const make_iterator(argc, argv)", [](P& c) { (void)std::as_const(c).make_iterator(1, prog_argv); }},
            {"make_iterator(args)", [](P& c) { (void)c.make_iterator(std::vector<std::string_view>()); }},
            {"const make_iterator(args)", [](P& c) { (void)std::as_const(c).make_iterator(std::vector<std::string_view>()); }},
            {"allow_abbreviated_options()", [](P& c) { (void)c.allow_abbreviated_options(); }},
            {"allow_abbreviated_options", [](P& c) { c.allow_abbreviated_options(true); }},
            {"auto_exit()", [](P& c) { (void)c.auto_exit(); }},
            {"auto_exit", [](P& c) { c.auto_exit(false); }},
            {"case_insensitive()", [](P& c) { (void)c.case_insensitive(); }},
            {"case_insensitive", [](P& c) { c.case_insensitive(true); }},
            {"generate_help_option()", [](P& c) { (void)c.generate_help_option(); }},
            {"generate_help_option", [](P& c) { c.generate_help_option(false); }},
            {"option_style()", [](P& c) { (void)c.option_style(); }},
            {"option_style", [](P& c) { c.option_style(OptionStyle::STANDARD); }},
            {"require_subcommand()", [](P& c) { (void)c.require_subcommand(); }},
            {"require_subcommand", [](P& c) { c.require_subcommand(false); }},
            {"allow_multiple_subcommands()", [](P& c) { (void)c.allow_multiple_subcommands(); }},
            {"allow_multiple_subcommands", [](P& c) { c.allow_multiple_subcommands(true); }},
            {"ignore_undefined_arguments()", [](P& c) { (void)c.ignore_undefined_arguments(); }},
            {"ignore_undefined_arguments", [](P& c) { c.ignore_undefined_arguments(true); }},
            {"ignore_undefined_options()", [](P& c) { (void)c.ignore_undefined_options(); }},
            {"ignore_undefined_options", [](P& c) { c.ignore_undefined_options(true); }},
            {"argument_callback()", [](P& c) { (void)c.argument_callback(); }},
            {"argument_callback", [](P& c) { c.argument_callback(arg_cb()); }},
            {"option_callback()", [](P& c) { (void)c.option_callback(); }},
            {"option_callback", [](P& c) { c.option_callback(opt_cb()); }},
            {"stream()", [](P& c) { (void)c.stream(); }},
            {"stream", [](P& c) { c.stream(&sink()); }},
            {"program_name()", [](P& c) { (void)c.program_name(); }},
            {"program_name", [](P& c) { c.program_name("x"); }},
            {"about", [](P& c) { c.about("x"); }},
            {"version", [](P& c) { c.version("x"); }},
            {"current_section()", [](P& c) { (void)c.current_section(); }},
            {"current_section", [](P& c) { c.current_section("x"); }},
            {"text(text)", [](P& c) { c.text(TextId::ABOUT, "x"); }},
            {"text(callback)", [](P& c) { c.text(TextId::ABOUT, [] { return std::string("x"); }); }},
            {"line_width", [](P& c) { c.line_width(70); }},
            {"add_word_splitting_rule", [](P& c) { c.add_word_splitting_rule("ab-cd"); }},
            {"set_exit_codes", [](P& c) { c.set_exit_codes(1, 2); }},
            {"write_help_text", [](P& c) { c.write_help_text(); }},
            {"write_subcommand_help_text", [](P& c) { c.write_subcommand_help_text({}); }},
        };
        return v;
    }

    const std::vector<Member<ArgumentIterator>>& members(ArgumentIterator*)
    {
        static const std::vector<Member<ArgumentIterator>> v = {
            {"next", [](ArgumentIterator& i)
             {
                 std::unique_ptr<IArgumentView> a;
                 std::string_view s;
                 i.next(a, s);
             }},
            {"parsed_arguments", [](ArgumentIterator& i) { (void)i.parsed_arguments(); }},
        };
        return v;
    }

    Argument fresh(Argument*) { return Argument("fresh").help("h"); }
    Option fresh(Option*) { return Option({"-f", "--fresh"}).help("h"); }
    Command fresh(Command*) { return Command("fresh").about("h").add(Option("-i")); }

    ArgumentParser fresh(ArgumentParser*)
    {
        ArgumentParser p("fresh");
        p.auto_exit(false).stream(&sink()).add(Option("-z").help("h"));
        return p;
    }

    ArgumentIterator fresh(ArgumentIterator*)
    {
        static const std::vector<std::string_view> none;
        return fresh(static_cast<ArgumentParser*>(nullptr)).make_iterator(none);
    }

    /// Text that tells whether an object has its content.
    std::string state_of(ArgumentParser& p)
    {
        return attempt([&]
        {
            std::ostringstream out;
            p.auto_exit(false).stream(&out);
            auto d = describe(p, out, {{}});
            std::string s;
            for (auto& l : d)
                s += l + "\n";
            p.stream(&sink());
            return s;
        });
    }

    /// Takes the content away. returns how.
    template <typename T>
    std::string use_up(Rng& r, T& x, ArgumentParser& elsewhere)
    {
        const unsigned n = r.below(6);
        if (n == 0)
        {
            T y(std::move(x));
            return "move constructor";
        }
        if (n == 1)
        {
            auto y = fresh(static_cast<T*>(nullptr));
            y = std::move(x);
            return "move assignment";
        }
        if (n == 2)
        {
            T y(std::move(x));
            T z(std::move(x)); // again
            x = std::move(z);  // receives nothing
            return "assignment from an object without content";
        }
        if constexpr (std::is_same_v<T, ArgumentParser>)
        {
            if (n == 3)
            {
                (void)x.parse(std::vector<std::string_view>());
                return "parse(args)";
            }
            if (n == 4)
            {
                (void)x.parse(1, prog_argv);
                return "parse(argc, argv)";
            }
            if (r.pct(50))
            {
                (void)x.make_iterator(1, prog_argv);
                return "make_iterator(argc, argv)";
            }
            (void)x.make_iterator(std::vector<std::string_view>());
            return "make_iterator(args)";
        }
        else if constexpr (std::is_same_v<T, ArgumentIterator>)
        {
            T y(std::move(x));
            return "move constructor";
        }
        else
        {
            if (n == 3)
            {
                elsewhere.add(x);
                return "add(x)";
            }
            if (n == 4)
            {
                elsewhere.add(std::move(x));
                return "add(std::move(x))";
            }
            if (r.pct(50))
            {
                Command c("holder");
                if constexpr (std::is_same_v<T, Command>)
                    c.add(x);
                else
                    c.add(std::move(x));
                return "add to a command";
            }
            T y(std::move(x));
            return "move constructor";
        }
    }

    template <typename T>
    void judge(Rng& r, const char* type, Outcome& o, Strings& expected, Strings& actual)
    {
        T* const none = nullptr;
        ArgumentParser elsewhere("elsewhere");
        auto x = fresh(none);
        const auto& all = members(none);
        const auto& m = all[r.below(unsigned(all.size()))];
        const auto how = use_up(r, x, elsewhere);
        o.case_text = std::string(type) + "::" + m.name + " after " + how + "\n";
        set_case_text(o.case_text);
        auto result_of = [&](T& t)
        {
            return attempt([&] { m.call(t); return std::string("works"); });
        };
        const auto size = sink().str().size();
        for (int i = 0; i < 2; ++i)
        {
            expected.push_back("without content: throws");
            actual.push_back("without content: " + result_of(x));
        }
        // Nothing is written and no content appears.
        expected.push_back("nothing is written");
        actual.push_back(sink().str().size() == size ? "nothing is written" : "something is written");
        auto& probe = all[r.below(unsigned(all.size()))];
        expected.push_back("another member: throws");
        actual.push_back("another member: " + attempt([&] { probe.call(x); return std::string("works"); }));
        // Objects that have their content work.
        {
            auto y = fresh(none);
            expected.push_back("with content: works");
            actual.push_back("with content: " + result_of(y));
        }
        {
            auto y = fresh(none);
            T z(std::move(y));
            expected.push_back("with moved content: works");
            actual.push_back("with moved content: " + result_of(z));
        }
        x = fresh(none);
        expected.push_back("with new content: works");
        actual.push_back("with new content: " + result_of(x));
        if constexpr (std::is_copy_constructible_v<T>)
        {
            auto y = fresh(none);
            use_up(r, y, elsewhere);
            T z(y);
            auto w = fresh(none);
            w = y;
            expected.push_back("copy of no content: throws");
            actual.push_back("copy of no content: " + result_of(z));
            expected.push_back("assigned no content: throws");
            actual.push_back("assigned no content: " + result_of(w));
            // Adding something without content.
            auto target = fresh(static_cast<ArgumentParser*>(nullptr));
            const auto before = state_of(target);
            for (auto* p : {&y, &z, &w})
            {
                expected.push_back("add: throws");
                actual.push_back("add: " + attempt([&] { r.pct(50) ? target.add(*p) : target.add(std::move(*p)); return std::string("works"); }));
            }
            if constexpr (std::is_same_v<T, Command>)
            {
                expected.push_back("copy_from: throws");
                actual.push_back("copy_from: " + attempt([&] { target.copy_from(y); return std::string("works"); }));
            }
            expected.push_back("parser " + before);
            actual.push_back("parser " + state_of(target));
            Command command = fresh(static_cast<Command*>(nullptr));
            Command untouched = command;
            for (auto* p : {&y, &z, &w})
            {
                expected.push_back("add to a command: throws");
                actual.push_back("add to a command: " + attempt([&] { r.pct(50) ? command.add(*p) : command.add(std::move(*p)); return std::string("works"); }));
            }
            if constexpr (std::is_same_v<T, Command>)
            {
                expected.push_back("command copy_from: throws");
                actual.push_back("command copy_from: " + attempt([&] { command.copy_from(y); return std::string("works"); }));
            }
            ArgumentParser p1("p"), p2("p");
            p1.auto_exit(false);
            p2.auto_exit(false);
            p1.add(command);
            p2.add(untouched);
            expected.push_back("command " + state_of(p2));
            actual.push_back("command " + state_of(p1));
        }
    }

    Outcome moved_case(Rng& r)
    {
        Outcome o;
        Strings expected, actual;
        switch (r.below(9))
        {
        case 0: judge<Argument>(r, "Argument", o, expected, actual); break;
        case 1:
        case 2: judge<Option>(r, "Option", o, expected, actual); break;
        case 3:
        case 4: judge<Command>(r, "Command", o, expected, actual); break;
        case 5: judge<ArgumentIterator>(r, "ArgumentIterator", o, expected, actual); break;
        default: judge<ArgumentParser>(r, "ArgumentParser", o, expected, actual); break;
        }
        sink().str("");
        o.problem = compare_lines(expected, actual);
        return o;
    }
}

void definition_modes(std::vector<Mode>& m)
{
    m.push_back({"C06add", add_case});
    m.push_back({"C19copy", copy_case});
    m.push_back({"C19const", const_case});
    m.push_back({"C20", moved_case});
}
