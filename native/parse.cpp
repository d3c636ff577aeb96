// Modes that compare whole parses with the reference model.
#include <sys/wait.h>
#include <unistd.h>
#include "bind.hpp"
#include "gen.hpp"

namespace
{
    using gen::Profile;


    std::string against(const ref::Observed& e, const real::Run& a, const char* how)
    {
        std::string s;
        if (e.throws != a.throws)
            s = e.throws ? "the definition is invalid, but nothing is thrown" : "ArgosException although the definition is valid";
        else if (!e.throws)
        {
            s = compare_lines(e.results, a.results);
            if (s.empty())
                s = compare_lines(e.events, a.events);
            if (s.empty())
                s = compare_lines(e.outputs, a.outputs);
        }
        return s.empty() ? s : std::string(how) + ": " + s;
    }

    const ref::Cmd* find_deepest(const ref::Cmd& top, const ref::Observed& e)
    {
        // The command of the last active result, by the id printed in the results.
        if (e.deepest == "r")
            return &top;
        const std::string head = "RES " + e.deepest + " #";
        for (auto& l : e.results)
            if (l.rfind(head, 0) == 0)
            {
                const int id = atoi(l.c_str() + head.size());
                std::vector<const ref::Cmd*> todo{&top};
                while (!todo.empty())
                {
                    auto c = todo.back();
                    todo.pop_back();
                    if (c->id == id)
                        return c;
                    for (auto& s : c->cmds)
                        todo.push_back(&s);
                }
            }
        return nullptr;
    }

    Strings below(const Strings& lines, const std::string& path)
    {
        Strings r;
        for (auto& l : lines)
            if (l.compare(4, path.size(), path) == 0 && (l[4 + path.size()] == ' ' || l[4 + path.size()] == '/'))
                r.push_back(l);
        return r;
    }

    std::string judge(const ref::Parser& p, Rng& r, bool iterate_too, bool all_ways = false)
    {
        const auto e = ref::parse(p, p.argv);
        auto f = p;
        ref::finish(f.top, f, true);
        auto s = against(e, real::run(p, p.argv, f.top, e.code_paths, real::NON_CONST), "parse");
        if (!s.empty())
            return s;
        static const char* names[] = {"parse", "const parse", "parse(argc, argv)", "const parse(argc, argv)"};
        for (int how = 1; how < 4; ++how)
            if (all_ways || r.pct(15))
            {
                s = against(e, real::run(p, p.argv, f.top, e.code_paths, real::How(how)), names[how]);
                if (!s.empty())
                    return s;
            }
        if (!iterate_too)
            return "";
        const auto it = real::iterate(p, p.argv, f.top, e.code_paths, e.throws ? nullptr : find_deepest(f.top, e), e.deepest, r.pct(50));
        if (it.throws != e.throws)
            s = "throws";
        else if (!e.throws)
        {
            s = compare_lines(e.items, it.items);
            if (s.empty())
                s = compare_lines(e.results, it.results);
            if (s.empty())
                s = compare_lines(below(e.results, e.deepest), it.deepest);
            if (s.empty())
                s = compare_lines(e.events, it.events);
            if (s.empty())
                s = compare_lines(e.outputs, it.outputs);
        }
        return s.empty() ? s : "iterating: " + s;
    }

    /// Removes parts of a failing case as long as it fails.
    void shrink(ref::Parser& p, const std::function<bool(const ref::Parser&)>& fails)
    {
        bool again = true;
        int budget = 400;
        while (again && budget > 0)
        {
            again = false;
            auto attempt = [&](const ref::Parser& q)
            {
                if (--budget < 0 || !fails(q))
                    return false;
                p = q;
                return again = true;
            };
            for (size_t i = 0; i < p.argv.size();)
            {
                auto c = p;
                c.argv.erase(c.argv.begin() + long(i));
                if (!attempt(c))
                    ++i;
            }
            std::function<void(std::vector<size_t>)> walk = [&](std::vector<size_t> path)
            {
                auto at = [&](ref::Parser& x) -> ref::Cmd&
                {
                    ref::Cmd* c = &x.top;
                    for (auto i : path)
                        c = &c->cmds[i];
                    return *c;
                };
                for (size_t i = 0; i < at(p).opts.size();)
                {
                    auto c = p;
                    at(c).opts.erase(at(c).opts.begin() + long(i));
                    if (!attempt(c))
                        ++i;
                }
                for (size_t i = 0; i < at(p).args.size();)
                {
                    auto c = p;
                    at(c).args.erase(at(c).args.begin() + long(i));
                    if (!attempt(c))
                        ++i;
                }
                for (size_t i = 0; i < at(p).cmds.size();)
                {
                    auto c = p;
                    at(c).cmds.erase(at(c).cmds.begin() + long(i));
                    if (!attempt(c))
                        ++i;
                }
                for (size_t i = 0; i < at(p).opts.size(); ++i)
                {
                    if (at(p).opts[i].cb.set)
                    {
                        auto c = p;
                        at(c).opts[i].cb = {};
                        attempt(c);
                    }
                    if (!at(p).opts[i].alias.empty())
                    {
                        auto c = p;
                        at(c).opts[i].alias.clear();
                        attempt(c);
                    }
                    if (!at(p).opts[i].initial.empty())
                    {
                        auto c = p;
                        at(c).opts[i].initial.clear();
                        attempt(c);
                    }
                }
                for (size_t i = 0; i < at(p).args.size(); ++i)
                    if (at(p).args[i].cb.set)
                    {
                        auto c = p;
                        at(c).args[i].cb = {};
                        attempt(c);
                    }
                for (size_t i = 0; i < at(p).cmds.size(); ++i)
                {
                    auto q = path;
                    q.push_back(i);
                    walk(q);
                }
            };
            walk({});
            for (auto m : {&ref::Parser::abbr, &ref::Parser::ci, &ref::Parser::ignore_opts, &ref::Parser::ignore_args, &ref::Parser::gen_help})
                if (p.*m)
                {
                    auto c = p;
                    c.*m = false;
                    attempt(c);
                }
            if (p.opt_cb.set)
            {
                auto c = p;
                c.opt_cb = {};
                attempt(c);
            }
            if (p.arg_cb.set)
            {
                auto c = p;
                c.arg_cb = {};
                attempt(c);
            }
        }
    }

    Outcome judged(ref::Parser p, uint64_t seed, bool iterate_too, bool all_ways = false)
    {
        Outcome o;
        set_case_text(gen::describe(p));
        auto once = [&](const ref::Parser& x)
        {
            Rng r(seed);
            set_case_text(gen::describe(x));
            return judge(x, r, iterate_too, all_ways);
        };
        o.problem = once(p);
        if (!o.problem.empty())
        {
            shrink(p, [&](const ref::Parser& x) { return !once(x).empty(); });
            o.problem = once(p);
        }
        o.case_text = gen::describe(p);
        o.trivial = p.argv.empty();
        return o;
    }

    Outcome random_case(Rng& r, const Profile& f, bool iterate_too = false, bool all_ways = false)
    {
        gen::Gen g(r, f);
        g.parser();
        g.argv();
        const auto seed = r.u64();
        // Several command lines for one definition would save time, but every case builds its own parser anyway.
        return judged(g.p, seed, iterate_too || r.pct(10), all_ways);
    }

    Profile base()
    {
        Profile f;
        return f;
    }

    /// A command line with about the right number of positional values.
    Outcome counts_case(Rng& r, Profile f)
    {
        gen::Gen g(r, f);
        g.parser();
        Strings args;
        uint64_t lo = 0, hi = 0;
        const ref::Cmd* c = &g.p.top;
        if (!c->cmds.empty())
        {
            c = &r.pick(c->cmds);
        }
        for (auto& a : c->args)
        {
            lo += a.min;
            hi += a.max;
        }
        const int n = std::max(0, r.range(int(lo) - 2, int(std::min<uint64_t>(hi, lo + 6)) + 2));
        if (c != &g.p.top)
            args.push_back(c->name);
        for (int i = 0; i < n; ++i)
        {
            while (r.pct(25) && !c->opts.empty())
                g.option_use(args, *c, c->opts[r.below(unsigned(c->opts.size()))]);
            args.push_back(r.pct(85) ? "v" + std::to_string(i) : r.pick(Strings{"x", "", "-", "="}));
        }
        while (r.pct(25) && !c->opts.empty())
            g.option_use(args, *c, c->opts[r.below(unsigned(c->opts.size()))]);
        if (c != &g.p.top && r.pct(30))
        {
            args.push_back(r.pick(g.p.top.cmds).name);
            const ref::Cmd* cur = &g.p.top;
            for (int k = r.range(0, 3); k > 0; --k)
                g.token(args, cur);
        }
        g.p.argv = args;
        return judged(g.p, r.u64(), r.pct(20));
    }

    /// Many flags, every one looked up in several spellings.
    Outcome lookup_case(Rng& r, Profile f)
    {
        gen::Gen g(r, f);
        g.parser();
        Strings all;
        for (auto& o : g.p.top.opts)
            for (auto& x : o.flags)
                all.push_back(x);
        Outcome last;
        for (int k = r.range(2, 6); k > 0; --k)
        {
            Strings args;
            auto s = !all.empty() && r.pct(80) ? r.pick(all) : gen::gen_flag(r, g.p.style, f, true);
            const unsigned what = r.below(8);
            if (what == 0)
                s = gen::flip_some(r, s);
            else if (what <= 3 && s.size() > 1)
                s.resize(size_t(r.range(1, int(s.size()))));
            else if (what == 4)
                s += r.pick(Strings{"=", "a", "-", "=x", "A", "b"});
            else if (what == 5 && s.size() > 2)
            {
                s.resize(size_t(r.range(2, int(s.size()))));
                s = gen::flip_some(r, s) + (r.pct(50) ? "=q" : "=");
            }
            args.push_back(s);
            if (r.pct(70))
                args.push_back("v");
            g.p.argv = args;
            last = judged(g.p, r.u64(), false);
            if (!last.problem.empty())
                return last;
        }
        return last;
    }

    // ------------------------------------------------------------ C04: clashes and orders
    Outcome clash_case(Rng& r)
    {
        Profile f = base();
        f.opts_lo = 2;
        f.opts_hi = 6;
        f.args_lo = 0;
        f.args_hi = 1;
        f.depth = 1;
        f.cmd_pct = 30;
        f.clash_pct = r.pct(50) ? 60 : 0;
        f.ci_pct = 50;
        f.letters = r.pct(60) ? "abAB" : "ab@[{_`\xc3\xe3";
        f.special_pct = 5;
        f.mandatory_pct = 0;
        gen::Gen g(r, f);
        g.parser();
        Outcome last;
        Strings all;
        for (auto& o : g.p.top.opts)
            for (auto& x : o.flags)
                all.push_back(x);
        for (int k = 0; k < 3; ++k)
        {
            g.p.argv.clear();
            if (!all.empty())
                g.p.argv.push_back(r.pick(all));
            g.p.argv.push_back("v");
            last = judged(g.p, r.u64(), false);
            if (!last.problem.empty())
                return last;
            // another order of the same definitions
            for (size_t i = g.p.top.opts.size(); i > 1; --i)
                std::swap(g.p.top.opts[i - 1], g.p.top.opts[r.below(unsigned(i))]);
            for (auto& o : g.p.top.opts)
                for (size_t i = o.flags.size(); i > 1; --i)
                    std::swap(o.flags[i - 1], o.flags[r.below(unsigned(i))]);
        }
        return last;
    }

    // ------------------------------------------------------------ C05: all pairs of bytes
    Outcome letter_case(Rng& r)
    {
        // flags that differ in bytes around the letters, and every spelling of them
        static const std::string special = "@AZ[`az{kK_-0159\x7f\x80\xc3\xe3\xdf\xff";
        Profile f = base();
        f.ci_pct = 85;
        f.opts_lo = 2;
        f.opts_hi = 7;
        f.long_pct = 80;
        f.special_pct = 0;
        f.mandatory_pct = 0;
        f.letters = r.pct(30) ? "azAZ" : special;
        if (r.pct(30))
            for (int i = 0; i < 6; ++i)
                f.letters += char(r.range(33, 255));
        f.letters.erase(std::remove(f.letters.begin(), f.letters.end(), '='), f.letters.end());
        f.depth = r.pct(35) ? 1 : 0;
        f.cmds_hi = 5;
        gen::Gen g(r, f);
        g.parser();
        std::function<void(ref::Cmd&)> rename = [&](ref::Cmd& c)
        {
            for (auto& s : c.cmds)
            {
                s.name = gen::word(r, f.letters, 1, 3);
                rename(s);
            }
        };
        rename(g.p.top);
        Outcome last;
        Strings all;
        for (auto& o : g.p.top.opts)
            for (auto& x : o.flags)
                all.push_back(x);
        Strings names;
        for (auto& s : g.p.top.cmds)
            names.push_back(s.name);
        for (int k = r.range(2, 5); k > 0; --k)
        {
            const bool name = !names.empty() && r.pct(50);
            if (!name && all.empty())
                continue;
            auto s = name ? r.pick(names) : r.pick(all);
            if (r.pct(70))
                s = gen::flip_some(r, s);
            if (r.pct(40) && !s.empty())
            {
                auto& c = s[s.size() - 1 - r.below(unsigned(std::min<size_t>(2, s.size())))];
                c = r.pct(50) ? char(c ^ 0x20) : r.pct(50) ? char(c + 1) : r.pick(f.letters);
                if (c == 0 || c == '\n')
                    c = 'a';
            }
            g.p.argv = {s, "v"};
            last = judged(g.p, r.u64(), false);
            if (!last.problem.empty())
                return last;
        }
        return last;
    }

    // ------------------------------------------------------------ C18
    Outcome filter_case(Rng& r)
    {
        Profile f = base();
        f.ignore_opts_pct = 50;
        f.ignore_args_pct = 60;
        f.special_pct = 25;
        f.args_hi = 2;
        f.cb_pct = 0;
        f.wide_pct = 0;
        f.tokens_hi = 12;
        f.noise_pct = 35;
        f.group_pct = 10;
        f.depth = r.pct(25) ? 1 : 0;
        f.clash_pct = 0;
        f.letters = "ab";
        gen::Gen g(r, f);
        g.parser();
        g.argv();
        Outcome o;
        o.case_text = gen::describe(g.p);
        set_case_text(o.case_text);
        const auto e = ref::parse(g.p, g.p.argv);
        o.trivial = g.p.argv.empty() || e.throws;
        if (e.throws)
            return o;
        std::ostringstream out;
        real::Log log;
        real::Argv argv(g.p.argv);
        auto parser = real::make(g.p, out, log);
        const auto a = parser.parse(argv.argc(), argv.ptrs.data());
        std::vector<argos::ParsedArguments> todo{a};
        while (!todo.empty())
        {
            const auto x = todo.back();
            todo.pop_back();
            for (auto& s : x.subcommands())
                todo.push_back(s);
            const Strings un = x.unprocessed_arguments();
            auto ptrs = argv.ptrs;
            int argc = argv.argc();
            const bool small = r.pct(10);
            if (small)
                argc = r.range(-1, 1);
            const int argc0 = argc;
            char** v = ptrs.data();
            x.filter_parsed_arguments(argc, v);
            if (small)
            {
                if (argc != argc0 || ptrs != argv.ptrs || v != ptrs.data())
                    o.problem = "argc <= 1, but something was changed";
                return o;
            }
            // The unprocessed arguments that are whole tokens, in order: does the list embed into the command line?
            size_t k = 0;
            for (auto& t : argv.texts)
                if (&t != &argv.texts[0] && k < un.size() && un[k] == t)
                    ++k;
            const bool whole = k == un.size();
            std::string s;
            if (v != ptrs.data())
                s = "argv itself was changed";
            else if (argc < 1 || argc > argv.argc())
                s = "argc = " + std::to_string(argc);
            else if (v[0] != argv.ptrs[0])
                s = "the program name is not the first one";
            else
            {
                size_t in = 1;
                for (int i = 1; i < argc && s.empty(); ++i)
                {
                    while (in < argv.ptrs.size() && argv.ptrs[in] != v[i])
                        ++in;
                    if (in >= argv.ptrs.size() - 1)
                        s = "argument " + std::to_string(i) + " is not an original pointer in the original order";
                    else
                        ++in;
                }
                for (int i = 1; i < argc && s.empty(); ++i)
                    if (std::find(un.begin(), un.end(), v[i]) == un.end())
                        s = std::string("kept the processed argument ") + q(v[i]);
                if (s.empty() && whole)
                {
                    Strings kept;
                    for (int i = 1; i < argc; ++i)
                        kept.emplace_back(v[i]);
                    if (kept != un)
                        s = "kept " + ql(kept) + " instead of " + ql(un);
                }
            }
            if (!s.empty())
            {
                o.problem = "filter_parsed_arguments: " + s + " (unprocessed: " + ql(un) + ")";
                return o;
            }
        }
        return o;
    }

    // ------------------------------------------------------------ C21: the process ends
    struct ExitState
    {
        real::Log* log;
        std::ostringstream* out;
        int fd;
    };

    ExitState exit_state{};

    void send(int fd, const std::string& s)
    {
        size_t n = 0;
        while (n < s.size())
        {
            const auto k = write(fd, s.data() + n, s.size() - n);
            if (k <= 0)
                return;
            n += size_t(k);
        }
    }


    void on_exit_report(int code, void*)
    {
        std::string s = "EXIT " + std::to_string(code) + "\n";
        for (auto& e : exit_state.log->events)
            s += e + "\n";
        for (auto& e : real::classify_output(exit_state.out->str()))
            s += e + "\n";
        send(exit_state.fd, s);
        _exit(0);
    }

    /// Runs f in a child process and returns what it reported when it called exit() ("" if it returned).
    std::string in_child(const std::function<void(real::Log&, std::ostringstream&)>& f, bool& returned)
    {
        int fds[2];
        if (pipe(fds) != 0)
            return "no pipe";
        const pid_t pid = fork();
        if (pid == 0)
        {
            close(fds[0]);
            static real::Log log;
            static std::ostringstream out;
            exit_state = {&log, &out, fds[1]};
            on_exit(on_exit_report, nullptr);
            std::string s;
            try
            {
                f(log, out);
                s = "RETURNED\n";
            }
            catch (argos::ArgosException&)
            {
                s = "THROWN\n";
            }
            for (auto& e : log.events)
                s += e + "\n";
            for (auto& e : real::classify_output(out.str()))
                s += e + "\n";
            send(fds[1], s);
            _exit(0);
        }
        close(fds[1]);
        std::string s;
        char buf[4096];
        for (ssize_t n; (n = read(fds[0], buf, sizeof buf)) > 0;)
            s.append(buf, size_t(n));
        close(fds[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        returned = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        return s;
    }

    Outcome exit_case(Rng& r)
    {
        Profile f = base();
        f.special_pct = 30;
        f.depth = r.pct(40) ? 1 : 0;
        f.mandatory_pct = 25;
        f.cb_pct = 40;
        f.wide_pct = 40;
        f.help_pct = 90;
        f.version_pct = 40;
        gen::Gen g(r, f);
        g.parser();
        g.argv();
        if (r.pct(40))
        {
            g.p.set_codes = true;
            g.p.error_code = r.range(1, 90);
            g.p.normal_code = r.range(0, 90);
        }
        auto p = g.p;
        p.auto_exit = true;
        Outcome o;
        o.case_text = gen::describe(p) + "  exit codes " + std::to_string(p.error_code) + " " + std::to_string(p.normal_code) + "\n";
        set_case_text(o.case_text);
        const auto e = ref::parse(p, p.argv);
        o.trivial = e.exit_code < 0;
        if (!r.pct(o.trivial ? 15 : 100))
            return o;
        std::string expected;
        if (e.throws)
            expected = "THROWN\n";
        else if (e.exit_code >= 0)
            expected = "EXIT " + std::to_string(e.exit_code) + "\n";
        else
            expected = "RETURNED\n";
        for (auto& x : e.events)
            expected += x + "\n";
        for (auto& x : e.outputs)
            expected += x + "\n";
        const int way = r.range(0, 2);
        bool returned = false;
        auto actual = in_child(
            [&](real::Log& log, std::ostringstream& out)
            {
                const std::vector<std::string_view> v(p.argv.begin(), p.argv.end());
                auto parser = real::make(p, out, log);
                if (way == 0)
                    (void)parser.parse(v);
                else if (way == 1)
                    (void)std::as_const(parser).parse(v);
                else
                {
                    auto it = parser.make_iterator(v);
                    std::unique_ptr<argos::IArgumentView> view;
                    std::string_view value;
                    while (it.next(view, value))
                        ;
                }
            },
            returned);
        if (!returned)
            actual += "the process died";
        if (actual != expected)
        {
            o.problem = std::string("auto_exit, ") + (way == 0 ? "parse" : way == 1 ? "const parse" : "iterator") + ":\nexpected: "
                        + expected + "actual: " + actual;
            return o;
        }
        // With auto_exit off nothing exits (an exit would end this process).
        auto q2 = p;
        q2.auto_exit = false;
        auto fin = q2;
        ref::finish(fin.top, fin, true);
        const auto e2 = ref::parse(q2, q2.argv);
        const auto a2 = in_child(
            [&](real::Log& log, std::ostringstream& out)
            {
                const std::vector<std::string_view> v(q2.argv.begin(), q2.argv.end());
                auto parser = real::make(q2, out, log);
                (void)parser.parse(v);
            },
            returned);
        if (!returned || a2.rfind(e2.throws ? "THROWN" : "RETURNED", 0) != 0)
            o.problem = "auto_exit off: " + a2;
        else
            o.problem = against(e2, real::run(q2, q2.argv, fin.top, e2.code_paths, real::NON_CONST), "auto_exit off");
        return o;
    }

    /// Errors reported through values and builders.
    Outcome value_exit_case(Rng& r)
    {
        Outcome o;
        const bool auto_exit = r.pct(50);
        const bool set = r.pct(50);
        const int code = set ? r.range(1, 99) : 64;
        const int what = r.range(0, 13);
        const int place = r.range(0, 2);
        const std::string bad = r.pick(Strings{"x", "", "1x", "99999999999999999999999", " ", "1 "});
        // How the parser came to its end, and whether a sub-command was involved.
        const int ending = r.range(0, 3);
        const bool sub = r.pct(30);
        o.case_text = std::string("auto_exit ") + (auto_exit ? "on" : "off") + ", error " + std::to_string(what) + " place "
                      + std::to_string(place) + ", value " + q(bad) + ", ending " + std::to_string(ending) + (sub ? " in a sub-command" : "") + (set ? ", error exit code " + std::to_string(code) : "");
        set_case_text(o.case_text);
        bool returned = false;
        const auto s = in_child(
            [&](real::Log& log, std::ostringstream& out)
            {
                argos::ArgumentParser p("prog");
                p.auto_exit(auto_exit).stream(&out).line_width(2000);
                if (set)
                    p.set_exit_codes(code, 7);
                p.text(argos::TextId::ERROR_USAGE, "USAGE-OF #0");
                p.add(argos::Option("--s").type(argos::OptionType::STOP));
                p.add(argos::Option("--l").type(argos::OptionType::LAST_ARGUMENT));
                p.add(argos::Option("--v").argument("N").operation(argos::OptionOperation::APPEND));
                if (sub)
                {
                    argos::Command c("c");
                    c.id(1).text(argos::TextId::ERROR_USAGE, "USAGE-OF #1");
                    c.add(argos::Option("--s").type(argos::OptionType::STOP));
                    c.add(argos::Option("--l").type(argos::OptionType::LAST_ARGUMENT));
                    c.add(argos::Option("--v").argument("N").operation(argos::OptionOperation::APPEND));
                    p.add(std::move(c));
                }
                auto fail = [&](auto& a)
                {
                    auto v = a.value("--v");
                    auto vs = a.values("--v");
                    switch (what)
                    {
                    case 0: (void)v.as_int(); break;
                    case 1: (void)v.as_uint(); break;
                    case 2: (void)v.as_long(); break;
                    case 3: (void)v.as_ulong(); break;
                    case 4: (void)v.as_llong(); break;
                    case 5: (void)v.as_ullong(); break;
                    case 6: (void)vs.as_ints(); break;
                    case 7: (void)vs.as_ulongs(); break;
                    case 8: (void)v.split(',', 2); break;
                    case 9: (void)vs.split(',', 2, 4); break;
                    case 10: v.error("bad"); break;
                    case 11: vs.error("bad"); break;
                    case 12: a.error("bad"); break;
                    default: (void)vs.as_uints(); break;
                    }
                    log.events.push_back("no error");
                };
                if (place == 1)
                    p.option_callback([&](argos::OptionCallbackArguments& a) { fail(a.builder); });
                std::vector<std::string_view> args{"--v", bad};
                if (sub)
                    args.insert(args.begin(), "c");
                if (ending == 1)
                    args.push_back("--s");
                if (ending == 2)
                    args.push_back("--l");
                auto a = p.parse(args);
                if (place == 1)
                    return;
                if (sub)
                {
                    auto b = a.subcommands().at(0);
                    fail(b);
                }
                else
                    fail(a);
            },
            returned);
        std::string expected = auto_exit ? "EXIT " + std::to_string(code) + "\n" : "THROWN\n";
        // The name of the option precedes the message, except for ParsedArguments::error.
        expected += sub ? "OUT ERR prog c #1\n" : "OUT ERR prog #0\n";
        if (!returned || s != expected)
            o.problem = "expected: " + expected + "actual: " + s + (returned ? "" : " (the process died)");
        return o;
    }
}

void parse_modes(std::vector<Mode>& m)
{
    m.push_back({"C01", [](Rng& r)
                 {
                     Profile f = base();
                     f.opts_lo = 1;
                     f.cb_pct = 12;
                     f.wide_pct = 20;
                     f.insert_pct = 30;
                     f.depth = r.pct(12) ? 1 : 0;
                     f.special_pct = 8;
                     f.group_pct = 45;
                     f.args_hi = 2;
                     f.mandatory_pct = 3;
                     f.ignore_args_pct = 50;
                     f.letters = r.pct(70) ? "abc" : "ab=-/\xc3";
                     return random_case(r, f);
                 }});
    m.push_back({"C02", [](Rng& r)
                 {
                     Profile f = base();
                     f.opts_lo = 1;
                     f.cb_pct = 45;
                     f.wide_pct = 25;
                     f.insert_pct = 85;
                     f.special_pct = 25;
                     f.group_pct = 55;
                     f.long_pct = 35;
                     f.letters = "abcde";
                     f.depth = r.pct(25) ? 1 : 0;
                     f.count_pct = 60;
                     f.mandatory_pct = 3;
                     return random_case(r, f);
                 }});
    m.push_back({"C03", [](Rng& r)
                 {
                     Profile f = base();
                     f.opts_lo = 2;
                     f.opts_hi = r.pct(20) ? 14 : 6;
                     f.args_hi = 0;
                     f.abbr_pct = 75;
                     f.ci_pct = 45;
                     f.long_pct = 85;
                     f.letters = r.pct(50) ? "ab" : r.pct(50) ? "abAB" : "ab_AB^[`";
                     f.special_pct = 3;
                     f.mandatory_pct = 0;
                     f.ignore_args_pct = 60;
                     f.cb_pct = 5;
                     f.help_pct = 30;
                     f.initial_pct = 0;
                     return lookup_case(r, f);
                 }});
    m.push_back({"C04", clash_case});
    m.push_back({"C05", letter_case});
    m.push_back({"C06parse", [](Rng& r)
                 {
                     Profile f = base();
                     f.bad_pct = 12;
                     f.opts_lo = 1;
                     f.opts_hi = 3;
                     f.depth = r.pct(25) ? 1 : 0;
                     f.mandatory_pct = 15;
                     f.cb_pct = 0;
                     f.alias_pct = 15;
                     f.tokens_hi = 4;
                     return random_case(r, f);
                 }});
    m.push_back({"C07", [](Rng& r)
                 {
                     Profile f = base();
                     f.args_lo = 1;
                     f.args_hi = 4;
                     f.opts_hi = 3;
                     f.count_pct = 75;
                     f.insert_pct = 30;
                     f.cb_pct = 10;
                     f.wide_pct = 10;
                     f.ignore_args_pct = 20;
                     f.depth = r.pct(25) ? 1 : 0;
                     f.mandatory_pct = 2;
                     f.special_pct = 8;
                     return counts_case(r, f);
                 }});
    m.push_back({"C08", [](Rng& r)
                 {
                     Profile f = base();
                     f.opts_lo = 2;
                     f.opts_hi = 5;
                     f.letters = "abcdefg";
                     f.cb_pct = 45;
                     f.insert_pct = 10;
                     f.value_action_pct = 65;
                     f.initial_pct = 35;
                     f.alias_pct = 45;
                     f.tokens_hi = 12;
                     f.special_pct = 3;
                     f.mandatory_pct = 3;
                     f.depth = r.pct(20) ? 1 : 0;
                     f.noise_pct = 4;
                     return random_case(r, f);
                 }});
    m.push_back({"C09", [](Rng& r)
                 {
                     Profile f = base();
                     f.opts_lo = 2;
                     f.opts_hi = 7;
                     f.args_hi = 4;
                     f.letters = "abcdefgh";
                     f.alias_pct = 70;
                     f.cb_pct = 8;
                     f.tokens_hi = 12;
                     f.special_pct = 2;
                     f.mandatory_pct = 2;
                     f.ignore_args_pct = 60;
                     f.depth = r.pct(25) ? 1 : 0;
                     f.noise_pct = 3;
                     return random_case(r, f);
                 }});
    m.push_back({"C12", [](Rng& r)
                 {
                     Profile f = base();
                     f.mandatory_pct = 35;
                     f.special_pct = 25;
                     f.depth = r.pct(55) ? 2 : 0;
                     f.cb_pct = 6;
                     f.wide_pct = 6;
                     f.count_pct = 55;
                     f.noise_pct = 10;
                     f.letters = "abcd";
                     return random_case(r, f);
                 }});
    m.push_back({"C13", [](Rng& r)
                 {
                     Profile f = base();
                     f.depth = r.range(1, 3);
                     f.cmd_pct = 80;
                     f.opts_hi = 2;
                     f.args_hi = 3;
                     f.multi_pct = 65;
                     f.special_pct = 10;
                     f.cb_pct = 8;
                     f.count_pct = 55;
                     f.noise_pct = 6;
                     f.tokens_hi = 10;
                     f.mandatory_pct = 6;
                     f.letters = "abc";
                     return random_case(r, f);
                 }});
    m.push_back({"C18", filter_case});
    m.push_back({"C19parse", [](Rng& r)
                 {
                     Profile f = base();
                     f.depth = r.pct(40) ? 2 : 0;
                     f.version_pct = 40;
                     f.initial_pct = 20;
                     return random_case(r, f, true, true);
                 }});
    m.push_back({"C21", [](Rng& r) { return r.pct(75) ? exit_case(r) : value_exit_case(r); }});
    m.push_back({"C22", [](Rng& r)
                 {
                     Profile f = base();
                     f.opts_lo = 1;
                     f.cb_pct = 65;
                     f.wide_pct = 65;
                     f.insert_pct = 25;
                     f.special_pct = 18;
                     f.depth = r.pct(35) ? 2 : 0;
                     f.ignore_opts_pct = 20;
                     f.ignore_args_pct = 25;
                     f.mandatory_pct = 5;
                     return random_case(r, f, true);
                 }});
}
