// Reference model of the documented parsing behaviour. Written from the property statements; shares no code with
// /repo. It produces the observations of a parse as a list of text lines.
#pragma once
#include <utility>
#include <functional>
#include <algorithm>
#include <deque>
#include <memory>
#include <optional>
#include "common.hpp"

namespace ref
{
    enum Style { STANDARD, SLASH, DASH };
    enum Op { NONE, ASSIGN, APPEND, CLEAR };
    enum Type { NORMAL, HELP, STOP, EXIT, LAST_ARGUMENT, LAST_OPTION };

    /// What a callback does when it is called for the call-th time.
    struct Action
    {
        int call = 0;
        char kind = 'i'; // i: new arguments, a: append, s: assign, c: clear
        std::string name, value;
        Strings inserted;
    };

    struct Script
    {
        bool set = false;
        std::vector<Action> actions;
    };

    struct Opt
    {
        Strings flags;
        std::string argument, constant, alias, initial;
        Op op = ASSIGN;
        Type type = NORMAL;
        bool mandatory = false;
        int id = 0;
        unsigned visibility = 3;
        std::string section, help;
        Script cb;
        bool version = false;

        std::string key() const { return std::to_string(id) + ":" + (flags.empty() ? "" : flags.front()); }
        bool takes_value() const { return (op == ASSIGN || op == APPEND) && constant.empty(); }
    };

    struct Arg
    {
        std::string name, alias;
        unsigned min = 1, max = 1;
        int id = 0;
        unsigned visibility = 3;
        std::string section, help;
        Script cb;

        std::string key() const { return std::to_string(id) + ":" + name; }
    };

    struct Cmd
    {
        std::string name;
        std::vector<Arg> args;
        std::vector<Opt> opts;
        std::vector<Cmd> cmds;
        std::optional<bool> require;
        bool multi = false;
        int id = 0;
        unsigned visibility = 3;
        std::string section, help, about;
        std::string full;
    };

    struct Parser
    {
        Cmd top;
        Style style = STANDARD;
        bool abbr = false, ci = false, ignore_opts = false, ignore_args = false, gen_help = true, auto_exit = false;
        std::string version;
        int error_code = 64, normal_code = 0;
        bool set_codes = false;
        Script opt_cb, arg_cb;
        Strings argv;
    };

    // ---------------------------------------------------------------- strings
    inline char fold(char c) { return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c; }

    inline bool same(std::string_view a, std::string_view b, bool ci)
    {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (ci ? fold(a[i]) != fold(b[i]) : a[i] != b[i])
                return false;
        return true;
    }

    inline bool prefix_of(std::string_view p, std::string_view s, bool ci)
    {
        return p.size() <= s.size() && same(p, s.substr(0, p.size()), ci);
    }

    inline bool is_option(const std::string& s, Style style)
    {
        return s.size() >= 2 && s[0] == (style == SLASH ? '/' : '-');
    }

    // ---------------------------------------------------------------- definitions
    inline bool legal_flag(const std::string& f, const Opt& o, Style style)
    {
        const char prefix = style == SLASH ? '/' : '-';
        if (f.size() < 2 || f[0] != prefix)
            return false;
        for (char c : f)
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r')
                return false;
        if (f.size() == 2)
            return true;
        if (style == STANDARD && f[1] != '-')
            return false;
        const auto eq = f.find('=');
        return eq == std::string::npos || (eq == f.size() - 1 && !o.argument.empty());
    }

    inline bool legal_option(const Opt& o, Style style)
    {
        if (o.flags.empty())
            return false;
        for (auto& f : o.flags)
            if (!legal_flag(f, o, style))
                return false;
        if (!o.argument.empty() && !o.constant.empty())
            return false;
        switch (o.op)
        {
        case NONE: return o.constant.empty() && o.alias.empty();
        case APPEND: return !o.constant.empty() || !o.argument.empty();
        case CLEAR: return !o.mandatory;
        default: return true;
        }
    }

    /// The definitions as the parser uses them; false if parsing has to throw.
    inline bool finish(Cmd& c, const Parser& p, bool top)
    {
        if (top)
            c.full = c.name;
        auto has_flag = [&](std::string_view f)
        {
            for (auto& o : c.opts)
                for (auto& g : o.flags)
                    if (same(f, g, p.ci))
                        return true;
            return false;
        };
        if (top && !p.version.empty())
        {
            std::string f = p.style == STANDARD ? "--version" : p.style == SLASH ? "/VERSION" : "-version";
            if (!has_flag(f))
            {
                Opt o;
                o.flags = {f};
                o.type = STOP;
                o.constant = "1";
                o.version = true;
                c.opts.push_back(o);
            }
        }
        for (auto& o : c.opts)
        {
            if (!legal_option(o, p.style))
                return false;
            if (o.op == ASSIGN && o.argument.empty() && o.constant.empty())
                o.constant = "1";
        }
        if (c.require.value_or(false) && c.cmds.empty())
            return false;
        bool has_help = false;
        for (auto& o : c.opts)
            has_help = has_help || o.type == HELP;
        if (p.gen_help && !has_help)
        {
            Opt o;
            o.type = HELP;
            o.constant = "1";
            if (p.style == STANDARD)
            {
                for (auto f : {"-h", "--help"})
                    if (!has_flag(f))
                        o.flags.push_back(f);
            }
            else if (p.style == SLASH)
            {
                if (!has_flag("/?"))
                    o.flags = {"/?"};
            }
            else if (!has_flag("-h"))
                o.flags = {"-h"};
            else if (!has_flag("-help"))
                o.flags = {"-help"};
            if (!o.flags.empty())
                c.opts.push_back(o);
        }
        Strings all;
        for (auto& o : c.opts)
            for (auto& f : o.flags)
            {
                for (auto& g : all)
                    if (same(f, g, p.ci))
                        return false;
                all.push_back(f);
            }
        for (auto& s : c.cmds)
        {
            s.full = c.full + " " + s.name;
            if (!finish(s, p, false))
                return false;
        }
        return true;
    }

    inline const Opt* lookup1(const Cmd& c, std::string_view flag, const Parser& p)
    {
        for (auto& o : c.opts)
            for (auto& f : o.flags)
                if (same(f, flag, p.ci))
                    return &o;
        if (!p.abbr)
            return nullptr;
        const Opt* found = nullptr;
        int n = 0;
        for (auto& o : c.opts)
            for (auto& f : o.flags)
                if (prefix_of(flag, f, p.ci))
                {
                    ++n;
                    found = &o;
                }
        return n == 1 ? found : nullptr;
    }

    inline const Opt* lookup(const Cmd& c, std::string_view flag, const Parser& p)
    {
        if (auto o = lookup1(c, flag, p))
            return o;
        if (flag.size() > 2 && flag.back() == '=')
            if (auto o = lookup1(c, flag.substr(0, flag.size() - 1), p); o && !o->argument.empty())
                return o;
        return nullptr;
    }

    inline const Cmd* command(const Cmd& c, std::string_view name, bool ci)
    {
        for (auto& s : c.cmds)
            if (same(s.name, name, ci))
                return &s;
        return nullptr;
    }

    // ---------------------------------------------------------------- tokens
    struct Lexer
    {
        Style style = STANDARD;
        std::deque<std::string> waiting;
        char open = 0; // 'g': flags of the token still to read, '=': attached value still to read
        std::string rest;
        std::string token; // the token the last flag or value came from

        std::optional<std::string> next()
        {
            if (open == 'g' && !rest.empty())
            {
                std::string f = {'-', rest[0]};
                rest.erase(0, 1);
                if (rest.empty())
                    open = 0;
                return f;
            }
            open = 0;
            rest.clear();
            if (waiting.empty())
                return {};
            token = waiting.front();
            waiting.pop_front();
            const char prefix = style == SLASH ? '/' : '-';
            if (token.size() <= 2 || token[0] != prefix)
                return token;
            if (style == STANDARD && token[1] != '-')
            {
                open = 'g';
                rest = token.substr(2);
                return token.substr(0, 2);
            }
            const auto eq = token.find('=');
            if (eq == std::string::npos)
                return token;
            open = '=';
            rest = token.substr(eq + 1);
            return token.substr(0, eq + 1);
        }

        std::optional<std::string> next_value()
        {
            if (open)
            {
                open = 0;
                std::string r;
                r.swap(rest);
                return r;
            }
            if (waiting.empty())
                return {};
            token = waiting.front();
            waiting.pop_front();
            return token;
        }

        void insert(const Strings& list)
        {
            if (open == 'g' && !rest.empty())
            {
                waiting.push_front("-" + rest);
                open = 0;
                rest.clear();
            }
            waiting.insert(waiting.begin(), list.begin(), list.end());
        }

        Strings remaining() const
        {
            Strings r;
            if (open == 'g' && !rest.empty())
                r.push_back("-" + rest);
            r.insert(r.end(), waiting.begin(), waiting.end());
            return r;
        }
    };

    // ---------------------------------------------------------------- positional arguments
    struct Counter
    {
        std::vector<std::pair<uint64_t, const Arg*>> left;
        size_t pos = 0;
        uint64_t used = 0, need = 0;
        bool exact = false;

        static uint64_t lo(const Cmd& c)
        {
            uint64_t r = 0;
            for (auto& a : c.args)
                r += a.min;
            return r;
        }

        static bool look_ahead(const Cmd& c)
        {
            for (size_t i = 0; i + 1 < c.args.size(); ++i)
                if (c.args[i].min != c.args[i].max)
                    return true;
            return false;
        }

        Counter() = default;

        explicit Counter(const Cmd& c)
        {
            for (auto& a : c.args)
                left.push_back({a.max, &a});
            need = lo(c);
        }

        Counter(const Cmd& c, uint64_t n, uint64_t already)
        {
            exact = true;
            uint64_t surplus = n < lo(c) ? 0 : n - lo(c);
            for (auto& a : c.args)
            {
                const uint64_t extra = std::min<uint64_t>(surplus, a.max - a.min);
                left.push_back({a.min + extra, &a});
                surplus -= extra;
            }
            while (already-- && next())
                ;
        }

        const Arg* next()
        {
            while (pos < left.size() && left[pos].first == 0)
                ++pos;
            if (pos == left.size())
                return nullptr;
            --left[pos].first;
            ++used;
            return left[pos].second;
        }

        bool complete() const
        {
            if (!exact)
                return used >= need;
            for (size_t i = pos; i < left.size(); ++i)
                if (left[i].first)
                    return false;
            return true;
        }
    };

    // ---------------------------------------------------------------- values
    struct Result
    {
        const Cmd* cmd;
        std::map<std::string, int> group;                                       // name -> value
        std::map<int, std::vector<std::pair<std::string, std::string>>> values; // value -> (text, supplier)
        std::vector<std::unique_ptr<Result>> subs;
        Strings unprocessed;
        std::string code = "NONE";
        const Opt* stop = nullptr;

        explicit Result(const Cmd* c) : cmd(c)
        {
            int n = 0;
            auto join = [&](const Strings& names)
            {
                int g = ++n;
                for (auto& s : names)
                {
                    auto it = group.find(s);
                    if (it == group.end())
                        group[s] = g;
                    else if (it->second != g)
                    {
                        const int old = it->second;
                        for (auto& [k, v] : group)
                            if (v == old)
                                v = g;
                    }
                }
            };
            for (auto& a : c->args)
            {
                Strings s{a.name};
                if (!a.alias.empty())
                    s.push_back(a.alias);
                join(s);
            }
            for (auto& o : c->opts)
            {
                if (o.op == NONE)
                    continue;
                Strings s = o.flags;
                if (!o.alias.empty())
                    s.push_back(o.alias);
                join(s);
            }
        }

        int of(const std::string& name) const
        {
            auto it = group.find(name);
            return it == group.end() ? 0 : it->second;
        }
    };

    // ---------------------------------------------------------------- the parse
    struct Machine
    {
        const Parser& p;
        Lexer lex;
        std::vector<Result*> frames;
        std::unique_ptr<Result> root;
        Counter counter;
        enum { BOTH, ONLY_ARGS, DONE, ERROR } state = BOTH;
        Strings events, items, outputs;
        std::map<std::string, int> calls;
        int exit_code = -1; // what the process exits with if auto_exit is on

        Machine(const Parser& p_, const Strings& argv) : p(p_)
        {
            lex.style = p.style;
            lex.waiting.assign(argv.begin(), argv.end());
            root = std::make_unique<Result>(&p.top);
            frames = {root.get()};
            start();
        }

        const Cmd& cmd() const { return *frames.back()->cmd; }

        void start()
        {
            for (auto& o : cmd().opts)
                if (!o.initial.empty())
                    store(*frames.back(), o, o.initial, true);
            counter = Counter::look_ahead(cmd()) ? Counter(cmd(), count(0), 0) : Counter(cmd());
        }

        static void store(Result& r, const Opt& o, const std::string& v, bool append)
        {
            auto& list = r.values[r.of(o.flags.front())];
            if (!append)
                list.clear();
            list.emplace_back(v, o.key());
        }

        uint64_t count(uint64_t n) const
        {
            if (state == DONE)
                return n;
            Lexer l = lex;
            bool only_args = state == ONLY_ARGS;
            const auto lo = Counter::lo(cmd());
            while (true)
            {
                auto t = only_args ? l.next_value() : l.next();
                if (!t)
                    return n;
                if (!only_args && is_option(*t, p.style))
                {
                    auto o = lookup(cmd(), *t, p);
                    if (!o)
                        continue;
                    if (o->takes_value())
                        l.next_value();
                    if (o->type == LAST_OPTION)
                        only_args = true;
                    else if (o->type != NORMAL)
                        return n;
                    continue;
                }
                if (n >= lo && sibling(*t).first)
                    return n;
                ++n;
            }
        }

        int multi_ancestor() const
        {
            for (int i = int(frames.size()) - 2; i >= 0; --i)
                if (frames[i]->cmd->multi)
                    return i;
            return -1;
        }

        std::pair<const Cmd*, int> sibling(const std::string& name) const
        {
            const int i = multi_ancestor();
            if (i < 0)
                return {nullptr, 0};
            return {command(*frames[i]->cmd, name, p.ci), i};
        }

        void leftovers()
        {
            for (auto& s : lex.remaining())
                frames.back()->unprocessed.push_back(s);
        }

        void error(const Cmd& c)
        {
            outputs.push_back("OUT ERR " + c.full + " #" + std::to_string(c.id));
            if (exit_code < 0)
                exit_code = p.error_code;
            leftovers();
            for (auto f : frames)
                f->code = "FAILURE";
            state = ERROR;
            items.push_back("IT error");
        }

        bool mandatory_ok(size_t first)
        {
            for (size_t i = frames.size(); i-- > first;)
                for (auto& o : frames[i]->cmd->opts)
                    if (o.mandatory && frames[i]->values[frames[i]->of(o.op == NONE ? "\0none" : o.flags.front())].empty())
                    {
                        error(*frames[i]->cmd);
                        return false;
                    }
            return true;
        }

        bool complete_command()
        {
            if (!mandatory_ok(0))
                return false;
            if (cmd().require.value_or(!cmd().cmds.empty()) && frames.back()->subs.empty())
            {
                error(cmd());
                return false;
            }
            if (!counter.complete())
            {
                error(cmd());
                return false;
            }
            state = DONE;
            for (auto f : frames)
                f->code = "SUCCESS";
            return true;
        }

        void call(const Script& s, const std::string& counter_key, const char* whose, const char* kind,
                  const std::string& key, const std::string& text, const std::string& value_name)
        {
            if (!s.set)
                return;
            auto& r = *frames.back();
            Strings stored;
            if (!value_name.empty())
                for (auto& v : r.values[r.of(value_name)])
                    stored.push_back(v.first);
            events.push_back(std::string("EV ") + whose + " " + kind + " " + key + " " + q(text) + " stored=" + ql(stored));
            const int n = ++calls[counter_key];
            Strings inserted;
            for (auto& a : s.actions)
            {
                if (a.call != n)
                    continue;
                if (a.kind == 'i')
                {
                    inserted.insert(inserted.end(), a.inserted.begin(), a.inserted.end());
                    continue;
                }
                const int g = r.of(a.name);
                if (!g)
                {
                    events.push_back("EV unknown name " + q(a.name));
                    continue;
                }
                if (a.kind != 'a')
                    r.values[g].clear();
                if (a.kind != 'c')
                    r.values[g].emplace_back(a.value, "-");
            }
            if (inserted.empty())
                return;
            lex.insert(inserted);
            if (Counter::look_ahead(cmd()))
            {
                const auto used = counter.used;
                counter = Counter(cmd(), count(used), used);
            }
        }

        void enter(const Cmd* c, const std::string& text)
        {
            frames.back()->subs.push_back(std::make_unique<Result>(c));
            frames.push_back(frames.back()->subs.back().get());
            state = BOTH;
            items.push_back("IT command " + std::to_string(c->id) + " " + q(text));
            start();
        }

        void leave_to(int i)
        {
            frames.resize(size_t(i) + 1);
            counter = {};
            state = ONLY_ARGS;
        }

        /// false when nothing more can be done
        bool step()
        {
            auto t = state == BOTH ? lex.next() : lex.next_value();
            if (!t)
            {
                if (complete_command())
                    items.push_back("IT done");
                return false;
            }
            if (state == BOTH && is_option(*t, p.style))
                return option(*t);
            if (!cmd().cmds.empty())
            {
                if (auto c = command(cmd(), *t, p.ci))
                {
                    enter(c, *t);
                    return true;
                }
                error(cmd());
                return false;
            }
            return argument(*t);
        }

        bool argument(const std::string& text)
        {
            if (counter.complete())
            {
                if (auto [c, i] = sibling(text); c)
                {
                    if (!mandatory_ok(size_t(i) + 1))
                        return false;
                    leave_to(i);
                    enter(c, text);
                    return true;
                }
            }
            if (auto a = counter.next())
            {
                auto& r = *frames.back();
                r.values[r.of(a->name)].emplace_back(text, a->key());
                items.push_back("IT arg " + a->key() + " " + q(text));
                call(a->cb, "own" + std::to_string(a->id), "own", "arg", a->key(), text, a->name);
                call(p.arg_cb, "wide arg", "all", "arg", a->key(), text, a->name);
                return true;
            }
            if (p.ignore_args)
            {
                frames.back()->unprocessed.push_back(text);
                items.push_back("IT unknown " + q(text));
                return true;
            }
            error(cmd());
            return false;
        }

        bool option(const std::string& flag)
        {
            auto o = lookup(cmd(), flag, p);
            if (!o)
            {
                if (p.ignore_opts && lex.token.substr(0, flag.size()) == flag)
                {
                    frames.back()->unprocessed.push_back(lex.token);
                    items.push_back("IT unknown " + q(lex.token));
                    return true;
                }
                error(cmd());
                return false;
            }
            auto& r = *frames.back();
            std::string text;
            if (o->op == ASSIGN || o->op == APPEND)
            {
                if (!o->takes_value())
                    store(r, *o, o->constant, o->op == APPEND);
                else if (auto v = lex.next_value())
                {
                    text = *v;
                    store(r, *o, text, o->op == APPEND);
                }
                else
                {
                    error(cmd());
                    return false;
                }
            }
            else if (o->op == CLEAR)
                r.values[r.of(o->flags.front())].clear();

            if (o->type == LAST_OPTION)
                state = ONLY_ARGS;
            else if (o->type != NORMAL)
                state = DONE;
            const auto item = items.size();
            items.push_back("IT opt " + o->key() + " " + q(text));
            if (o->version)
                outputs.push_back("OUT VERSION " + p.top.name + " " + p.version);
            const auto vn = o->op == NONE ? std::string() : o->flags.front();
            call(o->cb, "own" + std::to_string(o->id), "own", "opt", o->key(), text, vn);
            call(p.opt_cb, "wide opt", "all", "opt", o->key(), text, vn);
            switch (o->type)
            {
            case NORMAL:
            case LAST_OPTION:
                return true;
            case HELP:
                outputs.push_back("OUT HELP #" + std::to_string(cmd().id));
                [[fallthrough]];
            case EXIT:
                exit_code = p.normal_code;
                [[fallthrough]];
            case STOP:
                for (auto f : frames)
                {
                    f->code = "STOP";
                    f->stop = o;
                }
                leftovers();
                break;
            case LAST_ARGUMENT:
                if (!complete_command())
                {
                    items.erase(items.begin() + long(item));
                    return false;
                }
                if (const int i = multi_ancestor(); i >= 0)
                {
                    leave_to(i);
                    return true;
                }
                leftovers();
                break;
            }
            state = DONE;
            items.push_back("IT done");
            return false;
        }

        void run()
        {
            while (step())
                ;
        }
    };

    inline void print_result(const Result& r, const std::string& path, const std::set<std::string>& code_paths, Strings& out)
    {
        out.push_back("RES " + path + " #" + std::to_string(path == "r" ? 0 : r.cmd->id) + " " + q(r.cmd->name)
                      + (code_paths.count(path) ? " code=" + r.code : "") + " unprocessed=" + ql(r.unprocessed)
                      + " stop=" + (r.stop ? r.stop->key() : "none") + " subcommands=" + std::to_string(r.subs.size()));
        for (auto& [name, g] : r.group)
        {
            std::string s = "VAL " + path + " " + q(name) + " =";
            if (auto it = r.values.find(g); it != r.values.end())
                for (auto& [text, by] : it->second)
                    s += " " + q(text) + " by " + by;
            out.push_back(s);
        }
        for (size_t i = 0; i < r.subs.size(); ++i)
            print_result(*r.subs[i], path + "/" + std::to_string(i), code_paths, out);
    }

    struct Observed
    {
        bool throws = false;
        Strings events, outputs, results, items;
        std::set<std::string> code_paths;
        std::string deepest; // path of the last active command
        int exit_code = -1;
        size_t used = 0;
    };

    inline Observed parse(Parser p, const Strings& argv)
    {
        Observed o;
        if (!finish(p.top, p, true))
        {
            o.throws = true;
            return o;
        }
        Machine m(p, argv);
        m.run();
        std::string path = "r";
        o.code_paths.insert(path);
        for (size_t i = 1; i < m.frames.size(); ++i)
        {
            const auto& subs = m.frames[i - 1]->subs;
            size_t k = 0;
            while (subs[k].get() != m.frames[i])
                ++k;
            path += "/" + std::to_string(k);
            o.code_paths.insert(path);
        }
        o.deepest = path;
        o.events = m.events;
        o.outputs = m.outputs;
        o.items = m.items;
        o.exit_code = m.exit_code;
        print_result(*m.root, "r", o.code_paths, o.results);
        return o;
    }
}
