// Builds the real parser from a ref::Parser, runs it through the public interface and prints the same observations
// as the reference model.
#pragma once
#include <utility>
#include <functional>
#include <algorithm>
#include <memory>
#include <sstream>
#include "Argos/ArgosException.hpp"
#include "Argos/Argument.hpp"
#include "Argos/ArgumentIterator.hpp"
#include "Argos/ArgumentParser.hpp"
#include "Argos/ArgumentValue.hpp"
#include "Argos/ArgumentValues.hpp"
#include "Argos/ArgumentView.hpp"
#include "Argos/Command.hpp"
#include "Argos/CommandView.hpp"
#include "Argos/Option.hpp"
#include "Argos/OptionView.hpp"
#include "Argos/ParsedArguments.hpp"
#include "Argos/ParsedArgumentsBuilder.hpp"
#include "model.hpp"

namespace real
{
    struct Log
    {
        Strings events;
        std::map<std::string, int> calls;
        int exits = 0;
    };

    inline std::string key(const argos::OptionView& v) { return std::to_string(v.id()) + ":" + (v.flags().empty() ? "" : v.flags().front()); }
    inline std::string key(const argos::ArgumentView& v) { return std::to_string(v.id()) + ":" + v.name(); }

    inline std::string key(const argos::IArgumentView* v)
    {
        if (!v)
            return "-";
        if (auto o = dynamic_cast<const argos::OptionView*>(v))
            return key(*o);
        if (auto a = dynamic_cast<const argos::ArgumentView*>(v))
            return key(*a);
        return "?";
    }

    template <typename Args>
    void called(Args& a, const ref::Script& s, const std::string& counter_key, const char* whose, const char* kind, Log& log)
    {
        Strings stored;
        bool none = false;
        if constexpr (std::is_same_v<decltype(a.view), argos::OptionView>)
            none = a.view.operation() == argos::OptionOperation::NONE;
        if (!none)
        {
            for (auto v : a.builder.values(a.view).raw_values())
                stored.emplace_back(v);
            if (a.builder.has(a.view) != !stored.empty())
                log.events.push_back("EV has() and values() disagree");
        }
        log.events.push_back(std::string("EV ") + whose + " " + kind + " " + key(a.view) + " " + q(a.value) + " stored=" + ql(stored));
        const int n = ++log.calls[counter_key];
        for (auto& x : s.actions)
        {
            if (x.call != n)
                continue;
            if (x.kind == 'i')
            {
                a.new_arguments.insert(a.new_arguments.end(), x.inserted.begin(), x.inserted.end());
                continue;
            }
            try
            {
                if (x.kind == 'a')
                    a.builder.append(x.name, x.value);
                else if (x.kind == 's')
                    a.builder.assign(x.name, x.value);
                else
                    a.builder.clear(x.name);
            }
            catch (argos::ArgosException&)
            {
                log.events.push_back("EV unknown name " + q(x.name));
            }
        }
    }

    inline argos::ArgumentCallback arg_callback(const ref::Script& s, std::string k, const char* whose, Log& log)
    {
        return [&s, k, whose, &log](argos::ArgumentCallbackArguments& a) { called(a, s, k, whose, "arg", log); };
    }

    inline argos::OptionCallback opt_callback(const ref::Script& s, std::string k, const char* whose, Log& log)
    {
        return [&s, k, whose, &log](argos::OptionCallbackArguments& a) { called(a, s, k, whose, "opt", log); };
    }

    inline argos::Argument make(const ref::Arg& a, Log& log)
    {
        argos::Argument r(a.name);
        r.count(a.min, a.max);
        r.id(a.id);
        if (!a.alias.empty())
            r.alias(a.alias);
        if (!a.section.empty())
            r.section(a.section);
        if (!a.help.empty())
            r.help(a.help);
        r.visibility(argos::Visibility(a.visibility));
        if (a.cb.set)
            r.callback(arg_callback(a.cb, "own" + std::to_string(a.id), "own", log));
        return r;
    }

    inline argos::Option make(const ref::Opt& o, Log& log)
    {
        argos::Option r;
        r.flags(o.flags);
        r.id(o.id);
        if (!o.argument.empty())
            r.argument(o.argument);
        if (!o.constant.empty())
            r.constant(o.constant);
        if (!o.alias.empty())
            r.alias(o.alias);
        if (!o.initial.empty())
            r.initial_value(o.initial);
        r.operation(argos::OptionOperation(int(o.op)));
        r.type(argos::OptionType(int(o.type)));
        if (o.mandatory)
            r.mandatory();
        if (!o.section.empty())
            r.section(o.section);
        if (!o.help.empty())
            r.help(o.help);
        r.visibility(argos::Visibility(o.visibility));
        if (o.cb.set)
            r.callback(opt_callback(o.cb, "own" + std::to_string(o.id), "own", log));
        return r;
    }

    template <typename P>
    void fill(P& p, const ref::Cmd& c, Log& log);

    inline argos::Command make(const ref::Cmd& c, Log& log)
    {
        argos::Command r(c.name);
        r.id(c.id);
        fill(r, c, log);
        if (c.require)
            r.require_subcommand(*c.require);
        r.allow_multiple_subcommands(c.multi);
        r.visibility(argos::Visibility(c.visibility));
        if (!c.section.empty())
            r.section(c.section);
        if (!c.help.empty())
            r.help(c.help);
        return r;
    }

    /// Whether parsers and commands get the texts that make their output recognisable.
    inline bool with_texts = true;

    template <typename P>
    void fill(P& p, const ref::Cmd& c, Log& log)
    {
        for (auto& o : c.opts)
            p.add(make(o, log));
        for (auto& a : c.args)
            p.add(make(a, log));
        for (auto& s : c.cmds)
            p.add(make(s, log));
        if (!with_texts)
            return;
        p.text(argos::TextId::INITIAL_TEXT, "HELP-OF #" + std::to_string(c.id));
        p.text(argos::TextId::ERROR_USAGE, "USAGE-OF #" + std::to_string(c.id));
    }

    inline argos::ArgumentParser make(const ref::Parser& p, std::ostream& out, Log& log)
    {
        argos::ArgumentParser r(p.top.name, false);
        r.stream(&out);
        r.option_style(argos::OptionStyle(int(p.style)));
        r.allow_abbreviated_options(p.abbr);
        r.case_insensitive(p.ci);
        r.ignore_undefined_options(p.ignore_opts);
        r.ignore_undefined_arguments(p.ignore_args);
        r.generate_help_option(p.gen_help);
        r.auto_exit(p.auto_exit);
        r.line_width(2000);
        if (!p.version.empty())
            r.version(p.version);
        if (p.set_codes)
            r.set_exit_codes(p.error_code, p.normal_code);
        fill(r, p.top, log);
        if (p.top.require)
            r.require_subcommand(*p.top.require);
        r.allow_multiple_subcommands(p.top.multi);
        if (p.opt_cb.set)
            r.option_callback(opt_callback(p.opt_cb, "wide opt", "all", log));
        if (p.arg_cb.set)
            r.argument_callback(arg_callback(p.arg_cb, "wide arg", "all", log));
        return r;
    }

    /// What was written, reduced to what the reference model knows.
    inline Strings classify_output(const std::string& text)
    {
        Strings r;
        size_t pos = 0;
        while (pos < text.size())
        {
            auto end = text.find('\n', pos);
            if (end == std::string::npos)
                end = text.size();
            const auto line = text.substr(pos, end - pos);
            const auto next = end + 1;
            if (line.rfind("HELP-OF ", 0) == 0)
            {
                r.push_back("OUT HELP " + line.substr(8));
                return r; // the rest is the help text
            }
            // A message can contain line breaks, it ends where the usage text begins.
            const auto usage = text.find("\nUSAGE-OF ", pos);
            const auto colon = text.find(": ", pos);
            if (usage != std::string::npos && colon < usage)
            {
                auto end2 = text.find('\n', usage + 1);
                r.push_back("OUT ERR " + text.substr(pos, colon - pos) + " " + text.substr(usage + 10, end2 - usage - 10));
                pos = end2 == std::string::npos ? text.size() : end2 + 1;
                continue;
            }
            r.push_back("OUT VERSION " + line);
            pos = next;
        }
        return r;
    }

    inline std::string code_name(argos::ParserResultCode c)
    {
        switch (c)
        {
        case argos::ParserResultCode::NONE: return "NONE";
        case argos::ParserResultCode::SUCCESS: return "SUCCESS";
        case argos::ParserResultCode::STOP: return "STOP";
        case argos::ParserResultCode::FAILURE: return "FAILURE";
        }
        return "?";
    }

    inline std::string describe_values(const argos::ParsedArguments& a, const std::string& name)
    {
        std::string s;
        try
        {
            const auto vs = a.values(name);
            size_t n = 0;
            for (const auto v : vs)
            {
                ++n;
                s += " " + q(*v.value()) + " by " + key(v.argument().get());
            }
            if (vs.size() != n || vs.empty() != (n == 0) || bool(vs) != (n != 0) || vs.raw_values().size() != n)
                s += " (size() is wrong)";
            if (a.has(name) != (n != 0))
                s += " (has() is wrong)";
            bool threw = false;
            try
            {
                const auto v = a.value(name);
                if (bool(v) != (n == 1))
                    s += " (value() is wrong)";
                if (n == 1 && *v.value() != vs.raw_values()[0])
                    s += " (value() is another one)";
                if (n == 1 && key(v.argument().get()) != key(vs.value(0).argument().get()))
                    s += " (value() has another supplier)";
            }
            catch (argos::ArgosException&)
            {
                threw = true;
            }
            if (threw != (n > 1))
                s += " (value() throws wrongly)";
        }
        catch (argos::ArgosException&)
        {
            s = " unknown name";
        }
        return s;
    }

    /// The names that can occur in c and some that cannot.
    inline std::set<std::string> names_of(const ref::Cmd& c)
    {
        std::set<std::string> r;
        for (auto& a : c.args)
        {
            r.insert(a.name);
            if (!a.alias.empty())
                r.insert(a.alias);
        }
        for (auto& o : c.opts)
        {
            if (o.op == ref::NONE)
                continue;
            r.insert(o.flags.begin(), o.flags.end());
            if (!o.alias.empty())
                r.insert(o.alias);
        }
        return r;
    }

    inline void print_result(const argos::ParsedArguments& a, const ref::Cmd* c, const std::string& path,
                             const std::set<std::string>& code_paths, Strings& out)
    {
        std::string stop = "none";
        try
        {
            stop = key(a.stop_option());
        }
        catch (argos::ArgosException&)
        {
        }
        const auto subs = a.subcommands();
        out.push_back("RES " + path + " #" + std::to_string(a.command().id()) + " " + q(a.name())
                      + (code_paths.count(path) ? " code=" + code_name(a.result_code()) : "")
                      + " unprocessed=" + ql(a.unprocessed_arguments()) + " stop=" + stop
                      + " subcommands=" + std::to_string(subs.size()));
        const auto names = names_of(*c);
        for (auto& n : names)
            out.push_back("VAL " + path + " " + q(n) + " =" + describe_values(a, n));
        for (auto n : {"", "nosuch", "-", "--nosuch", "\x01", "zzzz", "0"})
            if (!names.count(n) && describe_values(a, n) != " unknown name")
                out.push_back("VAL " + path + " " + q(n) + " is not unknown");
        // Views select the same values as names.
        for (auto& v : a.all_options())
        {
            if (v->operation() == argos::OptionOperation::NONE)
                continue;
            Strings x, y;
            for (auto t : a.values(*v).raw_values())
                x.emplace_back(t);
            for (auto t : a.values(v->flags().front()).raw_values())
                y.emplace_back(t);
            if (x != y || a.has(*v) != !x.empty())
                out.push_back("VAL " + path + " view of " + key(*v) + " has other values");
        }
        for (auto& v : a.all_arguments())
        {
            Strings x, y;
            for (auto t : a.values(*v).raw_values())
                x.emplace_back(t);
            for (auto t : a.values(v->name()).raw_values())
                y.emplace_back(t);
            if (x != y || a.has(*v) != !x.empty())
                out.push_back("VAL " + path + " view of " + key(*v) + " has other values");
        }
        for (size_t i = 0; i < subs.size(); ++i)
        {
            const ref::Cmd* s = nullptr;
            for (auto& x : c->cmds)
                if (x.id == subs[i].command().id())
                    s = &x;
            if (!s)
                out.push_back("RES " + path + " has a foreign sub-command");
            else
                print_result(subs[i], s, path + "/" + std::to_string(i), code_paths, out);
        }
    }

    enum How { NON_CONST, CONST, ARGV, CONST_ARGV };

    struct Run
    {
        Strings events, outputs, results;
        std::string raw_output;
        bool throws = false;
    };

    /// A vector of C strings that lives as long as the parse.
    struct Argv
    {
        Strings texts;
        std::vector<char*> ptrs;

        explicit Argv(const Strings& args, const std::string& name = "prog")
        {
            texts.push_back(name);
            texts.insert(texts.end(), args.begin(), args.end());
            for (auto& t : texts)
                ptrs.push_back(t.data());
            ptrs.push_back(nullptr);
        }

        int argc() const { return int(texts.size()); }
    };

    inline argos::ParsedArguments parse_how(argos::ArgumentParser& p, const Strings& args, Argv& argv, How how)
    {
        const std::vector<std::string_view> v(args.begin(), args.end());
        switch (how)
        {
        case NON_CONST: return p.parse(v);
        case CONST: return std::as_const(p).parse(v);
        case ARGV: return p.parse(argv.argc(), argv.ptrs.data());
        default: return std::as_const(p).parse(argv.argc(), argv.ptrs.data());
        }
    }

    inline Run run(const ref::Parser& spec, const Strings& args, const ref::Cmd& finished, const std::set<std::string>& code_paths, How how)
    {
        Run r;
        Log log;
        std::ostringstream out;
        Argv argv(args);
        try
        {
            auto p = make(spec, out, log);
            const auto a = parse_how(p, args, argv, how);
            print_result(a, &finished, "r", code_paths, r.results);
        }
        catch (argos::ArgosException&)
        {
            r.throws = true;
        }
        r.events = log.events;
        r.raw_output = out.str();
        r.outputs = classify_output(r.raw_output);
        return r;
    }

    struct IterRun
    {
        Strings events, outputs, items, results, deepest;
        bool throws = false;
    };

    inline IterRun iterate(const ref::Parser& spec, const Strings& args, const ref::Cmd& finished,
                           const std::set<std::string>& code_paths, const ref::Cmd* deepest_cmd, const std::string& deepest,
                           bool as_const)
    {
        IterRun r;
        Log log;
        std::ostringstream out;
        const std::vector<std::string_view> v(args.begin(), args.end());
        try
        {
            auto p = make(spec, out, log);
            auto it = as_const ? std::as_const(p).make_iterator(v) : p.make_iterator(v);
            const auto root = it.parsed_arguments();
            std::unique_ptr<argos::IArgumentView> view;
            std::string_view value;
            while (it.next(view, value))
            {
                if (!view)
                    r.items.push_back("IT unknown " + q(value));
                else if (auto c = dynamic_cast<argos::CommandView*>(view.get()))
                    r.items.push_back("IT command " + std::to_string(c->id()) + " " + q(value));
                else
                    r.items.push_back((dynamic_cast<argos::OptionView*>(view.get()) ? "IT opt " : "IT arg ") + key(view.get()) + " " + q(value));
                if (r.items.size() > 5000)
                    break;
            }
            if (view)
                r.items.push_back("IT view after the end");
            try
            {
                if (it.next(view, value))
                    r.items.push_back("IT more after the end");
                else
                    r.items.push_back("IT done");
            }
            catch (argos::ArgosException&)
            {
                r.items.push_back("IT error");
            }
            print_result(root, &finished, "r", code_paths, r.results);
            if (deepest_cmd)
                print_result(it.parsed_arguments(), deepest_cmd, deepest, code_paths, r.deepest);
        }
        catch (argos::ArgosException&)
        {
            r.throws = true;
        }
        r.events = log.events;
        r.outputs = classify_output(out.str());
        return r;
    }
}
