From 2636abb50b1ad6bd8bbef017e03c1ffb16a58ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 01/23] fix: arguments that received their share are complete
 even if later ones get none

---
 src/Argos/ArgumentCounter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index de1616c..5bd1fc7 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -121,9 +121,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (auto i = m_index; i < m_first_optional; ++i)
+        {
+            if (m_counters[i].first != 0)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
-- 
2.43.0


From 4b5c46f3d781f2796a30a5e3c7c5a97668cfd00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 02/23] fix: make the case-insensitive ordering consistent

---
 src/Argos/StringUtilities.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/Argos/StringUtilities.cpp b/src/Argos/StringUtilities.cpp
index d992c99..f89898b 100644
--- a/src/Argos/StringUtilities.cpp
+++ b/src/Argos/StringUtilities.cpp
@@ -61,15 +61,9 @@ namespace argos
         return starts_with(str, prefix);
     }
 
-    int compare_ci(int c1, int c2)
+    int compare_ci(char c1, char c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        return int(to_lower(c1)) - int(to_lower(c2));
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
-- 
2.43.0


From 2d7d406202a550fa98486200b8d0488729ca7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 03/23] fix: const parsers have the version option too

---
 src/Argos/ArgumentParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 61ab47d..e5ca061 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -26,6 +26,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
-- 
2.43.0


From 1552d6ec5ac4278778a6fb40f510ad0f262fe6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 04/23] fix: parse(argc, argv) on a used parser throws

---
 src/Argos/ArgumentParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index e5ca061..d5b2f8a 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -123,6 +123,7 @@ namespace argos
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
+        check_data();
         if (m_data->command.name == DEFAULT_NAME
             && std::strlen(argv[0]) != 0)
         {
-- 
2.43.0


From 45d8c80be5929c787c5b7b274f1d206f3b80236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 05/23] fix: OptionIterator delivers each value once

---
 src/Argos/OptionIterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/OptionIterator.cpp b/src/Argos/OptionIterator.cpp
index 27b0d71..2866430 100644
--- a/src/Argos/OptionIterator.cpp
+++ b/src/Argos/OptionIterator.cpp
@@ -78,7 +78,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
-- 
2.43.0


From c755f3025c69b4fb7f68a0d43aa1ddc723dd5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 06/23] fix: no empty value after arguments have been inserted
 in a flag group

---
 src/Argos/StandardOptionIterator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Argos/StandardOptionIterator.cpp b/src/Argos/StandardOptionIterator.cpp
index e950414..cd1a500 100644
--- a/src/Argos/StandardOptionIterator.cpp
+++ b/src/Argos/StandardOptionIterator.cpp
@@ -125,6 +125,7 @@ namespace argos
         m_all_args.insert(m_all_args.begin() + index + 1,
                           "-" + m_args[0].substr(m_pos));
         m_all_args[index].resize(m_pos);
+        m_pos = std::string::npos;
         m_args = std::span(m_all_args.begin() + index, m_all_args.end());
     }
 }
-- 
2.43.0


From b1eab4f3d4a32fff0b0d3d2a542495fd52e6f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 07/23] fix: copy the visibility of commands

---
 src/Argos/CommandData.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 16523d0..3d150d4 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -24,6 +24,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -49,6 +50,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -67,6 +69,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -100,6 +103,7 @@ namespace argos
         name = std::move(rhs.name);
         full_name = std::move(rhs.full_name);
         texts = std::move(rhs.texts);
+        visibility = rhs.visibility;
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
-- 
2.43.0


From cd84c8168ebc1816d3da751be70f52adb6204951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 08/23] fix: the full name of nested commands is the whole path

---
 src/Argos/CommandData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 3d150d4..e134d6e 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -446,7 +446,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
-- 
2.43.0


From 9e69645fe859cee5d8b8b062e5be5ac319573fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 09/23] fix: Command::copy_from throws if the source is empty

---
 src/Argos/Command.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Argos/Command.cpp b/src/Argos/Command.cpp
index e5993f4..25cac0e 100644
--- a/src/Argos/Command.cpp
+++ b/src/Argos/Command.cpp
@@ -167,6 +167,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
+        command.check_command();
         data_->copy_from(*command.data_);
         return *this;
     }
-- 
2.43.0


From 74fef4cd173b0e4ab4af86da23def7fd4ecf01d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 10/23] fix: initial values of sub-command options are used

---
 src/Argos/ArgumentIteratorImpl.cpp | 27 +++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 1034c88..87504f4 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -51,16 +51,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        append_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -322,6 +313,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        append_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -335,6 +327,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::append_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index e81b04c..9477077 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -74,6 +74,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void append_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
-- 
2.43.0


From 1aa693ba2f03fa20b8f97e67a98f05c71b8fa1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 11/23] fix: the stop option and result of a sub-command are
 seen in the result of parse

---
 src/Argos/ArgumentIteratorImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 87504f4..4d45662 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -203,11 +203,13 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
-- 
2.43.0


From 25adb04f2e2edbde8a803d5e4f71ab3d5fc50172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 12/23] fix: mandatory options of all commands on the path are
 checked

---
 src/Argos/ArgumentIteratorImpl.cpp | 27 ++++++++++++++++++++++++---
 src/Argos/ArgumentIteratorImpl.hpp |  4 ++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 4d45662..d8e503b 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -278,6 +278,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!has_all_mandatory_options(i + 1))
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -415,7 +417,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options(0))
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -503,9 +505,15 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
+    {
+        error(message, *m_command);
+    }
+
+    void ArgumentIteratorImpl::error(const std::string& message,
+                                     const CommandData& command)
     {
         if (!message.empty())
-            write_error_message(*m_data, *m_command, message);
+            write_error_message(*m_data, command, message);
 
         if (m_data->parser_settings.auto_exit)
             exit(m_data->parser_settings.error_exit_code);
@@ -516,6 +524,19 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::has_all_mandatory_options(size_t first)
+    {
+        for (auto i = m_parsed_args.size(); i-- > first;)
+        {
+            if (!has_all_mandatory_options(*m_parsed_args[i],
+                                           *m_parsed_args[i]->command()))
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
@@ -527,7 +548,7 @@ namespace argos
                 auto flags = o->flags.front();
                 for (unsigned i = 1; i < o->flags.size(); ++i)
                     flags += ", " + o->flags[i];
-                error("Mandatory option is missing: " + flags);
+                error("Mandatory option is missing: " + flags, command);
                 return false;
             }
         }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 9477077..ff3b92d 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -94,6 +94,10 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        void error(const std::string& message, const CommandData& command);
+
+        bool has_all_mandatory_options(size_t first);
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
-- 
2.43.0


From bca6a274c39903a83533133969b8c1db69e326da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 13/23] fix: counting arguments ahead reads them the same way
 as parsing

---
 src/Argos/ArgumentIteratorImpl.cpp | 39 +++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index d8e503b..32b19d1 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -181,6 +181,18 @@ namespace argos
             break;
         }
 
+        switch (opt.type)
+        {
+        case OptionType::NORMAL:
+            break;
+        case OptionType::LAST_OPTION:
+            m_state = State::ARGUMENTS_ONLY;
+            break;
+        default:
+            m_state = State::DONE;
+            break;
+        }
+
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
@@ -202,20 +214,16 @@ namespace argos
             write_help_text(*m_data, *m_command);
             [[fallthrough]];
         case OptionType::EXIT:
-            m_state = State::DONE;
             for (const auto& pa : m_parsed_args)
                 pa->set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
-            m_state = State::DONE;
             for (const auto& pa : m_parsed_args)
                 pa->set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
-            m_state = State::DONE;
             return {OptionResult::LAST_ARGUMENT, arg};
         case OptionType::LAST_OPTION:
-            m_state = State::ARGUMENTS_ONLY;
             return {OptionResult::NORMAL, arg};
         }
         return {};
@@ -317,6 +325,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         append_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -327,7 +336,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -357,25 +365,38 @@ namespace argos
     size_t ArgumentIteratorImpl::count_arguments() const
     {
         size_t result = 0;
+        if (m_state == State::DONE)
+            return result;
+
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        while (m_state != State::ARGUMENTS_ONLY)
         {
-            const OptionData* option = m_command->find_option(
+            const auto arg = it.next();
+            if (!arg)
+                break;
+
+            const auto is_opt = is_option(*arg, m_data->parser_settings.option_style);
+            const OptionData* option = !is_opt ? nullptr : m_command->find_option(
                 *arg,
                 m_data->parser_settings.allow_abbreviated_options,
                 m_data->parser_settings.case_insensitive);
 
             if (option)
             {
-                if (!option->argument.empty())
+                if (option->constant.empty()
+                    && (option->operation == OptionOperation::ASSIGN
+                        || option->operation == OptionOperation::APPEND))
+                {
                     it.next_value();
+                }
 
                 bool arguments_only = false;
 
                 switch (option->type)
                 {
                 case OptionType::HELP:
+                case OptionType::EXIT:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
                     return result;
@@ -389,7 +410,7 @@ namespace argos
                 if (arguments_only)
                     break;
             }
-            else if (!is_option(*arg, m_data->parser_settings.option_style))
+            else if (!is_opt)
             {
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
-- 
2.43.0


From 0a778bbc7dbaab52c1343e1caa228ed6de53d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 14/23] fix: siblings are recognised when arguments are counted
 again

---
 src/Argos/ArgumentIteratorImpl.cpp | 16 +++++++++++-----
 src/Argos/ArgumentIteratorImpl.hpp |  5 ++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 32b19d1..fa8db8c 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -362,9 +362,9 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t current_count) const
     {
-        size_t result = 0;
+        size_t result = current_count;
         if (m_state == State::DONE)
             return result;
 
@@ -415,7 +415,7 @@ namespace argos
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
 
-                if (result >= min_count && find_sibling_command(*arg).first)
+                if (result >= min_count && find_command_of_parent(*arg).first)
                     return result;
 
                 ++result;
@@ -427,7 +427,7 @@ namespace argos
             if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                 return result;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
+            if (result >= min_count && find_command_of_parent(*arg).first)
                 return result;
 
             ++result;
@@ -489,6 +489,12 @@ namespace argos
         if (!m_argument_counter.is_complete())
             return {nullptr, 0};
 
+        return find_command_of_parent(name);
+    }
+
+    std::pair<const CommandData*, size_t>
+    ArgumentIteratorImpl::find_command_of_parent(std::string_view name) const
+    {
         if (auto index = find_first_multi_command_parent())
         {
             return {
@@ -520,7 +526,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
+        auto total_count = count_arguments(current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              current_count);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index ff3b92d..ee0eb82 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -78,13 +78,16 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        [[nodiscard]] size_t count_arguments(size_t current_count = 0) const;
 
         bool check_argument_and_option_counts();
 
         [[nodiscard]] std::pair<const CommandData*, size_t>
         find_sibling_command(std::string_view name) const;
 
+        [[nodiscard]] std::pair<const CommandData*, size_t>
+        find_command_of_parent(std::string_view name) const;
+
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
-- 
2.43.0


From fc7685bdc4005bc2e2b38813a4228fdcbbc9cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 15/23] fix: names that are linked in any way share one value

---
 src/Argos/CommandData.cpp | 62 ++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index e134d6e..544d9e1 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -344,34 +344,25 @@ namespace argos
                 {
                 }
 
-                std::optional<ValueId> find_value_id(std::string_view name)
-                {
-                    const auto it = explicit_ids.find(name);
-                    if (it == explicit_ids.end())
-                        return {};
-                    return it->second;
-                }
-
                 ValueId get_value_id(std::string_view name)
                 {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
+                    const auto it = explicit_ids.find(name);
+                    if (it != explicit_ids.end())
+                        return it->second;
                     id++;
                     explicit_ids.emplace(name, ValueId(id));
                     return ValueId(id);
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void connect(std::string_view name1, std::string_view name2)
                 {
-                    for (const auto& name : names)
+                    const auto id1 = get_value_id(name1);
+                    const auto id2 = get_value_id(name2);
+                    for (auto& [name, value_id] : explicit_ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (value_id == id2)
+                            value_id = id1;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
@@ -379,32 +370,29 @@ namespace argos
             InternalIdMaker id_maker(value_id_offset);
             for (const auto& a : cmd.arguments)
             {
-                a->argument_id = ArgumentId(++argument_id);
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
-                else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    id_maker.connect(a->name, a->alias);
             }
             for (const auto& o : cmd.options)
             {
-                o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                for (const auto& f : o->flags)
+                    id_maker.connect(o->flags.front(), f);
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    id_maker.connect(o->flags.front(), o->alias);
+            }
+            for (const auto& a : cmd.arguments)
+            {
+                a->argument_id = ArgumentId(++argument_id);
+                a->value_id = id_maker.get_value_id(a->name);
+            }
+            for (const auto& o : cmd.options)
+            {
+                o->argument_id = ArgumentId(++argument_id);
+                if (o->operation == OptionOperation::NONE)
+                    continue;
+                o->value_id = id_maker.get_value_id(o->flags.front());
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
-- 
2.43.0


From 521a68c9b25cbcd4d42d42b884a37d4a7afc088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 16/23] fix: a text that ends inside a character is as wide as
 its number of bytes

---
 src/Argos/StringUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/StringUtilities.cpp b/src/Argos/StringUtilities.cpp
index f89898b..23c4a46 100644
--- a/src/Argos/StringUtilities.cpp
+++ b/src/Argos/StringUtilities.cpp
@@ -156,7 +156,7 @@ namespace argos
                 return str.size();
             }
         }
-        return count;
+        return char_len == 0 ? count : str.size();
     }
 
     size_t find_nth_code_point(std::string_view str, size_t n)
-- 
2.43.0


From 36c840373240545ea454f526ed676d61821c51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 17/23] fix: write_lines accepts texts that end with a carriage
 return

---
 src/Argos/TextFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ff39e22..ba3225b 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -22,7 +22,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
-- 
2.43.0


From 0ec6859b8ff0e33bb626f688b6d399085137018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 18/23] fix: the width of a part of a word is that of the text
 that is written

---
 src/Argos/WordSplitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Argos/WordSplitter.cpp b/src/Argos/WordSplitter.cpp
index 07ae812..a48dd6f 100644
--- a/src/Argos/WordSplitter.cpp
+++ b/src/Argos/WordSplitter.cpp
@@ -66,12 +66,12 @@ namespace argos
         if (it != m_splits.end())
         {
             Split prev = {unsigned(start_index), '\0'};
-            size_t length = 0;
             for (const auto split: it->second)
             {
                 if (split.index < start_index + 1)
                     continue;
-                length += count_code_points(word.substr(prev.index, split.index - prev.index));
+                const auto length = count_code_points(
+                    word.substr(start_index, split.index - start_index));
                 if (length + (split.separator ? 1 : 0) > max_length)
                     break;
                 prev = split;
-- 
2.43.0


From 178f69123f46a81b9d8be0a624a586381716b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 19/23] fix: const parsers and iterators take the program name
 from argv too

---
 src/Argos/ArgumentParser.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index d5b2f8a..54f4ba3 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -32,6 +32,12 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        void set_default_name(ParserData& data, const char* program)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(program) != 0)
+                data.command.name = get_base_name(program);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -124,12 +130,7 @@ namespace argos
             return parse(std::vector<std::string_view>());
 
         check_data();
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        set_default_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -137,7 +138,12 @@ namespace argos
     {
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+        check_data();
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return parse_arguments(
+            std::vector<std::string_view>(argv + 1, argv + argc),
+            std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -156,6 +162,8 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+        check_data();
+        set_default_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
@@ -163,7 +171,12 @@ namespace argos
     {
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+        check_data();
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return make_argument_iterator(
+            std::vector<std::string_view>(argv + 1, argv + argc),
+            std::move(data));
     }
 
     ArgumentIterator
-- 
2.43.0


From f8cf9c4c211e48724aeea4e56e6f46a50a5417f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 20/23] fix: Command::release throws if the command has been
 moved

---
 src/Argos/Command.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Argos/Command.cpp b/src/Argos/Command.cpp
index 25cac0e..20a9bdf 100644
--- a/src/Argos/Command.cpp
+++ b/src/Argos/Command.cpp
@@ -174,6 +174,7 @@ namespace argos
 
     std::unique_ptr<CommandData> Command::release()
     {
+        check_command();
         return std::move(data_);
     }
 
-- 
2.43.0


From 361fbfd837294f43b9c26559b27d29bd93072679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 21/23] fix: the texts of cleared and replaced values stay
 valid

---
 src/Argos/ParsedArgumentsImpl.cpp | 15 +++++----------
 src/Argos/ParsedArgumentsImpl.hpp |  3 +++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/Argos/ParsedArgumentsImpl.cpp b/src/Argos/ParsedArgumentsImpl.cpp
index 15ef0ef..d5f0453 100644
--- a/src/Argos/ParsedArgumentsImpl.cpp
+++ b/src/Argos/ParsedArgumentsImpl.cpp
@@ -91,15 +91,8 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id)
     {
-        auto it = m_values.lower_bound(value_id);
-        if (it == m_values.end() || it->first != value_id)
-            return append_value(value_id, value, argument_id);
-
-        it->second = {value, argument_id};
-        auto nxt = next(it);
-        while (nxt != m_values.end() && nxt->first == value_id)
-            m_values.erase(nxt++);
-        return it->second.first;
+        clear_value(value_id);
+        return append_value(value_id, value, argument_id);
     }
 
     std::string_view
@@ -112,7 +105,9 @@ namespace argos
 
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
-        m_values.erase(value_id);
+        auto it = m_values.lower_bound(value_id);
+        while (it != m_values.end() && it->first == value_id)
+            m_removed_values.push_back(m_values.extract(it++));
     }
 
     ValueId
diff --git a/src/Argos/ParsedArgumentsImpl.hpp b/src/Argos/ParsedArgumentsImpl.hpp
index aace419..35b9567 100644
--- a/src/Argos/ParsedArgumentsImpl.hpp
+++ b/src/Argos/ParsedArgumentsImpl.hpp
@@ -77,6 +77,9 @@ namespace argos
     private:
         /// The values received from ArgumentIteratorImpl.
         std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_values;
+        /// Keeps the texts of removed values alive as they can still be
+        /// referred to by callbacks and iterator results.
+        std::vector<decltype(m_values)::node_type> m_removed_values;
         /// Index from flag, argument name or alias to ValueId and ArgumentId
         std::vector<std::tuple<std::string_view, ValueId, ArgumentId>> m_ids;
         std::vector<std::string> m_unprocessed_arguments;
-- 
2.43.0


From b10fe074c775d629e9a2bb1131a3e74a64e9adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:58 +0000
Subject: [PATCH 22/23] fix: iterators return the ignored argument, not the
 token it ended

---
 src/Argos/ArgumentIteratorImpl.cpp | 18 +++++++++++++-----
 src/Argos/ArgumentIteratorImpl.hpp |  3 ++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index fa8db8c..e5868e1 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -25,6 +25,11 @@ namespace argos
             return s[0] == (style == OptionStyle::SLASH ? '/' : '-');
         }
 
+        std::string_view get_tail(std::string_view text, size_t length)
+        {
+            return text.substr(text.size() - length);
+        }
+
         std::variant<OptionIterator, StandardOptionIterator>
         make_option_iterator(OptionStyle style,
                              std::vector<std::string_view> args)
@@ -111,7 +116,7 @@ namespace argos
         else if (auto cmd = m_command->find_command(
             *arg, m_data->parser_settings.case_insensitive))
         {
-            return process_command(cmd);
+            return process_command(cmd, *arg);
         }
         else
         {
@@ -289,7 +294,7 @@ namespace argos
             if (!has_all_mandatory_options(i + 1))
                 return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
-            return process_command(next_cmd);
+            return process_command(next_cmd, value);
         }
         if (auto argument = m_argument_counter.next_argument())
         {
@@ -313,7 +318,8 @@ namespace argos
         if (m_data->parser_settings.ignore_undefined_arguments)
         {
             parsed_args->add_unprocessed_argument(value);
-            return {IteratorResultCode::UNKNOWN, {}, m_iterator.current()};
+            return {IteratorResultCode::UNKNOWN, {},
+                    get_tail(m_iterator.current(), value.size())};
         }
 
         error("Too many arguments, starting from \"" + value + "\".");
@@ -321,7 +327,8 @@ namespace argos
     }
 
     IteratorResult
-    ArgumentIteratorImpl::process_command(const CommandData* command)
+    ArgumentIteratorImpl::process_command(const CommandData* command,
+                                          const std::string& value)
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
@@ -336,7 +343,8 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        return {IteratorResultCode::COMMAND, command, m_iterator.current()};
+        return {IteratorResultCode::COMMAND, command,
+                get_tail(m_iterator.current(), value.size())};
     }
 
     // ReSharper disable once CppMemberFunctionMayBeConst
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index ee0eb82..fa0a631 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -72,7 +72,8 @@ namespace argos
 
         IteratorResult process_argument(const std::string& value);
 
-        IteratorResult process_command(const CommandData* command);
+        IteratorResult process_command(const CommandData* command,
+                                       const std::string& value);
 
         void append_initial_values();
 
-- 
2.43.0


From 14e84da23da772488c993654c0d37e7ebb87f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 23/23] fix: the width of labels in help texts is counted in
 code points

---
 src/Argos/HelpText.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Argos/HelpText.cpp b/src/Argos/HelpText.cpp
index 56c871c..5e72b2d 100644
--- a/src/Argos/HelpText.cpp
+++ b/src/Argos/HelpText.cpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include "StringUtilities.hpp"
 
 
 namespace argos
@@ -192,8 +193,10 @@ namespace argos
             {
                 for (const auto& [name, txt] : help_texts)
                 {
-                    name_widths.push_back(static_cast<unsigned>(name.size()));
-                    text_widths.push_back(static_cast<unsigned>(txt.size()));
+                    name_widths.push_back(
+                        static_cast<unsigned>(count_code_points(name)));
+                    text_widths.push_back(
+                        static_cast<unsigned>(count_code_points(txt)));
                 }
             }
 
-- 
2.43.0

