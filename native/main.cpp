// harness MODE [--seed S] [--seconds T] [--cases N] [--shards K] [--only SHARD:INDEX]
// Runs generated cases of one mode and reports the first failing one of each shard.
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include "common.hpp"

std::vector<Mode>& modes()
{
    static std::vector<Mode> m;
    return m;
}

void parse_modes(std::vector<Mode>&);
void value_modes(std::vector<Mode>&);
void text_modes(std::vector<Mode>&);
void definition_modes(std::vector<Mode>&);

namespace
{
    struct Shared
    {
        uint64_t index;
        char text[1 << 16];
    };

    Shared* shared_now = nullptr;
    long only_index = -1;
}

void set_case_text(const std::string& s)
{
    if (!shared_now)
        return;
    const auto n = std::min(s.size(), sizeof(shared_now->text) - 1);
    memcpy(shared_now->text, s.data(), n);
    shared_now->text[n] = 0;
}

std::string compare_lines(const Strings& expected, const Strings& actual)
{
    for (size_t i = 0; i < std::max(expected.size(), actual.size()); ++i)
    {
        const auto e = i < expected.size() ? expected[i] : std::string("(nothing)");
        const auto a = i < actual.size() ? actual[i] : std::string("(nothing)");
        if (e != a)
            return "expected: " + e + "\n  actual:   " + a;
    }
    return "";
}

namespace
{
    struct ShardResult
    {
        uint64_t cases, trivial, failed_index;
        bool failed;
        char problem[1 << 14];
        char samples[1 << 14];
    };

    void arm(int seconds)
    {
        itimerval t{};
        t.it_value.tv_sec = seconds;
        setitimer(ITIMER_PROF, &t, nullptr);
    }

    void put(char* dst, size_t n, const std::string& s)
    {
        const auto k = std::min(s.size(), n - 1);
        memcpy(dst, s.data(), k);
        dst[k] = 0;
    }

    void shard(const Mode& m, uint64_t seed, unsigned id, unsigned shards, double seconds, uint64_t cases,
               ShardResult* out, const std::string& hash_file)
    {
        std::unordered_set<uint64_t> seen;
        std::string samples;
        const auto start = std::chrono::steady_clock::now();
        for (uint64_t i = id; only_index < 0 ? true : i == uint64_t(only_index); i += shards)
        {
            if (only_index < 0)
            {
                if (cases && i >= cases)
                    break;
                if ((out->cases & 15) == 0
                    && std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > seconds)
                    break;
            }
            Rng r(mix(mix(seed, hash_text(m.name)), i));
            shared_now->index = i;
            shared_now->text[0] = 0;
            arm(20);
            const auto o = m.run(r);
            ++out->cases;
            if (o.trivial)
                ++out->trivial;
            else if (seen.size() < 2000000)
                seen.insert(hash_text(o.case_text.empty() ? std::string(shared_now->text) : o.case_text));
            if (!o.problem.empty())
            {
                out->failed = true;
                out->failed_index = i;
                put(out->problem, sizeof out->problem, o.problem + "\n" + (o.case_text.empty() ? shared_now->text : o.case_text));
                break;
            }
            if (!o.trivial && samples.size() < 3000 && (out->cases % 97 == 3))
                samples += "SAMPLE " + q((o.case_text.empty() ? std::string(shared_now->text) : o.case_text).substr(0, 700)) + "\n";
        }
        arm(0);
        put(out->samples, sizeof out->samples, samples);
        std::ofstream f(hash_file, std::ios::binary);
        for (auto h : seen)
            f.write(reinterpret_cast<const char*>(&h), sizeof h);
    }
}

int main(int argc, char** argv)
{
    parse_modes(modes());
    value_modes(modes());
    text_modes(modes());
    definition_modes(modes());
    std::string mode = argc > 1 ? argv[1] : "", dir = "/tmp";
    uint64_t seed = 1, cases = 0;
    double seconds = 5;
    unsigned shards = 8;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        const std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed")
            seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--seconds")
            seconds = atof(v.c_str());
        else if (a == "--cases")
            cases = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--shards")
            shards = unsigned(atoi(v.c_str()));
        else if (a == "--only")
        {
            only_index = atol(v.c_str());
            shards = 1;
        }
        else if (a == "--dir")
            dir = v;
    }
    if (mode == "list")
    {
        for (auto& m : modes())
            printf("%s\n", m.name);
        return 0;
    }
    const Mode* m = nullptr;
    for (auto& x : modes())
        if (mode == x.name)
            m = &x;
    if (!m)
    {
        printf("UNKNOWN MODE %s\n", mode.c_str());
        return 2;
    }
    auto map = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    auto* res = static_cast<ShardResult*>(map(sizeof(ShardResult) * shards));
    auto* now = static_cast<Shared*>(map(sizeof(Shared) * shards));
    std::vector<pid_t> pids;
    for (unsigned i = 0; i < shards; ++i)
    {
        fflush(stdout);
        const pid_t pid = fork();
        if (pid == 0)
        {
            shared_now = &now[i];
            const rlimit no_core{0, 0};
            setrlimit(RLIMIT_CORE, &no_core);
            shard(*m, seed, only_index >= 0 ? unsigned(only_index) : i, shards, seconds, cases, &res[i], dir + "/hashes." + std::to_string(i));
            fflush(stdout);
            _exit(0);
        }
        pids.push_back(pid);
    }
    uint64_t total = 0, trivial = 0;
    std::unordered_set<uint64_t> seen;
    int failed = 0;
    for (unsigned i = 0; i < shards; ++i)
    {
        int st = 0;
        waitpid(pids[i], &st, 0);
        total += res[i].cases;
        trivial += res[i].trivial;
        if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0)
        {
            ++failed;
            std::string why = WIFSIGNALED(st) ? WTERMSIG(st) == SIGPROF ? "does not terminate (20 s of processor time)"
                                                                         : "died of signal " + std::to_string(WTERMSIG(st))
                                              : "the process ended with code " + std::to_string(WEXITSTATUS(st))
                                                    + " (sanitizer report, uncaught exception or exit)";
            printf("FAIL %s %llu %llu\n%s\n%s\nENDFAIL\n", m->name, (unsigned long long)seed, (unsigned long long)now[i].index,
                   why.c_str(), now[i].text);
        }
        else if (res[i].failed)
        {
            ++failed;
            printf("FAIL %s %llu %llu\n%s\nENDFAIL\n", m->name, (unsigned long long)seed, (unsigned long long)res[i].failed_index,
                   res[i].problem);
        }
        printf("%s", res[i].samples);
        std::ifstream f(dir + "/hashes." + std::to_string(i), std::ios::binary);
        uint64_t h;
        while (f.read(reinterpret_cast<char*>(&h), sizeof h))
            seen.insert(h);
        unlink((dir + "/hashes." + std::to_string(i)).c_str());
    }
    printf("EVALUATIONS %llu\nTRIVIAL %llu\nDISTINCT %zu\n", (unsigned long long)total, (unsigned long long)trivial, seen.size());
    return failed ? 1 : 0;
}
