// Shared parts of the native harness: deterministic random choices and text output.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <vector>

struct Rng
{
    uint64_t s;

    explicit Rng(uint64_t seed) : s(seed) {}

    uint64_t u64()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    /// 0 .. n-1
    unsigned below(unsigned n) { return n ? unsigned(u64() % n) : 0; }
    /// a .. b
    int range(int a, int b) { return a + int(below(unsigned(b - a + 1))); }
    /// true in p of 100 cases
    bool pct(unsigned p) { return below(100) < p; }

    template <typename C>
    const typename C::value_type& pick(const C& c) { return *std::next(c.begin(), below(unsigned(c.size()))); }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
    r.u64();
    return r.u64();
}

inline uint64_t hash_text(std::string_view s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}

/// Text as a C-like literal (also valid in JSON after the driver has replaced \x).
inline std::string q(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c < 32 || c >= 127)
        {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r + "\"";
}

template <typename C>
std::string ql(const C& c)
{
    std::string r = "[";
    for (const auto& s : c)
        r += (r.size() > 1 ? ", " : "") + q(s);
    return r + "]";
}

using Strings = std::vector<std::string>;

/// The result of one case: empty problem = fine.
struct Outcome
{
    std::string problem;
    std::string case_text;
    bool trivial = false;
};

/// One group of cases. run(rng) builds the case from rng and judges it.
struct Mode
{
    const char* name;
    std::function<Outcome(Rng&)> run;
};

void set_case_text(const std::string& s); // remembered in case the process dies

std::string compare_lines(const Strings& expected, const Strings& actual);
