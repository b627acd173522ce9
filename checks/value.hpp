// An integer that shows when it has been moved away or destroyed.
#pragma once

#include <ostream>
#include <string>

namespace mc {

struct num
{
    static constexpr int moved = -7777;
    static constexpr int dead  = -6666;

    int v = 0;

    num() = default;
    num(int x)
        : v{x}
    {}
    num(const num& o) = default;
    num(num&& o) noexcept
        : v{o.v}
    {
        o.v = moved;
    }
    num& operator=(const num& o) = default;
    num& operator=(num&& o) noexcept
    {
        if (this != &o) {
            v   = o.v;
            o.v = moved;
        }
        return *this;
    }
    ~num() { *const_cast<volatile int*>(&v) = dead; }
    operator int() const { return v; }
    num& operator+=(int x)
    {
        v += x;
        return *this;
    }
    num& operator++()
    {
        ++v;
        return *this;
    }
    friend bool operator==(const num& a, const num& b) { return a.v == b.v; }
    friend bool operator!=(const num& a, const num& b) { return a.v != b.v; }
    friend bool operator<(const num& a, const num& b) { return a.v < b.v; }
    friend std::ostream& operator<<(std::ostream& os, const num& n)
    {
        return os << n.v;
    }
};

inline std::string str(const num& n) { return std::to_string(n.v); }

} // namespace mc
