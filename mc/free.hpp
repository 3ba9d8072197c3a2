// Free algebraic structures: an implementation that is generic over a monoid / monoid action is checked
// once over the *free* one, where any dropped, duplicated or reordered factor is visible in the result.
#pragma once
#include "mc.hpp"
namespace fr {
    using std::string;
    // free monoid
    inline string cat(string a, string b) { return a + b; }
    inline string eps() { return ""; }
    inline bool isprefix(const string& x, const string& p) { return x.size() <= p.size() && p.compare(0, x.size(), x) == 0; }
    inline bool issuffix(const string& x, const string& p) { return x.size() <= p.size() && p.compare(p.size() - x.size(), x.size(), x) == 0; }
    // free monoid with reversal
    inline string rev(string a) { std::reverse(a.begin(), a.end()); return a; }
    // free sequence of cells with a free monoid acting on every cell: "a12|b2|" is cells a (12 applied) and b (2 applied)
    struct Seq {
        string s;
        Seq(string s = "") : s(s) {}
        bool operator==(const Seq& o) const { return s == o.s; }
        bool operator!=(const Seq& o) const { return s != o.s; }
        bool operator<(const Seq& o) const { return s < o.s; }
    };
    inline std::ostream& operator<<(std::ostream& os, const Seq& q) { return os << '"' << q.s << '"'; }
    inline Seq scat(Seq a, Seq b) { return Seq(a.s + b.s); }
    inline Seq seps() { return Seq(); }
    inline Seq cell(char c) { return Seq(string(1, c) + "|"); }
    inline Seq cell(string c) { return Seq(c + "|"); }
    inline Seq smap(string f, Seq x) { string r; for (char c : x.s) { if (c == '|') r += f; r += c; } return Seq(r); }
    inline string comp(string f, string g) { return g + f; }   // f after g
    inline string fid() { return ""; }
    inline Seq srev(Seq x) {
        std::vector<string> c; string t;
        for (char ch : x.s) { t += ch; if (ch == '|') c.push_back(t), t.clear(); }
        string r; for (int i = (int)c.size() - 1; i >= 0; --i) r += c[i];
        return Seq(r);
    }
    inline int cells(const Seq& x) { return (int)std::count(x.s.begin(), x.s.end(), '|'); }
    inline char letter(int i) { static const char* L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"; i %= 164; return i < 52 ? L[i] : char(0x80 + i - 52); }
    inline char digit(int i) { return "0123456789"[i % 10]; }
    template <class It> string fold(It l, It r) { string s; for (; l != r; ++l) s += *l; return s; }
    inline Seq foldS(const std::vector<Seq>& v, int l, int r) { string s; for (int i = l; i < r; ++i) s += v[i].s; return Seq(s); }
    // linearly independent-looking 64-bit constants for group-valued structures
    inline unsigned long long K(unsigned long long i) { unsigned long long z = (i + 1) * 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
}
