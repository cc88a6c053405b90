// S04: trim family against a naive reference, including identity of the returned views.
#include "ck.h"
#include "gul14/trim.h"
#include <type_traits>
using gul14::string_view;
static const std::string ws("\x07\x08\x09\x0a\x0b\x0c\x0d\x20", 8);

static void one(const std::string& s, const std::string& d, bool def = false)
{
    auto in = [&](char c) { for (char x : d) if (x == c) return true; return false; };
    std::size_t l = 0, r = s.size();
    while (l < s.size() && in(s[l])) ++l;
    while (r > 0 && in(s[r - 1])) --r;
    const std::size_t lr = l < r ? r : l; // end of the trimmed text, l == lr if everything was removed
    ck::Exact e(s), x(d);
    const string_view v(e.data(), e.size()), dv(x.data(), x.size());
    ck::state(); ck::step(6);
    auto str = [&](const char* f, const std::string& got, const std::string& exp) { CHECK(got == exp, "%s(%s, %s) gave %s, expected %s", f, ck::show(s).c_str(), def ? "default" : ck::show(d).c_str(), ck::show(got).c_str(), ck::show(exp).c_str()); };
    auto view = [&](const char* f, string_view got, std::size_t b, std::size_t n) {
        str(f, std::string(got.data() ? got.data() : "", got.size()), s.substr(b, n));
        CHECK(got.data() >= e.data() && got.data() + got.size() <= e.data() + e.size(), "%s(%s, %s) returned a view that does not point into its argument", f, ck::show(s).c_str(), ck::show(d).c_str());
        if (n) CHECK(got.data() == e.data() + b, "%s(%s, %s) points to offset %zd instead of %zu", f, ck::show(s).c_str(), ck::show(d).c_str(), got.data() - e.data(), b);
    };
    if (def) {
        str("trim", gul14::trim(v), s.substr(l, lr - l)); str("trim_left", gul14::trim_left(v), s.substr(l)); str("trim_right", gul14::trim_right(v), s.substr(0, r));
        view("trim_sv", gul14::trim_sv(v), l, lr - l); view("trim_left_sv", gul14::trim_left_sv(v), l, s.size() - l); view("trim_right_sv", gul14::trim_right_sv(v), 0, r);
    } else {
        str("trim", gul14::trim(v, dv), s.substr(l, lr - l)); str("trim_left", gul14::trim_left(v, dv), s.substr(l)); str("trim_right", gul14::trim_right(v, dv), s.substr(0, r));
        view("trim_sv", gul14::trim_sv(v, dv), l, lr - l); view("trim_left_sv", gul14::trim_left_sv(v, dv), l, s.size() - l); view("trim_right_sv", gul14::trim_right_sv(v, dv), 0, r);
    }
    CHECK(std::string(e.data(), e.size()) == s, "input %s was modified", ck::show(s).c_str());
    if (l && r < s.size() && l < r) ck::sample("trim(%s, %s) = %s", ck::show(s).c_str(), ck::show(d).c_str(), ck::show(s.substr(l, r - l)).c_str());
}

static const std::string al("a \t\0\xff\xa0", 6);
DOMAIN(all_pairs) { ck::strings(al, 0, ck::tier(4, 5), [](const std::string& s) { ck::strings(al, 0, ck::tier(2, 3), [&](const std::string& d) { if (ck::mine()) one(s, d); }); }); }
DOMAIN(default_ws_all_bytes) {
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) { std::string s; s.push_back((char)a); s.push_back((char)b); one(s, ws, true); one(s + "x", ws, true); one("x" + s, ws, true); std::string t; t.push_back((char)b); one(s + "x" + t, ws, true); one(t, ws, true); }
}
DOMAIN(default_ws_longer) { ck::strings(std::string(" \n\vx\0", 5), 0, ck::tier(6, 9), [](const std::string& s) { if (ck::mine()) one(s, ws, true); }); }
DOMAIN(any_ws_byte) { for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) { std::string s, d; s.push_back((char)a); d.push_back((char)b); one(s, d); one(s + "p" + s, d); one(s + "p" + s, "p" + d); } }
DOMAIN(big_ws_sets) { std::string d; for (int n = 0; n <= 256; ++n) { for (int b = 0; b < 256; ++b) if (ck::mine()) { std::string s; s.push_back((char)b); one(s + "\x01" + s, d); } d.push_back((char)((n * 37 + 11) & 255)); } }
DOMAIN(long_strings) {
    for (int len : { 15, 16, 17, 23, 24, 31, 32, 33, 64, 100, 255, 256, 257, 1000 }) for (int p = 0; p <= len; p += 1 + len / 64) for (int q = 0; p + q <= len; q += 1 + len / 32) if (ck::mine()) {
        std::string s(std::string((std::size_t)p, ' ') + std::string((std::size_t)(len - p - q), 'm') + std::string((std::size_t)q, '\n')); one(s, ws, true); one(s, " \n"); one(s, " "); one(s, ""); }
}
DOMAIN(every_length) {
    for (int n = 0; n <= 1100; ++n) if (ck::mine()) {
        const std::string L((std::size_t)n, 'y'), S((std::size_t)n, ' '), Z((std::size_t)n, '\0'); std::string M; for (int i = 0; i < n; ++i) M.push_back(ws[(std::size_t)i % ws.size()]);
        for (const std::string& t : { L, S, M, " " + L + " ", S + "a" + S, S + "a", "a" + S, M + "a" + M, M + L + M, Z, " " + Z + " ", S + "a b" + S, L + " " + L, std::string("\t") + L }) { one(t, ws, true); one(t, " "); one(t, std::string(1, '\0')); one(t, "y"); }
    }
}
// Lengths beyond those
DOMAIN(huge_length) {
    for (int n : ck::huge()) if (ck::mine()) {
        const std::string L((std::size_t)n, 'y'), S((std::size_t)n, ' '); std::string M; for (int i = 0; i < n; ++i) M.push_back(ws[(std::size_t)i % ws.size()]);
        for (const std::string& t : { L, S, " " + L + " ", S + "a" + S, S + "a", "a" + S, M + "a" + M, S + L + S, L + " " + L }) { one(t, ws, true); one(t, " "); }
    }
}

// The same in another locale
FOREIGN(all_pairs, true);
FOREIGN(default_ws_all_bytes, true);
