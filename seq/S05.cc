// S05: replace / replace_inplace against a leftmost non-overlapping reference.
#include "ck.h"
#include "gul14/replace.h"
using gul14::string_view;

static std::string ref(const std::string& h, const std::string& n, const std::string& r)
{
    if (n.empty()) return h;
    std::string o;
    for (std::size_t i = 0; i < h.size();) {
        bool m = i + n.size() <= h.size();
        for (std::size_t k = 0; m && k < n.size(); ++k) if (h[i + k] != n[k]) m = false;
        if (m) { o += r; i += n.size(); } else o.push_back(h[i++]);
    }
    return o;
}
static void one(const std::string& h, const std::string& n, const std::string& r)
{
    ck::Exact eh(h), en(n), er(r);
    const string_view vh(eh.data(), eh.size()), vn(en.data(), en.size()), vr(er.data(), er.size());
    const std::string exp = ref(h, n, r);
    ck::state(); ck::step(2);
    const std::string a = gul14::replace(vh, vn, vr);
    CHECK(a == exp, "replace(%s, %s, %s) gave %s, expected %s", ck::show(h).c_str(), ck::show(n).c_str(), ck::show(r).c_str(), ck::show(a).c_str(), ck::show(exp).c_str());
    std::string b = h;
    std::string& ret = gul14::replace_inplace(b, vn, vr);
    CHECK(&ret == &b, "replace_inplace(%s, %s, %s) returned a reference to another string", ck::show(h).c_str(), ck::show(n).c_str(), ck::show(r).c_str());
    CHECK(b == exp, "replace_inplace(%s, %s, %s) gave %s, expected %s", ck::show(h).c_str(), ck::show(n).c_str(), ck::show(r).c_str(), ck::show(b).c_str(), ck::show(exp).c_str());
    CHECK(std::string(eh.data(), eh.size()) == h && std::string(en.data(), en.size()) == n && std::string(er.data(), er.size()) == r, "an argument of replace was modified");
    if (exp != h && exp.size() > h.size()) ck::sample("replace(%s, %s, %s) = %s", ck::show(h).c_str(), ck::show(n).c_str(), ck::show(r).c_str(), ck::show(exp).c_str());
}
static const std::string az("a\0", 2);
DOMAIN(two_letters) { ck::strings("ab", 0, ck::tier(7, 9), [](const std::string& h) { ck::strings("ab", 0, 3, [&](const std::string& n) { ck::strings("ab", 0, ck::tier(3, 4), [&](const std::string& r) { if (ck::mine()) one(h, n, r); }); }); }); }
DOMAIN(odd_bytes) { const std::string al("a\0\xff", 3); ck::strings(al, 0, ck::tier(5, 6), [&](const std::string& h) { ck::strings(al, 0, ck::tier(2, 3), [&](const std::string& n) { ck::strings(al, 0, 2, [&](const std::string& r) { if (ck::mine()) one(h, n, r); }); }); }); }
DOMAIN(self_overlap) { // longer self-overlapping needles in long haystacks
    for (const char* n : { "aaaa", "abab", "aabaa", "abcabc", "aaaab", "baaaa", "abaababa" }) ck::strings("ab", 8, ck::tier(12, 14), [&](const std::string& h) { if (ck::mine()) { one(h, n, ""); one(h, n, "x"); one(h, n, n); one(h, n, std::string(n) + n); } });
}
DOMAIN(all_bytes) { for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (ck::mine()) { std::string h("x"); h.push_back((char)a); h.push_back((char)b); h.push_back((char)a); std::string n; n.push_back((char)b); std::string r; r.push_back((char)a); one(h, n, r); one(h, r, n + n); one(h, n, ""); } }
DOMAIN(long_strings) {
    for (int len : { 14, 15, 16, 17, 31, 32, 33, 64, 100, 256, 1000 }) for (int p = 0; p < len; p += 1 + len / 40) for (int rl : { 0, 1, 2, 3, 15, 16, 17, 40, 300 }) if (ck::mine()) {
        std::string h((std::size_t)len, '.'); h[(std::size_t)p] = 'N'; h[(std::size_t)(len - 1)] = 'N'; const std::string r((std::size_t)rl, 'r'); one(h, "N", r); one(h, ".", r); one(h, ".N", r); one(h, "..", r); one(h, h, r); one(h, h + "x", r); one(h, h.substr(1), r); one(h, h.substr(0, (std::size_t)len - 1), r); }
}
// Every length of haystack, needle and replacement in turn, with replacements that contain the needle
DOMAIN(every_length) {
    for (int n = 0; n <= 1100; ++n) if (ck::mine()) {
        const std::string L((std::size_t)n, 'y'), Z((std::size_t)n, '\0');
        one("xyxy", "y", L); one("xyxy", "y", "x" + L); one("xyxy", "y", L + "x"); one("yyy", "yy", L); one(std::string("a\0b\0", 4), std::string(1, '\0'), Z); // replacement
        one(L + "z" + L, "z", "yz"); one(L + "z" + L, "zy", "z"); one(L, "y", ""); one("z" + L + "z", "z", "zz"); one(Z, std::string(1, '\0'), "00"); one(L, "y", "yy"); one(L, "yyy", "yyyy"); // haystack
        one("z" + L + "z", L, "q"); one(L + L + L, L, "q"); one(L + L + "y", L + "y", L); one(Z + "x" + Z, Z + "x", Z + "y"); one("x" + L + "w" + L + "z", L + "z", "q"); one("x" + L + "w" + L + "z", "x" + L, L); // needle
    }
}
// Lengths and numbers of occurrences beyond those
DOMAIN(huge_length) {
    for (int n : ck::huge()) if (ck::mine()) {
        const std::string L((std::size_t)n, 'y');
        one("xzxz", "z", L); one("yzyz", "z", L + "zz"); one(L + "z" + L + "z", "z", "yz"); one(L + "zy", "zy", "z"); one("z" + L + "z", "z", ""); one("z" + L + "az", L + "a", "q"); one("z" + L, L, L + "b");
    }
    for (int n : ck::huge(70000)) if (ck::mine()) { std::string s; for (int i = 0; i < n; ++i) s += i % 3 ? "ab" : "bc"; one(s, "a", ""); one(s, "b", "b"); if (n < 33000) one(s, "b", "abb"); one(s, "bb", "x"); }
}

// The same in another locale
FOREIGN(all_bytes, true);
FOREIGN(odd_bytes, true);
