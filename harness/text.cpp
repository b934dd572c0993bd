// Text form. print/str run on a modelled stream (hj_stream comes from the executor); print_n/str_n are the native replay: they
// compare with the text built from the stream's own formatting of the doubles. ii: sizes or name masks at 0..4; precision at 5,
// format flags at 6, width at 7. in: a at 0.
#include <ios>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
#ifdef HJ_SPARSE
#include "ss.h"
#else
#include "hj.h"
#endif
#ifdef NATIVE
static std::ostringstream native_stream;
static std::ostream &hj_stream() { return native_stream; }
#else
extern "C" std::ostream &hj_stream();
#endif
#define A T a = ld(in, ii[0]);
#ifdef HJ_SPARSE
#define PA put(a, out + STRIDE, oo + 1000, ii[4]);
#else
#define PA put(a, out + STRIDE, oo + 1000);
#endif
#ifndef NATIVE
ENTRY(print)
{
    A
    { const T &c = a; std::ostream &o = hj_stream(); std::ostream &r = o << c; oo[2000] = &r == &o; }
    PA
}
ENTRY(str)
{
    A
    { const std::string s = a.to_string(); oo[0] = (L)s.size(); for (L k = 0; k < (L)s.size() && k < 900; k++) oo[1 + k] = s[k]; }
    PA
}
#else
#include <cstring>
static std::string num(double v, std::ios_base::fmtflags fl, L prec, L width)
{
    std::ostringstream o;
    o.flags(fl);
    o.precision(prec);
    o.width(width);
    o << v;
    return o.str();
}
#ifdef HJ_SPARSE
static bool rest(const std::string &t, size_t at, std::vector<std::string> &terms)
{
    if (terms.empty())
        return at == t.size();
    for (size_t k = 0; k < terms.size(); k++)
        if (t.compare(at, terms[k].size(), terms[k]) == 0)
        {
            std::vector<std::string> left = terms;
            left.erase(left.begin() + k);
            if (rest(t, at + terms[k].size(), left))
                return true;
        }
    return false;
}
#endif
static bool right(const double *in, const L *ii, const std::string &t, std::ios_base::fmtflags fl, L prec, L width)
{
#ifdef HJ_SPARSE
    const std::string v = num(in[0], fl, prec, width);
    if (t.compare(0, v.size(), v) != 0)
        return false;
    std::vector<std::string> terms;
    for (L k = 0; k < NN; k++)
        if (ii[0] >> k & 1)
            terms.push_back((in[1 + k] < 0 ? " " : " +") + num(in[1 + k], fl, prec, 0) + "*d" + NAMES[k]);
    return rest(t, v.size(), terms);
#else
    return t == num(in[0], fl, prec, width) + "hj";
#endif
}
static void show(const std::string &s, L *oo)
{
    oo[3001] = (L)s.size();
    for (L k = 0; k < (L)s.size() && k < 900; k++)
        oo[3002 + k] = s[k];
}
ENTRY(print_n)
{
    A
    std::ostringstream o;
    const std::ios_base::fmtflags fl = (std::ios_base::fmtflags)ii[6];
    o.flags(fl);
    o.precision(ii[5]);
    o.width(ii[7]);
    { const T &c = a; std::ostream &r = o << c; oo[2000] = &r == &o; }
    oo[3000] = right(in, ii, o.str(), fl, ii[5], ii[7]) && o.flags() == fl && o.precision() == ii[5] && o.width() == 0 && o.good();
    show(o.str(), oo);
    PA
}
ENTRY(str_n)
{
    A
    std::ostringstream o;
    const std::string s = a.to_string();
    oo[3000] = right(in, ii, s, o.flags(), 6, 0);
    show(s, oo);
    PA
}
#endif
