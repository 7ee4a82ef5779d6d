// C20: epoch_to_utc against the calendar rules.
#include "text.hpp"
#include <climits>
#include <ctime>
#include "date.h"
using namespace mc;
typedef long long ll;

static bool leap(ll y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static ll fdiv(ll a, ll b) { ll q = a / b; return q * b > a ? q - 1 : q; }
// days from 1970-01-01 to January 1st of year y
static ll jan1(ll y) { ll p = y - 1; return 365 * (y - 1970) + (fdiv(p, 4) - 492) - (fdiv(p, 100) - 19) + (fdiv(p, 400) - 4); }
struct Day { ll n, y; int m, d; };      // a running calendar
static int mlen(const Day &a) { static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return a.m == 1 && leap(a.y) ? 29 : L[a.m]; }
static void next(Day &a)
{
    a.n++;
    if (++a.d > mlen(a)) { a.d = 1; if (++a.m == 12) { a.m = 0; a.y++; } }
}
static Day find(ll n)
{
    ll y = 1970 + fdiv(n, 365) - fdiv(n, 146097);
    while (jan1(y) > n) y -= (jan1(y) - n) / 366 + 1;
    while (jan1(y + 1) <= n) y += std::max(1ll, (n - jan1(y + 1)) / 366);
    Day a = {jan1(y), y, 0, 1};
    while (a.n < n) next(a);
    return a;
}
static void check(const Day &a, int sec)
{
    if (a.y - 1900 < INT_MIN || a.y - 1900 > INT_MAX) return;
    __int128 e = (__int128)a.n * 86400 + sec;
    if (e < LLONG_MIN || e > LLONG_MAX) return;
    struct tm t;
    memset(&t, 0x77, sizeof t);
    struct tm *r = epoch_to_utc((time_t)e, &t);
    step();
    MC_CHECK(r == &t, "epoch_to_utc(%lld) does not return its argument", (ll)e);
    int wday = (int)(((a.n + 4) % 7 + 7) % 7);
    MC_CHECK(t.tm_year == a.y - 1900 && t.tm_mon == a.m && t.tm_mday == a.d && t.tm_hour == sec / 3600 && t.tm_min == sec / 60 % 60 && t.tm_sec == sec % 60,
             "epoch_to_utc(%lld) gives %lld-%02d-%02d %02d:%02d:%02d instead of %lld-%02d-%02d %02d:%02d:%02d", (ll)e,
             t.tm_year + 1900ll, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, a.y, a.m + 1, a.d, sec / 3600, sec / 60 % 60, sec % 60);
    MC_CHECK(t.tm_wday == wday, "epoch_to_utc(%lld) gives the weekday %d instead of %d (%lld-%02d-%02d)", (ll)e, t.tm_wday, wday, a.y, a.m + 1, a.d);
    MC_CHECK(t.tm_isdst == 0, "epoch_to_utc(%lld) sets the daylight saving flag to %d", (ll)e, t.tm_isdst);
}
static const int SECS[] = {0, 1, 59, 60, 3599, 3600, 43199, 43200, 86340, 86399};

void mc::suites(std::vector<Suite> &out)
{
    int c = thorough ? 500 : 60;
    out.push_back(numbered("every-day", "every day of " + std::to_string(2 * c) + " 400-year cycles around 1970, at 10 times of the day", 2 * c * 20, [c](uint64_t i) {
        ll first = 146097ll * ((ll)i / 20 - c) + 146097 / 20 * (i % 20);
        ll last = i % 20 == 19 ? 146097ll * ((ll)i / 20 - c + 1) : first + 146097 / 20;
        for (Day a = find(first); a.n < last; next(a)) for (int s : SECS) check(a, s);
    }));
    out.push_back(numbered("every-second", "every second of 64 days (around 1970, leap days, century ends, negative times)", 64, [](uint64_t i) {
        static const ll years[] = {1970, 1972, 1900, 2000, 2100, 1600, 0, -1, -400, 10000, 1, 4, 1969, 1968, 2038, 1901};
        ll j = jan1(years[i / 4]);
        ll n = i % 4 == 0 ? j : i % 4 == 1 ? j - 1 : i % 4 == 2 ? j + 58 : j + 59;
        Day a = find(n);
        for (int s = 0; s < 86400; s++) check(a, s);
    }));
    out.push_back(numbered("limits", "every day of the 5 years at each end of the representable years", 4, [](uint64_t i) {
        ll y = i < 2 ? (ll)INT_MIN + 1900 : (ll)INT_MAX + 1900 - 2;
        ll from = jan1(y + (i & 1 ? 2 : 0)), to = jan1(y + (i & 1 ? 5 : 3));
        for (Day a = find(from); a.n < to; next(a)) for (int s : SECS) check(a, s);
    }));
    out.push_back(numbered("powers", "every day of 2 years around every power of two of seconds, days, years and 400-year cycles, both signs, and every second within 100000 of the seconds", 4 * 64 * 2, [](uint64_t i) {
        int k = i / 8;
        ll sign = i & 1 ? -1 : 1, n;
        switch (i / 2 % 4) {
            case 0: n = sign * ((1ll << std::min(k, 62)) / 86400); break;
            case 1: if (k > 50) return; n = sign * (1ll << k); break;
            case 2: if (k > 31) return; n = jan1(1970 + sign * (1ll << k)); break;
            default: if (k > 23) return; n = 146097 * sign * (1ll << k); break;
        }
        ll lim = jan1((ll)INT_MAX + 1901), low = jan1((ll)INT_MIN + 1900);
        if (n - 366 < low || n + 366 > lim) return;
        for (Day a = find(n - 366); a.n < n + 366; next(a)) for (int s : SECS) check(a, s);
        if (i / 2 % 4 == 0) {
            ll c = sign * (1ll << k);
            for (ll e = c - 100000; e <= c + 100000;) {
                Day a = find(fdiv(e, 86400));
                for (; fdiv(e, 86400) == a.n && e <= c + 100000; e++) check(a, (int)(e - a.n * 86400));
            }
        }
    }));
    out.push_back(numbered("cycle-starts", "the 3 days around every century and every 4-year boundary of March 1st of 4000 (thorough 40000) cycles", thorough ? 40000 : 4000, [](uint64_t i) {
        ll cyc = (ll)i - (thorough ? 20000 : 2000);
        for (int y4 = 0; y4 < 400; y4 += 4) {
            Day a = find(jan1(2000 + cyc * 400 + y4) + 58);
            for (int k = 0; k < 3; k++, next(a)) { check(a, 0); check(a, 86399); }
        }
    }));
}
