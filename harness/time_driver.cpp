#include "vt.h"
#include "utils_time.h"
#include <ctime>
using namespace ccgl;
using namespace ccgl::utils_time;
using namespace vt;
static std::string Pair(time_t t) {
    long long d = t / 86400, s = t % 86400;
    if (s < 0) { s += 86400; d -= 1; }
    if (d > 100000000LL) d = 100000000LL;
    if (d < -100000000LL) d = -100000000LL;
    return "[" + std::to_string(d) + "," + std::to_string(s) + "]";
}
static void LogDt(Ev& e, const DateTime& v) {
    unsigned long long ms = v.filetime;
    e.raw("t", Pair(static_cast<time_t>(ms / 1000))).i("ms", static_cast<long long>(ms % 1000));
    std::vector<int> f = {v.year, v.month, v.day, v.hour, v.minute, v.second, v.day_of_week, v.day_of_year};
    e.seq("f", f);
    if (v.milliseconds != static_cast<int>(ms % 1000) || v.total_milliseconds != v.filetime) e.b("incoherent", true), e.s.replace(e.s.find("\"ms\":"), 5, "\"msX\":");
}
int main(int argc, char** argv) {
    std::vector<std::string> script = ReadScript(argv[1]);
    Out out(argv[2]);
    DateTime reg[2];
    for (auto& line : script) {
        Args a(line);
        std::string op = a.raw();
        Ev e(op);
        if (op == "reset") {
            std::string tz = a.str(); setenv("TZ", tz.c_str(), 1); tzset();
            e.i("off", a.i()); e.i("rule", a.i());
            reg[0] = DateTime(); reg[1] = DateTime();
        } else if (op == "leap") {
            int y = a.i(); e.i("y", y).b("r", IsLeapYear(y));
        } else if (op == "jdmonth") {
            int y = a.i(), m = a.i(), n = a.i();
            std::vector<int> jd, doy;
            for (int d = 1; d <= n; d++) { jd.push_back(JulianDay(y, m, d)); doy.push_back(DayOfYear(y, m, d)); }
            e.i("y", y).i("m", m).seq("jd", jd).seq("doy", doy);
        } else if (op == "conv") {
            long long days = a.ll(), secs = a.ll(); bool utc = a.b();
            time_t t = static_cast<time_t>(days * 86400 + secs);
            e.i("days", days).i("secs", secs).b("utc", utc);
            std::string s2 = ConvertToString2(t, utc);
            e.codes("s1", ConvertToString(t, utc)).codes("s2", s2).codes("s3", ConvertToString3(t, utc));
            int y = -1, m = -1, d = -1;
            GetDateInfoFromTimet(t, &y, &m, &d, utc);
            e.seq("info", std::vector<int>{y, m, d});
            e.raw("back", Pair(ConvertToTime(s2, "%4d-%2d-%2d %2d:%2d:%2d", true, utc)));
        } else if (op == "cal") {
            long long days = a.ll(), secs = a.ll(); bool utc = a.b();
            time_t t = static_cast<time_t>(days * 86400 + secs);
            e.i("days", days).i("secs", secs).b("utc", utc);
            e.seq("get", std::vector<int>{GetYear(t, utc), GetMonth(t, utc), GetDay(t, utc), DayOfYear(t, utc), JulianDay(t, utc)});
            struct tm tmv; memset(&tmv, 0, sizeof tmv);
            GetDateTime(t, &tmv, utc);
            e.seq("tm", std::vector<int>{tmv.tm_year + 1900, tmv.tm_mon + 1, tmv.tm_mday, tmv.tm_hour, tmv.tm_min, tmv.tm_sec, tmv.tm_wday, tmv.tm_yday + 1});
        } else if (op == "parse") {
            int fmt = a.i(); bool utc = a.b(); std::string text = a.str();
            std::vector<int> f; for (int k = 0; k < 6; k++) f.push_back(a.i());
            const char* F[] = {"%4d%2d%2d", "%d-%d-%d", "%d-%d-%d %d:%d:%d", "%4d-%2d-%2d %2d:%2d:%2d", "%d-%d-%d"};
            e.i("fmt", fmt).b("utc", utc).codes("text", text).seq("f", f);
            e.raw("r", Pair(ConvertToTime(text, F[fmt], fmt == 2 || fmt == 3, utc)));
        } else if (op == "badparse") {
            bool hour = a.b(), utc = a.b(); std::string text = a.str();
            e.codes("text", text).raw("r", Pair(ConvertToTime(text, hour ? "%d-%d-%d %d:%d:%d" : "%d-%d-%d", hour, utc)));
        } else if (op == "ymd") {
            int y = a.i(), m = a.i(), d = a.i(); bool utc = a.b();
            e.i("y", y).i("m", m).i("d", d).b("utc", utc).raw("r", Pair(ConvertYMDToTime(y, m, d, utc)));
        } else if (op == "dt_from") {
            int r = a.i(); std::vector<int> f; for (int k = 0; k < 7; k++) f.push_back(a.i());
            reg[r] = DateTime::FromDateTime(f[0], f[1], f[2], f[3], f[4], f[5], f[6]);
            e.i("reg", r).seq("a", f); LogDt(e, reg[r]);
        } else if (op == "dt_file") {
            int r = a.i(); long long days = a.ll(), secs = a.ll(), ms = a.ll();
            reg[r] = DateTime::FromFileTime(static_cast<vuint64_t>((days * 86400 + secs) * 1000 + ms));
            e.i("reg", r).i("days", days).i("secs", secs).i("mil", ms); LogDt(e, reg[r]);
        } else if (op == "dt_move") {
            int r = a.i(); bool fwd = a.b(); int n = a.i();
            reg[r] = fwd ? reg[r].Forward(n) : reg[r].Backward(n);
            e.i("reg", r).b("fwd", fwd).i("n", n); LogDt(e, reg[r]);
        } else if (op == "dt_utc") {
            int r = a.i();
            DateTime u = reg[r].ToUTCTime();
            DateTime k = u.ToLocalTime();
            e.i("reg", r);
            e.seq("f", std::vector<int>{u.year, u.month, u.day, u.hour, u.minute, u.second, u.day_of_week, u.day_of_year}).i("ms", u.milliseconds);
            e.seq("g", std::vector<int>{k.year, k.month, k.day, k.hour, k.minute, k.second, k.day_of_week, k.day_of_year});
        } else if (op == "dt_cmp") {
            std::string r = "[";
            bool v[] = {reg[0] == reg[1], reg[0] != reg[1], reg[0] < reg[1], reg[0] <= reg[1], reg[0] > reg[1], reg[0] >= reg[1]};
            for (int k = 0; k < 6; k++) r += std::string(k ? "," : "") + (v[k] ? "true" : "false");
            e.raw("r", r + "]");
        } else { fprintf(stderr, "HARNESS-ERROR unknown op %s\n", op.c_str()); return 70; }
        out.put(e);
    }
    return 0;
}
