// File system functions in a scratch tree, as an unprivileged user who owns nothing else.
#include "vt.h"
#include "basic.h"
#include "utils_filesystem.h"
#include <algorithm>
#include <dirent.h>
#include <ftw.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vt; using namespace ccgl; using namespace ccgl::utils_filesystem;
typedef std::vector<std::string> Texts;
static std::string root;   // the real directory that the specification calls /R
static std::string In(const std::string& s) { return s.compare(0, 2, "/R") == 0 && (s.size() == 2 || s[2] == '/') ? root + s.substr(2) : s; }
static std::string Out1(const std::string& s) { return s.compare(0, root.size(), root) == 0 && (s.size() == root.size() || s[root.size()] == '/') ? "/R" + s.substr(root.size()) : s; }
static Texts OutAll(const Texts& v) { Texts r; for (auto& x : v) r.push_back(Out1(x)); return r; }
static void Die(const char* w) { fprintf(stderr, "HARNESS-ERROR %s: %s\n", w, strerror(errno)); _exit(70); }
static std::string PathCodes(const Texts& p) { std::string r = "["; for (size_t i = 0; i < p.size(); i++) { if (i) r += ","; r += Ev::Codes(p[i]); } return r + "]"; }
static void Walk(const std::string& d, Texts& p, std::string& o) {
    DIR* h = opendir(d.c_str()); if (!h) Die("opendir");
    Texts names; while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
    closedir(h); std::sort(names.begin(), names.end());
    for (auto& n : names) {
        std::string f = d + "/" + n, c; struct stat st; if (lstat(f.c_str(), &st)) Die("lstat");
        int k = S_ISDIR(st.st_mode) ? 0 : S_ISLNK(st.st_mode) ? 2 : 1, m = k == 2 ? 7 : (st.st_mode >> 6) & 7;
        if (m == 6) m = 7; // files
        if (m == 4) m = 5;
        bool shut = k != 2 && m == 0; if (shut) chmod(f.c_str(), 0700);
        if (k == 2) { char b[4096]; ssize_t z = readlink(f.c_str(), b, sizeof b); c = Out1(std::string(b, z > 0 ? z : 0)); }
        else if (k == 1) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); c = s.str(); }
        p.push_back(n); o += std::string(o.empty() ? "" : ",") + "[" + PathCodes(p) + "," + std::to_string(k) + "," + std::to_string(m) + "," + Ev::Codes(c) + "]";
        if (k == 0) Walk(f, p, o);
        p.pop_back(); if (shut) chmod(f.c_str(), 0);
    } }
static void Tree(Ev& e) { std::string o; Texts p; Walk(root, p, o); e.raw("tree", "[" + o + "]"); }
static Texts Names(const std::string& s) { Texts r; std::string c; for (char x : s) if (x == '/') { r.push_back(c); c.clear(); } else c += x; r.push_back(c); return r; }
static int Rm(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
static int Open(const char* p, const struct stat*, int f, struct FTW*) { if (f == FTW_DNR || f == FTW_D) chmod(p, 0700); return 0; }
static void Wipe(const std::string& d) { for (int i = 0; i < 8; i++) nftw(d.c_str(), Open, 32, FTW_PHYS); nftw(d.c_str(), Rm, 32, FTW_PHYS | FTW_DEPTH); }
static void There(Ev& e, const std::string& s) { e.b("dir", DirectoryExists(s)).b("path", PathExists(s)).b("file", FileExists(s)); }
static int Run(const Texts& script, Out& out) {
    for (auto& line : script) {
        Args a(line); std::string op = a.raw(); Ev e(op);
        if (op == "reset") { Wipe(root); if (chdir(root.c_str())) Die("chdir"); } // the root itself stays: the directory above is not ours
        else if (op == "node") { std::string n = a.str(); int k = a.i(), m = a.i(); std::string c = a.str(), f = root + "/" + n;
            if (k == 0 ? mkdir(f.c_str(), 0700) : k == 2 ? symlink(In(c).c_str(), f.c_str()) : 0) Die("node");
            if (k == 1) { std::ofstream o(f.c_str(), std::ios::binary); o << c; o.close(); if (!o) Die("file"); }
            if (k != 2 && chmod(f.c_str(), k == 0 ? m * 64 : m == 7 ? 0600 : m == 5 ? 0400 : 0)) Die("chmod");
            e.raw("p", PathCodes(Names(n))).i("k", k).i("m", m).codes("c", c); }
        else if (op == "chmod") { std::string n = a.str(); int m = a.i(); if (chmod((root + "/" + n).c_str(), m * 64)) Die("chmod"); e.raw("p", PathCodes(Names(n))).i("m", m); }
        else if (op == "mkdir" || op == "clean" || op == "delete" || op == "flat" || op == "unlink") { std::string s = a.str(), r = In(s); e.codes("s", s);
            bool ok = op == "mkdir" ? MakeDirectory(r) : op == "clean" ? CleanDirectory(r) : op == "delete" ? DeleteDirectory(r) : op == "flat" ? DeleteDirectory(r, false) : DeleteExistedFile(r) == 0;
            e.b("ok", ok); There(e, r); }
        else if (op == "exist") { std::string s = a.str(); e.codes("s", s); There(e, In(s)); }
        else if (op == "all") { Texts v, w; while (a.more()) { v.push_back(a.str()); w.push_back(In(v.back())); } e.codeseq("f", v).b("ok", FilesExist(w)); }
        else if (op == "find") { std::string s = a.str(), x = a.str(); Texts v; FindFiles(In(s).c_str(), x.c_str(), v); std::sort(v.begin(), v.end()); e.codes("s", s).codes("x", x).codeseq("f", OutAll(v)); }
        else if (op == "load") { std::string s = a.str(); Texts v; bool ok = LoadPlainTextFile(In(s), v); e.codes("s", s).b("ok", ok).codeseq("f", v); }
        else if (op == "path") { std::string s = a.str(), n = a.str(), f = In(s); int num = a.i(); char d = a.str()[0];
            e.codes("s", s).codes("n", n).codes("num", std::to_string(num)).i("d", d).codes("abs", Out1(GetAbsolutePath(f))).codes("abs2", Out1(GetAbsolutePath(GetAbsolutePath(f))))
             .codes("dir", Out1(GetPathFromFullName(f))).codes("core", GetCoreFileName(f)).codes("suf", GetSuffix(f)).codes("rep", Out1(ReplaceSuffix(f, n)))
             .codes("app", Out1(AppendCoreFileName(f, n, d))).codes("appn", Out1(AppendCoreFileName(f, num, d))).codes("pre", Out1(PrefixCoreFileName(f, n, d))).codes("pren", Out1(PrefixCoreFileName(f, num, d)))
             .codes("cat", Out1(ConcatFullName(GetPathFromFullName(f), GetCoreFileName(f), GetSuffix(f)))); }
        else if (op == "concat") { std::string s = a.str(), c = a.str(), x = a.str(); e.codes("s", s).codes("core", c).codes("suf", x).codes("cat", Out1(x.empty() ? ConcatFullName(In(s), c) : ConcatFullName(In(s), c, x))); }
        else if (op == "app") { char b[4096]; ssize_t z = readlink("/proc/self/exe", b, sizeof b); std::string p(b, z > 0 ? z : 0); e.b("ok", GetAppPath() == p.substr(0, p.rfind('/') + 1)); }
        else { errno = 0; Die(("unknown op " + op).c_str()); }
        Tree(e); out.put(e);
    }
    return 0; }
int main(int argc, char** argv) {
    char b[] = "/tmp/vtfs.XXXXXX"; if (!mkdtemp(b)) Die("mkdtemp");
    std::string top = b; root = top + "/R"; if (chmod(b, 0755) || mkdir(root.c_str(), 0700) || chown(root.c_str(), 65534, 65534)) Die("scratch");
    Texts script = ReadScript(argv[1]); Out out(argv[2]);
    int code = 70; pid_t pid = fork();
    if (pid == 0) {
        if (setgroups(0, nullptr) || setgid(65534) || setuid(65534) || setuid(0) == 0) Die("cannot become an unprivileged user");
        _exit(Run(script, out));
    }
    int st = 0; waitpid(pid, &st, 0); code = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
    Wipe(top); return code; }
