//BOUND paths up to 6 (8 thorough) characters over {a, b, '.', '/', space}; directories with up to 3 entries of symbolic kind; any outcome (created, exists, failure) of each directory creation
#include "hs.h"
#include <cerrno>
#include <dirent.h>
#include <sys/stat.h>
#include <fnmatch.h>
// stand-ins for the system calls (recorded, nothing touches the real file system)
static str made[8]; static int nmade, fail_at = -1, fail_errno; static unsigned exists_mask;
static dirent ent; static const char* ename[4]; static bool edir[4], ebad[4], ematch[4]; static int nent, pent, opens, closes; static bool open_fails, bad_dir; static str dir_;
static i64 mt[2], ct[2]; static bool st_fail[2];
extern "C" {
int mkdir(const char* p, mode_t) noexcept { int k = nmade++; if (k < 8) made[k] = p; if (k == fail_at) { errno = fail_errno; return -1; } if (exists_mask >> k & 1) { errno = EEXIST; return -1; } return 0; }
DIR* opendir(const char* p) { if (open_fails) return nullptr; if (str(p) != dir_) bad_dir = true; ++opens; pent = 0; return (DIR*)std::malloc(16); }
int closedir(DIR* d) { ++closes; std::free(d); return 0; }
dirent* readdir(DIR*) { if (pent == nent) return nullptr; std::strcpy(ent.d_name, ename[pent++]); return &ent; }
int fnmatch(const char*, const char* n, int) { for (int i = 0; i < nent; ++i) if (str(n) == ename[i]) return ematch[i] ? 0 : FNM_NOMATCH; return FNM_NOMATCH; }
int stat(const char* p, struct stat* s) noexcept {
    if (str(p) == "f0" || str(p) == "f1") { int k = p[1] - '0'; if (st_fail[k]) return -1; std::memset(s, 0, sizeof *s); s->st_mtime = mt[k]; s->st_ctime = ct[k]; return 0; }
    for (int i = 0; i < nent; ++i) if (str(p) == dir_ + "/" + ename[i]) { if (ebad[i]) return -1; std::memset(s, 0, sizeof *s); s->st_mode = edir[i] ? S_IFDIR : S_IFREG; s->st_size = 7 + i; return 0; }
    bad_dir = true; return -1;
}
}
#include <vif/io/filesystem.hpp>
static str squeeze(const str& s) { str r; for (u64 i = 0; i < s.size(); ++i) if (!(s[i] == '/' && i > 0 && s[i - 1] == '/')) r.push_back(s[i]); return r; }
//RUN quick h_names 0..6
//RUN thorough h_names 0..8
ENTRY h_names(u64 n) {
    str p = astr(n, "a./");
    // POSIX basename/dirname
    u64 e = n; while (e > 0 && p[e - 1] == '/') --e;         // without trailing slashes
    u64 b = e; while (b > 0 && p[b - 1] != '/') --b;         // start of the last component
    str base = e == 0 ? (n == 0 ? str() : str("/")) : cat(p, b, e);
    u64 d = b; while (d > 0 && p[d - 1] == '/') --d;
    str dir = e == 0 && n > 0 ? str("/") : b == 0 ? str("./") : d == 0 ? str("/") : cat(p, 0, d) + "/";
    CHECKM(eq(file::get_basename(p), base), "get_basename");
    str g = file::get_directory(p);
    CHECKM(!g.empty() && g.back() == '/', "get_directory ends with a slash");
    CHECKM(eq(squeeze(g), squeeze(dir)), "get_directory");
    REACH("names");
}
//RUN quick h_ext 0..5
//RUN thorough h_ext 0..8
ENTRY h_ext(u64 n) {
    str p = sstr(n);
    u64 k = n; for (u64 i = 0; i < n; ++i) if (p[i] == '.') k = i;
    CHECKM(eq(file::get_extension(p), cat(p, k, n)), "get_extension");
    CHECKM(eq(file::remove_extension(p), cat(p, 0, k)), "remove_extension");
    auto s = file::split_extension(p);
    CHECKM(eq(s.first, cat(p, 0, k)) && eq(s.second, cat(p, k, n)), "split_extension");
    REACH("ext");
}
//RUN quick h_dirz 0..5
//RUN thorough h_dirz 0..7
ENTRY h_dirz(u64 n) {
    str p = astr(n, "a /");
    u64 a = 0, b = n; while (a < n && p[a] == ' ') ++a; while (b > a && p[b - 1] == ' ') --b;
    str t = cat(p, a, b), e = t; if (!t.empty() && t[t.size() - 1] != '/') e.push_back('/');
    CHECKM(eq(file::directorize(p), e), "directorize");
    CHECKM(file::is_absolute_path(p) == (!t.empty() && t[0] == '/'), "is_absolute_path");
    REACH("dirz");
}
// mkdir -p: creates the missing parents in order; fails at the first directory that cannot be created
//RUN quick h_mkdir 0..5
//RUN thorough h_mkdir 0..7
static const char* mkalpha = "a/";
ENTRY h_mkdir(u64 n) {
    str p = astr(n, mkalpha);
    exists_mask = (unsigned)vf_conc(vf_sym(4, "exists"));
    fail_at = (int)pick(-1, 3, "fail"); fail_errno = EACCES;
    str exp[8]; int ne = 0; u64 i = 0; str cur = n > 0 && p[0] == '/' ? "/" : "";
    while (i < n) {
        while (i < n && p[i] == '/') ++i;
        if (i == n) break;
        if (ne > 0) cur.push_back('/');
        while (i < n && p[i] != '/') cur.push_back(p[i++]);
        exp[ne++] = cur;
    }
    bool ok = fail_at < 0 || fail_at >= ne;
    bool r = file::mkdir(p);
    CHECKM(r == ok, "mkdir: true exactly when every directory exists or was created");
    CHECKM(nmade == (ok ? ne : fail_at + 1), "mkdir: creates each parent once and stops at a failure");
    for (int k = 0; k < nmade && k < ne; ++k) CHECKM(eq(made[k], exp[k]), "mkdir: parents from the outermost to the innermost");
    REACH("mkdir");
}
//RUN quick h_mkdir_sp 1..3
//RUN thorough h_mkdir_sp 1..5
ENTRY h_mkdir_sp(u64 n) { mkalpha = "a/ "; h_mkdir(n); }
static const char* names[6] = {"a", "bc", ".", "..", ".h", "d"};
//RUN quick h_list 0..2
//RUN thorough h_list 0..3
ENTRY h_list(u64 n) {
    nent = (int)n; dir_ = "dir"; open_fails = vf_conc(sym_bool("fails"));
    for (u64 i = 0; i < n; ++i) { ename[i] = names[pick(0, 5, "name")]; for (u64 k = 0; k < i; ++k) ASSUME(str(ename[i]) != ename[k]);
        edir[i] = vf_conc(sym_bool("dir")); ebad[i] = vf_conc(sym_bool("bad")); ematch[i] = vf_conc(sym_bool("match")); }
    int pat = (int)pick(0, 2, "pattern"); // all, "*", other
    vec1s f, d;
    str ps = pat == 0 ? "" : pat == 1 ? "*" : "x?";
    f = pat == 1 ? file::list_files("dir") : file::list_files("dir", ps); d = file::list_directories("dir", ps);
    vec1s ef, ed;
    if (!open_fails) for (u64 i = 0; i < n; ++i) {
        if (pat == 2 && !ematch[i]) continue;
        str nm = ename[i]; bool isd = edir[i] && !ebad[i];
        if (nm == ".h") continue;
        if (isd && nm != "." && nm != "..") ed.push_back(nm);
        if (!isd && nm != "..") ef.push_back(nm);
    }
    CHECKM(d.size() == ed.size(), "list_directories: visible subdirectories that match");
    for (u64 i = 0; i < ed.size() && i < d.size(); ++i) CHECKM(eq(d.data[i], ed.data[i]), "list_directories");
    bool dots = false; for (u64 i = 0; i < n; ++i) if (str(ename[i]) == "." && !(edir[i] && !ebad[i])) dots = true; // cannot happen in a real directory
    if (!dots) {
        CHECKM(f.size() == ef.size(), "list_files: visible files that match");
        for (u64 i = 0; i < ef.size() && i < f.size(); ++i) CHECKM(eq(f.data[i], ef.data[i]), "list_files");
    }
    CHECKM(opens == closes && !bad_dir, "directories are closed once");
    REACH("list");
}
// explorer: any sequence of open/close/find_next leaves no directory open and never closes one twice
//RUN both h_explorer 0..3
ENTRY h_explorer(u64 n) {
    nent = 1; ename[0] = "a"; dir_ = "dir"; int cur = -1; // -1 closed, else entries read
    {
        file::explorer e;
        for (u64 i = 0; i < n; ++i) {
            int op = (int)pick(0, 3, "op");
            if (op == 0) { open_fails = false; CHECKM(e.open("dir"), "open"); cur = 0; }
            else if (op == 1) { open_fails = true; CHECKM(!e.open("dir"), "open fails"); cur = -1; }
            else if (op == 2) { e.close(); cur = -1; }
            else { file::explorer::file_data f; bool r = e.find_next(f); CHECKM(r == (cur == 0), "find_next"); if (r) { CHECKM(f.name == "a" && f.full_path == "dir/a" && f.size == 7 && !f.is_dir && !f.is_hidden, "find_next: entry"); cur = 1; } }
            CHECKM(opens - closes == (cur >= 0), "explorer: at most one open directory");
        }
    }
    CHECKM(opens == closes, "explorer: closes what it opened, once");
    REACH("explorer");
}
//RUN both h_older
ENTRY h_older() {
    for (int i = 0; i < 2; ++i) { mt[i] = sym_in(-(1ll << 40), 1ll << 40, "m"); ct[i] = sym_in(-(1ll << 40), 1ll << 40, "c"); st_fail[i] = vf_conc(sym_bool("fail")); ASSUME(ct[i] >= mt[i]); }
    bool r = file::is_older("f0", "f1");
    CHECKM(r == (!st_fail[0] && !st_fail[1] && mt[0] < mt[1]), "is_older: both exist and the first was last modified before the second");
    REACH("older");
}
