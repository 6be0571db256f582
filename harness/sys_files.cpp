// Files and directories: what the listing, creating, deleting, copying and moving functions leave behind, on an in-memory file system that stands in for the libc calls (nothing here reaches a real file).
#include "vp.h"
#include "stdafx.h"
#include "sys_path.h"
#include <string.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
using namespace basicsys;
struct node { int up, kind, to, content; bool alive; char name[8]; }; // kind: 0 a file, 1 a directory, 2 a link
static node T[32]; static int count_; static int open_, fault_, calls_;
static int add(int up, int kind, const string& name, int content = 0, int to = -1) { node& n = T[count_]; n.up = up; n.kind = kind; n.to = to; n.content = content; n.alive = true; memset(n.name, 0, 8); int i = 0; for (; i < (int)name.size() && i < 7; ++i) n.name[i] = name[i]; n.name[i] = 0; return count_++; }
static bool equal(const char* a, const string& b) { size_t n = b.size(); if (n > 7) return false; int bad = a[n] != 0; for (size_t i = 0; i < n; ++i) bad |= a[i] != b[i]; return bad == 0; }
static int child(int d, const string& name) { for (int i = 1; i < count_; ++i) if (T[i].alive && T[i].up == d && equal(T[i].name, name)) return i; return -1; }
static int follow(int n) { while (n >= 0 && T[n].kind == 2) n = T[n].to; return n; }
// the node of a path, or -1 with the directory and name it would have; a trailing separator asks for a directory. The root is node 0, which is also where relative paths start.
static int find(const char* path, bool last, int* dir, string* name) {
	int at = 0; *dir = -1; string part; size_t i = 0; if (!path[0]) return -1; for (;;) { while (path[i] == '/') ++i; if (!path[i]) return T[follow(at)].kind == 1 ? follow(at) : -1; part.clear(); while (path[i] && path[i] != '/') part += path[i++]; at = follow(at); if (at < 0 || T[at].kind != 1) { *dir = -1; return -1; } *dir = at; *name = part; if (part == ".") continue; int n = child(at, part); if (!path[i]) return n < 0 ? -1 : last ? follow(n) : n; size_t j = i; while (path[j] == '/') ++j; if (n < 0) { if (path[j]) *dir = -1; return -1; } at = n; }
}
struct stream { int dir, at; dirent e; };
extern "C" {
DIR* opendir(const char* p) { int d; string s; int n = find(p, true, &d, &s); if (n < 0 || T[n].kind != 1) return 0; stream* t = new stream(); t->dir = n; t->at = -2; ++open_; return (DIR*)t; }
dirent* readdir(DIR* q) { stream* t = (stream*)q; static int dots; if (t->at == -2) dots = vp_param("DOTS", 0); if (t->at < 0) { t->at++; memcpy(t->e.d_name, "..", 3); if (t->at < 0) t->e.d_name[1] = 0; t->e.d_type = DT_DIR; return &t->e; } for (t->at++; t->at < count_; t->at++) if (T[t->at].alive && T[t->at].up == t->dir) { memcpy(t->e.d_name, T[t->at].name, 8); t->e.d_type = T[t->at].kind == 1 ? DT_DIR : T[t->at].kind == 2 ? DT_LNK : DT_REG; return &t->e; } return 0; }
int closedir(DIR* q) { --open_; delete (stream*)q; return 0; }
int mkdir(const char* p, mode_t) { int d; string s; if (fault_ >= 0 && calls_++ == fault_) return -1; int n = find(p, false, &d, &s); if (n >= 0 || d < 0 || child(d, s) >= 0) return -1; add(d, 1, s); return 0; }
int access(const char* p, int) { int d; string s; return find(p, true, &d, &s) < 0 ? -1 : 0; }
int remove(const char* p) { int d; string s; size_t z = strlen(p); bool slash = z && p[z - 1] == '/'; int n = find(p, slash, &d, &s); if (n <= 0) return -1; if (T[n].kind == 1) for (int i = 1; i < count_; ++i) if (T[i].alive && T[i].up == n) return -1; T[n].alive = false; return 0; }
int unlink(const char* p) { int d; string s; int n = find(p, false, &d, &s); if (n <= 0 || T[n].kind == 1) return -1; return remove(p); }
int rmdir(const char* p) { int d; string s; int n = find(p, false, &d, &s); if (n <= 0 || T[n].kind != 1) return -1; return remove(p); }
int rename(const char* a, const char* b) { int d, e; string s, t; int n = find(a, false, &d, &s), m = find(b, false, &e, &t); if (n <= 0 || e < 0) return -1; if (n == m) return 0; if (m >= 0) { if ((T[m].kind == 1) != (T[n].kind == 1)) return -1; if (T[m].kind == 1) for (int i = 1; i < count_; ++i) if (T[i].alive && T[i].up == m) return -1; T[m].alive = false; } T[n].up = e; memset(T[n].name, 0, 8); int i = 0; for (; i < (int)t.size() && i < 7; ++i) T[n].name[i] = t[i]; T[n].name[i] = 0; return 0; }
// the shell: one command "cp -r [--] from to" for plain files; what a shell would expand or run is not a name
int system(const char* c) { vector<string> w; string cur; bool in = false; char q = 0; for (size_t i = 0; c[i]; ++i) { char x = c[i]; if (q) { if (x == q) q = 0; else if (q == '"' && (x == '$' || x == '`')) return 1; else if (q == '"' && x == '\\' && (c[i + 1] == '"' || c[i + 1] == '\\' || c[i + 1] == '$' || c[i + 1] == '`')) cur += c[++i]; else cur += x; } else if (x == '\'' || x == '"') { q = x; in = true; } else if (x == '\\') { if (c[i + 1]) cur += c[++i]; in = true; } else if (x == ' ' || x == '\t') { if (in) w.push_back(cur); cur.clear(); in = false; } else if (x == '$' || x == '`' || x == ';' || x == '&' || x == '|' || x == '<' || x == '>' || x == '*' || x == '?' || x == '[' || x == '(' || x == ')' || x == '#' || x == '~' || x == '\n') return 1; else { cur += x; in = true; } } if (q) return 1; if (in) w.push_back(cur);
	vector<string> a; bool names = false; if (w.size() < 3 || !(w[0] == "cp")) return 1; for (size_t i = 1; i < w.size(); ++i) { if (!names && w[i] == "--") names = true; else if (!names && w[i].size() > 1 && w[i][0] == '-') { for (size_t j = 1; j < w[i].size(); ++j) { char o = w[i][j]; if (!(o == 'r' || o == 'R' || o == 'f' || o == 'p' || o == 'n')) return 1; if (o == 'n') names = names; } } else a.push_back(w[i]); } if (a.size() != 2) return 1; int d, e; string s, t; int n = find(a[0].c_str(), true, &d, &s), m = find(a[1].c_str(), true, &e, &t); if (n <= 0 || T[n].kind != 0) return 1; if (m < 0) { if (e < 0) return 1; add(e, 0, t, T[n].content); return 0; } if (m == n || T[m].kind != 0) return 1; T[m].content = T[n].content; return 0; }
}
static node before[32]; static int before_; static void keep() { for (int i = 0; i < count_; ++i) before[i] = T[i]; before_ = count_; }
static bool unchanged(int i) { return before[i].up == T[i].up && before[i].kind == T[i].kind && before[i].content == T[i].content && before[i].alive == T[i].alive && equal(T[i].name, before[i].name); }
static string name(const char* nm, int n) { string s(n, 'x'); vp_bytes(nm, &s[0], n); for (int i = 0; i < n; ++i) vp_assume((s[i] != 0) & (s[i] != '/')); vp_assume(!(s == ".") && !(s == "..")); return s; }
static bool ends(const string& a, const string& e) { if (a.size() < e.size()) return false; int bad = 0; for (size_t i = 0; i < e.size(); ++i) bad |= a[a.size() - e.size() + i] != e[i]; return bad == 0; }
static bool same(const string& a, const string& b) { return a.size() == b.size() && ends(a, b); }
static void listing() {
	static const char* at[] = { "t/", "/t/", "t/u/" }; int w = vp_choose("at", 4); bool miss = w == 3; if (miss) w = 0; int t = add(0, 1, "t"), u = add(t, 1, "u"); add(0, 0, "tx"); int dir = w == 2 ? u : t; add(u, 1, "in"); int n = vp_choose("entries", vp_param("N", 3) + 1), first = count_; if (dir == t) first = 2; int last = 0; for (int i = 0; i < n; ++i) last = add(dir, vp_choose("kind", 3), name("name", 1 + vp_choose("length", vp_param("LEN", 2))), 0, t); (void)last; for (int i = first; i < count_; ++i) for (int j = i + 1; j < count_; ++j) if (T[i].up == dir && T[j].up == dir) vp_assume(!equal(T[i].name, T[j].name)); string suf = vp_choose("suffix", 2) ? name("end", vp_choose("end_length", 2) + 1) : ""; keep(); vector<string> f, p, d; if (n == 1 || miss) { f.push_back("old"); p.push_back("old"); d.push_back("old"); }
	string path = miss ? "t/none/" : at[w]; int op = vp_choose("list", 3); if (op == 0) sys_path::get_file_name(f, path, suf); else if (op == 1) sys_path::get_file_path(p, path, suf); else sys_path::get_dir_path(d, path); vector<string>& g = op == 0 ? f : op == 1 ? p : d; size_t k = 0;
	if (!miss) for (int i = 1; i < before_; ++i) if (T[i].up == dir && (op == 2) == (T[i].kind == 1)) { string nm = T[i].name; if (op < 2 && !ends(nm, suf)) continue; vp_assert(k < g.size() && same(g[k], op == 0 ? nm : op == 1 ? path + nm : path + nm + "/"), "a directory lists every matching entry, in order"); ++k; } vp_assert(g.size() == k, "a directory lists nothing else"); for (int i = 0; i < before_; ++i) vp_assert(unchanged(i) && count_ == before_, "listing changes nothing"); vp_assert(open_ == 0, "directories are closed");
}
static void creating() {
	int d = vp_choose("parts", 4), have = vp_choose("have", d + 1), slash = vp_choose("slash", 2), abs = vp_choose("absolute", 2), dbl = vp_choose("double", 2), block = have < d ? vp_choose("blocked", 2) : 0; string path = abs ? "/" : "", parts[3]; add(0, 1, "x"); add(0, 0, "f"); int at = 0; for (int i = 0; i < d; ++i) { parts[i] = name("part", 1 + vp_choose("length", 2)); if (i == 0) vp_assume(!(parts[0] == "x") && !(parts[0] == "f")); if (i < have) at = add(at, 1, parts[i]); else if (i == have && block) add(at, 0, parts[i]); if (i) path += dbl ? "//" : "/"; path += parts[i]; } if (d && slash) path += "/"; if (!d && slash) path = "x/"; fault_ = block ? -1 : vp_choose("fault", d - have + 1); bool fails = fault_ < d - have && fault_ >= 0; if (!fails) fault_ = -1; if (block && have == d - 1 && !slash) vp_end(); keep();
	bool ok = sys_path::create_multi_dir(path); vp_assert(ok == !(fails || block), "creating tells whether the directory is there"); at = 0; int made = 0; for (int i = 0; i < d; ++i) { int c = at < 0 ? -1 : child(at, parts[i]); bool there = i < have || (!block && (fault_ < 0 || i - have < fault_)); vp_assert((c >= 0 && T[c].kind == 1) == there, "every directory of the path is created"); made += i >= have && there; at = there ? c : -1; } vp_assert(count_ == before_ + made, "nothing else is created"); for (int i = 0; i < before_; ++i) vp_assert(unchanged(i), "creating changes nothing that was there"); if (ok && d) vp_assert(sys_path::is_exist(path), "the directory exists");
}
static void longer() { string p = name("part", 1), q = name("end", 1); int n = vp_choose("more", 2) ? 1030 : 254; bool ok = sys_path::create_multi_dir(p + string(n, '/') + q); int c = child(0, p), d = c < 0 ? -1 : child(c, q); vp_assert(ok && d >= 0 && count_ == 3, "a long path is created"); }
static void deleting() {
	int o = add(0, 1, "o"), of = add(o, 0, "f"), od = add(o, 1, "d"), os = add(0, 0, "ts"); (void)of; (void)od; (void)os; int t = add(0, 1, "t"); int lev[3] = { t, -1, -1 }; int n = vp_choose("entries", vp_param("N", 4) + 1); string nm[6]; for (int i = 0; i < n; ++i) { int up = lev[0]; int depth = vp_choose("depth", 3); if (depth > 0 && lev[1] < 0) vp_end(); if (depth == 2 && lev[2] < 0) vp_end(); up = lev[depth]; int kind = vp_choose("kind", 3); nm[i] = i == 0 ? name("name", 1) : string(1, (char)('a' + i)) + (i & 1 ? " '" : ".f"); if (i == 0) for (int j = 1; j < 6; ++j) vp_assume(nm[0][0] != 'a' + j); int c = add(up, kind, nm[i], i, vp_choose("to", kind == 2 ? 2 : 1) ? of : o); if (kind == 1) { if (depth < 2) { lev[depth + 1] = c; if (depth == 0) lev[2] = -1; } } } keep();
	int op = vp_choose("delete", 4); string path = vp_choose("absolute", 2) ? "/t/" : "t/"; if (op == 0) sys_path::delete_dir(path, true); else if (op == 1) sys_path::delete_dir(path, false); else if (op == 2) sys_path::delete_sub_dir(path); else if (n) { sys_path::delete_file(path + nm[0]); }
	for (int i = 1; i < before_; ++i) { bool in = i > t, gone; if (op == 0) gone = i >= t; else if (op == 1) gone = n == 0 && i == t; else if (op == 2) gone = in; else { bool kids = false; for (int j = t + 1; j < before_; ++j) kids |= T[j].up == t + 1; gone = i == t + 1 && !(T[i].kind == 1); if (i == t + 1 && T[i].kind == 1) continue; } if (gone) vp_assert(!T[i].alive, "everything below a deleted directory is deleted"); else vp_assert(unchanged(i), "nothing else is deleted"); } vp_assert(count_ == before_ && open_ == 0, "directories are closed");
}
static void moving() {
	int t = add(0, 1, "t"), u = add(0, 1, "u e"); string a = name("from", 1 + vp_choose("length", 2)), b = name("to", 1 + vp_choose("length", 2)); bool has = vp_choose("source", 2) != 0, over = vp_choose("target", 2) != 0, sub = vp_choose("into", 2) != 0; if (!sub) vp_assume(!(a == b)); int s = has ? add(t, 0, a, 7) : -1, e = over ? add(sub ? u : t, 0, b, 9) : -1; add(t, 1, "longer"); keep(); string from = "t/" + a, to = (sub ? "u e/" : "t/") + b; bool fail = vp_choose("fail", 2) != 0, mv = vp_choose("move", 2) != 0, ok = mv ? sys_path::move_file(to, from, fail) : sys_path::copy_file(to, from, fail); bool want = has && !(fail && over); vp_assert(ok == want, mv ? "moving tells whether the file was moved" : "copying tells whether the file was copied");
	int g = child(sub ? u : t, b), h = child(t, a); if (want) { vp_assert(g >= 0 && T[g].kind == 0 && T[g].content == 7, "the target holds what the source held"); vp_assert(mv ? h < 0 : h == s && unchanged(s), mv ? "a moved file leaves its place" : "a copied file stays"); } else { vp_assert(g == e && h == s, "a failed copy or move changes nothing"); for (int i = 0; i < before_; ++i) vp_assert(unchanged(i), "a failed copy or move changes nothing"); } for (int i = 0; i < before_; ++i) if (i != s && i != e) vp_assert(unchanged(i), "no other file is touched"); vp_assert(count_ == before_ + (want && !mv && !over), "no other file appears"); vp_assert(sys_path::is_exist(from) == (has && !(want && mv)) && sys_path::is_exist(to) == (over || want) && !sys_path::is_exist("t/none") && sys_path::is_exist("u e/"), "a path exists if a file or directory is there");
}
extern "C" void vp_main() { count_ = 0; open_ = 0; calls_ = 0; fault_ = -1; T[0].up = -1; T[0].kind = 1; T[0].alive = true; T[0].name[0] = 0; count_ = 1; switch (vp_param("MODE", 0)) { case 0: listing(); break; case 1: creating(); break; case 2: deleting(); break; case 4: longer(); break; default: moving(); break; } vp_reach("files"); vp_end(); }
