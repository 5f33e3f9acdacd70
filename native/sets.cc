// executable contract of mesh sets: sequences of entities against vectors, and the list of sets of a mesh
#include "h.h"
#include "MSTK.h"
extern "C" {
#include "MSTK_private.h"
MSet_ptr MSets_Cat(MSet_ptr, MSet_ptr);
}
struct Set { MSet_ptr s; std::string name; int dim; Mesh_ptr m; std::vector<void *> e; bool dup() const { std::set<void *> q(e.begin(), e.end()); return q.size() != e.size(); } };
struct M1 { Mesh_ptr m; std::vector<Set *> sets; std::vector<void *> ent[4]; };
static std::vector<M1> MM; static int nname;
static int num(const std::vector<void *> &v, void *x) { for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return i; return -1; }
static void *any(M1 &q) { for (int k = 0; k < 40; k++) { int t = rnd(4); if (!q.ent[t].empty()) return q.ent[t][rnd(q.ent[t].size())]; } return q.ent[0][0]; }
static void *fit(M1 &q, int dim) { return dim <= 3 && !q.ent[dim].empty() ? q.ent[dim][rnd(q.ent[dim].size())] : any(q); }
static void lookset(M1 &q, Set &x) {
  int n = x.e.size(); char nm[256];
  CHECK(MSet_Num_Entries(x.s) == n, "set %s has %d entries, expected %d", x.name.c_str(), MSet_Num_Entries(x.s), n);
  for (int i = 0; i < n; i++) { CHECK(MSet_Entry(x.s, i) == x.e[i], "entry %d of set %s", i, x.name.c_str()); CHECK(MSet_Contains(x.s, x.e[i]), "set %s denies an entry", x.name.c_str()); CHECK(MSet_Locate(x.s, x.e[i]) == num(x.e, x.e[i]), "MSet_Locate in %s: %d, expected %d", x.name.c_str(), MSet_Locate(x.s, x.e[i]), num(x.e, x.e[i])); }
  int idx = 0, k = 0; void *p; while ((p = MSet_Next_Entry(x.s, &idx))) { CHECK(k < n && p == x.e[k], "step %d through set %s", k, x.name.c_str()); k++; }
  CHECK(k == n, "stepping through set %s ended after %d of %d", x.name.c_str(), k, n);
  for (int j = 0; j < 3; j++) { void *w = any(q); int i = num(x.e, w); CHECK(!MSet_Contains(x.s, w) == (i < 0), "MSet_Contains in %s", x.name.c_str()); CHECK(MSet_Locate(x.s, w) == i, "MSet_Locate in %s", x.name.c_str()); }
  CHECK(MSet_Mesh(x.s) == x.m && (int)MSet_EntDim(x.s) == x.dim, "set %s: mesh or kind (%d, expected %d)", x.name.c_str(), (int)MSet_EntDim(x.s), x.dim); CHECK(x.name == MSet_Name(x.s, nm) && x.name == nm, "name of set %s is %s", x.name.c_str(), nm);
}
static void look(M1 &q, bool full) {
  int n = q.sets.size(); CHECK(MESH_Num_MSets(q.m) == n, "MESH_Num_MSets %d, expected %d", MESH_Num_MSets(q.m), n);
  for (int i = 0; i < n; i++) { CHECK(MESH_MSet(q.m, i) == q.sets[i]->s, "MESH_MSet %d", i); if (full || rnd(4) == 0) lookset(q, *q.sets[i]); }
  int idx = 0, k = 0; MSet_ptr p; while ((p = MESH_Next_MSet(q.m, &idx))) { CHECK(k < n && p == q.sets[k]->s, "set %d of the iteration", k); k++; } CHECK(k == n, "iteration over sets ended after %d of %d", k, n);
  if (full) for (int i = 0; i < n; i++) { int j = 0; while (q.sets[j]->name != q.sets[i]->name) j++; CHECK(MESH_MSetByName(q.m, q.sets[i]->name.c_str()) == q.sets[j]->s, "MESH_MSetByName(%s)", q.sets[i]->name.c_str()); }
  static const char *no[] = {"", "nosuch", "s", "set", "S1", "set1", "s1 "}; for (auto s : no) { MSet_ptr w = NULL; for (Set *y : q.sets) if (!w && y->name == s) w = y->s; CHECK(MESH_MSetByName(q.m, s) == w, "MESH_MSetByName(\"%s\")", s); }
}
static Set *mk(M1 &q, int dim) {
  static const char *nm[] = {"s%d", "set%d", "a set with a long name %d", "set1%d"}; Set *x = new Set; char b[200]; snprintf(b, sizeof b, nm[rnd(4)], nname++); x->name = b; for (;;) { bool t = false; for (Set *y : q.sets) t |= y->name == x->name; if (!t) break; x->name += "_"; }
  x->dim = dim; x->m = q.m; std::string tmp = x->name; x->s = MSet_New(q.m, tmp.c_str(), (MType)dim); op("new set %s kind %d", b, dim); q.sets.push_back(x); return x;
}
static int rdim() { static const int d[] = {MVERTEX, MEDGE, MFACE, MREGION, MALLTYPE}; return d[rnd(5)]; }
// a set the code made: adopt it after checking that it is new and the last one of the mesh
static Set *adopt(M1 &q, MSet_ptr p, int dim, const char *w) {
  for (Set *y : q.sets) CHECK(y->s != p, "%s returned an existing set", w);
  CHECK(MESH_Num_MSets(q.m) == (int)q.sets.size() + 1 && MESH_MSet(q.m, q.sets.size()) == p, "the result of %s is not the last set of the mesh", w);
  Set *x = new Set; char nm[1024]; x->s = p; x->m = q.m; x->dim = dim; x->name = MSet_Name(p, nm); q.sets.push_back(x); return x;
}
static void drop(M1 &q, size_t i) { op("delete %s", q.sets[i]->name.c_str()); MSet_Delete(q.sets[i]->s); delete q.sets[i]; q.sets.erase(q.sets.begin() + i); }
static void elems(MSet_ptr s, std::vector<void *> &out) { int n = MSet_Num_Entries(s); for (int i = 0; i < n; i++) out.push_back(MSet_Entry(s, i)); }
static void same(const char *w, std::vector<void *> got, std::vector<void *> want) {
  std::set<void *> g(got.begin(), got.end()), e(want.begin(), want.end()); for (void *p : e) CHECK(g.count(p), "%s: an entity is missing (%zu of %zu)", w, got.size(), want.size());
  for (void *p : g) CHECK(e.count(p), "%s: an entity too many (%zu, expected %zu)", w, got.size(), want.size()); CHECK(got.size() == want.size(), "%s: an entity appears twice", w); }
static void algebra(M1 &q, Set &a, Set &b) {
  int r = rnd(3), dim = a.dim == b.dim ? a.dim : MALLTYPE; std::vector<void *> want, got;
  if (a.dup() || b.dup()) return; if (a.name.size() + b.name.size() > 200) return;
  static const char *w[] = {"MSets_Union", "MSets_Intersect", "MSets_Subtract"}; op("%s of %s (%zu) and %s (%zu)", w[r], a.name.c_str(), a.e.size(), b.name.c_str(), b.e.size());
  if (r == 0) { want = a.e; for (void *p : b.e) if (num(a.e, p) < 0) want.push_back(p); } else for (void *p : a.e) if ((num(b.e, p) >= 0) == (r == 1)) want.push_back(p);
  MSet_ptr p = r == 0 ? MSets_Union(a.s, b.s) : r == 1 ? MSets_Intersect(a.s, b.s) : MSets_Subtract(a.s, b.s);
  if (r && want.empty()) { CHECK(!p, "%s: an empty result is a set", w[r]); return; }
  CHECK(p != NULL, "%s: no result, expected %zu entities", w[r], want.size()); Set *x = adopt(q, p, r == 2 ? a.dim : dim, w[r]); elems(p, got); same(w[r], got, want); x->e = got;
  lookset(q, a); lookset(q, b); lookset(q, *x);
}
static void hist(int len, int nv, int bias) {
  newcase(); MM.clear(); MM.resize(rnd(3) ? 1 : 2); nname = 0;
  for (auto &q : MM) { q.m = MESH_New(F1); for (int k = 0; k < nv; k++) { int t = rnd(4); q.ent[t].push_back(t == 0 ? (void *)MV_New(q.m) : t == 1 ? (void *)ME_New(q.m) : t == 2 ? (void *)MF_New(q.m) : (void *)MR_New(q.m)); } q.ent[0].push_back(MV_New(q.m)); look(q, true); }
  for (int s = 0; s < len; s++) {
    M1 &q = MM[rnd(MM.size())]; int r = rnd(100);
    if (q.sets.empty() || (r < 5 && q.sets.size() < 25)) { mk(q, rdim()); look(q, false); continue; }
    int k = rnd(q.sets.size()); Set &x = *q.sets[k]; Set &y = *q.sets[rnd(q.sets.size())]; int n = x.e.size(); void *e = fit(q, x.dim);
    if (r < 5 + bias && n < 60) { bool add = rnd(2); if (!add || rnd(8) == 0 || num(x.e, e) < 0) { op("%s to %s", add ? "add" : "check and add", x.name.c_str()); MSet_ptr z = add ? MSet_Add(x.s, e) : MSet_ChknAdd(x.s, e); CHECK(z == x.s, "adding to a set does not return the set"); if (add || num(x.e, e) < 0) x.e.push_back(e); } }
    else if (r < 10 + bias && n && n < 60) { if (rnd(2)) { int i = rnd(n); if (num(x.e, e) >= 0) continue; op("insert in %s at %d", x.name.c_str(), i); CHECK(MSet_Inserti(x.s, e, i) == x.s, "inserting does not return the set"); x.e.insert(x.e.begin() + i, e); } else { void *b = x.e[rnd(n)]; if (num(x.e, e) >= 0) continue; op("insert in %s before %d", x.name.c_str(), num(x.e, b)); CHECK(MSet_Insert(x.s, e, b) == x.s, "inserting does not return the set"); x.e.insert(x.e.begin() + num(x.e, b), e); } }
    else if (r < 66 && n) { int i = rnd(n); void *w = x.e[i];
      switch (rnd(5)) {
        case 0: op("remove position %d of %s", i, x.name.c_str()); CHECK(MSet_Remi(x.s, i), "MSet_Remi reports failure"); x.e.erase(x.e.begin() + i); break;
        case 1: i = num(x.e, w); op("remove entry %d of %s", i, x.name.c_str()); CHECK(MSet_Rem(x.s, w), "MSet_Rem reports failure"); x.e.erase(x.e.begin() + i); break;
        case 2: if (num(x.e, e) >= 0) break; op("try to remove a non-entry of %s", x.name.c_str()); CHECK(!MSet_Rem(x.s, e), "MSet_Rem of a non-entry reports success"); break;
        case 3: if (num(x.e, e) >= 0) break; i = num(x.e, w); op("replace entry %d of %s", i, x.name.c_str()); CHECK(MSet_Replace(x.s, w, e), "MSet_Replace reports failure"); x.e[i] = e; break;
        case 4: if (num(x.e, e) >= 0) break; op("replace position %d of %s", i, x.name.c_str()); CHECK(MSet_Replacei(x.s, i, e), "MSet_Replacei reports failure"); x.e[i] = e; break;
      } }
    else if (r < 82 && q.sets.size() < 30) algebra(q, x, y);
    else if (r < 84 && MM.size() > 1) { M1 &o = MM[&q == &MM[0] ? 1 : 0]; if (!o.sets.empty()) { Set &z = *o.sets[rnd(o.sets.size())]; op("set algebra across meshes"); CHECK(!MSets_Union(x.s, z.s) && !MSets_Intersect(x.s, z.s) && !MSets_Subtract(x.s, z.s), "set algebra across meshes returned a set"); look(o, true); } }
    else if (r < 89 && q.sets.size() < 30 && x.name.size() < 200) { op("copy %s", x.name.c_str()); MSet_ptr p = MSet_Copy(x.s); CHECK(p != NULL, "MSet_Copy returned nothing"); std::string nm = x.name; int dim = x.dim; std::vector<void *> e0 = x.e; Set *z = adopt(q, p, dim, "MSet_Copy"); CHECK(z->name == nm, "name of the copy"); z->e = e0; lookset(q, *z); }
    else if (r < 93 && &x != &y && x.dim == y.dim && x.e.size() + y.e.size() < 80) { op("append %s to %s", y.name.c_str(), x.name.c_str()); CHECK(MSets_Cat(x.s, y.s) == x.s, "MSets_Cat does not return the destination"); x.e.insert(x.e.end(), y.e.begin(), y.e.end()); lookset(q, y); lookset(q, x); }
    else if (r < 98 || q.sets.size() > 20) drop(q, k);
    if (q.sets.size() && rnd(2)) lookset(q, *q.sets[std::min<size_t>(k, q.sets.size() - 1)]);
    for (auto &o : MM) look(o, rnd(8) == 0);
  }
  for (auto &q : MM) { look(q, true); if (rnd(2)) while (q.sets.size()) { drop(q, rnd(q.sets.size())); look(q, rnd(3) == 0); } for (Set *y : q.sets) delete y; MESH_Delete(q.m); }
  endcase();
}
void run() { quiet(); long r = 0; while (timeleft() || r < 300) { r++; if (r % 25 == 7) hist(300, 120, 30 + rnd(20)); else hist(5 + rnd(40), rnd(14), 20 + rnd(40)); } printf("BOUND up to 300 operations, 30 sets of up to 80 entities, 121 entities per mesh\n"); }
