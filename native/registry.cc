// the mesh's registry of entities: counts, order, IDs, lookup, deletion and restoration
#include "h.h"
#include "MSTK.h"
extern "C" {
List_ptr MESH_Vertex_List(Mesh_ptr); List_ptr MESH_Edge_List(Mesh_ptr); List_ptr MESH_Face_List(Mesh_ptr); List_ptr MESH_Region_List(Mesh_ptr);
#include "MSTK_private.h"
}
static const char *NM[4] = {"vertex", "edge", "face", "region"};
struct Ent { void *p; int id; bool pin; };
struct Reg { std::vector<Ent> live[4], dead[4]; int mx[4]; };
static Mesh_ptr m;
static int num(int t) { return t == 0 ? MESH_Num_Vertices(m) : t == 1 ? MESH_Num_Edges(m) : t == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m); }
static void *at(int t, int i) { return t == 0 ? (void *)MESH_Vertex(m, i) : t == 1 ? (void *)MESH_Edge(m, i) : t == 2 ? (void *)MESH_Face(m, i) : (void *)MESH_Region(m, i); }
static void *next(int t, int *i) { return t == 0 ? (void *)MESH_Next_Vertex(m, i) : t == 1 ? (void *)MESH_Next_Edge(m, i) : t == 2 ? (void *)MESH_Next_Face(m, i) : (void *)MESH_Next_Region(m, i); }
static void *fromid(int t, int id) { return t == 0 ? (void *)MESH_VertexFromID(m, id) : t == 1 ? (void *)MESH_EdgeFromID(m, id) : t == 2 ? (void *)MESH_FaceFromID(m, id) : (void *)MESH_RegionFromID(m, id); }
static List_ptr lst(int t) { return t == 0 ? MESH_Vertex_List(m) : t == 1 ? MESH_Edge_List(m) : t == 2 ? MESH_Face_List(m) : MESH_Region_List(m); }
static MVertex_ptr A[3]; static MEdge_ptr B[3];
static Reg *RG_;
static void note(int t, void *p, int id, bool pin) { RG_->live[t].push_back({p, id, pin}); RG_->mx[t] = std::max(RG_->mx[t], id); }
static int idof(int t, void *p);
static void *mkF() { MFace_ptr f = MF_New(m); int d[3] = {1, 1, 1}; MF_Set_Edges(f, 3, B, d); return f; }
static void *mk(int t) {
  if (t == 0) return MV_New(m);
  if (t == 1) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, A[rnd(2)]); ME_Set_Vertex(e, 1, A[2]); return e; }
  if (t == 2) return mkF();
  MFace_ptr f = (MFace_ptr)mkF(); note(2, f, idof(2, f), true); MRegion_ptr r = MR_New(m); int d = rnd(2); MR_Set_Faces(r, 1, &f, &d); return r;
}
static int idof(int t, void *p) { return t == 0 ? MV_ID((MVertex_ptr)p) : t == 1 ? ME_ID((MEdge_ptr)p) : t == 2 ? MF_ID((MFace_ptr)p) : MR_ID((MRegion_ptr)p); }
static void del(int t, void *p, int keep) { if (t == 0) MV_Delete((MVertex_ptr)p, keep); else if (t == 1) ME_Delete((MEdge_ptr)p, keep); else if (t == 2) MF_Delete((MFace_ptr)p, keep); else MR_Delete((MRegion_ptr)p, keep); }
static void restore(int t, void *p) { if (t == 0) MV_Restore((MVertex_ptr)p); else if (t == 1) ME_Restore((MEdge_ptr)p); else if (t == 2) MF_Restore((MFace_ptr)p); else MR_Restore((MRegion_ptr)p); }
static bool lidsorted;   // MESH_Enable_LocalIDSearch may have reordered the lists by ID
static void check(Reg &R, bool look) {
  for (int t = 0; t < 4; t++) {
    auto &l = R.live[t]; int n = l.size();
    CHECK(num(t) == n, "the mesh counts %d %s entities, %d exist", num(t), NM[t], n);
    int idx = 0, i = 0; void *p;
    while ((p = next(t, &idx))) { CHECK(i < n, "stepping over the %s entities does not end", NM[t]); CHECK(p == l[i].p, "stepping over the %s entities: #%d is not the expected one", NM[t], i); i++; }
    CHECK(i == n, "stepping over the %s entities ends after %d of %d", NM[t], i, n);
    for (i = 0; i < n; i++) { CHECK(at(t, i) == l[i].p, "%s number %d is not the one expected", NM[t], i); CHECK(idof(t, l[i].p) == l[i].id, "%s number %d has ID %d, expected %d", NM[t], i, idof(t, l[i].p), l[i].id); CHECK(MEnt_Dim((MEntity_ptr)l[i].p) == t, "dimension of an existing %s is %d", NM[t], (int)MEnt_Dim((MEntity_ptr)l[i].p)); }
    CHECK(at(t, n) == NULL, "a %s beyond the last one is returned", NM[t]);
    if (n) { List_ptr q = lst(t); CHECK(q && List_Num_Entries(q) == n, "the %s list has %d entries", NM[t], q ? List_Num_Entries(q) : 0); for (i = 0; i < n; i++) CHECK(List_Entry(q, i) == l[i].p, "entry %d of the %s list", i, NM[t]); }
    std::set<int> ids; for (auto &e : l) CHECK(ids.insert(e.id).second, "two %s entities have ID %d", NM[t], e.id);
    for (auto &e : R.dead[t]) CHECK(MEnt_Dim((MEntity_ptr)e.p) == MDELETED && MEnt_OrigDim((MEntity_ptr)e.p) == t && MEnt_ID((MEntity_ptr)e.p) == e.id, "a deleted and kept %s reports dimension %d, original dimension %d, ID %d", NM[t], (int)MEnt_Dim((MEntity_ptr)e.p), (int)MEnt_OrigDim((MEntity_ptr)e.p), MEnt_ID((MEntity_ptr)e.p));
    if (!look) continue;
    std::map<int, void *> by; for (auto &e : l) by[e.id] = e.p;
    for (int id = -1; id <= R.mx[t] + 2; id++) { if (R.mx[t] > 60 && rnd(R.mx[t]) > 40) continue; void *w = by.count(id) ? by[id] : NULL; void *g = fromid(t, id);
      CHECK(g == w, "%s with ID %d: %s", NM[t], id, w ? g ? "another one is returned" : "not found" : "something is returned");
      CHECK(MESH_EntityFromID(m, (MType)t, id) == (MEntity_ptr)w, "MESH_EntityFromID(%d,%d)", t, id); }
  }
}
static void one() {
  newcase();
  m = MESH_New(F1); Reg R; for (int t = 0; t < 4; t++) R.mx[t] = 0;
  int big = rnd(12) == 0, steps = big ? 200 + rnd(400) : 3 + rnd(40), renum = rnd(6) == 0; op("new mesh with a pinned triangle"); RG_ = &R;
  for (int i = 0; i < 3; i++) { A[i] = MV_New(m); note(0, A[i], i + 1, true); }
  for (int i = 0; i < 3; i++) { B[i] = ME_New(m); ME_Set_Vertex(B[i], 0, A[i]); ME_Set_Vertex(B[i], 1, A[(i + 1) % 3]); note(1, B[i], i + 1, true); }
  check(R, true);
  for (int s = 0; s < steps; s++) {
    int t = rnd(4); auto &l = R.live[t]; auto &d = R.dead[t]; int a = rnd(20);
    if (a < 8 || (big && a < 11)) { int n = big && rnd(8) == 0 ? 50 + rnd(150) : rnd(4) ? 1 : 1 + rnd(12); for (int i = 0; i < n; i++) { void *p = mk(t); int id = idof(t, p); for (auto &e : l) CHECK(e.id != id, "the new %s gets ID %d, which is in use", NM[t], id); for (auto &e : d) CHECK(e.id != id, "the new %s gets ID %d of a deleted one that can be restored", NM[t], id); CHECK(id > R.mx[t], "the new %s gets ID %d although %d was given out already", NM[t], id, R.mx[t]); R.mx[t] = std::max(R.mx[t], id); l.push_back({p, id, false}); } op("+%d %s", n, NM[t]); }
    else if (a < 14) { if (l.empty()) continue; int n = big && rnd(6) == 0 ? l.size() : rnd(4) ? 1 : 1 + rnd(6), mode = rnd(3); for (int q = 0; q < n && l.size(); q++) { int i = rnd(3) ? rnd(l.size()) : rnd(2) ? 0 : l.size() - 1, keep = n > 6 ? rnd(8) != 0 : rnd(2); if (n > 6 && mode) i = mode == 1 ? 0 : l.size() - 1; if (l[i].pin && n > 6) { for (i = 0; i < (int)l.size() && l[i].pin; i++); if (i == (int)l.size()) break; } if (l[i].pin) continue; op("delete %s ID %d%s", NM[t], l[i].id, keep ? " keep" : ""); del(t, l[i].p, keep); if (keep) d.push_back(l[i]); l.erase(l.begin() + i); } }
    else if (a < 16) { if (d.empty()) continue; int i = rnd(d.size()); op("restore %s ID %d", NM[t], d[i].id); restore(t, d[i].p); l.push_back(d[i]); d.erase(d.begin() + i); }
    else if (a < 17) { if (d.empty()) continue; int i = rnd(d.size()); op("discard deleted %s ID %d", NM[t], d[i].id); del(t, d[i].p, 0); d.erase(d.begin() + i); }
    else if (a < 18) { op("enable ID search"); MESH_Enable_LocalIDSearch(m);
      // it may put the lists in ID order, and does nothing else
      for (int k = 0; k < 4; k++) { auto &q = R.live[k]; bool same = true; for (size_t i = 0; i < q.size(); i++) same &= at(k, i) == q[i].p; if (!same) std::sort(q.begin(), q.end(), [](const Ent &x, const Ent &y) { return x.id < y.id; }); } }
    else if (a < 19 && renum) { if (l.empty()) continue; int i = rnd(l.size()), id = R.mx[t] + 1 + rnd(5); op("set ID of %s %d to %d", NM[t], l[i].id, id); if (t == 0) MV_Set_ID((MVertex_ptr)l[i].p, id); else if (t == 1) ME_Set_ID((MEdge_ptr)l[i].p, id); else if (t == 2) MF_Set_ID((MFace_ptr)l[i].p, id); else MR_Set_ID((MRegion_ptr)l[i].p, id); l[i].id = id; MESH_Reset_Cached_MaxIDs(m);
      for (int k = 0; k < 4; k++) { R.mx[k] = 0; for (auto &e : R.live[k]) R.mx[k] = std::max(R.mx[k], e.id); for (auto &e : R.dead[k]) { MEntity_ptr p = (MEntity_ptr)e.p; (void)p; } for (size_t q = 0; q < R.dead[k].size(); q++) { int t2 = k; del(t2, R.dead[k][q].p, 0); } R.dead[k].clear(); } op("max IDs recomputed, deleted ones discarded"); }
    if (!big || s % 16 == 0 || s == steps - 1) check(R, !big || s == steps - 1);
  }
  for (int t = 3; t >= 0; t--) for (auto &e : R.dead[t]) del(t, e.p, 0);
  MESH_Delete(m); endcase();
}
void run() { quiet(); while (timeleft()) one(); printf("BOUND up to 600 operations per mesh, hundreds of entities of each kind\n"); }
