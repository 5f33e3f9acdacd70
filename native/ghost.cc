// ghost, overlap and interior entities of a mesh: building the lists, editing the mesh, counts, indexing, stepping, lookup by global ID
#include "h.h"
#include "MSTK.h"
extern "C" {
List_ptr MESH_Vertex_List(Mesh_ptr); List_ptr MESH_Edge_List(Mesh_ptr); List_ptr MESH_Face_List(Mesh_ptr); List_ptr MESH_Region_List(Mesh_ptr);
#include "MSTK_private.h"
#include "Mesh.h"
int MESH_Num_InteriorVertices(Mesh_ptr); int MESH_Num_InteriorEdges(Mesh_ptr); int MESH_Num_InteriorFaces(Mesh_ptr); int MESH_Num_InteriorRegions(Mesh_ptr);
MVertex_ptr MESH_Next_InteriorVertex(Mesh_ptr, int *); MEdge_ptr MESH_Next_InteriorEdge(Mesh_ptr, int *); MFace_ptr MESH_Next_InteriorFace(Mesh_ptr, int *); MRegion_ptr MESH_Next_InteriorRegion(Mesh_ptr, int *);
MVertex_ptr MESH_GhostVertexFromGlobalID(Mesh_ptr, int);
int MESH_Build_GhostLists(Mesh_ptr, int); int compareGlobalID(const void *, const void *);
}
static const char *NM[4] = {"vertex", "edge", "face", "region"};
struct Ent { void *p; int id; bool pin; int pt, gid; };
struct Reg { std::vector<Ent> live[4], dead[4]; std::vector<void *> L[2][4]; int mx[4]; bool built[4]; };   // L[0] ghost, L[1] overlap
static Mesh_ptr m;
static int num(int t) { return t == 0 ? MESH_Num_Vertices(m) : t == 1 ? MESH_Num_Edges(m) : t == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m); }
static void *at(int t, int i) { return t == 0 ? (void *)MESH_Vertex(m, i) : t == 1 ? (void *)MESH_Edge(m, i) : t == 2 ? (void *)MESH_Face(m, i) : (void *)MESH_Region(m, i); }
static void *next(int t, int *i) { return t == 0 ? (void *)MESH_Next_Vertex(m, i) : t == 1 ? (void *)MESH_Next_Edge(m, i) : t == 2 ? (void *)MESH_Next_Face(m, i) : (void *)MESH_Next_Region(m, i); }
static void *fromid(int t, int id) { return t == 0 ? (void *)MESH_VertexFromID(m, id) : t == 1 ? (void *)MESH_EdgeFromID(m, id) : t == 2 ? (void *)MESH_FaceFromID(m, id) : (void *)MESH_RegionFromID(m, id); }
static List_ptr lst(int t) { return t == 0 ? MESH_Vertex_List(m) : t == 1 ? MESH_Edge_List(m) : t == 2 ? MESH_Face_List(m) : MESH_Region_List(m); }
static MVertex_ptr A[3]; static MEdge_ptr B[3];
static Reg *RG_;
static void note(int t, void *p, int id, bool pin) { RG_->live[t].push_back({p, id, pin, 0, 0}); RG_->mx[t] = std::max(RG_->mx[t], id); }
static int idof(int t, void *p);
static void *mkF() { MFace_ptr f = MF_New(m); int d[3] = {1, 1, 1}; MF_Set_Edges(f, 3, B, d); return f; }
static void *mk(int t) {
  if (t == 0) return MV_New(m);
  if (t == 1) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, A[rnd(2)]); ME_Set_Vertex(e, 1, A[2]); return e; }
  if (t == 2) return mkF();
  MFace_ptr f = (MFace_ptr)mkF(); note(2, f, idof(2, f), true); MRegion_ptr r = MR_New(m); int d = rnd(2); MR_Set_Faces(r, 1, &f, &d); return r;
}
static int idof(int t, void *p) { return t == 0 ? MV_ID((MVertex_ptr)p) : t == 1 ? ME_ID((MEdge_ptr)p) : t == 2 ? MF_ID((MFace_ptr)p) : MR_ID((MRegion_ptr)p); }
static void del(int t, void *p, int keep) { if (t == 0) MV_Delete((MVertex_ptr)p, keep); else if (t == 1) ME_Delete((MEdge_ptr)p, keep); else if (t == 2) MF_Delete((MFace_ptr)p, keep); else MR_Delete((MRegion_ptr)p, keep); }
static void restore(int t, void *p) { if (t == 0) MV_Restore((MVertex_ptr)p); else if (t == 1) ME_Restore((MEdge_ptr)p); else if (t == 2) MF_Restore((MFace_ptr)p); else MR_Restore((MRegion_ptr)p); }

static int lnum(int o, int t) { switch (o * 4 + t) { case 0: return MESH_Num_GhostVertices(m); case 1: return MESH_Num_GhostEdges(m); case 2: return MESH_Num_GhostFaces(m); case 3: return MESH_Num_GhostRegions(m);
  case 4: return MESH_Num_OverlapVertices(m); case 5: return MESH_Num_OverlapEdges(m); case 6: return MESH_Num_OverlapFaces(m); case 7: return MESH_Num_OverlapRegions(m);
  case 8: return MESH_Num_InteriorVertices(m); case 9: return MESH_Num_InteriorEdges(m); case 10: return MESH_Num_InteriorFaces(m); default: return MESH_Num_InteriorRegions(m); } }
static void *lat(int o, int t, int i) { switch (o * 4 + t) { case 0: return MESH_GhostVertex(m, i); case 1: return MESH_GhostEdge(m, i); case 2: return MESH_GhostFace(m, i); case 3: return MESH_GhostRegion(m, i);
  case 4: return MESH_OverlapVertex(m, i); case 5: return MESH_OverlapEdge(m, i); case 6: return MESH_OverlapFace(m, i); default: return MESH_OverlapRegion(m, i); } }
static void *lnext(int o, int t, int *i) { switch (o * 4 + t) { case 0: return MESH_Next_GhostVertex(m, i); case 1: return MESH_Next_GhostEdge(m, i); case 2: return MESH_Next_GhostFace(m, i); case 3: return MESH_Next_GhostRegion(m, i);
  case 4: return MESH_Next_OverlapVertex(m, i); case 5: return MESH_Next_OverlapEdge(m, i); case 6: return MESH_Next_OverlapFace(m, i); case 7: return MESH_Next_OverlapRegion(m, i);
  case 8: return MESH_Next_InteriorVertex(m, i); case 9: return MESH_Next_InteriorEdge(m, i); case 10: return MESH_Next_InteriorFace(m, i); default: return MESH_Next_InteriorRegion(m, i); } }
static List_ptr llst(int o, int t) { switch (o * 4 + t) { case 0: return MESH_GhostVertex_List(m); case 1: return MESH_GhostEdge_List(m); case 2: return MESH_GhostFace_List(m); case 3: return MESH_GhostRegion_List(m);
  case 4: return MESH_OverlapVertex_List(m); case 5: return MESH_OverlapEdge_List(m); case 6: return MESH_OverlapFace_List(m); default: return MESH_OverlapRegion_List(m); } }
static void addto(int o, int t, void *p) { switch (o * 4 + t) { case 0: MESH_Add_GhostVertex(m, (MVertex_ptr)p); break; case 1: MESH_Add_GhostEdge(m, (MEdge_ptr)p); break; case 2: MESH_Add_GhostFace(m, (MFace_ptr)p); break; case 3: MESH_Add_GhostRegion(m, (MRegion_ptr)p); break;
  case 4: MESH_Add_OverlapVertex(m, (MVertex_ptr)p); break; case 5: MESH_Add_OverlapEdge(m, (MEdge_ptr)p); break; case 6: MESH_Add_OverlapFace(m, (MFace_ptr)p); break; default: MESH_Add_OverlapRegion(m, (MRegion_ptr)p); } }
static const char *LN[3] = {"ghost", "overlap", "interior"};
static int PTO[2] = {PGHOST, POVERLAP};
static void check(Reg &R, bool look) {
  for (int t = 0; t < 4; t++) {
    auto &l = R.live[t]; int n = l.size(), idx = 0, i = 0; void *p;
    CHECK(num(t) == n, "the mesh counts %d %s entities, %d exist", num(t), NM[t], n);
    while ((p = next(t, &idx))) { CHECK(i < n && p == l[i].p, "stepping over the %s entities: #%d is not the expected one", NM[t], i); i++; }
    CHECK(i == n, "stepping over the %s entities ends after %d of %d", NM[t], i, n);
    for (int o = 0; o < 2; o++) {
      auto &w = R.L[o][t]; int k = w.size();
      CHECK(lnum(o, t) == k, "the mesh counts %d %s %s entities, there are %d", lnum(o, t), LN[o], NM[t], k);
      for (i = 0; i < k; i++) { CHECK(lat(o, t, i) == w[i], "%s %s number %d is not the one expected", LN[o], NM[t], i); CHECK(MEnt_PType((MEntity_ptr)w[i]) == PTO[o], "%s %s number %d has parallel type %d", LN[o], NM[t], i, (int)MEnt_PType((MEntity_ptr)w[i])); }
      if (llst(o, t)) CHECK(lat(o, t, k) == NULL, "a %s %s beyond the last one is returned", LN[o], NM[t]);
      idx = i = 0; while ((p = lnext(o, t, &idx))) { CHECK(i < k && p == w[i], "stepping over the %s %s entities: #%d is not the expected one", LN[o], NM[t], i); i++; }
      CHECK(i == k, "stepping over the %s %s entities ends after %d of %d", LN[o], NM[t], i, k);
      List_ptr q = llst(o, t); CHECK((q ? List_Num_Entries(q) : 0) == k, "the list of %s %s entities has %d entries, expected %d", LN[o], NM[t], q ? List_Num_Entries(q) : 0, k);
      for (i = 0; i < k; i++) CHECK(List_Entry(q, i) == w[i], "entry %d of the list of %s %s entities", i, LN[o], NM[t]);
    }
    std::vector<void *> in; for (auto &e : l) if (e.pt == PINTERIOR) in.push_back(e.p);
    CHECK(lnum(2, t) == (int)in.size(), "the mesh counts %d interior %s entities, there are %zu", lnum(2, t), NM[t], in.size());
    idx = i = 0; while ((p = lnext(2, t, &idx))) { CHECK(i < (int)in.size() && p == in[i], "stepping over the interior %s entities: #%d is not the expected one", NM[t], i); i++; }
    CHECK(i == (int)in.size(), "stepping over the interior %s entities ends after %d of %zu", NM[t], i, in.size());
    if (look) for (int id = -1; id <= R.mx[t] + 1; id++) { void *w = NULL; for (auto &e : l) if (e.id == id) w = e.p; CHECK(fromid(t, id) == w, "%s with ID %d: %s", NM[t], id, w ? "not the right one" : "something is returned"); }
  }
  MVertex_ptr v; // a ghost or overlap vertex by its global ID
  std::set<int> gs; for (int o = 0; o < 2; o++) for (void *p : R.L[o][0]) { int g = MEnt_GlobalID((MEntity_ptr)p); gs.insert(g); v = MESH_GhostVertexFromGlobalID(m, g); CHECK(v == (MVertex_ptr)p, "the ghost or overlap vertex with global ID %d is not found", g); }
  for (auto &e : R.live[0]) if (!gs.count(e.gid)) CHECK(MESH_GhostVertexFromGlobalID(m, e.gid) == NULL, "a vertex that is neither ghost nor overlap is found by global ID");
}
static int GMODE; static std::set<int> GUSED;
static int newgid() { for (;;) { int g = GMODE == 0 ? 1 + rnd(4000) : GMODE == 1 ? 1000000 + rnd(100000) : 1 + (int)GUSED.size(); if (GUSED.insert(g).second) return g; } }
static void give(int t, Ent &e, int ptmode) { e.gid = newgid(); e.pt = ptmode == 0 ? PINTERIOR : ptmode == 1 ? (rnd(3) == 0 ? PGHOST : rnd(2) ? POVERLAP : PINTERIOR) : ptmode == 2 ? (rnd(2) ? PGHOST : PINTERIOR) : (rnd(2) ? POVERLAP : PINTERIOR); MEnt_Set_GlobalID((MEntity_ptr)e.p, e.gid); MEnt_Set_PType((MEntity_ptr)e.p, (PType)e.pt); (void)t; }
static void build(Reg &R) {
  int dim = 3; bool any = false; for (auto *x : {&R.live[3], &R.dead[3]}) for (auto &e : *x) any |= e.pt != PINTERIOR; if (!any && rnd(2)) dim = 2;
  op("build lists (dimension %d)", dim); MESH_Mark_ParallelAdj_Current(m); CHECK(MESH_Build_GhostLists(m, dim) == 1, "building the lists reports failure");
  for (int t = 0; t < 4; t++) for (int o = 0; o < 2; o++) { auto &w = R.L[o][t]; w.clear(); std::map<int, void *> by; for (auto &e : R.live[t]) if (e.pt == PTO[o]) by[e.gid] = e.p; for (auto &x : by) w.push_back(x.second);
    if (!w.empty()) CHECK(!MESH_ParallelAdj_Current(m), "the parallel adjacency is still marked current after ghost lists were built"); }
}
static void globals(Reg &R) {
  op("look up by global ID"); MESH_Enable_GlobalIDSearch(m);
  for (int t = 0; t < 4; t++) { if (R.live[t].empty()) continue;
    std::map<int, void *> by; for (auto &e : R.live[t]) by[e.gid] = e.p;
    std::vector<int> q; for (auto &x : by) { q.push_back(x.first); q.push_back(x.first + 1); q.push_back(x.first - 1); } q.push_back(0); q.push_back(2000000000);
    for (int g : q) { if (g < 0) continue; void *w = by.count(g) ? by[g] : NULL; void *r = t == 0 ? (void *)MESH_VertexFromGlobalID(m, g) : t == 1 ? (void *)MESH_EdgeFromGlobalID(m, g) : t == 2 ? (void *)MESH_FaceFromGlobalID(m, g) : (void *)MESH_RegionFromGlobalID(m, g);
      CHECK(r == w, "%s with global ID %d: %s", NM[t], g, w ? r ? "another one is returned" : "not found" : "something is returned"); CHECK((void *)MESH_EntityFromGlobalID(m, (MType)t, g) == w, "MESH_EntityFromGlobalID(%d,%d)", t, g); } }
  MESH_Disable_GlobalIDSearch(m);
}
static void one() {
  newcase();
  m = MESH_New(F1); Reg R; for (int t = 0; t < 4; t++) R.mx[t] = 0; RG_ = &R;
  GMODE = rnd(3); GUSED.clear(); int steps = rnd(10) == 0 ? 100 : 3 + rnd(30), ptm = 1 + rnd(3); bool serial = rnd(10) == 0; if (serial) ptm = 0;
  for (int i = 0; i < 3; i++) { A[i] = MV_New(m); note(0, A[i], i + 1, true); }
  for (int i = 0; i < 3; i++) { B[i] = ME_New(m); ME_Set_Vertex(B[i], 0, A[i]); ME_Set_Vertex(B[i], 1, A[(i + 1) % 3]); note(1, B[i], i + 1, true); }
  for (int t = 0; t < 2; t++) for (auto &e : R.live[t]) give(t, e, 0);
  op("pinned triangle, types %d", ptm);
  int n0 = rnd(14); for (int i = 0; i < n0; i++) { int t = rnd(4); void *p = mk(t); int id = idof(t, p); R.mx[t] = std::max(R.mx[t], id); R.live[t].push_back({p, id, false, 0, 0}); }
  for (int t = 0; t < 4; t++) for (auto &e : R.live[t]) { give(t, e, ptm); op("%s %d: type %d, global ID %d", NM[t], e.id, e.pt, e.gid); }
  if (!serial || rnd(2)) build(R);
  check(R, true);
  for (int s = 0; s < steps; s++) {
    int t = rnd(4); auto &l = R.live[t]; auto &d = R.dead[t]; int a = rnd(20);
    if (a < 6) {
      size_t f0 = R.live[2].size(); void *p = mk(t); int id = idof(t, p); R.mx[t] = std::max(R.mx[t], id); l.push_back({p, id, false, 0, 0});
      for (int k = 0; k < 4; k++) for (size_t i = k == t ? l.size() - 1 : k == 2 ? f0 : R.live[k].size(); i < R.live[k].size(); i++) { Ent &e = R.live[k][i]; give(k, e, ptm); op("+%s %d: type %d, global ID %d", NM[k], e.id, e.pt, e.gid);
        for (int o = 0; o < 2; o++) if (e.pt == PTO[o]) { MESH_Mark_ParallelAdj_Current(m); addto(o, k, e.p); R.L[o][k].push_back(e.p); CHECK(!MESH_ParallelAdj_Current(m), "the parallel adjacency is still marked current after adding to the %s list", LN[o]); CHECK(idof(k, e.p) == e.id, "adding to the %s list changes the ID", LN[o]); } }
    } else if (a < 12) {
      if (l.empty()) continue; int i = rnd(3) ? rnd(l.size()) : rnd(2) ? 0 : l.size() - 1, keep = rnd(3) != 0; if (l[i].pin) continue;
      op("delete %s %d%s", NM[t], l[i].id, keep ? " keep" : ""); MESH_Mark_ParallelAdj_Current(m); void *p = l[i].p; del(t, p, keep);
      for (int o = 0; o < 2; o++) if (l[i].pt == PTO[o]) { auto &w = R.L[o][t]; w.erase(std::find(w.begin(), w.end(), p)); CHECK(!MESH_ParallelAdj_Current(m), "the parallel adjacency is still marked current after removing a %s entity", LN[o]); }
      if (keep) d.push_back(l[i]); l.erase(l.begin() + i);
    } else if (a < 16) { if (d.empty()) continue; int i = rnd(d.size()); op("restore %s %d", NM[t], d[i].id); restore(t, d[i].p); for (int o = 0; o < 2; o++) if (d[i].pt == PTO[o]) R.L[o][t].push_back(d[i].p); l.push_back(d[i]); d.erase(d.begin() + i); }
    else if (a < 17) { if (serial && rnd(2)) continue; build(R); }
    else if (a < 18) { op("enable ID search"); MESH_Enable_LocalIDSearch(m);
      for (int k = 0; k < 4; k++) { auto &q = R.live[k]; bool same = true; for (size_t i = 0; i < q.size(); i++) same &= at(k, i) == q[i].p; if (!same) std::sort(q.begin(), q.end(), [](const Ent &x, const Ent &y) { return x.id < y.id; }); } check(R, true); }
    else if (a < 19) globals(R);
    else { op("sort lists by global ID"); MESH_Sort_GhostLists(m, compareGlobalID); for (int k = 0; k < 4; k++) for (int o = 0; o < 2; o++) std::sort(R.L[o][k].begin(), R.L[o][k].end(), [](void *x, void *y) { return MEnt_GlobalID((MEntity_ptr)x) < MEnt_GlobalID((MEntity_ptr)y); }); }
    check(R, steps < 50);
  }
  check(R, true); globals(R);
  for (int t = 3; t >= 0; t--) for (auto &e : R.dead[t]) del(t, e.p, 0);
  MESH_Delete(m); endcase();
}
void run() { quiet(); while (timeleft()) one(); printf("BOUND up to 100 edits per mesh\n"); }
