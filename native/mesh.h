// combinatorial model of a full-representation mesh, random builders and the adjacency oracle
#ifndef VMESH_H
#define VMESH_H
#include "h.h"
#include "MSTK.h"
extern "C" {
#include "MSTK_private.h"
}
typedef std::pair<int, int> Use;           // (index, direction)
struct MV_ { MVertex_ptr p; bool live; double x[3]; };
struct ME_ { MEdge_ptr p; bool live; int v[2]; };
struct MF_ { MFace_ptr p; bool live; std::vector<Use> e; int r[2]; };   // r[side] = region on that side or -1
struct MR_ { MRegion_ptr p; bool live; std::vector<Use> f; int type; std::vector<int> v; };
struct Model {
  Mesh_ptr m;
  std::vector<MV_> V; std::vector<ME_> E; std::vector<MF_> F; std::vector<MR_> R;
  std::map<void *, int> ix;
  int addV(double x = 0, double y = 0, double z = 0) { MV_ a; a.p = MV_New(m); a.live = true; a.x[0] = x; a.x[1] = y; a.x[2] = z; MV_Set_Coords(a.p, a.x); V.push_back(a); ix[a.p] = V.size() - 1; return V.size() - 1; }
  int addE(int v0, int v1, bool rev = false) { ME_ a; a.p = ME_New(m); a.live = true; a.v[0] = v0; a.v[1] = v1; if (rev) { ME_Set_Vertex(a.p, 1, V[v1].p); ME_Set_Vertex(a.p, 0, V[v0].p); } else { ME_Set_Vertex(a.p, 0, V[v0].p); ME_Set_Vertex(a.p, 1, V[v1].p); } E.push_back(a); ix[a.p] = E.size() - 1; return E.size() - 1; }
  int findE(int a, int b) { for (size_t i = 0; i < E.size(); i++) if (E[i].live && ((E[i].v[0] == a && E[i].v[1] == b) || (E[i].v[0] == b && E[i].v[1] == a))) return i; return -1; }
  int fv(int f, int i) const { const Use &u = F[f].e[i]; return E[u.first].v[u.second ? 0 : 1]; }   // i-th vertex, along the face
  std::vector<int> fverts(int f) const { std::vector<int> r; for (size_t i = 0; i < F[f].e.size(); i++) r.push_back(fv(f, i)); return r; }
  void setFE(int f) { std::vector<MEdge_ptr> es; std::vector<int> ds; for (auto &u : F[f].e) { es.push_back(E[u.first].p); ds.push_back(u.second); } MF_Set_Edges(F[f].p, es.size(), es.data(), ds.data()); }
  // face from a vertex cycle; byverts: let the code find or make the edges itself
  int addF(const std::vector<int> &vs, bool byverts) {
    MF_ a; a.p = MF_New(m); a.live = true; a.r[0] = a.r[1] = -1; int n = vs.size(); F.push_back(a); int f = F.size() - 1; ix[a.p] = f;
    if (!byverts) {
      for (int i = 0; i < n; i++) { int p = vs[i], q = vs[(i + 1) % n], e = findE(p, q); if (e < 0) e = rnd(2) ? addE(p, q, rnd(2)) : addE(q, p, rnd(2)); F[f].e.push_back(Use(e, E[e].v[0] == p)); }
      setFE(f);
    } else {
      for (int i = 0; i < n; i++) { int p = vs[i], q = vs[(i + 1) % n], e = findE(p, q); if (e < 0) { ME_ b; b.p = NULL; b.live = true; b.v[0] = p; b.v[1] = q; E.push_back(b); e = E.size() - 1; } F[f].e.push_back(Use(e, E[e].v[0] == p)); }
      std::vector<MVertex_ptr> vp; for (int v : vs) vp.push_back(V[v].p);
      MF_Set_Vertices(a.p, n, vp.data()); adoptE(f);
    }
    return f;
  }
  // the code made the edges of face f: learn their addresses (existing ones must have been reused)
  void adoptE(int f) {
    List_ptr l = MF_Edges(F[f].p, 1, 0); CHECK(l && List_Num_Entries(l) == (int)F[f].e.size(), "MF_Set_Vertices made %d edges, expected %zu", l ? List_Num_Entries(l) : 0, F[f].e.size());
    for (size_t i = 0; i < F[f].e.size(); i++) { int e = F[f].e[i].first; MEdge_ptr p = (MEdge_ptr)List_Entry(l, i);
      if (!E[e].p) { CHECK(!ix.count(p), "MF_Set_Vertices used an edge that already joins other vertices"); E[e].p = p; ix[p] = e; }
      else CHECK(E[e].p == p, "MF_Set_Vertices did not reuse the existing edge between two vertices"); }
    List_Delete(l);
  }
  int findF(const std::vector<int> &vs) { std::set<int> s(vs.begin(), vs.end()); for (size_t i = 0; i < F.size(); i++) if (F[i].live && F[i].e.size() == vs.size()) { auto w = fverts(i); if (std::set<int>(w.begin(), w.end()) == s) return i; } return -1; }
  // direction in which face f uses the cycle vs: 1 if the face runs along it
  int along(int f, const std::vector<int> &vs) { auto w = fverts(f); int n = w.size(); for (int i = 0; i < n; i++) if (w[i] == vs[0]) return w[(i + 1) % n] == vs[1]; return 1; }
  int addR(const std::vector<Use> &fs, int type = 5) { MR_ a; a.p = MR_New(m); a.live = true; a.type = type; R.push_back(a); int r = R.size() - 1; ix[a.p] = r; R[r].f = fs; setRF(r); return r; }
  void setRF(int r) { std::vector<MFace_ptr> fp; std::vector<int> ds; for (auto &u : R[r].f) { fp.push_back(F[u.first].p); ds.push_back(u.second); F[u.first].r[u.second ? 0 : 1] = r; } MR_Set_Faces(R[r].p, fp.size(), fp.data(), ds.data()); }
  int nlive(int t) const { int n = 0; if (t == 0) for (auto &a : V) n += a.live; if (t == 1) for (auto &a : E) n += a.live; if (t == 2) for (auto &a : F) n += a.live; if (t == 3) for (auto &a : R) n += a.live; return n; }
};
#define NF_(t) (t == 1 ? 4 : t == 2 || t == 3 ? 5 : 6)
#define NVT_(t) (t == 1 ? 4 : t == 2 ? 5 : t == 3 ? 6 : 8)
// outward vertex cycles of the standard elements (vertex numbering of the mesh library's documentation)
static const int TV_[5] = {0, 4, 5, 6, 8};
static std::vector<std::vector<int>> stdfaces(int type, const std::vector<int> &v) {
  std::vector<std::vector<int>> o; auto q = [&](int a, int b, int c, int d) { o.push_back(d >= 0 ? std::vector<int>{v[a], v[b], v[c], v[d]} : std::vector<int>{v[a], v[b], v[c]}); };
  switch (type) {
  case 1: q(0, 2, 1, -1); q(0, 1, 3, -1); q(1, 2, 3, -1); q(2, 0, 3, -1); break;
  case 2: q(0, 3, 2, 1); q(0, 1, 4, -1); q(1, 2, 4, -1); q(2, 3, 4, -1); q(3, 0, 4, -1); break;
  case 3: q(0, 2, 1, -1); q(0, 1, 4, 3); q(1, 2, 5, 4); q(2, 0, 3, 5); q(3, 4, 5, -1); break;
  case 4: q(0, 3, 2, 1); q(0, 1, 5, 4); q(1, 2, 6, 5); q(2, 3, 7, 6); q(3, 0, 4, 7); q(4, 5, 6, 7); break;
  }
  return o;
}
// region of a standard type from its vertices, through faces (random face numbering, orientation and start vertex)
static int regByFaces(Model &M, int type, const std::vector<int> &v, bool shuffle = true) {
  std::vector<Use> fs;
  for (auto &cyc : stdfaces(type, v)) {
    int f = M.findF(cyc);
    if (f < 0) { std::vector<int> c = cyc; if (rnd(2)) std::reverse(c.begin(), c.end()); std::rotate(c.begin(), c.begin() + rnd(c.size()), c.end()); f = M.addF(c, rnd(3) == 0); }
    fs.push_back(Use(f, M.along(f, cyc)));
  }
  if (shuffle) for (size_t i = fs.size(); i > 1; i--) std::swap(fs[i - 1], fs[rnd(i)]);
  int r = M.addR(fs, type); M.R[r].v = v; return r;
}
// region of a standard type through MR_Set_Vertices; then learn what was made
static void learnF(Model &M, MFace_ptr p) {
  if (M.ix.count(p)) return;
  MF_ a; a.p = p; a.live = true; a.r[0] = a.r[1] = -1;
  List_ptr l = MF_Edges(p, 1, 0); int n = List_Num_Entries(l);
  for (int i = 0; i < n; i++) { MEdge_ptr e = (MEdge_ptr)List_Entry(l, i);
    if (!M.ix.count(e)) { ME_ b; b.p = e; b.live = true; CHECK(M.ix.count(ME_Vertex(e, 0)) && M.ix.count(ME_Vertex(e, 1)), "new edge joins unknown vertices"); b.v[0] = M.ix[ME_Vertex(e, 0)]; b.v[1] = M.ix[ME_Vertex(e, 1)]; CHECK(M.findE(b.v[0], b.v[1]) < 0, "a second edge was made between two vertices"); M.E.push_back(b); M.ix[e] = M.E.size() - 1; }
    a.e.push_back(Use(M.ix[e], MF_EdgeDir_i(p, i))); }
  List_Delete(l); M.F.push_back(a); M.ix[p] = M.F.size() - 1;
}
static int regByVerts(Model &M, int type, const std::vector<int> &v) {
  MR_ a; a.p = MR_New(M.m); a.live = true; a.type = type; a.v = v; std::vector<MVertex_ptr> vp; for (int i : v) vp.push_back(M.V[i].p);
  MR_Set_Vertices(a.p, v.size(), vp.data(), 0, NULL); M.R.push_back(a); int r = M.R.size() - 1; M.ix[a.p] = r;
  List_ptr l = MR_Faces(a.p); int n = l ? List_Num_Entries(l) : 0; CHECK(n == NF_(type), "MR_Set_Vertices on %zu vertices made %d faces", v.size(), n);
  auto want = stdfaces(type, v); std::set<int> seen;
  for (int i = 0; i < n; i++) { MFace_ptr fp = (MFace_ptr)List_Entry(l, i); bool isnew = !M.ix.count(fp); learnF(M, fp); int f = M.ix[fp];
    auto w = M.fverts(f); int hit = -1; for (size_t k = 0; k < want.size(); k++) { std::set<int> p(want[k].begin(), want[k].end()), q(w.begin(), w.end()); if (p == q && w.size() == want[k].size()) hit = k; }
    CHECK(hit >= 0, "MR_Set_Vertices made a face that is not a face of the element"); CHECK(seen.insert(hit).second, "MR_Set_Vertices made the same face twice");
    if (isnew) { for (size_t k = 0; k < w.size(); k++) { int q = w[(k + 1) % w.size()]; bool adj = false; auto &c = want[hit]; for (size_t z = 0; z < c.size(); z++) adj |= (c[z] == w[k] && c[(z + 1) % c.size()] == q) || (c[z] == q && c[(z + 1) % c.size()] == w[k]); CHECK(adj, "MR_Set_Vertices made a face with a wrong boundary"); }
      for (size_t g = 0; g + 1 < M.F.size(); g++) if (M.F[g].live && (int)g != f) { auto x = M.fverts(g); CHECK(std::set<int>(x.begin(), x.end()) != std::set<int>(w.begin(), w.end()), "MR_Set_Vertices made a second face on the same vertices"); } }
    int d = M.along(f, want[hit]); int got = MR_FaceDir(a.p, fp); CHECK(got == d, "MR_Set_Vertices: face direction %d, the face points %s", got, d ? "outward" : "inward");
    M.R[r].f.push_back(Use(f, d)); M.F[f].r[d ? 0 : 1] = r; }
  List_Delete(l); return r;
}
// ---- oracle
template <class T> static std::vector<int> ids(Model &M, List_ptr l, const char *w, std::vector<T> &tab) {
  std::vector<int> o; if (!l) return o; int n = List_Num_Entries(l);
  for (int i = 0; i < n; i++) { void *p = List_Entry(l, i); CHECK(p && M.ix.count(p) && M.ix[p] < (int)tab.size() && (void *)tab[M.ix[p]].p == p, "%s: returned something that is not an entity of the mesh", w); o.push_back(M.ix[p]); }
  List_Delete(l); return o;
}
static std::string str(const std::vector<int> &a) { std::string s; for (int x : a) { char b[20]; snprintf(b, sizeof b, " %d", x); s += b; } return s; }
static void eqset(const char *w, int k, std::vector<int> got, const std::set<int> &want) {
  std::vector<int> e(want.begin(), want.end()), g = got; std::sort(g.begin(), g.end());
  if (g != e) fail("%s of entity #%d: got {%s}, expected {%s}", w, k, str(g).c_str(), str(e).c_str());
}
static void eqseq(const char *w, int k, const std::vector<int> &got, const std::vector<int> &want) { if (got != want) fail("%s of #%d: got (%s), expected (%s)", w, k, str(got).c_str(), str(want).c_str()); }
template <class T> static void eqids(const char *w, int k, int n, int *b, const std::vector<int> &ent, std::vector<T> &tab) {
  CHECK(n == (int)ent.size(), "%s of #%d: %d ids, expected %zu", w, k, n, ent.size());
  std::multiset<int> a, c; for (int i = 0; i < n; i++) { a.insert(b[i]); c.insert(MEnt_ID((MEntity_ptr)tab[ent[i]].p)); }
  CHECK(a == c, "%s of #%d: wrong ids", w, k);
}
static int IDB_[20000];
static std::set<int> Vedges(Model &M, int v) { std::set<int> s; for (size_t i = 0; i < M.E.size(); i++) if (M.E[i].live && (M.E[i].v[0] == v || M.E[i].v[1] == v)) s.insert(i); return s; }
static std::set<int> Efaces(Model &M, int e) { std::set<int> s; for (size_t i = 0; i < M.F.size(); i++) if (M.F[i].live) for (auto &u : M.F[i].e) if (u.first == e) s.insert(i); return s; }
static std::set<int> Vfaces(Model &M, int v) { std::set<int> s; for (int e : Vedges(M, v)) for (int f : Efaces(M, e)) s.insert(f); return s; }
static std::set<int> Fregs(Model &M, int f) { std::set<int> s; for (int k = 0; k < 2; k++) if (M.F[f].r[k] >= 0) s.insert(M.F[f].r[k]); return s; }
static std::set<int> Eregs(Model &M, int e) { std::set<int> s; for (int f : Efaces(M, e)) for (int r : Fregs(M, f)) s.insert(r); return s; }
static std::set<int> Vregs(Model &M, int v) { std::set<int> s; for (int f : Vfaces(M, v)) for (int r : Fregs(M, f)) s.insert(r); return s; }
static std::vector<int> svec(const std::set<int> &s) { return std::vector<int>(s.begin(), s.end()); }
#define IDSCHK(FN, args, want, tab) do { int n_ = -7; FN args; eqids(#FN, k, n_, IDB_, svec(want), tab); } while (0)
// vertex-edge part
static void checkVE(Model &M) {
  for (int k = 0; k < (int)M.V.size(); k++) if (M.V[k].live) {
    MVertex_ptr p = M.V[k].p; auto es = Vedges(M, k);
    eqset("MV_Edges", k, ids(M, MV_Edges(p), "MV_Edges", M.E), es);
    CHECK(MV_Num_Edges(p) == (int)es.size(), "MV_Num_Edges #%d: %d, expected %zu", k, MV_Num_Edges(p), es.size());
    CHECK(MV_Num_AdjVertices(p) == (int)es.size(), "MV_Num_AdjVertices #%d: %d, expected %zu", k, MV_Num_AdjVertices(p), es.size());
    std::vector<int> av; for (int e : es) av.push_back(M.E[e].v[0] == k ? M.E[e].v[1] : M.E[e].v[0]); std::sort(av.begin(), av.end());
    auto g = ids(M, MV_AdjVertices(p), "MV_AdjVertices", M.V); std::sort(g.begin(), g.end()); eqseq("MV_AdjVertices", k, g, av);
    int n_ = -7; MV_EdgeIDs(p, &n_, IDB_); eqids("MV_EdgeIDs", k, n_, IDB_, svec(es), M.E);

  }
  for (int k = 0; k < (int)M.E.size(); k++) if (M.E[k].live) { MEdge_ptr e = M.E[k].p;
    for (int i = 0; i < 2; i++) { int v = M.E[k].v[i], o = M.E[k].v[1 - i]; CHECK(ME_Vertex(e, i) == M.V[v].p, "ME_Vertex(#%d,%d)", k, i); CHECK(ME_VertexID(e, i) == MV_ID(M.V[v].p), "ME_VertexID(#%d,%d)", k, i);
      CHECK(ME_OppVertex(e, M.V[v].p) == M.V[o].p, "ME_OppVertex of #%d", k); if (MV_ID(M.V[v].p)) CHECK(ME_OppVertexID(e, MV_ID(M.V[v].p)) == MV_ID(M.V[o].p), "ME_OppVertexID of #%d", k);
      CHECK(ME_UsesEntity(e, M.V[v].p, 0), "ME_UsesEntity denies an end vertex"); }
    CHECK(ME_UsesEntity(e, e, 1) && !ME_UsesEntity(e, e, 2), "ME_UsesEntity of itself"); int w = rnd(M.V.size()); CHECK(!ME_UsesEntity(e, M.V[w].p, 0) == (M.E[k].v[0] != w && M.E[k].v[1] != w), "ME_UsesEntity of a vertex"); }
}
static void checkUp(Model &M) {   // upward adjacency of vertices and edges to faces and regions
  for (int k = 0; k < (int)M.V.size(); k++) if (M.V[k].live) { MVertex_ptr p = M.V[k].p; auto fs = Vfaces(M, k), rs = Vregs(M, k);
    eqset("MV_Faces", k, ids(M, MV_Faces(p), "MV_Faces", M.F), fs); CHECK(MV_Num_Faces(p) == (int)fs.size(), "MV_Num_Faces #%d", k); IDSCHK(MV_FaceIDs, (p, &n_, IDB_), fs, M.F);
    eqset("MV_Regions", k, ids(M, MV_Regions(p), "MV_Regions", M.R), rs); CHECK(MV_Num_Regions(p) == (int)rs.size(), "MV_Num_Regions #%d", k); IDSCHK(MV_RegionIDs, (p, &n_, IDB_), rs, M.R); }
  for (int k = 0; k < (int)M.E.size(); k++) if (M.E[k].live) { MEdge_ptr p = M.E[k].p; auto fs = Efaces(M, k), rs = Eregs(M, k);
    eqset("ME_Faces", k, ids(M, ME_Faces(p), "ME_Faces", M.F), fs); CHECK(ME_Num_Faces(p) == (int)fs.size(), "ME_Num_Faces #%d", k); IDSCHK(ME_FaceIDs, (p, &n_, IDB_), fs, M.F);
    eqset("ME_Regions", k, ids(M, ME_Regions(p), "ME_Regions", M.R), rs); CHECK(ME_Num_Regions(p) == (int)rs.size(), "ME_Num_Regions #%d: %d, expected %zu", k, ME_Num_Regions(p), rs.size()); IDSCHK(ME_RegionIDs, (p, &n_, IDB_), rs, M.R); }
}
static void checkFaceLoop(Model &M, int k, bool all) {   // face -> edges, vertices
  MFace_ptr p = M.F[k].p; auto &es = M.F[k].e; int n = es.size(); auto vs = M.fverts(k);
  CHECK(MF_Num_Edges(p) == n && MF_Num_Vertices(p) == n, "MF_Num_Edges/Vertices #%d: %d/%d, expected %d", k, MF_Num_Edges(p), MF_Num_Vertices(p), n);
  for (int i = 0; i < n; i++) { CHECK(MF_EdgeDir_i(p, i) == es[i].second, "MF_EdgeDir_i(#%d,%d)=%d, expected %d", k, i, MF_EdgeDir_i(p, i), es[i].second); CHECK(MF_EdgeDir(p, M.E[es[i].first].p) == es[i].second, "MF_EdgeDir(#%d, edge %d)", k, i);
    CHECK(MF_UsesEntity(p, M.E[es[i].first].p, 1), "MF_UsesEntity denies a boundary edge"); CHECK(MF_UsesEntity(p, M.V[vs[i]].p, 0), "MF_UsesEntity denies a boundary vertex"); }
  bool dist = std::set<int>(vs.begin(), vs.end()).size() == vs.size();
  for (int dir = 0; dir < 2; dir++) for (int st = -1; st < n; st++) {
    if (st > 0 && !all && rnd(n) > 1) continue; if (st >= 0 && !dist) continue;
    // traversal starting at vertex st: along the face, or backwards
    std::vector<int> we, wv;
    for (int i = 0; i < n; i++) { int j; if (st < 0) j = dir ? i : n - 1 - i; else j = dir ? (st + i) % n : (st + 2 * n - 1 - i) % n; we.push_back(es[j].first); wv.push_back(dir ? vs[j] : vs[(j + 1) % n]); }
    MVertex_ptr v0 = st < 0 ? NULL : M.V[vs[st]].p;
    eqseq(dir ? "MF_Edges (along)" : "MF_Edges (against)", k, ids(M, MF_Edges(p, dir, v0), "MF_Edges", M.E), we);
    eqseq(dir ? "MF_Vertices (along)" : "MF_Vertices (against)", k, ids(M, MF_Vertices(p, dir, v0), "MF_Vertices", M.V), wv);
    int id0 = v0 ? MV_ID(v0) : 0; if (v0 && !id0) continue; int m = -1;
    MF_EdgeIDs(p, dir, id0, &m, IDB_); CHECK(m == n, "MF_EdgeIDs count"); for (int i = 0; i < n; i++) CHECK(IDB_[i] == ME_ID(M.E[we[i]].p), "MF_EdgeIDs(#%d,%d,start %d)[%d]=%d, expected %d", k, dir, st, i, IDB_[i], ME_ID(M.E[we[i]].p));
    m = -1; MF_VertexIDs(p, dir, id0, &m, IDB_); CHECK(m == n, "MF_VertexIDs count"); for (int i = 0; i < n; i++) CHECK(IDB_[i] == MV_ID(M.V[wv[i]].p), "MF_VertexIDs(#%d,%d,start %d)[%d]=%d, expected %d", k, dir, st, i, IDB_[i], MV_ID(M.V[wv[i]].p));
  }
  if (M.E.size()) { int e = rnd(M.E.size()); if (M.E[e].live) { bool in = false; for (auto &u : es) in |= u.first == e; CHECK(!MF_UsesEntity(p, M.E[e].p, 1) == !in, "MF_UsesEntity(#%d, edge #%d)", k, e); } }
  { int v = rnd(M.V.size()); bool in = false; for (int w : vs) in |= w == v; CHECK(!MF_UsesEntity(p, M.V[v].p, 0) == !in, "MF_UsesEntity(#%d, vertex #%d)", k, v); }
  CHECK(MF_ElementType(p) == (n == 3 ? TRI : n == 4 ? QUAD : POLYGON), "MF_ElementType of a face with %d edges: %d", n, (int)MF_ElementType(p));
}
static void checkFaces(Model &M, bool all) {
  for (int k = 0; k < (int)M.F.size(); k++) if (M.F[k].live) checkFaceLoop(M, k, all);
  for (int k = 0; k < (int)M.E.size(); k++) if (M.E[k].live) eqset("ME_Faces", k, ids(M, ME_Faces(M.E[k].p), "ME_Faces", M.F), Efaces(M, k));
}
static void checkSides(Model &M) {   // face -> regions
  for (int k = 0; k < (int)M.F.size(); k++) if (M.F[k].live) { MFace_ptr p = M.F[k].p; std::vector<int> w;
    for (int s = 0; s < 2; s++) { int r = M.F[k].r[s]; MRegion_ptr g = MF_Region(p, s); CHECK(g == (r < 0 ? NULL : M.R[r].p), "MF_Region(#%d, side %d): %s", k, s, g ? "wrong region" : "no region"); if (r >= 0) { w.push_back(r); CHECK(MF_RegionID(p, s) == MR_ID(M.R[r].p), "MF_RegionID(#%d,%d)", k, s); } else CHECK(MF_RegionID(p, s) == 0, "MF_RegionID(#%d,%d) on an empty side", k, s); }
    eqseq("MF_Regions", k, ids(M, MF_Regions(p), "MF_Regions", M.R), w);
    int n_ = -1; MF_RegionIDs(p, &n_, IDB_); CHECK(n_ == (int)w.size(), "MF_RegionIDs count"); for (int i = 0; i < n_; i++) CHECK(IDB_[i] == MR_ID(M.R[w[i]].p), "MF_RegionIDs"); }
}
static void checkRegions(Model &M, bool order) {
  for (int k = 0; k < (int)M.R.size(); k++) if (M.R[k].live) { MRegion_ptr p = M.R[k].p; auto &fs = M.R[k].f; int n = fs.size();
    CHECK(MR_Num_Faces(p) == n, "MR_Num_Faces(#%d)=%d, expected %d", k, MR_Num_Faces(p), n);
    std::vector<int> w; for (auto &u : fs) w.push_back(u.first); eqseq("MR_Faces", k, ids(M, MR_Faces(p), "MR_Faces", M.F), w);
    int n_ = -1; MR_FaceIDs(p, &n_, IDB_); CHECK(n_ == n, "MR_FaceIDs count"); for (int i = 0; i < n; i++) CHECK(IDB_[i] == MF_ID(M.F[fs[i].first].p), "MR_FaceIDs(#%d)[%d]", k, i);
    std::set<int> vs, es; std::vector<int> ar;
    for (int i = 0; i < n; i++) { int f = fs[i].first, d = fs[i].second; CHECK(MR_FaceDir_i(p, i) == d, "MR_FaceDir_i(#%d,%d)=%d, expected %d", k, i, MR_FaceDir_i(p, i), d); CHECK(MR_FaceDir(p, M.F[f].p) == d, "MR_FaceDir(#%d, face %d)=%d, expected %d", k, i, MR_FaceDir(p, M.F[f].p), d);
      CHECK(MR_UsesEntity(p, M.F[f].p, 2), "MR_UsesEntity denies a face"); for (int x : M.fverts(f)) vs.insert(x); for (auto &u : M.F[f].e) es.insert(u.first); int o = M.F[f].r[d ? 1 : 0]; if (o >= 0) ar.push_back(o); }
    { auto g = ids(M, MR_AdjRegions(p), "MR_AdjRegions", M.R); std::sort(g.begin(), g.end()); std::sort(ar.begin(), ar.end()); eqseq("MR_AdjRegions", k, g, ar); }
    n_ = -1; MR_AdjRegionIDs(p, &n_, IDB_); std::multiset<int> g, h; for (int i = 0; i < n_; i++) if (IDB_[i]) g.insert(IDB_[i]); for (int r : ar) h.insert(MR_ID(M.R[r].p)); CHECK(g == h, "MR_AdjRegionIDs(#%d)", k);
    if (n == 0) continue;
    eqset("MR_Vertices", k, ids(M, MR_Vertices(p), "MR_Vertices", M.V), vs); eqset("MR_Edges", k, ids(M, MR_Edges(p), "MR_Edges", M.E), es);
    CHECK(MR_Num_Vertices(p) == (int)vs.size() && MR_Num_Edges(p) == (int)es.size(), "MR_Num_Vertices/Edges(#%d)=%d/%d, expected %zu/%zu", k, MR_Num_Vertices(p), MR_Num_Edges(p), vs.size(), es.size());
    IDSCHK(MR_VertexIDs, (p, &n_, IDB_), vs, M.V); IDSCHK(MR_EdgeIDs, (p, &n_, IDB_), es, M.E);
    for (int x : vs) CHECK(MR_UsesEntity(p, M.V[x].p, 0), "MR_UsesEntity denies a vertex"); for (int x : es) CHECK(MR_UsesEntity(p, M.E[x].p, 1), "MR_UsesEntity denies an edge");
    { int x = rnd(M.V.size()); if (M.V[x].live) CHECK(!MR_UsesEntity(p, M.V[x].p, 0) == !vs.count(x), "MR_UsesEntity(#%d, vertex #%d)", k, x); x = rnd(M.E.size()); if (M.E[x].live) CHECK(!MR_UsesEntity(p, M.E[x].p, 1) == !es.count(x), "MR_UsesEntity(#%d, edge #%d)", k, x); x = rnd(M.F.size()); if (M.F[x].live) { bool in = false; for (auto &u : fs) in |= u.first == x; CHECK(!MR_UsesEntity(p, M.F[x].p, 2) == !in, "MR_UsesEntity(#%d, face #%d)", k, x); } }
    CHECK(MR_ElementType(p) == M.R[k].type, "MR_ElementType(#%d)=%d, expected %d", k, (int)MR_ElementType(p), M.R[k].type);
  }
}
// ---- random meshes
static void random2d(Model &M, int nx, int ny) {
  std::vector<int> g; for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) g.push_back(M.addV(i + 0.1 * rnd(3), j + 0.1 * rnd(3), 0));
  auto at = [&](int i, int j) { return g[j * (nx + 1) + i]; };
  std::vector<std::vector<int>> cyc;
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { int a = at(i, j), b = at(i + 1, j), c = at(i + 1, j + 1), d = at(i, j + 1); switch (rnd(4)) { case 0: cyc.push_back({a, b, c}); cyc.push_back({a, c, d}); break; case 1: cyc.push_back({a, b, d}); cyc.push_back({b, c, d}); break; default: cyc.push_back({a, b, c, d}); } }
  // glue some neighbours to polygons
  for (int t = rnd(4); t > 0; t--) { int p = rnd(cyc.size()), q = rnd(cyc.size()); if (p == q) continue; auto A = cyc[p], B = cyc[q]; std::set<int> sa(A.begin(), A.end()); int sh = 0; for (int v : B) sh += sa.count(v); if (sh != 2) continue;
    for (size_t i = 0; i < A.size(); i++) { int u = A[i], w = A[(i + 1) % A.size()]; for (size_t j = 0; j < B.size(); j++) if (B[j] == w && B[(j + 1) % B.size()] == u) { std::vector<int> C; for (size_t k = 1; k <= A.size(); k++) C.push_back(A[(i + k) % A.size()]); /* w ... u */ for (size_t k = 2; k < B.size(); k++) C.push_back(B[(j + k) % B.size()]); cyc[p] = C; cyc.erase(cyc.begin() + q); i = A.size(); break; } } }
  for (auto &c : cyc) { std::rotate(c.begin(), c.begin() + rnd(c.size()), c.end()); if (rnd(5) == 0) std::reverse(c.begin(), c.end()); M.addF(c, rnd(2)); }
  op("2D mesh %dx%d, %zu faces", nx, ny, cyc.size());
}
typedef std::pair<int, std::vector<int>> Cell;   // (type, vertices)
static void kuhn(std::vector<Cell> &o, const std::vector<int> &h) {
  static const int P[6][4] = {{0, 1, 2, 6}, {0, 2, 3, 6}, {0, 3, 7, 6}, {0, 7, 4, 6}, {0, 4, 5, 6}, {0, 5, 1, 6}};
  for (auto &p : P) o.push_back({1, {h[p[0]], h[p[1]], h[p[2]], h[p[3]]}});
}
static std::vector<std::vector<int>> cellfaces(const std::vector<Cell> &cs) {   // outward cycles of a union of cells
  std::vector<std::vector<int>> o; for (auto &c : cs) for (auto &cy : stdfaces(c.first, c.second)) o.push_back(cy);
  for (size_t i = 0; i < o.size(); i++) for (size_t j = i + 1; j < o.size(); j++) if (o[i].size() == o[j].size() && std::set<int>(o[i].begin(), o[i].end()) == std::set<int>(o[j].begin(), o[j].end())) { o.erase(o.begin() + j); o.erase(o.begin() + i); i--; break; }
  return o;
}
static void polyReg(Model &M, const std::vector<Cell> &cs) {
  std::vector<Use> fs; for (auto &cy : cellfaces(cs)) { int f = M.findF(cy); if (f < 0) { auto c = cy; if (rnd(2)) std::reverse(c.begin(), c.end()); std::rotate(c.begin(), c.begin() + rnd(c.size()), c.end()); f = M.addF(c, rnd(2)); } fs.push_back(Use(f, M.along(f, cy))); }
  for (size_t i = fs.size(); i > 1; i--) std::swap(fs[i - 1], fs[rnd(i)]);
  int r = M.addR(fs, 5); (void)r;
}
// conforming mesh of hexes, wedges, pyramids, tets and polyhedra; mode 0 all kinds but tets, 1 tets
static void random3d(Model &M, int nx, int ny, int nz, int mode = -1, bool polys = true, int bypass = 3) {
  std::vector<int> g; for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) g.push_back(M.addV(i + 0.05 * rnd(4), j + 0.05 * rnd(4), k + 0.05 * rnd(4)));
  auto at = [&](int i, int j, int k) { return g[(k * (ny + 1) + j) * (nx + 1) + i]; };
  int md = mode >= 0 ? mode : rnd(4) == 0; std::string d; std::vector<Cell> cells;
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { int col = rnd(3), diag = rnd(2);
    for (int k = 0; k < nz; k++) {
      std::vector<int> h = {at(i, j, k), at(i + 1, j, k), at(i + 1, j + 1, k), at(i, j + 1, k), at(i, j, k + 1), at(i + 1, j, k + 1), at(i + 1, j + 1, k + 1), at(i, j + 1, k + 1)};
      if (md == 1) { kuhn(cells, h); continue; }
      if (col == 0) { if (diag) { cells.push_back({3, {h[0], h[1], h[2], h[4], h[5], h[6]}}); cells.push_back({3, {h[0], h[2], h[3], h[4], h[6], h[7]}}); } else { cells.push_back({3, {h[0], h[1], h[3], h[4], h[5], h[7]}}); cells.push_back({3, {h[1], h[2], h[3], h[5], h[6], h[7]}}); } }
      else if (rnd(3) == 0) { int c = M.addV(i + 0.5, j + 0.5, k + 0.5); for (auto &cy : stdfaces(4, h)) cells.push_back({2, {cy[3], cy[2], cy[1], cy[0], c}}); }
      else cells.push_back({4, h}); } }
  std::vector<char> used(cells.size(), 0);
  for (size_t i = cells.size(); i > 1; i--) std::swap(cells[i - 1], cells[rnd(i)]);
  for (size_t i = 0; i < cells.size(); i++) { if (used[i]) continue; used[i] = 1;
    if (polys && rnd(6) == 0) {   // glue to a neighbour
      int q = -1; for (size_t j = i + 1; j < cells.size() && q < 0; j++) if (!used[j]) { std::vector<Cell> t = {cells[i], cells[j]}; size_t nf = stdfaces(cells[i].first, cells[i].second).size() + stdfaces(cells[j].first, cells[j].second).size(); if (cellfaces(t).size() == nf - 2) q = j; }
      if (q >= 0) { std::vector<Cell> t = {cells[i], cells[q]}; used[q] = 1;
        // the union must not look like a standard element
        auto cf = cellfaces(t); int tr = 0, qd = 0; for (auto &c : cf) { tr += c.size() == 3; qd += c.size() == 4; } if (!((cf.size() == 6 && qd == 6) || (cf.size() == 5 && ((tr == 2 && qd == 3) || (tr == 4 && qd == 1))) || cf.size() == 4)) { polyReg(M, t); d += 'P'; continue; }
        used[q] = 0; } }
    if (bypass && rnd(bypass) == 0) regByVerts(M, cells[i].first, cells[i].second); else regByFaces(M, cells[i].first, cells[i].second);
    d += "?TYWH"[cells[i].first]; }
  op("3D mesh %dx%dx%d cells %s", nx, ny, nz, d.c_str());
}
// edge-disjoint polygon soup, for faces with many edges
static int ngon(Model &M, int n) { std::vector<int> c; for (int i = 0; i < n; i++) c.push_back(M.addV(cos(6.28 * i / n), sin(6.28 * i / n), 0)); op("%d-gon", n); return M.addF(c, n <= MAXPV2 && rnd(2)); }
#endif
