// executable contract of the face boundary: edges, directions, traversals, common faces
#include "mesh.h"
static void common(Model &M, int tries) {
  for (int t = 0; t < tries && M.F.size(); t++) {
    std::vector<int> c; int f = rnd(M.F.size()); if (!M.F[f].live && rnd(2)) continue; c = M.fverts(f); int n = c.size();
    std::vector<Use> es = M.F[f].e; bool ok = true; for (auto &u : es) ok &= M.E[u.first].live; if (!ok) continue; if (std::set<int>(c.begin(), c.end()).size() != c.size()) continue;
    // edges: any subset of the boundary; expect some live face that has them all
    { std::vector<MEdge_ptr> q; std::set<int> s; int k = 1 + rnd(n); int j0 = rnd(n); for (int j = 0; j < k; j++) { int e = es[(j0 + j * (rnd(2) ? 1 : 1)) % n].first; q.push_back(M.E[e].p); s.insert(e); } if (rnd(4) == 0) { int e = rnd(M.E.size()); if (M.E[e].live) { q.push_back(M.E[e].p); s.insert(e); } } if (rnd(2)) std::reverse(q.begin(), q.end());
      MFace_ptr g = MEs_CommonFace(q.size(), q.data()); std::set<int> w; for (size_t x = 0; x < M.F.size(); x++) if (M.F[x].live) { bool all = true; for (int e : s) { bool in = false; for (auto &u : M.F[x].e) in |= u.first == e; all &= in; } if (all) w.insert(x); }
      if (w.empty()) CHECK(!g, "MEs_CommonFace returns a face that does not have all the edges"); else CHECK(g && M.ix.count(g) && w.count(M.ix[g]), "MEs_CommonFace: wrong or no face"); }
    // vertices in order around the face, from anywhere, either way
    if (n >= 3) { std::rotate(c.begin(), c.begin() + rnd(n), c.end()); if (rnd(2)) std::reverse(c.begin(), c.end()); std::vector<MVertex_ptr> q; for (int v : c) q.push_back(M.V[v].p); if (rnd(4) == 0) { int v = rnd(M.V.size()), k = rnd(n); bool dup = false; for (int z : c) dup |= z == v; if (!dup && M.V[v].live) { c[k] = v; q[k] = M.V[v].p; } }
      MFace_ptr g = MVs_CommonFace(n, q.data()); std::set<int> sc(c.begin(), c.end()); std::set<int> w; for (size_t x = 0; x < M.F.size(); x++) if (M.F[x].live && (int)M.F[x].e.size() == n) { auto y = M.fverts(x); bool cons = false; for (int i = 0; i < n; i++) cons |= (y[i] == c[0] && y[(i + 1) % n] == c[1]) || (y[i] == c[1] && y[(i + 1) % n] == c[0]); if (cons && std::set<int>(y.begin(), y.end()) == sc) w.insert(x); }
      if (w.empty()) CHECK(!g, "MVs_CommonFace returns a face on other vertices"); else CHECK(g && M.ix.count(g) && w.count(M.ix[g]), "MVs_CommonFace: wrong or no face"); } }
  for (int t = 0; t < 3 && M.F.size(); t++) { int a = rnd(M.F.size()), b = rnd(M.F.size()); if (M.F[a].live && M.F[b].live) CHECK(!MFs_AreSame(M.F[a].p, M.F[b].p) == (a != b), "MFs_AreSame(#%d,#%d)", a, b); }
}
static void adj(Model &M) {   // neighbours across edges in a surface mesh
  for (int k = 0; k < (int)M.F.size(); k++) if (M.F[k].live) { std::multiset<int> w; bool man = true; for (auto &u : M.F[k].e) { auto s = Efaces(M, u.first); man &= s.size() <= 2; for (int x : s) if (x != k) w.insert(x); } if (!man) continue; auto g = ids(M, MF_AdjFaces(M.F[k].p), "MF_AdjFaces", M.F); std::sort(g.begin(), g.end()); eqseq("MF_AdjFaces", k, g, std::vector<int>(w.begin(), w.end())); CHECK(MF_Num_AdjFaces(M.F[k].p) == (int)w.size(), "MF_Num_AdjFaces(#%d)", k);
    int n = -1; double xyz[600][3]; MF_Coords(M.F[k].p, &n, xyz); auto v = M.fverts(k); CHECK(n == (int)v.size(), "MF_Coords count"); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) CHECK(xyz[i][j] == M.V[v[i]].x[j], "MF_Coords(#%d)[%d]", k, i); }
}
void run() {
  long rn = 0;
  while (timeleft() || rn < 300) {
    newcase(); rn++; Model M; M.m = MESH_New(F1); int kind = rnd(6);
    if (kind < 2) random2d(M, 1 + rnd(4), 1 + rnd(3)); else if (kind == 2) random3d(M, 1 + rnd(2), 1 + rnd(2), 1);
    else if (kind == 3) { ngon(M, 3 + rnd(rnd(3) ? 6 : 28)); if (rnd(2)) { auto c = M.fverts(0); std::reverse(c.begin(), c.end()); std::rotate(c.begin(), c.begin() + rnd(c.size()), c.end()); M.addF(c, c.size() <= 30 && rnd(2)); } }
    else { // a fan of polygons around shared edges
      int n = 4 + rnd(10); for (int i = 0; i < n; i++) M.addV(rnd(9), rnd(9), rnd(9)); int nf = 1 + rnd(8); for (int i = 0; i < nf; i++) { std::vector<int> c; for (int j = 0; j < n; j++) c.push_back(j); for (int j = n; j > 1; j--) std::swap(c[j - 1], c[rnd(j)]); c.resize(3 + rnd(n - 2)); M.addF(c, rnd(2)); } op("%d polygons on %d vertices", nf, n); }
    checkVE(M); checkFaces(M, kind == 3); common(M, 10); if (kind != 2) adj(M);
    int nop = rnd(6);
    for (int o = 0; o < nop; o++) {
      int f = rnd(M.F.size()); if (M.F[f].r[0] >= 0 || M.F[f].r[1] >= 0) continue;
      if (M.F[f].live) { if (rnd(3)) { op("MF_Delete #%d keep", f); MF_Delete(M.F[f].p, 1); M.F[f].live = false; CHECK(MEnt_Dim(M.F[f].p) == MDELETED && MEnt_OrigDim(M.F[f].p) == MFACE, "deleted face dimension"); }
        else { op("MF_Delete #%d", f); void *p = M.F[f].p; MF_Delete(M.F[f].p, 0); M.ix.erase(p); M.F.erase(M.F.begin() + f); for (size_t i = 0; i < M.F.size(); i++) M.ix[M.F[i].p] = i; if (M.F.empty()) break; } }
      else { op("MF_Restore #%d", f); MF_Restore(M.F[f].p); M.F[f].live = true; }
      if (rnd(2) && kind != 2 && M.V.size() > 4) { std::vector<int> c; for (int j = 0; j < (int)M.V.size(); j++) c.push_back(j); for (int j = c.size(); j > 1; j--) std::swap(c[j - 1], c[rnd(j)]); c.resize(3 + rnd(2)); op("face on %d vertices", (int)c.size()); M.addF(c, rnd(2)); }
      checkVE(M); checkFaces(M, false); common(M, 4); if (kind != 2) adj(M);
    }
    endcase(); MESH_Delete(M.m);
  }
  printf("BOUND faces of 3..30 edges in 2D meshes up to 4x3, 3D meshes up to 2x2x1, up to 9 polygons sharing edges, up to 6 deletions, restorations and additions\n");
}
