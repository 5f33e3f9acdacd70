// executable contract of the face-boundary editing operations
#include "mesh.h"
static void resync(Model &M, int f, const std::vector<Use> &want, const char *w) {
  List_ptr l = MF_Edges(M.F[f].p, 1, NULL); int n = l ? List_Num_Entries(l) : 0; std::vector<Use> got; for (int i = 0; i < n; i++) { void *p = List_Entry(l, i); CHECK(M.ix.count(p), "%s: unknown edge on the face", w); got.push_back(Use(M.ix[p], MF_EdgeDir_i(M.F[f].p, i))); } List_Delete(l);
  bool ok = n == (int)want.size();
  if (ok) { ok = false; for (int r = 0; r < n && !ok; r++) { bool e = true; for (int i = 0; i < n && e; i++) e = got[i] == want[(i + r) % n]; ok = e; } if (n == 0) ok = true; }
  if (!ok) { std::string a, b; char t[40]; for (auto &u : got) { snprintf(t, 40, " %d%c", u.first, u.second ? '+' : '-'); a += t; } for (auto &u : want) { snprintf(t, 40, " %d%c", u.first, u.second ? '+' : '-'); b += t; } fail("%s: boundary is (%s), expected the cycle (%s)", w, a.c_str(), b.c_str()); }
  M.F[f].e = got;
}
void run() {
  long r = 0;
  while (timeleft() || r < 500) {
    newcase(); r++; Model M; M.m = MESH_New(F1);
    int kind = rnd(4);
    if (kind == 0) random2d(M, 1 + rnd(3), 1 + rnd(2)); else if (kind == 1) random3d(M, 1 + rnd(2), 1, 1, -1, true, 0); else { ngon(M, 3 + rnd(rnd(3) ? 6 : 26)); if (rnd(2)) { auto c = M.fverts(0); std::reverse(c.begin(), c.end()); M.addF(c, false); } }
    int nop = 1 + rnd(5);
    for (int o = 0; o < nop; o++) {
      int f = rnd(M.F.size()); int n = M.F[f].e.size(); auto vs = M.fverts(f); auto es = M.F[f].e; if (n < 2) continue;
      if (std::set<int>(vs.begin(), vs.end()).size() != vs.size()) break;
      int what = rnd(8);
      if (what == 0) { int k = rnd(n); bool byi = rnd(2); op("MF_Rev_EdgeDir%s face %d pos %d", byi ? "_i" : "", f, k); if (byi) MF_Rev_EdgeDir_i(M.F[f].p, k); else MF_Rev_EdgeDir(M.F[f].p, M.E[es[k].first].p); M.F[f].e[k].second ^= 1;
        CHECK(MF_EdgeDir_i(M.F[f].p, k) == M.F[f].e[k].second && MF_EdgeDir(M.F[f].p, M.E[es[k].first].p) == M.F[f].e[k].second, "MF_Rev_EdgeDir did not reverse position %d", k);
        for (int i = 0; i < n; i++) CHECK(MF_EdgeDir_i(M.F[f].p, i) == M.F[f].e[i].second, "MF_Rev_EdgeDir changed position %d", i);
        MF_Rev_EdgeDir_i(M.F[f].p, k); M.F[f].e[k].second ^= 1; CHECK(MF_EdgeDir_i(M.F[f].p, k) == M.F[f].e[k].second, "MF_Rev_EdgeDir_i twice"); continue; }
      if (what == 1) { int k = rnd(n); op("MF_Rem_Edge face %d (%d edges) pos %d", f, n, k); MF_Rem_Edge(M.F[f].p, M.E[es[k].first].p); es.erase(es.begin() + k); 
        CHECK(MF_Num_Edges(M.F[f].p) == n - 1, "MF_Rem_Edge left %d of %d edges", MF_Num_Edges(M.F[f].p), n);
        M.F[f].e = es; for (int i = 0; i < n - 1; i++) { CHECK(MF_EdgeDir_i(M.F[f].p, i) == es[i].second, "MF_Rem_Edge: direction of position %d", i); CHECK(MF_EdgeDir(M.F[f].p, M.E[es[i].first].p) == es[i].second, "MF_Rem_Edge: direction of edge at %d", i); }
        eqset("ME_Faces", k, ids(M, ME_Faces(M.E[M.F[f].e.size() ? es[0].first : 0].p), "ME_Faces", M.F), Efaces(M, M.F[f].e.size() ? es[0].first : 0));
        { List_ptr l = MF_Edges(M.F[f].p, 1, NULL); for (int i = 0; i < n - 1; i++) CHECK(List_Entry(l, i) == M.E[es[i].first].p, "MF_Rem_Edge: edge at position %d", i); List_Delete(l); }
        // the loop is open now: close it by merging the two end vertices' gap with a new edge
        { int a = vs[k], b = vs[(k + 1) % n]; int e = rnd(2) ? M.addE(a, b) : M.addE(b, a); std::vector<Use> full = es; full.insert(full.begin() + k, Use(e, M.E[e].v[0] == a)); M.F[f].e = full; for (auto &u : full) if (u.first != e) {} 
          std::vector<MEdge_ptr> old; (void)old; M.setFE(f); } continue; }
      int nold = 1 + rnd(std::min(n - 1, 5)), i0 = rnd(n), nnu = rnd(3) ? 1 + rnd(5) : 1; if (n - nold + nnu > 31 || n - nold + nnu < 3) continue;
      int a = vs[i0], b = vs[(i0 + nold) % n]; if (nnu == 1 && M.findE(a, b) >= 0) { bool on = false; for (auto &u : es) on |= u.first == M.findE(a, b); if (on) continue; }
      std::vector<Use> nw; int last = a; for (int j = 0; j < nnu; j++) { int nx = j == nnu - 1 ? b : M.addV(0.3 * j, 0.1, 0.2); int e = nnu == 1 && M.findE(last, nx) >= 0 ? M.findE(last, nx) : rnd(2) ? M.addE(last, nx) : M.addE(nx, last); nw.push_back(Use(e, M.E[e].v[0] == last)); last = nx; }
      std::vector<Use> want; for (auto &u : nw) want.push_back(u); for (int j = nold; j < n; j++) want.push_back(es[(i0 + j) % n]);
      std::vector<MEdge_ptr> od, nu; for (int j = 0; j < nold; j++) od.push_back(M.E[es[(i0 + j) % n].first].p); for (auto &u : nw) nu.push_back(M.E[u.first].p);
      bool rvo = rnd(2), rvn = rnd(2), byi = rnd(2); if (rvo) std::reverse(od.begin(), od.end()); if (rvn) std::reverse(nu.begin(), nu.end());
      op("MF_Replace_Edges%s face %d of %d edges: %d from position %d%s by %d%s", byi ? "_i" : "", f, n, nold, i0, rvo && !byi ? " (given backwards)" : "", nnu, rvn ? " (given backwards)" : "");
      if (byi) MF_Replace_Edges_i(M.F[f].p, nold, i0, nnu, nu.data()); else MF_Replace_Edges(M.F[f].p, nold, od.data(), nnu, nu.data());
      resync(M, f, want, "MF_Replace_Edges");
      checkFaceLoop(M, f, true);
    }
    checkVE(M); checkFaces(M, false);
    for (int k = 0; k < (int)M.V.size(); k++) { auto fs = Vfaces(M, k); eqset("MV_Faces", k, ids(M, MV_Faces(M.V[k].p), "MV_Faces", M.F), fs); }
    MESH_Delete(M.m); endcase();
  }
  printf("BOUND faces of 3..31 edges in random 2D/3D meshes and free polygons, up to 5 consecutive edges replaced by up to 5\n");
}
