// executable contract of the vertex-edge adjacency and the upward adjacencies computed from it
#include "mesh.h"
static void common(Model &M, int tries) {
  for (int t = 0; t < tries && M.V.size(); t++) { int a = rnd(M.V.size()), b = rnd(M.V.size()); if (t & 1 && M.E.size()) { int e = rnd(M.E.size()); a = M.E[e].v[0]; b = M.E[e].v[1]; if (rnd(2)) std::swap(a, b); } if (a == b || !M.V[a].live || !M.V[b].live) continue;
    MEdge_ptr e = MVs_CommonEdge(M.V[a].p, M.V[b].p); std::set<int> w; for (int x : Vedges(M, a)) if (M.E[x].v[0] == b || M.E[x].v[1] == b) w.insert(x);
    if (w.empty()) CHECK(e == NULL, "MVs_CommonEdge finds an edge between vertices #%d and #%d that are not joined", a, b); else CHECK(e && M.ix.count(e) && w.count(M.ix[e]), "MVs_CommonEdge(#%d,#%d): wrong or no edge", a, b); }
  for (int t = 0; t < tries && M.E.size(); t++) { int a = rnd(M.E.size()), b = rnd(M.E.size()); if (rnd(3) == 0) b = a; if (!M.E[a].live || !M.E[b].live) continue; std::set<int> p(M.E[a].v, M.E[a].v + 2), q(M.E[b].v, M.E[b].v + 2); CHECK(!MEs_AreSame(M.E[a].p, M.E[b].p) == !(p == q), "MEs_AreSame(#%d,#%d)", a, b); }
}
void run() {
  long rn = 0;
  while (timeleft() || rn < 300) {
    newcase(); rn++; Model M; M.m = MESH_New(F1); int kind = rnd(5);
    if (kind == 3) random2d(M, 1 + rnd(4), 1 + rnd(3)); else if (kind == 4) random3d(M, 1 + rnd(2), 1 + rnd(2), 1 + rnd(2));
    else { int nv = 2 + rnd(kind ? 8 : 40), hub = rnd(2); for (int i = 0; i < nv; i++) M.addV(i, 0, 0); int ne = rnd(kind ? 20 : 120); for (int i = 0; i < ne; i++) { int a = hub && rnd(2) ? 0 : rnd(nv), b = rnd(nv); if (a == b) continue; M.addE(a, b, rnd(2)); } op("graph of %d vertices and %zu edges", nv, M.E.size()); }
    bool graph = kind < 3; checkVE(M); if (!graph) checkUp(M); common(M, 12);
    int nop = graph ? rnd(25) : 1 + rnd(6);
    for (int o = 0; o < nop; o++) {
      if (graph) {
        int w = rnd(6);
        if (w == 0 && M.V.size() > 2) { int a = rnd(M.V.size()), b = rnd(M.V.size()); if (a == b || !M.V[a].live || !M.V[b].live) continue; op("edge %d-%d", a, b); M.addE(a, b, rnd(2)); }
        else if (w == 1) { op("vertex"); M.addV(); }
        else if (M.E.size()) { int e = rnd(M.E.size()); 
          if (!M.E[e].live) { if (!M.V[M.E[e].v[0]].live || !M.V[M.E[e].v[1]].live) continue; op("ME_Restore #%d", e); ME_Restore(M.E[e].p); M.E[e].live = true; CHECK(MEnt_Dim(M.E[e].p) == MEDGE, "restored edge is not an edge"); }
          else if (w == 2) { op("ME_Delete #%d keep", e); ME_Delete(M.E[e].p, 1); M.E[e].live = false; CHECK(ME_Vertex(M.E[e].p, 0) == M.V[M.E[e].v[0]].p && ME_Vertex(M.E[e].p, 1) == M.V[M.E[e].v[1]].p, "deleted edge forgot its vertices"); }
          else if (w == 3) { op("ME_Delete #%d", e); void *p = M.E[e].p; ME_Delete(M.E[e].p, 0); M.ix.erase(p); M.E.erase(M.E.begin() + e); for (size_t i = 0; i < M.E.size(); i++) M.ix[M.E[i].p] = i; }
          else { int k = rnd(2), v = rnd(M.V.size()); if (!M.V[v].live || v == M.E[e].v[0] || v == M.E[e].v[1]) continue; op("ME_Replace_Vertex edge #%d: %d -> %d", e, M.E[e].v[k], v); ME_Replace_Vertex(M.E[e].p, M.V[M.E[e].v[k]].p, M.V[v].p); M.E[e].v[k] = v; } }
        checkVE(M); common(M, 4);
      } else {
        // take regions, then faces, then edges away and bring some back
        if (rnd(3) == 0 && M.V.size()) { // renumbered entities answer with their new IDs
          int v = rnd(M.V.size()); if (M.V[v].live) { op("renumber"); MV_Set_ID(M.V[v].p, 5000 + rnd(100)); for (auto &q : M.V) if (&q != &M.V[v] && q.live && MV_ID(q.p) == MV_ID(M.V[v].p)) MV_Set_ID(M.V[v].p, 9000 + o); } }
        if (M.nlive(3) && rnd(3)) { int r = rnd(M.R.size()); if (!M.R[r].live) { bool can = true; for (auto &u : M.R[r].f) can &= M.F[u.first].live && M.F[u.first].r[u.second ? 0 : 1] < 0; if (!can) continue; op("MR_Restore #%d", r); MR_Restore(M.R[r].p); M.R[r].live = true; for (auto &u : M.R[r].f) M.F[u.first].r[u.second ? 0 : 1] = r; } else { op("MR_Delete #%d keep", r); MR_Delete(M.R[r].p, 1); M.R[r].live = false; for (auto &u : M.R[r].f) M.F[u.first].r[u.second ? 0 : 1] = -1; } }
        else if (M.F.size()) { int f = rnd(M.F.size()); if (M.F[f].r[0] >= 0 || M.F[f].r[1] >= 0) { bool any = false; for (int k = 0; k < 2; k++) { int r = M.F[f].r[k]; if (r < 0) continue; any = true; op("MR_Delete #%d keep", r); MR_Delete(M.R[r].p, 1); M.R[r].live = false; for (auto &u : M.R[r].f) M.F[u.first].r[u.second ? 0 : 1] = -1; } (void)any; }
          if (M.F[f].live) { op("MF_Delete #%d keep", f); MF_Delete(M.F[f].p, 1); M.F[f].live = false; } else { bool can = true; for (auto &u : M.F[f].e) can &= M.E[u.first].live; if (!can) continue; op("MF_Restore #%d", f); MF_Restore(M.F[f].p); M.F[f].live = true; } 
          for (int e = 0; e < (int)M.E.size(); e++) if (M.E[e].live && Efaces(M, e).empty() && rnd(2)) { op("ME_Delete #%d keep", e); ME_Delete(M.E[e].p, 1); M.E[e].live = false; } }
        checkVE(M); checkUp(M); common(M, 4);
      }
    }
    endcase(); MESH_Delete(M.m);
  }
  printf("BOUND graphs of up to 40 vertices and 120 edges with up to 25 edits, 2D meshes up to 4x3 cells, 3D meshes up to 2x2x2 cells of all element types, checked after every edit\n");
}
