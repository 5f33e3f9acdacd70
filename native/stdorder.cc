// executable contract of region vertices and edges, their standard order, and building regions from vertices
#include "mesh.h"
static bool hasEdge(Model &M, int r, int a, int b) { for (auto &u : M.R[r].f) for (auto &e : M.F[u.first].e) if ((M.E[e.first].v[0] == a && M.E[e.first].v[1] == b) || (M.E[e.first].v[0] == b && M.E[e.first].v[1] == a)) return true; return false; }
// the first n vertices are a face of r, seen from inside the region
static bool inward(Model &M, int r, const std::vector<int> &v, int n) {
  for (auto &u : M.R[r].f) { auto w = M.fverts(u.first); if ((int)w.size() != n) continue; if (u.second) std::reverse(w.begin(), w.end());
    for (int s = 0; s < n; s++) { bool e = true; for (int i = 0; i < n && e; i++) e = w[(s + i) % n] == v[i]; if (e) return true; } }
  return false;
}
static void order(Model &M, int k) {
  MRegion_ptr p = M.R[k].p; int t = M.R[k].type; auto v = ids(M, MR_Vertices(p), "MR_Vertices", M.V); std::string s = str(v);
  int n = -1; double xyz[MAXPV3][3]; MR_Coords(p, &n, xyz); CHECK(n == (int)v.size(), "MR_Coords count"); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) CHECK(xyz[i][j] == M.V[v[i]].x[j], "MR_Coords(#%d)[%d] is not vertex #%d", k, i, v[i]);
  n = -1; MR_VertexIDs(p, &n, IDB_); CHECK(n == (int)v.size(), "MR_VertexIDs count"); for (int i = 0; i < n; i++) CHECK(IDB_[i] == MV_ID(M.V[v[i]].p), "MR_VertexIDs and MR_Vertices differ at %d", i);
  CHECK(MR_ElementType(p) == t, "MR_ElementType(#%d)=%d, expected %d", k, (int)MR_ElementType(p), t);
  if (t == 5) return;
  CHECK((int)v.size() == NVT_(t), "region #%d: %zu vertices", k, v.size());
  int b = t == 1 || t == 3 ? 3 : 4; CHECK(inward(M, k, v, b), "region #%d of type %d: the first %d vertices of (%s) are not a face seen from inside", k, t, b, s.c_str());
  if (t == 3 || t == 4) for (int i = 0; i < b; i++) CHECK(hasEdge(M, k, v[i], v[i + b]), "region #%d of type %d: vertices %d and %d of (%s) are not joined by an edge", k, t, i, i + b, s.c_str());
  // the whole standard numbering: every standard face of that ordering is a face of the region seen from outside
  for (auto cy : stdfaces(t, v)) { std::reverse(cy.begin(), cy.end()); CHECK(inward(M, k, cy, cy.size()), "region #%d of type %d: standard face (%s) of the ordering (%s) is not a face of the region", k, t, str(cy).c_str(), s.c_str()); }
}
// polyhedron from vertices and face templates
static void polyByTemplate(Model &M, const std::vector<std::vector<int>> &cyc) {
  std::vector<int> vs; for (auto &c : cyc) for (int x : c) if (std::find(vs.begin(), vs.end(), x) == vs.end()) vs.push_back(x);
  for (size_t i = vs.size(); i > 1; i--) std::swap(vs[i - 1], vs[rnd(i)]);
  int tpl[MAXPF3][MAXPV2 + 1]; int (*tp)[MAXPV2 + 1] = tpl; 
  std::vector<int *> rows; std::vector<std::vector<int>> buf; for (auto &c : cyc) { std::vector<int> t; t.push_back(c.size()); for (int x : c) t.push_back(std::find(vs.begin(), vs.end(), x) - vs.begin()); buf.push_back(t); } for (auto &t : buf) rows.push_back(t.data()); (void)tp;
  std::vector<MVertex_ptr> vp; for (int x : vs) vp.push_back(M.V[x].p);
  MR_ a; a.p = MR_New(M.m); a.live = true; a.type = 5; op("polyhedron of %zu vertices and %zu faces by template", vs.size(), cyc.size());
  MR_Set_Vertices(a.p, vs.size(), vp.data(), cyc.size(), rows.data()); M.R.push_back(a); int r = M.R.size() - 1; M.ix[a.p] = r;
  List_ptr l = MR_Faces(a.p); int n = l ? List_Num_Entries(l) : 0; CHECK(n == (int)cyc.size(), "MR_Set_Vertices by template made %d faces, expected %zu", n, cyc.size()); std::set<int> seen;
  for (int i = 0; i < n; i++) { MFace_ptr fp = (MFace_ptr)List_Entry(l, i); learnF(M, fp); int f = M.ix[fp]; auto w = M.fverts(f); int hit = -1; for (size_t k = 0; k < cyc.size(); k++) if (cyc[k].size() == w.size() && std::set<int>(cyc[k].begin(), cyc[k].end()) == std::set<int>(w.begin(), w.end())) hit = k; CHECK(hit >= 0 && seen.insert(hit).second, "MR_Set_Vertices by template made a wrong face"); int d = M.along(f, cyc[hit]); CHECK(MR_FaceDir_i(a.p, i) == d, "MR_Set_Vertices by template: face direction of face %d", i); M.R[r].f.push_back(Use(f, d)); M.F[f].r[d ? 0 : 1] = r; }
  List_Delete(l); int nt = 0, nq = 0; for (auto &c : cyc) { nt += c.size() == 3; nq += c.size() == 4; } int nf = cyc.size(); M.R[r].type = nf == 4 && nt == 4 ? 1 : nf == 5 && nt == 4 && nq == 1 ? 2 : nf == 5 && nt == 2 && nq == 3 ? 3 : nf == 6 && nq == 6 ? 4 : 5;
}
void run() {
  long rn = 0;
  while (timeleft() || rn < 300) {
    newcase(); rn++; Model M; M.m = MESH_New(F1); int kind = rnd(4);
    auto somefaces = [&](Model &M, const std::vector<std::vector<int>> &fc) { for (auto &c : fc) if (rnd(3) == 0) { bool there = false; std::set<int> w(c.begin(), c.end()); for (size_t f = 0; f < M.F.size(); f++) { auto u = M.fverts(f); there |= std::set<int>(u.begin(), u.end()) == w; } if (there) continue; auto d = c; if (rnd(2)) std::reverse(d.begin(), d.end()); std::rotate(d.begin(), d.begin() + rnd(d.size()), d.end()); op("face first"); M.addF(d, rnd(2)); } };
    if (kind == 0) random3d(M, 1 + rnd(2), 1 + rnd(2), 1 + rnd(2));
    else if (kind == 1) { // a single element whose faces are numbered, turned and ordered at random
      int t = 1 + rnd(4); std::vector<int> v; for (int i = 0; i < NVT_(t); i++) v.push_back(M.addV(rnd(100), rnd(100), rnd(100))); for (int i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rnd(i)]); op("single element of type %d", t); regByFaces(M, t, v); }
    else if (kind == 2) { int t = 1 + rnd(4); std::vector<int> v; for (int i = 0; i < NVT_(t); i++) v.push_back(M.addV(rnd(100), rnd(100), rnd(100))); for (int i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rnd(i)]); op("element of type %d from vertices", t);
      auto fc = stdfaces(t, v); somefaces(M, fc);
      if (rnd(3) == 0) { for (auto &c : fc) std::rotate(c.begin(), c.begin() + rnd(c.size()), c.end()); for (size_t i = fc.size(); i > 1; i--) std::swap(fc[i - 1], fc[rnd(i)]); polyByTemplate(M, fc); } else regByVerts(M, t, v); }
    else { // polyhedra: a prism over an n-gon, by template, possibly stacked
      int n = 3 + rnd(8), lay = 1 + rnd(3); std::vector<std::vector<int>> ring; for (int k = 0; k <= lay; k++) { std::vector<int> r; for (int i = 0; i < n; i++) r.push_back(M.addV(cos(6.28 * i / n), sin(6.28 * i / n), k)); ring.push_back(r); }
      for (int k = 0; k < lay; k++) { std::vector<std::vector<int>> cy; auto bot = ring[k]; std::reverse(bot.begin(), bot.end()); cy.push_back(bot); cy.push_back(ring[k + 1]); for (int i = 0; i < n; i++) cy.push_back({ring[k][i], ring[k][(i + 1) % n], ring[k + 1][(i + 1) % n], ring[k + 1][i]}); for (auto &c : cy) std::rotate(c.begin(), c.begin() + rnd(c.size()), c.end()); for (size_t i = cy.size(); i > 1; i--) std::swap(cy[i - 1], cy[rnd(i)]); somefaces(M, cy); polyByTemplate(M, cy); } }
    checkRegions(M, true); for (int k = 0; k < (int)M.R.size(); k++) order(M, k);
    if (rnd(2)) { checkVE(M); checkFaces(M, false); }
    endcase(); MESH_Delete(M.m);
  }
  printf("BOUND single elements with random face numbering and turning, 3D meshes up to 2x2x2 cells of all types, prisms over polygons of up to 10 sides\n");
}
