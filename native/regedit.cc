// executable contract of the region-face relation and its editing operations
#include "mesh.h"
static int typeOf(Model &M, int r) { int n = M.R[r].f.size(), t = 0, q = 0; for (auto &u : M.R[r].f) { int k = M.F[u.first].e.size(); t += k == 3; q += k == 4; } if (n < 4) return 0; if (n == 4 && t == 4) return 1; if (n == 5 && q == 3 && t == 2) return 3; if (n == 5 && q == 1 && t == 4) return 2; if (n == 6 && q == 6) return 4; return 5; }
static void look(Model &M) {
  for (int k = 0; k < (int)M.R.size(); k++) if (M.R[k].live) { MRegion_ptr p = M.R[k].p; auto &fs = M.R[k].f; int n = fs.size();
    CHECK(MR_Num_Faces(p) == n, "MR_Num_Faces(#%d)=%d, expected %d", k, MR_Num_Faces(p), n); std::vector<int> w; for (auto &u : fs) w.push_back(u.first); eqseq("MR_Faces", k, ids(M, MR_Faces(p), "MR_Faces", M.F), w);
    int m = -1; MR_FaceIDs(p, &m, IDB_); CHECK(m == n, "MR_FaceIDs count"); for (int i = 0; i < n; i++) CHECK(IDB_[i] == MF_ID(M.F[fs[i].first].p), "MR_FaceIDs(#%d)[%d]", k, i);
    for (int i = 0; i < n; i++) { CHECK(MR_FaceDir_i(p, i) == fs[i].second, "MR_FaceDir_i(#%d,%d)=%d, expected %d", k, i, MR_FaceDir_i(p, i), fs[i].second); CHECK(MR_FaceDir(p, M.F[fs[i].first].p) == fs[i].second, "MR_FaceDir(#%d, face at %d)", k, i); CHECK(MR_UsesEntity(p, M.F[fs[i].first].p, 2), "MR_UsesEntity denies a face"); }
    std::vector<int> ar; for (auto &u : fs) { int o = M.F[u.first].r[u.second ? 1 : 0]; if (o >= 0) ar.push_back(o); } auto g = ids(M, MR_AdjRegions(p), "MR_AdjRegions", M.R); std::sort(g.begin(), g.end()); std::sort(ar.begin(), ar.end()); eqseq("MR_AdjRegions", k, g, ar);
    m = -1; MR_AdjRegionIDs(p, &m, IDB_); std::multiset<int> a, b; for (int i = 0; i < m; i++) a.insert(IDB_[i]); for (int q : ar) b.insert(MR_ID(M.R[q].p)); CHECK(a == b, "MR_AdjRegionIDs(#%d)", k);
    CHECK(MR_ElementType(p) == typeOf(M, k), "MR_ElementType(#%d)=%d, expected %d from its faces", k, (int)MR_ElementType(p), typeOf(M, k));
    int f = rnd(M.F.size()); bool in = false; for (auto &u : fs) in |= u.first == f; if (M.F[f].live) { CHECK(!MR_UsesEntity(p, M.F[f].p, 2) == !in, "MR_UsesEntity(#%d, face #%d)", k, f); if (!in) CHECK(MR_FaceDir(p, M.F[f].p) == -1, "MR_FaceDir of a face the region does not use"); }
  }
  checkSides(M);
}
static int pos(Model &M, int r, int f) { for (size_t i = 0; i < M.R[r].f.size(); i++) if (M.R[r].f[i].first == f) return i; return -1; }
// a face with at least one free side, not used by r; returns -1 if there is none
static int freeface(Model &M, int r, int d, const std::set<int> &no) {
  for (int t = 0; t < 6; t++) { int f = rnd(M.F.size()); if (M.F[f].live && M.F[f].r[d ? 0 : 1] < 0 && pos(M, r, f) < 0 && !no.count(f)) return f; }
  int n = 3 + rnd(3); std::vector<int> c; for (int i = 0; i < n; i++) c.push_back(M.addV(rnd(9), rnd(9), rnd(9))); return M.addF(c, rnd(2));
}
void run() {
  long rn = 0;
  while (timeleft() || rn < 300) {
    newcase(); rn++; Model M; M.m = MESH_New(F1);
    if (rnd(2)) random3d(M, 1 + rnd(2), 1 + rnd(2), 1); else {
      // free combinatorial regions with many faces
      int nf = 4 + rnd(rnd(3) ? 8 : 80); for (int i = 0; i < nf; i++) { int n = 3 + rnd(3); std::vector<int> c; for (int j = 0; j < n; j++) c.push_back(M.addV()); M.addF(c, rnd(2)); }
      std::vector<Use> a, b; for (int i = 0; i < nf; i++) { int d = rnd(2); a.push_back(Use(i, d)); if (rnd(2)) b.push_back(Use(i, !d)); } M.addR(a); if (b.size() > 3) M.addR(b); op("free region of %d faces", nf); }
    look(M);
    int nop = 1 + rnd(8);
    for (int o = 0; o < nop; o++) {
      int r = rnd(M.R.size()); if (!M.R[r].live) { if (rnd(2)) continue; // restore
        bool can = true; for (auto &u : M.R[r].f) can &= M.F[u.first].r[u.second ? 0 : 1] < 0; if (!can) continue; op("MR_Restore #%d", r); MR_Restore(M.R[r].p); M.R[r].live = true; for (auto &u : M.R[r].f) M.F[u.first].r[u.second ? 0 : 1] = r; look(M); continue; }
      auto &fs = M.R[r].f; int n = fs.size(); int what = rnd(7);
      if (what == 0 && n > 1) { int k = rnd(n); op("MR_Rem_Face #%d pos %d of %d", r, k, n); Use u = fs[k]; MR_Rem_Face(M.R[r].p, M.F[u.first].p); fs.erase(fs.begin() + k); M.F[u.first].r[u.second ? 0 : 1] = -1; }
      else if (what == 1 && n) { int k = rnd(n); bool byi = rnd(2); op("MR_Rev_FaceDir%s #%d pos %d of %d", byi ? "_i" : "", r, k, n); int f = fs[k].first; if (byi) MR_Rev_FaceDir_i(M.R[r].p, k); else MR_Rev_FaceDir(M.R[r].p, M.F[f].p); std::swap(M.F[f].r[0], M.F[f].r[1]); for (int s = 0; s < 2; s++) { int q = M.F[f].r[s]; if (q >= 0) M.R[q].f[pos(M, q, f)].second = !s; } }
      else if (what == 2 && n) { int k = rnd(n), d = rnd(2), f = fs[k].first; int other = M.F[f].r[d ? 0 : 1]; if (other >= 0 && other != r) continue; bool byi = rnd(2); op("MR_Set_FaceDir%s #%d pos %d of %d to %d", byi ? "_i" : "", r, k, n, d); if (byi) MR_Set_FaceDir_i(M.R[r].p, k, d); else MR_Set_FaceDir(M.R[r].p, M.F[f].p, d); M.F[f].r[fs[k].second ? 0 : 1] = -1; M.F[f].r[d ? 0 : 1] = r; fs[k].second = d; }
      else if (what == 3 && n) { int k = rnd(n), d = rnd(2); int f = freeface(M, r, d, {}); op("MR_Replace_Face_i #%d pos %d of %d by face #%d dir %d", r, k, n, f, d); auto &fs2 = M.R[r].f; Use u = fs2[k]; MR_Replace_Face_i(M.R[r].p, k, M.F[f].p, d); M.F[u.first].r[u.second ? 0 : 1] = -1; M.F[f].r[d ? 0 : 1] = r; fs2[k] = Use(f, d); }
      else if (what == 4 && n) { int nold = 1 + rnd(std::min(n, 4)), nnew = rnd(5); if (rnd(8) == 0) nnew = 33 + rnd(40); std::vector<int> ks; for (int i = 0; i < n; i++) ks.push_back(i); for (int i = n; i > 1; i--) std::swap(ks[i - 1], ks[rnd(i)]); ks.resize(nold);
        std::vector<Use> nw; std::set<int> no; for (int i = 0; i < nnew; i++) { int d = rnd(2); int f = freeface(M, r, d, no); no.insert(f); nw.push_back(Use(f, d)); }
        auto &F2 = M.R[r].f; std::vector<MFace_ptr> od, nu; std::vector<int> dd; std::vector<int> of; for (int k : ks) { od.push_back(M.F[F2[k].first].p); of.push_back(F2[k].first); } for (auto &u : nw) { nu.push_back(M.F[u.first].p); dd.push_back(u.second); }
        if (n - nold + nnew < 1) continue;
        op("MR_Replace_Faces #%d: %d of %d faces by %d", r, nold, n, nnew);
        MR_Replace_Faces(M.R[r].p, nold, od.data(), nnew, nu.data(), dd.data());
        for (int j = 0; j < nold; j++) { int k = pos(M, r, of[j]); Use u = F2[k]; M.F[u.first].r[u.second ? 0 : 1] = -1; if (j < nnew) F2[k] = nw[j]; else F2.erase(F2.begin() + k); }
        for (int j = nold; j < nnew; j++) F2.push_back(nw[j]);
        for (auto &u : nw) M.F[u.first].r[u.second ? 0 : 1] = r; }
      else if (what == 5) { int keep = rnd(3) > 0; op("MR_Delete #%d keep %d", r, keep); MRegion_ptr p = M.R[r].p; MR_Delete(p, keep); for (auto &u : fs) M.F[u.first].r[u.second ? 0 : 1] = -1; M.R[r].live = false; if (!keep) { M.ix.erase(p); M.R[r].f.clear(); M.R[r].f.push_back(Use(0, 0)); M.R[r].p = NULL; } else { CHECK(MEnt_Dim(p) == MDELETED, "MR_Delete(keep) does not mark the region deleted"); CHECK(MEnt_OrigDim(p) == MREGION, "deleted region forgot its type"); } if (!keep) { M.R[r].f.clear(); M.R.erase(M.R.begin() + r); for (auto &q : M.F) for (int s = 0; s < 2; s++) if (q.r[s] > r) q.r[s]--; M.ix.clear(); for (size_t i = 0; i < M.V.size(); i++) M.ix[M.V[i].p] = i; for (size_t i = 0; i < M.E.size(); i++) M.ix[M.E[i].p] = i; for (size_t i = 0; i < M.F.size(); i++) M.ix[M.F[i].p] = i; for (size_t i = 0; i < M.R.size(); i++) M.ix[M.R[i].p] = i; if (M.R.empty()) break; } }
      else continue;
      look(M);
    }
    endcase();
    MESH_Delete(M.m);
  }
  printf("BOUND random regions of up to about 120 faces, sequences of up to 8 edits, checked after every edit\n");
}
