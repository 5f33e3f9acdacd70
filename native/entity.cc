// executable contract of the entity record: setters and getters against a plain struct of independent fields
#include "h.h"
#include "MSTK.h"
extern "C" {
#include "MSTK_private.h"
void MEnt_Flag_OnParBoundary(MEntity_ptr);
void MEnt_Unflag_OnParBoundary(MEntity_ptr);
void MEnt_Set_RepType_Data(MEntity_ptr, RepType);
RepType MEnt_RepType(MEntity_ptr);
}
struct M { int dim, del, vol, id, gd, gi, pt, pb, mp, gid; unsigned mark; };
typedef struct { MEntity_ptr e; int t; M m; } E;
static int pick(int bits) { long mx = (1L << bits) - 1; switch (rnd(6)) { case 0: return 0; case 1: return (int)mx; case 2: return (int)(mx >> 1); case 3: return 1 << rnd(bits); default: return (int)(((unsigned)rnd_()) & mx); } }
#define BYT(NAME, ...) (k == 0 ? MEnt_##NAME(__VA_ARGS__) : t == 0 ? MV_##NAME(__VA_ARGS__) : t == 1 ? ME_##NAME(__VA_ARGS__) : t == 2 ? MF_##NAME(__VA_ARGS__) : MR_##NAME(__VA_ARGS__))
static void look(E &x) {
  for (int k = 0; k < 2; k++) {
    int t = x.t; MEntity_ptr e = x.e;
    CHECK(BYT(ID, e) == x.m.id, "ID %d, expected %d", BYT(ID, e), x.m.id);
    CHECK(BYT(GEntDim, e) == x.m.gd, "GEntDim %d, expected %d", BYT(GEntDim, e), x.m.gd);
    CHECK(BYT(GEntID, e) == x.m.gi, "GEntID %d, expected %d", BYT(GEntID, e), x.m.gi);
    CHECK(BYT(GlobalID, e) == x.m.gid, "GlobalID %d, expected %d", BYT(GlobalID, e), x.m.gid);
    CHECK((int)BYT(PType, e) == x.m.pt, "PType %d, expected %d", (int)BYT(PType, e), x.m.pt);
    CHECK(BYT(MasterParID, e) == x.m.mp, "MasterParID %d, expected %d", BYT(MasterParID, e), x.m.mp);
    CHECK(BYT(Mesh, e) == NULL, "Mesh");
  }
  CHECK((int)MEnt_Dim(x.e) == (x.m.del ? -1 : x.m.dim), "Dim %d, expected %d", (int)MEnt_Dim(x.e), x.m.del ? -1 : x.m.dim);
  CHECK((int)MEnt_OrigDim(x.e) == x.m.dim, "OrigDim %d, expected %d", (int)MEnt_OrigDim(x.e), x.m.dim);
  CHECK(!!MEnt_IsVolatile(x.e) == x.m.vol, "IsVolatile");
  CHECK(!!MEnt_OnParBoundary(x.e) == x.m.pb, "OnParBoundary");
  if (x.t == 0) CHECK(!!MV_OnParBoundary(x.e) == x.m.pb, "MV_OnParBoundary");
  if (x.t == 1) CHECK(!!ME_OnParBoundary(x.e) == x.m.pb, "ME_OnParBoundary");
  if (x.t == 2) CHECK(!!MF_OnParBoundary(x.e) == x.m.pb, "MF_OnParBoundary");
  for (int i = 1; i <= 32; i++) CHECK(!!MEnt_IsMarked(x.e, i) == (int)(x.m.mark >> (i - 1) & 1), "marker %d", i);
}
static E mk(int t) { E x; x.t = t; x.e = t == 0 ? (MEntity_ptr)MV_New(NULL) : t == 1 ? (MEntity_ptr)ME_New(NULL) : t == 2 ? (MEntity_ptr)MF_New(NULL) : (MEntity_ptr)MR_New(NULL); memset(&x.m, 0, sizeof x.m); x.m.dim = t; x.m.gd = t == 1 || t == 2 || t == 3 ? 4 : 4; return x; }
// renumbering an entity of a mesh makes the mesh stop relying on ID order
static MEntity_ptr byid(Mesh_ptr m, int t, int id) { return rnd(2) ? MESH_EntityFromID(m, (MType)t, id) : t == 0 ? (MEntity_ptr)MESH_VertexFromID(m, id) : t == 1 ? (MEntity_ptr)MESH_EdgeFromID(m, id) : t == 2 ? (MEntity_ptr)MESH_FaceFromID(m, id) : (MEntity_ptr)MESH_RegionFromID(m, id); }
static void renumber() {
  newcase();
  Mesh_ptr m = MESH_New(F1); int t = rnd(4), n = 2 + rnd(9); std::vector<MEntity_ptr> v; std::map<int, MEntity_ptr> at;
  for (int i = 0; i < n; i++) { MEntity_ptr e = t == 0 ? (MEntity_ptr)MV_New(m) : t == 1 ? (MEntity_ptr)ME_New(m) : t == 2 ? (MEntity_ptr)MF_New(m) : (MEntity_ptr)MR_New(m); v.push_back(e); at[MEnt_ID(e)] = e; }
  op("%d entities of type %d", n, t);
  int last = MEnt_ID(v[n - 1]);
  for (int k = rnd(3); k > 0 && v.size() > 2; k--) { int j = rnd(v.size() - 1); op("delete ID %d", MEnt_ID(v[j])); at.erase(MEnt_ID(v[j])); MEnt_Delete(v[j], 0); v.erase(v.begin() + j); }
  op("MESH_Enable_LocalIDSearch"); MESH_Enable_LocalIDSearch(m);
  for (int k = 1 + rnd(3); k > 0; k--) {
    int j = rnd(v.size()), old = MEnt_ID(v[j]), nu = 1 + rnd(rnd(2) ? last : last + 20); if (at.count(nu)) continue;
    op("ID %d becomes %d", old, nu); if (rnd(2)) MEnt_Set_ID(v[j], nu); else if (t == 0) MV_Set_ID(v[j], nu); else if (t == 1) ME_Set_ID(v[j], nu); else if (t == 2) MF_Set_ID(v[j], nu); else MR_Set_ID(v[j], nu);
    at.erase(old); at[nu] = v[j]; if (rnd(2)) { op("MESH_Enable_LocalIDSearch"); MESH_Enable_LocalIDSearch(m); }
    for (auto &p : at) { CHECK(MEnt_ID(p.second) == p.first, "ID %d, expected %d", MEnt_ID(p.second), p.first); if (p.first <= last) CHECK(byid(m, t, p.first) == p.second, "after renumbering, lookup of ID %d does not find its entity", p.first); }
  }
  endcase(); MESH_Delete(m);
}
void run() {
  long r = 0;
  while (timeleft() || r < 5000) {
    if (r % 16 == 5) renumber();
    newcase(); r++;
    int t0 = rnd(4);
    E x = mk(t0), y = mk(rnd(4)); op("type %d", t0);
    // the initial classification is whatever creation sets; read it once
    x.m.gd = MEnt_GEntDim(x.e); y.m.gd = MEnt_GEntDim(y.e); x.m.gi = MEnt_GEntID(x.e); y.m.gi = MEnt_GEntID(y.e);
    look(x); look(y);
    int n = 1 + rnd(12);
    for (int i = 0; i < n; i++) {
      MEntity_ptr e = x.e; int t = x.t, k = rnd(2);
      switch (rnd(15)) {
      case 0: { int v = pick(27); op("Set_ID %d", v); BYT(Set_ID, e, v); x.m.id = v; break; }
      case 1: { int v = rnd(5); op("Set_GEntDim %d", v); BYT(Set_GEntDim, e, v); x.m.gd = v; break; }
      case 2: { int v = pick(26); op("Set_GEntID %d", v); BYT(Set_GEntID, e, v); x.m.gi = v; break; }
      case 3: { int v = pick(31); op("Set_GlobalID %d", v); BYT(Set_GlobalID, e, v); x.m.gid = v; break; }
      case 4: { int v = rnd(4); op("Set_PType %d", v); BYT(Set_PType, e, (PType)v); x.m.pt = v; break; }
      case 5: { int v = pick(29); op("Set_MasterParID %d", v); BYT(Set_MasterParID, e, v); x.m.mp = v; break; }
      case 6: { op("Flag_OnParBoundary"); if (k && t < 3) { if (t == 0) MV_Flag_OnParBoundary(e); else if (t == 1) ME_Flag_OnParBoundary(e); else MF_Flag_OnParBoundary(e); } else MEnt_Flag_OnParBoundary(e); x.m.pb = 1; break; }
      case 7: { op("Unflag_OnParBoundary"); if (k && t < 3) { if (t == 0) MV_Unflag_OnParBoundary(e); else if (t == 1) ME_Unflag_OnParBoundary(e); else MF_Unflag_OnParBoundary(e); } else MEnt_Unflag_OnParBoundary(e); x.m.pb = 0; break; }
      case 8: { op("Set_DelFlag"); MEnt_Set_DelFlag(e); x.m.del = 1; break; }
      case 9: { op("Rem_DelFlag"); MEnt_Rem_DelFlag(e); x.m.del = 0; break; }
      case 10: { op("Set_Volatile"); MEnt_Set_Volatile(e); x.m.vol = 1; break; }
      case 11: { int m = 1 + rnd(32); op("Mark %d", m); MEnt_Mark(e, m); x.m.mark |= 1u << (m - 1); break; }
      case 12: { int m = 1 + rnd(32); op("Unmark %d", m); MEnt_Unmark(e, m); x.m.mark &= ~(1u << (m - 1)); break; }
      case 13: { op("Set_Dim deleted"); MEnt_Set_Dim(e, MDELETED); x.m.del = 1; break; }
      case 14: { int v = rnd(5); RepType rt = MEnt_RepType(e); op("Set_RepType_Data %d", v); MEnt_Set_RepType_Data(e, (RepType)v); CHECK((int)MEnt_RepType(e) == v, "RepType"); look(x); MEnt_Set_RepType_Data(e, rt); break; }
      }
      look(x); look(y);
      if (rnd(3) == 0) std::swap(x, y);
    }
    for (E *z : {&x, &y}) { MEnt_Set_DelFlag(z->e); MEnt_Delete(z->e, 0); }
    endcase();
  }
  printf("BOUND random sequences of up to 12 setter calls on two free-standing entities, boundary values of every field width; renumbering in meshes of up to 10 entities followed by lookup\n");
}
