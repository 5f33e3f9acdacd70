// executable contract of attributes: values against a map (entity, attribute) -> value
#include "h.h"
#include "MSTK.h"
extern "C" {
#include "MSTK_private.h"
}
struct Val { int i; double d; void *p; std::vector<double> v; };
struct Att { MAttrib_ptr a; std::string name; int type, dim, n; };
struct Ent { MEntity_ptr e; int t; std::map<int, Val> val; };   // by attribute number
static Mesh_ptr m;
static std::map<int, Att> A; static std::vector<int> order;
static std::vector<Ent> E;
static bool fits(const Att &a, const Ent &x) { return a.dim == x.t || a.dim == MALLTYPE; }
static void *cookie[64];
static bool valeq(const Att &a, const Val &w, int i, double d, void *p) {
  if (a.type == INT) return i == w.i; if (a.type == DOUBLE) return d == w.d; if (a.type == POINTER) return p == w.p;
  if (!p) return false; double *q = (double *)p; for (int k = 0; k < a.n; k++) if (q[k] != w.v[k]) return false; return true;
}
static void look1(Ent &x, int an, bool all) {
  Att &a = A[an]; auto it = x.val.find(an); bool has = it != x.val.end();
  int i = 77; double d = 77; void *p = cookie; int r = MEnt_Get_AttVal(x.e, a.a, &i, &d, &p);
  CHECK(!!r == has, "attribute %s on entity type %d ID %d: query says %d, expected %d", a.name.c_str(), x.t, MEnt_ID(x.e), r, (int)has);
  if (has) { CHECK(valeq(a, it->second, i, d, p), "attribute %s on entity type %d ID %d: wrong value (got %d %g %p)", a.name.c_str(), x.t, MEnt_ID(x.e), i, d, p);
    if (a.type != INT) CHECK(i == 0, "integer result not zero for another type"); if (a.type != DOUBLE) CHECK(d == 0, "double result not zero for another type"); if (a.type == INT || a.type == DOUBLE) CHECK(p == NULL, "pointer result not null for another type"); }
  else CHECK(i == 0 && d == 0 && p == NULL, "absent value is not zero");
  switch (a.type) {
    case INT: i = MEnt_Get_IntAttVal(x.e, a.a); CHECK(i == (has ? it->second.i : 0), "IntAttVal %d", i); break;
    case DOUBLE: d = MEnt_Get_DblAttVal(x.e, a.a); CHECK(d == (has ? it->second.d : 0), "DblAttVal %g", d); break;
    case POINTER: p = MEnt_Get_PtrAttVal(x.e, a.a); CHECK(p == (has ? it->second.p : NULL), "PtrAttVal"); break;
    case VECTOR: case TENSOR: p = a.type == VECTOR ? MEnt_Get_VecAttVal(x.e, a.a) : MEnt_Get_TnsrAttVal(x.e, a.a); CHECK(has ? valeq(a, it->second, 0, 0, p) : p == NULL, "vector or tensor value"); break;
  }
}
static void looklist() {
  CHECK(MESH_Num_Attribs(m) == (int)order.size(), "MESH_Num_Attribs %d, expected %d", MESH_Num_Attribs(m), (int)order.size());
  int idx = 0, k = 0; MAttrib_ptr q;
  while ((q = MESH_Next_Attrib(m, &idx))) { CHECK(k < (int)order.size() && q == A[order[k]].a, "attribute %d of the iteration", k); k++; }
  CHECK(k == (int)order.size(), "iteration over attributes ended after %d", k);
  for (k = 0; k < (int)order.size(); k++) {
    Att &a = A[order[k]]; char nm[300];
    CHECK(MESH_Attrib(m, k) == a.a, "MESH_Attrib %d", k);
    CHECK(MESH_AttribByName(m, a.name.c_str()) == a.a, "MESH_AttribByName(%s)", a.name.c_str());
    CHECK(a.name == MAttrib_Get_Name(a.a, nm) && a.name == nm, "name"); CHECK((int)MAttrib_Get_Type(a.a) == a.type, "type"); CHECK((int)MAttrib_Get_EntDim(a.a) == a.dim, "entity kind"); CHECK(MAttrib_Get_NumComps(a.a) == a.n, "number of components %d, expected %d", MAttrib_Get_NumComps(a.a), a.n);
  }
  static const char *no[] = {"", "nosuch", "a", "att", "att1", "ATT10", "att10 "};
  for (auto s : no) { MAttrib_ptr w = NULL; for (int o : order) if (A[o].name == s) w = A[o].a; CHECK(MESH_AttribByName(m, s) == w, "MESH_AttribByName(\"%s\")", s); }
}
static void look(bool full) {
  looklist();
  if (full) { for (auto &x : E) for (int o : order) if (fits(A[o], x) || rnd(3) == 0) look1(x, o, true); }
  else if (!E.empty()) for (int k = 0; k < 6; k++) { Ent &x = E[rnd(E.size())]; for (int o : order) look1(x, o, false); }
}
static double num() { switch (rnd(5)) { case 0: return 0; case 1: return -1.5; case 2: return 1e300; default: return rnd(1000) / 8.0; } }
static Val mkval(const Att &a) {
  Val w; w.i = 0; w.d = 0; w.p = NULL;
  if (a.type == INT) { static const int s[] = {0, 1, -1, 2147483647, -2147483647 - 1}; w.i = rnd(2) ? s[rnd(5)] : rnd(100000) - 50000; } else if (a.type == DOUBLE) w.d = num(); else if (a.type == POINTER) w.p = rnd(4) ? (void *)&cookie[rnd(64)] : NULL;
  else for (int k = 0; k < a.n; k++) w.v.push_back(num());
  return w;
}
static void setv(Ent &x, int an) {
  Att &a = A[an]; Val w = mkval(a); op("set %s on type %d ID %d", a.name.c_str(), x.t, MEnt_ID(x.e));
  std::vector<double> buf = w.v; buf.push_back(0); double *b = buf.data();
  if (rnd(2)) MEnt_Set_AttVal(x.e, a.a, a.type == INT ? w.i : 5, a.type == DOUBLE ? w.d : 6., a.type == POINTER ? w.p : a.type >= VECTOR ? (void *)b : (void *)&cookie[3]);
  else switch (a.type) { case INT: MEnt_Set_IntAttVal(x.e, a.a, w.i); break; case DOUBLE: MEnt_Set_DblAttVal(x.e, a.a, w.d); break; case POINTER: MEnt_Set_PtrAttVal(x.e, a.a, w.p); break; case VECTOR: MEnt_Set_VecAttVal(x.e, a.a, b); break; default: MEnt_Set_TnsrAttVal(x.e, a.a, b); }
  for (auto &q : buf) q = -123456;         // the array stays the caller's
  x.val[an] = w;
}
static int nent = 0, natt = 0;
static void addent() { Ent x; x.t = rnd(4); x.e = x.t == 0 ? (MEntity_ptr)MV_New(m) : x.t == 1 ? (MEntity_ptr)ME_New(m) : x.t == 2 ? (MEntity_ptr)MF_New(m) : (MEntity_ptr)MR_New(m); op("new entity type %d", x.t); E.push_back(x); nent++; }
static void addatt() {
  static const int dims[] = {MVERTEX, MEDGE, MFACE, MREGION, MALLTYPE}; static const char *nm[] = {"att%d", "a%d", "stress_%d", "att1%d", "x%d_longer_name_of_an_attribute_with_several_words_in_it"};
  Att a; char b[200]; int c = natt++; snprintf(b, sizeof b, nm[rnd(5)], c); a.name = b; for (auto &q : A) if (q.second.name == a.name) a.name += "_";
  a.type = rnd(5); a.dim = dims[rnd(3) ? rnd(5) : 4]; a.n = a.type >= VECTOR ? 1 + rnd(rnd(4) ? 4 : 21) : 1;
  a.a = a.type >= VECTOR ? MAttrib_New(m, a.name.c_str(), (MAttType)a.type, (MType)a.dim, a.n) : MAttrib_New(m, a.name.c_str(), (MAttType)a.type, (MType)a.dim);
  op("new attribute %s type %d kind %d components %d", a.name.c_str(), a.type, a.dim, a.n); A[c] = a; order.push_back(c);
}
static void delent(int k) {
  Ent x = E[k]; op("delete type %d ID %d", x.t, MEnt_ID(x.e)); E.erase(E.begin() + k);
  if (rnd(2)) MEnt_Delete(x.e, 0); else if (x.t == 0) MV_Delete(x.e, 0); else if (x.t == 1) ME_Delete(x.e, 0); else if (x.t == 2) MF_Delete(x.e, 0); else MR_Delete(x.e, 0);
}
static void hist(int len, int ne, int na) {
  newcase(); m = MESH_New(F1); A.clear(); order.clear(); E.clear(); nent = natt = 0;
  for (int k = 0; k < ne; k++) addent();
  for (int k = 0; k < na; k++) addatt();
  look(false);
  for (int s = 0; s < len; s++) {
    int r = rnd(100);
    if (r < 6) addent(); else if (r < 12 || order.empty()) addatt();
    else if (E.empty()) addent();
    else {
      Ent &x = E[rnd(E.size())]; int an = order[rnd(order.size())]; Att &a = A[an];
      if (r < 55) { if (fits(a, x)) setv(x, an); }
      else if (r < 57) { op("set %s everywhere", a.name.c_str()); for (auto &y : E) if (fits(a, y)) setv(y, an); }
      else if (r < 66) { op("clear %s on type %d ID %d", a.name.c_str(), x.t, MEnt_ID(x.e)); MEnt_Clear_AttVal(x.e, a.a); auto it = x.val.find(an); if (it != x.val.end()) { Val z; z.i = 0; z.d = 0; z.p = NULL; if (a.type >= VECTOR) z.v.assign(a.n, 0.0); it->second = z; } }
      else if (r < 75) { op("remove %s from type %d ID %d", a.name.c_str(), x.t, MEnt_ID(x.e)); MEnt_Rem_AttVal(x.e, a.a); x.val.erase(an); }
      else if (r < 78) { op("remove all from type %d ID %d", x.t, MEnt_ID(x.e)); MEnt_Rem_AllAttVals(x.e); x.val.clear(); }
      else if (r < 84) { op("clear %s everywhere", a.name.c_str()); MAttrib_Clear(a.a); for (auto &y : E) { auto it = y.val.find(an); if (it == y.val.end()) continue; Val z; z.i = 0; z.d = 0; z.p = NULL; if (a.type >= VECTOR) z.v.assign(a.n, 0.0); it->second = z; } }
      else if (r < 90) { op("delete attribute %s", a.name.c_str()); std::string nm = a.name; MAttrib_ptr old = a.a; MAttrib_Delete(a.a); for (auto &y : E) y.val.erase(an); A.erase(an); order.erase(std::find(order.begin(), order.end(), an)); CHECK(MESH_AttribByName(m, nm.c_str()) == NULL, "deleted attribute %s still found", nm.c_str()); (void)old; }
      else if (r < 97) delent(rnd(E.size()));
      else { Ent &y = E[rnd(E.size())]; for (int o : order) if (fits(A[o], x) && fits(A[o], y)) { setv(x, o); setv(y, o); } }
    }
    look(rnd(6) == 0);
  }
  look(true);
  endcase(); MESH_Delete(m);
}
void run() {
  quiet(); long r = 0;
  while (timeleft() || r < 300) { r++; if (r % 40 == 7) hist(60, 40 + rnd(80), 12 + rnd(20)); else hist(5 + rnd(30), rnd(14), rnd(7)); }
}
