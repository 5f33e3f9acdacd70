// executable contract of List.c: every operation against a sequence model (raw slots, blank = 0)
#include "h.h"
extern "C" {
#include "List.h"
int List_Size_Raw(List_ptr);
}
typedef std::vector<long> Seq;
static int e2i(void *p) { return (int)((long)p / 8); }
static void *ptr(long v) { return (void *)(v * 8); }
static Seq live(const Seq &raw) { Seq s; for (long v : raw) if (v) s.push_back(v); return s; }
struct L { List_ptr l; Seq raw; };
static std::string str(const Seq &s) { std::string r; for (long v : s) r += std::to_string(v) + " "; return r; }
static void verify(L &a) {
  Seq s = live(a.raw);
  CHECK(List_Num_Entries(a.l) == (int)s.size(), "Num_Entries %d, expected %zu", List_Num_Entries(a.l), s.size());
  for (size_t i = 0; i < s.size(); i++) { void *e = List_Entry(a.l, i); CHECK(e == ptr(s[i]), "Entry(%zu) = %ld, expected %ld of [%s]", i, (long)e / 8, s[i], str(s).c_str()); }
  for (long v = 1; v <= 7; v++) {
    int p = -1; for (size_t i = 0; i < s.size() && p < 0; i++) if (s[i] == v) p = i;
    CHECK(!!List_Contains(a.l, ptr(v)) == (p >= 0), "Contains(%ld)", v);
    CHECK(List_Locate(a.l, ptr(v)) == p, "Locate(%ld) = %d, expected %d of [%s]", v, List_Locate(a.l, ptr(v)), p, str(s).c_str());
  }
  int idx = 0; size_t k = 0; void *e;
  while ((e = List_Next_Entry(a.l, &idx))) { CHECK(k < s.size() && e == ptr(s[k]), "iteration step %zu of [%s]", k, str(s).c_str()); k++; }
  CHECK(k == s.size(), "iteration ends after %zu of %zu", k, s.size());
  CHECK(List_Entry(a.l, s.size()) == 0, "Entry beyond the end");
  CHECK(List_Size_Raw(a.l) >= (int)s.size(), "Size_Raw");
  int nr = List_Size_Raw(a.l); size_t q = 0;
  for (int i = 0; i < nr; i++) { void *r = List_Entry_Raw(a.l, i); if (r) { CHECK(q < s.size() && r == ptr(s[q]), "Entry_Raw(%d)", i); q++; } }
  CHECK(q == s.size(), "raw entries");
}
static int cmp(const void *a, const void *b) { long x = *(long *)a, y = *(long *)b; return x < y ? -1 : x > y; }
static bool sorted(const Seq &s) { for (size_t i = 1; i < s.size(); i++) if (s[i - 1] > s[i]) return false; return true; }
static int at(const Seq &raw, int i) { int c = -1; for (size_t k = 0; k < raw.size(); k++) if (raw[k] && ++c == i) return k; return raw.size(); }
static const int NOP = 15;
static void step(L &a, L &b, int o, long v, int i) {
  Seq s = live(a.raw); int n = s.size(); Seq &w = a.raw;
  if (n > 200) o = 12;
  switch (o) {
  case 0: op("Add(%ld)", v); CHECK(List_Add(a.l, ptr(v)) == a.l, "Add result"); w.push_back(v); break;
  case 1: { op("ChknAdd(%ld)", v); CHECK(List_ChknAdd(a.l, ptr(v)) == a.l, "ChknAdd result"); if (std::find(w.begin(), w.end(), v) == w.end()) w.push_back(v); break; }
  case 2: { i = n ? i % (n + 1) : 0; op("Inserti(%ld,%d)", v, i); CHECK(List_Inserti(a.l, ptr(v), i) == a.l, "Inserti result"); s.insert(s.begin() + i, v);
      int nr = List_Size_Raw(a.l); Seq r; for (int k = 0; k < nr; k++) r.push_back((long)List_Entry_Raw(a.l, k) / 8); CHECK(live(r) == s, "Inserti(%ld,%d): [%s] instead of [%s]", v, i, str(live(r)).c_str(), str(s).c_str()); w = r; break; }
  case 3: case 4: { long t = n ? (o == 3 ? s[i % n] : 1 + i % 7) : 1 + i % 7; op("Insert(%ld,before %ld)", v, t);
      CHECK(List_Insert(a.l, ptr(v), ptr(t)) == a.l, "Insert result"); auto it = std::find(s.begin(), s.end(), t); if (it != s.end()) s.insert(it, v);
      int nr = List_Size_Raw(a.l); Seq r; for (int k = 0; k < nr; k++) r.push_back((long)List_Entry_Raw(a.l, k) / 8); CHECK(live(r) == s, "Insert(%ld,%ld): [%s] instead of [%s]", v, t, str(live(r)).c_str(), str(s).c_str()); w = r; break; }
  case 5: { op("Rem(%ld)", v); auto it = std::find(w.begin(), w.end(), v); int r = List_Rem(a.l, ptr(v)); CHECK(r == (it != w.end()), "Rem(%ld) returns %d", v, r); if (it != w.end()) *it = 0; break; }
  case 6: { i = n ? i % (n + 1) : 0; op("Remi(%d)", i); int r = List_Remi(a.l, i); CHECK(r == (i < n), "Remi(%d) returns %d", i, r); if (i < n) w[at(w, i)] = 0; break; }
  case 7: { op("Replace(%ld,%ld)", v, 1 + (long)(i % 7)); auto it = std::find(w.begin(), w.end(), v); int r = List_Replace(a.l, ptr(v), ptr(1 + i % 7)); CHECK(r == (it != w.end()), "Replace returns %d", r); if (it != w.end()) *it = 1 + i % 7; break; }
  case 8: { if (!n) break; i %= n; op("Replacei(%d,%ld)", i, v); CHECK(List_Replacei(a.l, i, ptr(v)) == 1, "Replacei result"); w[at(w, i)] = v; break; }
  case 9: { op("Compress"); CHECK(List_Compress(a.l) == a.l, "Compress result"); w = s; CHECK(List_Size_Raw(a.l) == n, "raw size after Compress"); break; }
  case 10: { op("Cat(other [%s])", str(live(b.raw)).c_str()); CHECK(List_Cat(a.l, b.l) == a.l, "Cat result"); w.insert(w.end(), b.raw.begin(), b.raw.end()); verify(b); break; }
  case 11: { op("Copy"); List_ptr c = List_Copy(a.l); CHECK(c && c != a.l, "Copy result"); L k{c, w}; verify(k); List_Add(c, ptr(3)); verify(a); List_Rem(c, ptr(3)); verify(a); List_Delete(c); break; }
  case 12: { op("Copy;Delete"); List_ptr c = List_Copy(a.l); List_Delete(a.l); a.l = c; break; }
  case 13: { op("swap"); std::swap(a, b); break; }
  case 14: { if (sorted(s) && (i & 1)) { op("RemSorted(%ld)", v); bool in = std::find(s.begin(), s.end(), v) != s.end(); int r = List_RemSorted(a.l, ptr(v), e2i); CHECK(r == in, "RemSorted(%ld) returns %d of [%s]", v, r, str(s).c_str());
        if (in) { s.erase(std::find(s.begin(), s.end(), v)); int nr = List_Size_Raw(a.l); Seq rr; for (int k = 0; k < nr; k++) rr.push_back((long)List_Entry_Raw(a.l, k) / 8); CHECK(live(rr) == s, "RemSorted(%ld) leaves [%s] instead of [%s]", v, str(live(rr)).c_str(), str(s).c_str()); w = rr; } break; }
      op("Compress;Sort;Search(%ld)", v); List_Compress(a.l); List_Sort(a.l, n, sizeof(void *), cmp); w = s; std::sort(w.begin(), w.end());
      long key = v * 8; void *kp = &key; (void)kp; void *r = List_Search(a.l, &key, n, sizeof(void *), cmp); CHECK(r == (std::find(w.begin(), w.end(), v) != w.end() ? ptr(v) : 0), "Search(%ld)", v); break; }
  }
}
static void onecase(const std::vector<int> &code, int ini) {
  newcase(); op("New(%d)", ini);
  L a{List_New(ini), {}}, b{List_New(0), {}};
  CHECK(List_Num_Entries(a.l) == 0, "New list not empty");
  for (size_t k = 0; k + 2 < code.size(); k += 3) { step(a, b, code[k], code[k + 1], code[k + 2]); verify(a); }
  verify(b);
  List_Delete(a.l); List_Delete(b.l); endcase();
}
void run() {
  // exhaustive: all sequences of 3 operations from each of a set of starting lists with gaps, small values
  std::vector<std::vector<int>> starts;
  for (int n = 0; n <= 5; n++) for (int m = 0; m < (1 << n); m++) { std::vector<int> c; for (int i = 0; i < n; i++) { c.push_back(0); c.push_back(1 + i % 4); c.push_back(0); } // remove the positions in m
      int rem = 0; for (int i = 0; i < n; i++) if (m >> i & 1) { c.push_back(6); c.push_back(0); c.push_back(i - rem); rem++; } starts.push_back(c); }
  long cnt = 0;
  for (auto &st : starts) for (int o1 = 0; o1 < NOP; o1++) for (int v1 = 1; v1 <= 5; v1++) for (int i1 = 0; i1 <= 5; i1++) {
    if (cnt++ % NPART_ != PART_) continue;
    std::vector<int> c = st; c.push_back(o1); c.push_back(v1); c.push_back(i1);
    for (int k = 0; k < 2; k++) { auto d = c; d.push_back(rnd(NOP)); d.push_back(1 + rnd(5)); d.push_back(rnd(6)); onecase(d, k * 3); }
  }
  printf("BOUND every single operation (15 kinds, values 1..5, indices 0..5) on every list of up to 5 entries with every subset of them removed, followed by one random operation\n");
  long r = 0;
  while (timeleft()) { int n = 1 + rnd(r % 50 == 0 ? 300 : 25); std::vector<int> c; int kinds = rnd(3); for (int k = 0; k < n; k++) { int o = rnd(NOP); if (kinds == 0 && rnd(2)) o = rnd(2) * 5; if (kinds == 1 && rnd(3)) o = 0; c.push_back(o); c.push_back(1 + rnd(7)); c.push_back(rnd(12)); } onecase(c, rnd(10)); r++; }
  printf("BOUND random sequences of up to 300 operations on two lists\n");
}
