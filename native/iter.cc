// executable contract of iteration with List_Next_Entry while the list is edited
#include "h.h"
extern "C" {
#include "List.h"
int List_Size_Raw(List_ptr);
}
static void *ptr(long v) { return (void *)(v * 8); }
void run() {
  long r = 0;
  while (timeleft() || r < 20000) {
    newcase(); r++;
    int n = rnd(9); std::vector<long> raw; List_ptr l = List_New(rnd(5)); long nextv = 1;
    for (int i = 0; i < n; i++) { List_Add(l, ptr(nextv)); raw.push_back(nextv++); }
    op("list of %d", n);
    for (int i = 0; i < n; i++) if (rnd(4) == 0 && raw[i]) { op("Rem(%ld)", raw[i]); List_Rem(l, ptr(raw[i])); raw[i] = 0; }
    int idx = 0; size_t pos = 0; void *e; int steps = 0; long cur = 0;
    while (1) {
      e = List_Next_Entry(l, &idx);
      size_t q = pos; while (q < raw.size() && !raw[q]) q++;
      if (q >= raw.size()) { op("Next=end"); CHECK(e == 0, "Next_Entry returns %ld after the last entry", (long)e / 8); break; }
      CHECK(e == ptr(raw[q]), "Next_Entry returns %ld, the next remaining entry is %ld", (long)e / 8, raw[q]);
      cur = raw[q]; pos = q + 1; op("Next=%ld", cur);
      if (++steps > 60) break;
      int k = rnd(4);
      while (k--) {
        int o = rnd(10);
        if (o < 3) { for (auto &v : raw) if (v && v == cur) { op("Rem(current %ld)", cur); CHECK(List_Rem(l, ptr(cur)) == 1, "Rem"); v = 0; break; } }
        else if (o < 5) { if (raw.empty()) continue; int i = rnd(raw.size()); if (raw[i]) { op("Rem(%ld)", raw[i]); CHECK(List_Rem(l, ptr(raw[i])) == 1, "Rem"); raw[i] = 0; } }
        else if (o == 5) { int c = 0; for (long v : raw) c += v != 0; if (!c) continue; int i = rnd(c), j = -1; op("Remi(%d)", i); CHECK(List_Remi(l, i) == 1, "Remi"); for (auto &v : raw) if (v && ++j == i) { v = 0; break; } }
        else if (o == 6 && steps < 40) { op("Add(%ld)", nextv); List_Add(l, ptr(nextv)); raw.push_back(nextv++); }
        else if (o == 7 && steps < 40) { op("ChknAdd(%ld)", nextv); List_ChknAdd(l, ptr(nextv)); raw.push_back(nextv++); }
        else if (o == 8) { if (raw.empty()) continue; int i = rnd(raw.size()); if (raw[i]) { op("Replace(%ld,%ld)", raw[i], nextv); CHECK(List_Replace(l, ptr(raw[i]), ptr(nextv)) == 1, "Replace"); raw[i] = nextv++; } }
        else if (o == 9) { if (raw.size() > 40) continue; List_ptr c = List_New(0); int m = rnd(4); std::vector<long> add; for (int i = 0; i < m; i++) { List_Add(c, ptr(nextv)); add.push_back(nextv++); } if (m > 1) { List_Remi(c, 1); add[1] = 0; } op("Cat(%d)", m); List_Cat(l, c); List_Delete(c); raw.insert(raw.end(), add.begin(), add.end()); }
      }
    }
    List_Delete(l); endcase();
  }
  printf("BOUND random iterations over lists of up to 8 initial entries with up to 3 edits between steps\n");
}
