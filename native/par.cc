// which partitions a mesh has ghosts from and overlaps on, and how much it receives from each
#include "h.h"
#include "MSTK.h"
extern "C" {
#include "MSTK_private.h"
}
static Mesh_ptr m;
static int np, my;
static bool F[2][80][4], told;
static bool rec; static std::vector<int> gp; static std::vector<std::vector<unsigned>> cnt; static int cur, curknown;
static int want(int o, int p, int t) {
  if (t == MUNKNOWNTYPE || !told) return 0;
  if (t == MANYTYPE) return F[o][p][0] | F[o][p][1] | F[o][p][2] | F[o][p][3];
  if (t == MALLTYPE) return F[o][p][0] & F[o][p][1] & F[o][p][2] & F[o][p][3];
  return F[o][p][t];
}
static void build() { rec = true; gp.clear(); cnt.clear(); for (int p = 0; p < np; p++) if (want(0, p, MANYTYPE)) { gp.push_back(p); cnt.push_back(std::vector<unsigned>(4, 0)); } }
static void flags(int p) {
  for (int t = 0; t <= 6; t++) {
    CHECK(!!MESH_Has_Ghosts_From_Prtn(m, p, (MType)t) == !!want(0, p, t) && MESH_Has_Ghosts_From_Prtn(m, p, (MType)t) <= 1, "has ghosts from partition %d of kind %d: %u, expected %d", p, t, MESH_Has_Ghosts_From_Prtn(m, p, (MType)t), want(0, p, t));
    CHECK(!!MESH_Has_Overlaps_On_Prtn(m, p, (MType)t) == !!want(1, p, t) && MESH_Has_Overlaps_On_Prtn(m, p, (MType)t) <= 1, "has overlaps on partition %d of kind %d: %u, expected %d", p, t, MESH_Has_Overlaps_On_Prtn(m, p, (MType)t), want(1, p, t));
  }
}
static void record() {
  if (!rec) return;
  CHECK(MESH_Num_GhostPrtns(m) == gp.size(), "number of ghost partitions is %u, expected %zu", MESH_Num_GhostPrtns(m), gp.size());
  std::vector<unsigned> out(gp.size() + 2, 4711u); MESH_GhostPrtns(m, out.data());
  for (size_t i = 0; i < gp.size(); i++) CHECK((int)out[i] == gp[i], "ghost partition %zu is %u, expected %d", i, out[i], gp[i]);
  CHECK(out[gp.size()] == 4711u && out[gp.size() + 1] == 4711u, "ghost partitions written beyond their number");
  for (size_t i = 0; i < gp.size(); i++) for (int k = 0; k < 4; k++) {
    unsigned w = gp[i] == my ? 0 : cnt[i][k], g = MESH_Num_Recv_From_Prtn(m, gp[i], (MType)k);
    CHECK(g == w, "number of kind %d to receive from partition %d is %u, expected %u", k, gp[i], g, w);
  }
}
void run() {
  quiet();
  for (long it = 0; timeleft(); it++) {
    newcase();
    m = MESH_New(F1); np = rnd(8) == 0 ? 40 + rnd(40) : 1 + rnd(8); my = rnd(np);
    memset(F, 0, sizeof F); told = rec = false; cur = 0;
    if (rnd(6) == 0) { op("queries before the partition is set"); for (int p = 0; p < np; p++) flags(p); }
    op("partition %d of %d", my, np); MESH_Set_Prtn(m, my, np); told = true;
    CHECK((int)MESH_Prtn(m) == my, "own partition is %u, expected %d", MESH_Prtn(m), my);
    for (int p = 0; p < np; p++) flags(p);
    int n = 1 + rnd(30), last = -1;
    int dense = rnd(3);
    for (int i = 0; i < n; i++) {
      int p = dense == 0 ? rnd(np) : rnd(np < 4 ? np : 4) + (np > 8 && rnd(2) ? np - 4 : 0), t = rnd(5) == 0 ? 4 + rnd(3) : rnd(4), k = rnd(20);
      if (k < 6) {
        op("flag ghosts from %d kind %d", p, t); MESH_Flag_Has_Ghosts_From_Prtn(m, p, (MType)t);
        if (p != my && t != MUNKNOWNTYPE && t != MANYTYPE) for (int q = 0; q < 4; q++) if (t == MALLTYPE || t == q) F[0][p][q] = true;
      } else if (k < 11) {
        op("flag overlaps on %d kind %d", p, t); MESH_Flag_Has_Overlaps_On_Prtn(m, p, (MType)t);
        if (t != MUNKNOWNTYPE && t != MANYTYPE) for (int q = 0; q < 4; q++) if (t == MALLTYPE || t == q) F[1][p][q] = true;
      } else if (k < 12) { op("build record"); MESH_Init_Par_Recv_Info(m); build(); }
      else if (k < 13) { op("count ghost partitions"); unsigned g = MESH_Num_GhostPrtns(m); if (!rec) build(); CHECK(g == gp.size(), "number of ghost partitions is %u, expected %zu", g, gp.size()); }
      else if (k < 17) {
        if (!gp.empty() && rec && rnd(4)) p = gp[rnd((int)gp.size())];
        unsigned v = rnd(3) == 0 ? 3000000000u : rnd(1000); int kk = rnd(12) == 0 ? (rnd(2) ? -1 : 4) : rnd(4);
        op("set number from %d kind %d to %u", p, kk, v); MESH_Set_Num_Recv_From_Prtn(m, p, (MType)kk, v);
        if (!rec) build();
        for (size_t j = 0; j < gp.size(); j++) if (gp[j] == p && kk >= 0 && kk < 4) cnt[j][kk] = v;
      } else if (k < 18) {
        if (rec) { int kk = rnd(4) == 0 ? (rnd(2) ? -1 : 4) : rnd(4); op("ask number from %d kind %d", p, kk); unsigned w = 0; if (p != my && kk >= 0 && kk < 4) for (size_t j = 0; j < gp.size(); j++) if (gp[j] == p) w = cnt[j][kk];
          unsigned g = MESH_Num_Recv_From_Prtn(m, p, (MType)kk); CHECK(g == w, "number to receive is %u, expected %u", g, w); }
      } else if (k < 19) { if (rnd(2)) { op("mark current"); MESH_Mark_ParallelAdj_Current(m); cur = 1; } else { op("mark stale"); MESH_Mark_ParallelAdj_Stale(m); cur = 0; } curknown = 1; }
      else if (rnd(3) == 0) { my = rnd(np); op("partition now %d", my); MESH_Set_Prtn(m, my, np); }
      CHECK((int)MESH_Prtn(m) == my, "own partition is %u, expected %d", MESH_Prtn(m), my);
      CHECK(!!MESH_ParallelAdj_Current(m) == !!cur, "parallel adjacency current is %d, expected %d", MESH_ParallelAdj_Current(m), cur);
      flags(p); if (last >= 0) flags(last); last = p; flags(rnd(np)); record();
    }
    for (int p = 0; p < np; p++) flags(p);
    if (!rec) { MESH_Num_GhostPrtns(m); build(); } record();
    MESH_Delete(m);
    endcase();
  }
}
