#include "gals_gen.h"
// C02: the index mapping is a bijection from padded nodes onto storage; all accessors agree.
template <int D>
static void run(Ctx &c)
{
  bool big = c.coin(1, 12);
  GridSpec s = big ? genGrid(c, D, 0, 5, 2000, 60, 16) : genGrid(c, D, 0, 5, 64, 20, 8);
  auto g = makeGrid<D>(s);
  if (c.coin(1, 3)) {
    s.pad = (int)c.draw(6);
    genBox(c, s);
    g->setPadding(s.pad);
    g->generate(s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2]);
    c.label("regenerated");
  }
  PBT_NOTE(c, s.str());
  G<D> &gr = *g;
  const G<D> &cg = gr;
  gc::Array<G<D>, double> arr(gr);
  const gc::Array<G<D>, double> &carr = arr;
  gc::Array<G<D>, V3> varr(gr);
  const gc::Array<G<D>, V3> &cvarr = varr;
  PBT_CHECK((long)gr.size() == s.slots() && (long)arr.size() == s.slots(), "storage size " << gr.size() << "/" << arr.size() << " != " << s.slots() << " for " << s.str());
  std::vector<char> seen(gr.size(), 0);
  std::vector<int> junk = {INT_MAX, INT_MIN + 64, -1, 0, 1, 7, 1000000};
  int j1 = junk[c.draw(junk.size())], j2 = junk[c.draw(junk.size())];
  long cnt = 0;
  s.padded([&](int i, int j, int k) {
    size_t q = cg.index(i, j, k);
    PBT_CHECK(q < seen.size(), "index(" << i << "," << j << "," << k << ") = " << q << " outside storage of " << seen.size() << " for " << s.str());
    PBT_CHECK(!seen[q], "slot " << q << " shared by (" << i << "," << j << "," << k << ") and another node for " << s.str());
    seen[q] = 1, ++cnt;
    PBT_CHECK(cg.index(I3(i, j, k)) == q, "index(node id) differs at (" << i << "," << j << "," << k << ") for " << s.str());
    PBT_CHECK(&cg(i, j, k) == &cg(I3(i, j, k)) && &cg(i, j, k) == &gr.x(i, j, k), "grid accessors disagree at (" << i << "," << j << "," << k << ")");
    PBT_CHECK(&arr(i, j, k) == &arr(I3(i, j, k)) && &arr(i, j, k) == &arr[q] && &arr(i, j, k) == &carr(i, j, k) && &carr(I3(i, j, k)) == &carr[q] &&
                  &carr[q] == &arr[q] && &carr.data()[q] == &arr[q],
              "field accessors disagree at (" << i << "," << j << "," << k << ") for " << s.str());
    PBT_CHECK(&varr(i, j, k) == &varr(I3(i, j, k)) && &varr(i, j, k) == &varr[q] && &varr(i, j, k) == &cvarr(i, j, k) && &cvarr(I3(i, j, k)) == &cvarr[q] &&
                  &cvarr.data()[q] == &varr[q],
              "vector field accessors disagree at (" << i << "," << j << "," << k << ") for " << s.str());
    if (D < 3) {
      int jj = D == 1 ? j1 : j, kk = j2;
      PBT_CHECK(cg.index(i, jj, kk) == q && cg.index(I3(i, jj, kk)) == q, "index along a missing axis influences the slot: (" << i << "," << jj << "," << kk << ") for " << s.str());
      PBT_CHECK(&cg(i, jj, kk) == &cg(i, j, k) && &arr(i, jj, kk) == &arr[q] && &carr(I3(i, jj, kk)) == &arr[q], "accessors disagree along a missing axis for " << s.str());
    }
  });
  PBT_CHECK(cnt == (long)seen.size(), "not every slot is reachable for " << s.str());
  bool aniso = false;
  for (int a = 1; a < D; ++a) aniso |= s.n[a] != s.n[0];
  if (aniso) c.label("anisotropic");
  if (s.pad != 1) c.label("padding != 1");
  if (cnt > 1000) c.label(">1000 nodes");
  c.label(D == 1 ? "1D" : D == 2 ? "2D" : "3D");
  if (cnt > 8 && (aniso || s.pad != 1 || D < 3)) c.nontrivial();
}
static void prop(Ctx &c)
{
  switch (c.draw(3)) {
    case 0: return run<1>(c);
    case 1: return run<2>(c);
    default: return run<3>(c);
  }
}
PBT_MAIN("C02", "random grids, every padded node enumerated; non-trivial: more than 8 nodes and unequal counts, padding != 1 or a missing axis probed with foreign indices", prop)
