#include "gals_gen.h"
// C04: fields behave as independent node-indexed stores over any operation history (model-based).
template <int D, class E>
struct Machine {
  typedef gc::Array<G<D>, E> A;
  GridSpec s;
  std::unique_ptr<G<D>> grid, twin;  // two distinct grids of the same shape
  std::vector<std::unique_ptr<A>> arr;
  std::vector<const G<D> *> on;
  std::vector<std::vector<double>> model;  // per array: node-major, component-minor
  int nc;
  std::map<long, int> ord;

  void add(bool second)
  {
    const G<D> &g = second ? *twin : *grid;
    arr.emplace_back(new A(g));
    on.push_back(&g);
    model.push_back(std::vector<double>((size_t)s.slots() * nc, 0.0));
  }
  void verify(const char *op)
  {
    for (size_t q = 0; q < arr.size(); ++q) {
      const A &a = *arr[q];
      PBT_CHECK((long)a.size() == s.slots() && (long)a.data().size() == s.slots(), "size changed after " << op);
      PBT_CHECK(&a.grid() == on[q], "attached grid changed after " << op);
      for (int x = 0; x < 3; ++x) PBT_CHECK(a.numCells()[x] == s.n[x], "numCells changed after " << op);
      long pos = 0;
      s.padded([&](int i, int j, int k) {
        const E &e = a(i, j, k);
        for (int z = 0; z < nc; ++z)
          PBT_CHECK(bitEq(getc(e, z), model[q][pos * nc + z]), "after " << op << ": field " << q << " node (" << i << "," << j << "," << k << ") component " << z << " is "
                                                                        << getc(e, z) << ", expected " << model[q][pos * nc + z] << " for " << s.str());
        ++pos;
      });
    }
  }
  void run(Ctx &c)
  {
    s = genGrid(c, D, 0, 3, 12, 5, 3);
    grid = makeGrid<D>(s);
    twin = makeGrid<D>(s);
    nc = ncomp(E());
    PBT_NOTE(c, s.str() << " comps=" << nc << ":");
    long pos = 0;
    s.padded([&](int i, int j, int k) { ord[key(i, j, k)] = (int)pos++; });
    add(false);
    verify("construction");
    int len = 1 + (int)c.draw(24);
    int writes = 0, assigns = 0, afterAssign = 0;
    for (int t = 0; t < len; ++t) {
      size_t q = c.draw(arr.size());
      int node[3];
      for (int a = 0; a < 3; ++a) node[a] = c.integer(-s.p(a), s.n[a] - 1 + s.p(a));
      int o = ord[key(node[0], node[1], node[2])];
      switch (c.draw(10)) {
        case 0:
        case 1:
        case 2: {  // write one component or a whole element through one of the accessors
          int how = (int)c.draw(3);
          bool whole = nc == 0 || c.coin();
          E *slot = how == 0 ? &(*arr[q])(node[0], node[1], node[2]) : how == 1 ? &(*arr[q])(I3(node[0], node[1], node[2])) : &(*arr[q])[grid->index(node[0], node[1], node[2])];
          E v = *slot;
          for (int z = 0; z < nc; ++z) {
            if (!whole && z != (t % std::max(1, nc))) continue;
            double x = genStored(c);
            setc(v, z, x);
            model[q][(size_t)o * nc + z] = x;
            if (!whole) setc(*slot, z, x);
          }
          if (whole) *slot = v;
          ++writes;
          if (assigns) ++afterAssign;
          PBT_NOTE(c, " write" << how << " f" << q << "(" << node[0] << "," << node[1] << "," << node[2] << ")");
          verify("write");
          break;
        }
        case 3: {  // read through const accessors
          const A &a = *arr[q];
          const E &e1 = a(node[0], node[1], node[2]);
          const E &e2 = a(I3(node[0], node[1], node[2]));
          const E &e3 = a[on[q]->index(node[0], node[1], node[2])];
          for (int z = 0; z < nc; ++z) {
            double w = model[q][(size_t)o * nc + z];
            PBT_CHECK(bitEq(getc(e1, z), w) && bitEq(getc(e2, z), w) && bitEq(getc(e3, z), w), "read of field " << q << " at (" << node[0] << "," << node[1] << "," << node[2] << ") differs");
          }
          break;
        }
        case 4:
          if (arr.size() < 4) {
            add(c.coin());
            verify("new field");
            PBT_NOTE(c, " new");
          }
          break;
        case 5:
        case 6: {
          size_t r = c.draw(arr.size());
          *arr[q] = *arr[r];
          model[q] = model[r];
          if (q != r) ++assigns;
          PBT_NOTE(c, " f" << q << "=f" << r);
          verify("assignment");
          break;
        }
        case 9: {  // write every node, in some order of accessors
          double base = c.signedReal(100);
          int how = (int)c.draw(3);
          long at = 0;
          s.padded([&](int i, int j, int k) {
            E &slot = how == 0 ? (*arr[q])(i, j, k) : how == 1 ? (*arr[q])(I3(i, j, k)) : (*arr[q])[grid->index(i, j, k)];
            for (int z = 0; z < nc; ++z) {
              double x = base + 0.25 * (at * nc + z + 1);
              setc(slot, z, x), model[q][(size_t)at * nc + z] = x;
            }
            ++at;
          });
          ++writes;
          if (assigns) ++afterAssign;
          PBT_NOTE(c, " fill" << how << " f" << q);
          verify("filling");
          break;
        }
        case 7:
          if (arr.size() < 4) {
            arr.emplace_back(new A(*arr[q]));
            on.push_back(on[q]);
            model.push_back(std::vector<double>(model[q]));
            ++assigns;
            PBT_NOTE(c, " copy f" << q);
            verify("copy construction");
          }
          break;
        default:
          if (arr.size() > 1) {
            arr.erase(arr.begin() + q), on.erase(on.begin() + q), model.erase(model.begin() + q);
            PBT_NOTE(c, " destroy f" << q);
            verify("destruction of another field");
          }
      }
    }
    if (assigns) c.label("assignment/copy");
    if (afterAssign) c.label("write after assignment");
    c.label(PBT_STR(D << "D, " << nc << " components"));
    if (writes && assigns) c.nontrivial();
  }
};
template <int D, class E>
static void go(Ctx &c)
{
  Machine<D, E> m;
  m.run(c);
}
static void prop(Ctx &c)
{
  switch (c.draw(15)) {
    case 0: return go<1, double>(c);
    case 1: return go<1, V3>(c);
    case 2: return go<1, M3>(c);
    case 3: return go<1, gc::VecN<double, 0>>(c);
    case 4: return go<1, gc::VecN<double, 2>>(c);
    case 5: return go<2, double>(c);
    case 6: return go<2, V3>(c);
    case 7: return go<2, M3>(c);
    case 8: return go<2, gc::VecN<double, 1>>(c);
    case 9: return go<2, gc::VecN<double, 2>>(c);
    case 10: return go<3, double>(c);
    case 11: return go<3, V3>(c);
    case 12: return go<3, M3>(c);
    case 13: return go<3, gc::VecN<double, 2>>(c);
    default: return go<3, gc::VecN<double, 4>>(c);
  }
}
PBT_MAIN("C04", "random operation sequences (<=25) over up to 4 fields of one of 15 grid/element types, full contents compared with a map model after every mutation; non-trivial: at least one write and one assignment/copy", prop)
