// P11 (T_LAYOUT): make_tiled / undo_tiling   P12 (T_VIEW): tile views and iterate_tiles
#include "prelude.hpp"
#include "common.hpp"
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
#include <boost/align/aligned_allocator.hpp>

namespace {
typedef std::vector<memory_layout::tiling_info_dim> info_t;

template <std::size_t dim> struct shape {
  std::array<std::size_t, dim> ext, tile, count;
  std::size_t total = 1, tile_size = 1, tiles = 1;
  info_t info;
  std::string text;
  shape(mon::rng &r) {
    static const std::size_t cap[] = {0, 300, 1600, 2400, 3000, 3000};
    // extents, tiles and tile counts that need more than 16 bits
    bool huge = r.chance(1, 250);
    std::size_t longest = r.in(0, dim - 1), kind = r.in(0, 2);
    for (;;) {
      total = tile_size = tiles = 1;
      for (std::size_t d = 0; d < dim; d++) {
        if (huge) {
          std::size_t big = 65536 + r.in(1, 3000);
          tile[d] = d != longest ? 1 : kind == 0 ? big : kind == 1 ? 1 : r.in(200, 300);
          count[d] = d != longest ? r.in(1, 2) : kind == 0 ? 1 : kind == 1 ? big : r.in(330, 350);
          ext[d] = tile[d] * count[d];
          total *= ext[d];
          tile_size *= tile[d];
          tiles *= count[d];
          continue;
        }
        tile[d] = r.chance(1, 5) ? 1 : r.in(1, dim <= 2 ? 9 : 4);
        count[d] = r.chance(1, 5) ? 1 : r.in(1, dim <= 2 ? 9 : 4);
        ext[d] = tile[d] * count[d];
        total *= ext[d];
        tile_size *= tile[d];
        tiles *= count[d];
      }
      if (huge || total <= cap[dim])
        break;
    }
    for (std::size_t d = 0; d < dim; d++) {
      memory_layout::tiling_info_dim t;
      t.tile_size_dir = tile[d];
      t.stride = ext[d];
      info.push_back(t);
      text += mon::fmt("%s%zu/%zu", d ? " x " : "", ext[d], tile[d]);
    }
  }
  std::uint64_t id() const {
    std::uint64_t x = dim;
    for (std::size_t d = 0; d < dim; d++)
      x = mon::h(x, ext[d] * 1000 + tile[d]);
    return x;
  }
  typedef std::array<std::size_t, dim> idx;
  static bool next(idx &i, const idx &lim) { // row-major successor
    for (std::size_t d = dim; d-- > 0;) {
      if (++i[d] < lim[d])
        return true;
      i[d] = 0;
    }
    return false;
  }
  static std::size_t flat(const idx &i, const idx &lim) {
    std::size_t f = 0;
    for (std::size_t d = 0; d < dim; d++)
      f = f * lim[d] + i[d];
    return f;
  }
  // position in tiled layout of the element with tile index t, in-tile index e
  std::size_t tiled_pos(const idx &t, const idx &e) const { return flat(t, count) * tile_size + flat(e, tile); }
  std::size_t plain_pos(const idx &t, const idx &e) const {
    idx g;
    for (std::size_t d = 0; d < dim; d++)
      g[d] = t[d] * tile[d] + e[d];
    return flat(g, ext);
  }
};

template <typename T> T make(std::size_t i) { return (T)(i + 1); }
template <> std::string make<std::string>(std::size_t i) { return "element number " + std::to_string(i + 1); }
template <> unsigned char make<unsigned char>(std::size_t i) { return (unsigned char)(i * 7 + i / 251 + 1); }

template <std::size_t dim, typename V> void layout(mon::rng &r, const char *type) {
  typedef typename V::value_type T;
  shape<dim> s(r);
  mon::current(mon::fmt("make_tiled/undo_tiling dim=%zu extent/tile %s of %s", dim, s.text.c_str(), type));
  V org(s.total);
  for (std::size_t i = 0; i < s.total; i++)
    org[i] = make<T>(i);
  const V org0 = org;
  const info_t info0 = s.info;
  V tiled = memory_layout::make_tiled<dim>(org, s.info);
  if (tiled.size() != s.total)
    return mon::fail("make_tiled:size", mon::fmt("%zu elements instead of %zu", tiled.size(), s.total));
  if (org != org0)
    return mon::fail("make_tiled:operand", "the original array was modified");
  typename shape<dim>::idx t{}, e{};
  do {
    e.fill(0);
    do {
      if (tiled[s.tiled_pos(t, e)] != org0[s.plain_pos(t, e)])
        return mon::fail("make_tiled:value", mon::fmt("position %zu of the tiled array does not hold element %zu",
                                                      s.tiled_pos(t, e), s.plain_pos(t, e)));
    } while (shape<dim>::next(e, s.tile));
  } while (shape<dim>::next(t, s.count));
  const V tiled0 = tiled;
  V back = memory_layout::undo_tiling<dim>(tiled, s.info);
  if (back.size() != s.total)
    return mon::fail("undo_tiling:size", mon::fmt("%zu elements instead of %zu", back.size(), s.total));
  if (tiled != tiled0)
    return mon::fail("undo_tiling:operand", "the tiled array was modified");
  for (std::size_t i = 0; i < s.total; i++)
    if (back[i] != org0[i])
      return mon::fail("undo_tiling:value", mon::fmt("element %zu was not restored", i));
  // the row-major position of an index, for both kinds of array
  for (int k = 0; k < 4; k++) {
    std::size_t i1[dim], x1[dim];
    std::array<std::size_t, dim> i2, x2;
    std::size_t want = 0;
    for (std::size_t d = 0; d < dim; d++) {
      x1[d] = x2[d] = s.ext[d];
      i1[d] = i2[d] = k == 0 ? s.ext[d] - 1 : r.in(0, s.ext[d] - 1);
      want = want * s.ext[d] + i1[d];
    }
    std::size_t a = memory_layout::flat_index<dim>(i1, x1), b = memory_layout::flat_index<dim>(i2, x2);
    if (a != want || b != want)
      return mon::fail("flat_index", mon::fmt("position %zu (array) / %zu (std::array) instead of %zu", a, b, want));
  }
  mon::observed(2 * s.total);
  mon::count("elements", 2 * s.total);
  mon::count(mon::fmt("dim%zu", dim).c_str());
  mon::distinct(s.id());
  mon::sample(mon::fmt("extent/tile %s of %s", s.text.c_str(), type));
}

template <std::size_t... I, typename V, typename A>
auto call(V &v, const A &a, std::index_sequence<I...>) -> decltype(v(a[I]...)) {
  return v(a[I]...);
}

// everything a view shows about tile t
template <std::size_t dim, typename View, typename Vec>
bool check_view(const shape<dim> &s, View &v, Vec &tiled, const typename shape<dim>::idx &t, mon::rng &r) {
  if (v.size() != s.tile_size)
    return mon::fail("view:size", mon::fmt("size() is %zu instead of %zu", (std::size_t)v.size(), s.tile_size)), false;
  for (std::size_t d = 0; d < dim; d++) {
    if (v.get_tile_index()[d] != t[d])
      return mon::fail("view:tile_index", mon::fmt("tile index in direction %zu is %zu instead of %zu", d,
                                                   (std::size_t)v.get_tile_index()[d], t[d])), false;
    if (v.get_tiles_dir()[d] != s.count[d])
      return mon::fail("view:tiles_dir", mon::fmt("tiles in direction %zu: %zu instead of %zu", d,
                                                  (std::size_t)v.get_tiles_dir()[d], s.count[d])), false;
  }
  typename shape<dim>::idx e{};
  std::size_t off = 0;
  do {
    auto *want = &tiled[s.tiled_pos(t, e)];
    if (&v[off] != want)
      return mon::fail("view:offset", mon::fmt("offset %zu addresses element %td instead of %zu", off,
                                               &v[off] - tiled.data(), s.tiled_pos(t, e))), false;
    if (&v[e] != want)
      return mon::fail("view:array", mon::fmt("index array with flat offset %zu addresses the wrong element", off)), false;
    if (&call(v, e, std::make_index_sequence<dim>()) != want)
      return mon::fail("view:coordinates", mon::fmt("coordinates with flat offset %zu address the wrong element", off)), false;
    if (v.flat_index(e) != off)
      return mon::fail("view:flat_index", mon::fmt("flat_index is %zu instead of %zu", (std::size_t)v.flat_index(e), off)), false;
    off++;
  } while (shape<dim>::next(e, s.tile));
  mon::observed(3 * off);
  // a write through the view changes that element and nothing else
  if (s.total * s.tiles > 20000000 && s.tiles > 50 && !r.chance(50, s.tiles))
    return true; // for a few of very many views
  for (auto &x : e)
    x = 0;
  for (std::size_t d = 0; d < dim; d++)
    e[d] = r.in(0, s.tile[d] - 1);
  Vec before = tiled;
  typename Vec::value_type nv = (typename Vec::value_type)-4711;
  int how = (int)r.in(0, 2);
  if (how == 0)
    v[shape<dim>::flat(e, s.tile)] = nv;
  else if (how == 1)
    v[e] = nv;
  else
    call(v, e, std::make_index_sequence<dim>()) = nv;
  std::size_t p = s.tiled_pos(t, e);
  for (std::size_t i = 0; i < tiled.size(); i++)
    if (i != p ? tiled[i] != before[i] : tiled[i] != nv)
      return mon::fail("view:write", mon::fmt("writing element %zu through a view changed element %zu", p, i)), false;
  tiled[p] = before[p];
  return true;
}

template <std::size_t dim, typename V> void views(mon::rng &r, const char *type) {
  typedef typename V::value_type T;
  shape<dim> s(r);
  mon::current(mon::fmt("iterate_tiles/tile_view dim=%zu extent/tile %s of %s", dim, s.text.c_str(), type));
  V tiled(s.total);
  for (std::size_t i = 0; i < s.total; i++)
    tiled[i] = make<T>(i);
  tiled.shrink_to_fit();
  typename shape<dim>::idx t{};
  std::size_t visits = 0;
  bool more = true;
  typedef memory_layout::tile_view<dim, T, typename V::allocator_type> view_t;
  std::vector<std::unique_ptr<view_t>> kept; // some views outlive their visit
  std::vector<typename shape<dim>::idx> kept_t;
  const std::size_t at = r.chance(1, 4) ? r.in(1, s.tiles) : 0, stop = r.chance(1, 5) ? r.in(1, s.tiles) : 0;
  if (stop) { // an exception of the visitor ends the iteration and arrives
    struct stopped {};
    bool arrived = false;
    std::size_t n = 0;
    try {
      memory_layout::iterate_tiles<dim>(tiled, s.info, [&](auto) {
        if (++n == stop)
          throw stopped();
      });
    } catch (const stopped &) {
      arrived = true;
    }
    if (!arrived || n != stop)
      return mon::fail("iterate:exception", mon::fmt("an exception in visit %zu: %s, %zu visits", stop, arrived ? "arrived" : "lost", n));
    mon::count("stopped");
  }
  memory_layout::iterate_tiles<dim>(tiled, s.info, [&](auto view) {
    if (mon::failed())
      return;
    if (visits + 1 == at) { // the visitor iterates itself
      typename shape<dim>::idx u{};
      std::size_t n = 0;
      memory_layout::iterate_tiles<dim>(tiled, s.info, [&](auto inner) {
        if (n++ < s.tiles && !mon::failed())
          for (std::size_t d = 0; d < dim; d++)
            if (inner.get_tile_index()[d] != u[d])
              mon::fail("iterate:nested", mon::fmt("visit %zu of an iteration inside a visit gets the wrong tile", n));
        shape<dim>::next(u, s.count);
      });
      if (n != s.tiles)
        return mon::fail("iterate:nested", mon::fmt("%zu visits inside a visit instead of %zu", n, s.tiles));
      mon::count("nested");
    }
    if (!more)
      return mon::fail("iterate:extra", mon::fmt("the visitor was called more than %zu times", s.tiles));
    visits++;
    // the views arrive in row-major order of the tile index
    if (!check_view<dim>(s, view, tiled, t, r))
      return;
    if (kept.size() < 3 && r.chance(1, 3)) {
      kept.emplace_back(new view_t(view));
      kept_t.push_back(t);
    }
    more = shape<dim>::next(t, s.count);
  });
  if (mon::failed())
    return;
  if (visits != s.tiles)
    return mon::fail("iterate:missing", mon::fmt("the visitor was called for %zu of %zu tiles", visits, s.tiles));
  for (std::size_t i = 0; i < kept.size(); i++)
    if (!check_view<dim>(s, *kept[i], tiled, kept_t[i], r))
      return;
  mon::count("views_kept", kept.size());
  // a view created directly
  for (int k = 0; k < 3; k++) {
    typename shape<dim>::idx u;
    std::size_t raw[dim];
    for (std::size_t d = 0; d < dim; d++)
      raw[d] = u[d] = r.in(0, s.count[d] - 1);
    std::unique_ptr<memory_layout::tile_view<dim, T, typename V::allocator_type>> v;
    {
      info_t copy = s.info; // a view does not depend on the description staying alive
      v.reset(new memory_layout::tile_view<dim, T, typename V::allocator_type>(tiled, raw, copy));
      for (auto &c : copy)
        c.stride = c.tile_size_dir = 1;
    }
    for (std::size_t d = 0; d < dim; d++)
      raw[d] = 0;
    if (!check_view<dim>(s, *v, tiled, u, r))
      return;
    auto w = *v; // copies address the same tile
    if (!check_view<dim>(s, w, tiled, u, r))
      return;
  }
  mon::count("tiles_visited", visits);
  mon::count(mon::fmt("dim%zu", dim).c_str());
  mon::distinct(s.id());
  mon::sample(mon::fmt("extent/tile %s of %s: %zu tiles", s.text.c_str(), type, visits));
}
typedef boost::alignment::aligned_allocator<double, 32> al;
} // namespace

void run_case(std::uint64_t idx, mon::rng &r) {
#ifdef T_LAYOUT
#define F layout
#else
#define F views
#endif
  switch (idx % 9) {
  case 0: F<1, std::vector<double>>(r, "double"); break;
  case 1: F<2, std::vector<double, al>>(r, "aligned double"); break;
  case 2: F<2, std::vector<int>>(r, "int"); break;
  case 3: F<3, std::vector<double>>(r, "double"); break;
  case 4: F<3, std::vector<float>>(r, "float"); break;
  case 5: F<4, std::vector<double>>(r, "double"); break;
#ifdef T_LAYOUT
  case 6: F<2, std::vector<std::string>>(r, "string"); break;
  case 7: F<3, std::vector<unsigned char>>(r, "byte"); break;
#else
  case 6: F<2, std::vector<float>>(r, "float"); break;
  case 7: F<3, std::vector<long long>>(r, "long long"); break;
#endif
  default: F<5, std::vector<int>>(r, "int"); break;
  }
}
