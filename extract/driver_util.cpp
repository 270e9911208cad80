// instantiates the templates whose bodies are put under contract (parsed only, never linked)
#include <bats.hpp>
using VS = std::vector<size_t>; using VI = std::vector<int>;
namespace bu = bats::util;
void use(VS& p, VS& q, VS& r, VI& d, VI& e, const VI& cd, const VS& cp, std::vector<VI>& vv){
  bu::fill_sortperm(cd, p); bu::sortperm(cd); bu::sortperm(cd.cbegin(), cd.cend()); bu::stable_sortperm(cd);
  bu::apply_perm(d.data(), e, cp); bu::apply_perm(d, cp); bu::apply_perm(p, cp); bu::apply_perm_swap(d, cp); bu::apply_iperm_swap(d, cp);
  bu::partial_perm(cp, 3); bu::sort_ind_by_perm(p, cp); bu::fill_partial_sortperm(cp, cp, p); bu::sort_ind_pair_by_perm(p, q, cp);
  bu::inv_perm(cp); bu::perm_inversions(cd); bu::perm_sign(cd); bats::identity_perm(3); bats::sort_indexes(cd); bats::find_perm_from_vector(cd);
  bats::perm_to_the_end(size_t(3), size_t(4)); bats::perm_to_the_end(cp, size_t(4)); bats::extension_perm(cp, size_t(7));
  bats::Kendall_tau(cp); bats::Kendall_tau(cp, cp);
  bu::intersect_sorted(cp, cp, p); bu::has_intersect_sorted(cp, cp); bu::intersect_sorted_lt(cp, cp, size_t(3), p); bu::has_intersect_sorted_lt(cp, cp, size_t(3));
  bu::sort_into(cd, d); bu::sort_sum_reduce(p, d, size_t(0), q, r, e); bu::find_sorted_lt(cp.cbegin(), cp.cend(), size_t(3)); bu::sorted_complement(cp, 5);
  bu::firstk(cd.cbegin(), cd.cend(), size_t(2)); bu::top_k(cd, size_t(2));
  bats::find_parent(p, 3); bats::k_choose_2(size_t(3)); bats::binom_to_inds(size_t(1), size_t(5));
  bats::filtration_sortperm(cd); bats::filtration_sortperm(vv);
  std::vector<bats::PersistencePair<int>> ps; bool b = bats::barcode_equality(ps, ps); (void)b;
  bats::PersistencePair<int> pp(0,1,2,3,4), p2; b = pp == p2; b = pp != p2; pp.length(); pp.get_dim(); pp.get_birth_ind(); pp.get_death_ind(); pp.get_birth(); pp.get_death(); pp.mid();
  bats::FlagComplex<bats::SimplicialComplex>(cp, size_t(3), size_t(2));
  std::vector<bats::filtered_edge<int>> fe; b = fe[0] < fe[1]; bats::FlagFiltration<bats::SimplicialComplex,int>(fe, size_t(3), size_t(2), 0);
  const bats::DataSet<int> ds; const bats::Euclidean mt; const bats::Matrix<int> pd(2,2);
  bats::RipsComplex<bats::SimplicialComplex>(ds, mt, 1, size_t(2)); bats::RipsComplex<bats::SimplicialComplex>(pd, 1, size_t(2));
  bats::RipsFiltration<bats::SimplicialComplex>(ds, mt, 1, size_t(2)); bats::RipsFiltration<bats::SimplicialComplex>(pd, 1, size_t(2));
  bats::SimplicialComplex sx(2), sy(1,2), sz(cp), s0; const bats::SimplicialComplex& cx = sx; sx.add(p); sx.add(VS{1}); sx.add_directed(cp); sx.add_recursive(p); sx.add_directed_recursive(p); sx.union_add(cx);
  cx.find_idx(cp); cx.ncells(); cx.ncells(1); cx.maxdim(); cx.get_simplex(0, 0); cx.get_simplices(1); cx.get_simplices(); cx.boundary(1, 0); cx.boundary_csc(1); cx.get_indices(cx, 1); cx.get_indices(cx); simplicial_union(cx, cx); intersection(cx, cx);
  bats::Filtration<int, bats::SimplicialComplex> fx(cx), fy(cx, vv); const auto& cf = fx; fx.add(1, p); fx.add_recursive(1, p); fx.add_directed(1, p); fx.union_add(cf); fx.update_filtration(vv); cf.sublevelset(1); cf.sortperm(); cf.maxdim(); cf.ncells(1); cf.complex(); cf.vals();
}
