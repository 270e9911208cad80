// instantiates the templates whose bodies are put under contract (parsed only, never linked)
#include <bats.hpp>
using F = ModP<int,3>;
template class SparseVector<F, size_t>;
using SV = SparseVector<F, size_t>;
using CM = ColumnMatrix<SV>;
using VS = std::vector<size_t>;
void use(SV& a, const SV& b, SV::tmp_type& t){
  a.axpy(F(1), b, t); a.axpy(F(1),b); a.getval(3); a.axpy(F(1), b, size_t(1), size_t(2), t); std::vector<F> cf; VS ix; a.axpy(b, cf, ix, t);
  bool q = (a == b) || (a != b); (void)q; a.nnz_intersection(b); a[ix]; a.kron(b, 3); a + b; a * F(1); a * b;
}
void usem(CM& A, const CM& B, const SV& x, SV::tmp_type& t, VS& p, std::vector<bool>& bl, std::vector<F>& cf, std::vector<SV>& cols){
  CM Z; CM Z2(2,3); CM Z3(cols); CM Z4(2,3,cols); CM Z5(2,3,F(1));
  B.nrow(); B.ncol(); A.cols(); B.cols(); A.set_nrow(3); B.getval(1,2); A.permute_rows(p); A.ipermute_rows(p);
  A.append_column(x); A.append_column(); A.append_row(); A.append_row(cf); A.append_sparse_row(x);
  A.insert_column(1); A.insert_column(1, x); A.insert_columns(p, cols); A.insert_row(1); A.insert_row(1, cf); A.insert_rows(p); A.insert_rows(p, cols); A.insert_sparse_rows(p, cols);
  A.erase_column(1); A.erase_column(); A.erase_final_columns(1); A.erase_initial_cols(1); A.erase_row(1); A.erase_row(); A.erase_rows(2); A.erase_row_unsafe(); A.erase_final_rows_unsafe(1); A.erase_initial_rows(1);
  A[0]; B[0]; B(0,0); bool q = A == B; (void)q; B.to_row_array(); B.submatrix(p,p); B.block(0,1,0,1); A.set_block(0,1,0,1,B); A.clear_rows(bl); A.clear_cols(bl); A.swap_rows(0,1); A.mix_rows(0,1,F(1),F(0),F(0),F(1));
  B.gemv(x); B.gemv(x,t); B * F(2); B * x; B * A; x * B; A + B; A += B; A - B; B.transpose(); B.T(); A.permute_cols(p); A.ipermute_cols(p); A.mix_cols(0,1,F(1),F(0),F(0),F(1)); A.permute(p,p);
  A.J_right_inplace(); A.J_right(); A.J_left_inplace(); A.J_left(); A.J_conjugation_inplace(); A.J_conjugation(); A.swap_cols(0,1); A.row_scale(cf); A.col_inv_scale(cf); B.nnz(); B.is_zero(); B.is_upper(); B.is_upper_invert(); B.is_lower(); B.is_reduced(); B.is_pivot_matrix(); B.is_EL(); B.is_EU(); B.is_ELhat(); B.is_EUhat(); CM::identity(3); direct_sum(A,B);
  l_solve(B, x); u_solve(B, x); u_inv(B); l_inv(B); u_solve(B,B); l_solve(B,B);
}
void user(CM& M, CM& U, CM& R, const CM& B, VS& v, std::vector<bool>& bl, bats::standard_reduction_flag sf, bats::extra_reduction_flag ef){
  bats::reduce_matrix_standard(M); bats::reduce_matrix_standard(M, U); bats::reduce_matrix_extra(M); bats::reduce_matrix_extra(M, U);
  bats::reduce_matrix(M); bats::reduce_matrix(M, sf); bats::reduce_matrix(M, ef); bats::reduce_matrix(M, U); bats::reduce_matrix(M, U, sf); bats::reduce_matrix(M, U, ef);
  bats::get_clearing_inds(v); bats::reduce_matrix_clearing(M, v, sf); bats::reduce_matrix_clearing(M, U, B, v, sf); bats::get_compression_inds(B);
  bats::reduce_matrix_compression(M, bl, sf); bats::reduce_matrix_compression(M, U, bl, sf); bats::remove_extra_cycles(B, U); bats::extract_basis_indices(B, v); bats::extract_basis_indices(B);
  bats::sparsify_basis(M, U);
}
using CCx = bats::ChainComplex<CM>; using RCCx = bats::ReducedChainComplex<CM>;
using FCCx = bats::FilteredChainComplex<int, CM>; using RFCCx = bats::ReducedFilteredChainComplex<int, CM>;
void userc(CCx& C, CCx& D, RCCx& R, const std::vector<VS>& pm, std::vector<VS>& ix, const VS& p, const SV& x, SV& y, bats::standard_reduction_flag sf, bats::extra_reduction_flag ef, bats::compute_basis_flag bf, bats::clearing_flag cf, bats::compression_flag mf){
  std::vector<CM> bd; CCx C0; CCx C1(size_t(2)); CCx C2(bd); C.maxdim(); C.dim(1); C.dim(); C.is_valid_complex(); C.subcomplex(ix); C.relative_complex(ix); C.permute_basis(1,p); C.permute_basis(pm); C.ipermute_basis(1,p); C.ipermute_basis(pm);
  RCCx R0; RCCx R1(C); RCCx R2(C,sf); RCCx R3(C,ef); RCCx R4(C,sf,bf); RCCx R5(C,ef,bf); RCCx R6(C,sf,cf); RCCx R7(C,sf,cf,bf); RCCx R8(C,sf,mf); RCCx R9(C,sf,mf,bf); RCCx E6(C,ef,cf); RCCx E7(C,ef,cf,bf); RCCx E8(C,ef,mf); RCCx E9(C,ef,mf,bf);
  R.initialize(C); R.hdim(1); R.betti(1); R.maxdim(); R.dim(1); R.update_reduction2(1); R.permute_matrices(1,p); R.permute_basis(pm); R.to_hom_basis(x,1); R.from_hom_basis(x,1); R.get_preferred_representative(1,1); R.find_preferred_representative(y,1); R.chain_preferred_representative(x,1); R.remove_extra_cycles(); R.sparsify_basis();
}
void userf(const FCCx& C, FCCx& D, RFCCx& R, const std::vector<std::vector<int>>& nv, const bats::PersistencePair<int>& pp, bats::standard_reduction_flag sf, bats::compute_basis_flag bf, bats::extra_reduction_flag ef, bats::clearing_flag cf, bats::compression_flag mf){
  bats::union_find_pairs(C); RFCCx R0; RFCCx R1(C); RFCCx R2(C,sf); RFCCx R3(C,sf,bf); RFCCx R4(C,sf,cf); RFCCx R5(C,sf,cf,bf); RFCCx R6(C,sf,mf); RFCCx R7(C,sf,mf,bf); RFCCx R8(C,ef); RFCCx R9(C,ef,bf); RFCCx E4(C,ef,cf); RFCCx E5(C,ef,cf,bf); RFCCx E6(C,ef,mf); RFCCx E7(C,ef,mf,bf); R.persistence_pairs(1); R.persistence_pairs_vec(1); R.representative(pp); R.update_filtration(nv); D.update_filtration(nv); R.maxdim(); R.dim(1); R.hdim(1);
}
using ChM = bats::ChainMap<CM>;
void userh(ChM& f, const RCCx& C, const RCCx& D){ bats::induced_map(f, C, D, 1); ChM g(f); }
template class CSCMatrix<F, size_t>;
using CSC = CSCMatrix<F, size_t>;
void usecsc(CSC& C, const CSC& A, const CSC& B, const VS& p, const VS& q, const std::vector<F>& v, const CSCMatrix<int,size_t>& Ai){ CM M(Ai);
  CSC C0; CSC C1(2,3,p,q,v); CSC C2(p,q,v); A.getval(0,0); A.submatrix(p,q); block_select(A, p, q, size_t(3), C); gemm(A,B,C); A * B; sum(A,B,C); sum(F(1),A,B,C); trilu(A,B,C); A.get_colptr(); A.get_rowind(); A.get_val(); A.nrow(); A.ncol();
}

void usefact(SparseFact<SV>& S, const SparseFact<SV>& K, const CM& A, const CM& B){
  LEUP(A); PLEU(A); UELP(A); PUEL(A); LQU(A); UQL(A); inv(A); LEUP_inplace(S); PLEU_inplace(S); UELP_inplace(S); PUEL_inplace(S); LQU_inplace(S); SparseFact<SV> S0;
  K.LEUP_prod(); K.PLEU_prod(); K.UELP_prod(); K.PUEL_prod(); K.LQU_prod(); K.UQL_prod(); EL_L_commute(A,B); L_EL_commute(A,B); U_EU_commute(A,B); EU_U_commute(A,B);
}
using Dgm = bats::Diagram<size_t, CM>;
void useq(const Dgm& D, const std::vector<CM>& mats, const std::vector<bats::bar>& bs){
  bats::barcode_form_leftright(D); bats::barcode_form_rightleft(D); bats::barcode_form_divide_conquer(D); bats::barcode_from_barcode_form(mats, D); bats::bars_to_pairs(bs, size_t(1));
  bats::barcode(D, size_t(0), bats::flags::rightward()); bats::barcode(D, size_t(0), bats::flags::leftward()); bats::barcode(D, size_t(0), bats::flags::divide_conquer()); bats::barcode(D, size_t(0));
}
using DGx = bats::DGVectorSpace<CM>; using RDGx = bats::ReducedDGVectorSpace<CM>; using CoCx = bats::CochainComplex<CM>; using RCoCx = bats::ReducedCochainComplex<CM>;
using FDGx = bats::FilteredDGVectorSpace<int, CM>; using RFDGx = bats::ReducedFilteredDGVectorSpace<int, CM>;
void userdg(DGx& C, RDGx& R, const std::vector<VS>& pm, const VS& p, const SV& x, SV& y, bats::standard_reduction_flag sf, bats::extra_reduction_flag ef, bats::compute_basis_flag bf, bats::clearing_flag cf, bats::compression_flag mf){
  C.maxdim(); C.dim(1); C.permute_basis(1,p); C.permute_basis(pm); C.ipermute_basis(1,p); C.ipermute_basis(pm); C.is_differential(1);
  RDGx R0; RDGx R1(C); RDGx R2(C,sf); RDGx R3(C,ef); RDGx R4(C,sf,bf); RDGx R5(C,ef,bf); RDGx R6(C,sf,cf); RDGx R7(C,sf,cf,bf); RDGx R8(C,sf,mf); RDGx E6(C,ef,cf); RDGx E7(C,ef,cf,bf); RDGx E8(C,ef,mf);
  R.initialize(C); R.set_indices(); R.hdim(1); R.betti(1); R.maxdim(); R.dim(1); R.dg_offset(); R.to_hom_basis(x,1); R.from_hom_basis(x,1); R.get_preferred_representative(1,1); R.find_preferred_representative(y,1); R.chain_preferred_representative(x,1); R.update_reduction2(1);
}
void usercoc(CoCx& C, RCoCx& R, const std::vector<VS>& pm, const VS& p, const SV& x, SV& y, bats::standard_reduction_flag sf, bats::extra_reduction_flag ef, bats::compute_basis_flag bf, bats::clearing_flag cf, bats::compression_flag mf){
  C.maxdim(); C.permute_basis(1,p); C.permute_basis(pm); C.ipermute_basis(1,p); C.ipermute_basis(pm);
  RCoCx R0; RCoCx R1(C); RCoCx R2(C,sf); RCoCx R3(C,ef); RCoCx R4(C,sf,bf); RCoCx R5(C,ef,bf); RCoCx R6(C,sf,cf); RCoCx R8(C,sf,mf); RCoCx E6(C,ef,cf); RCoCx E8(C,ef,mf);
  R.hdim(1); R.maxdim(); R.to_hom_basis(x,1); R.from_hom_basis(x,1); R.get_preferred_representative(1,1); R.find_preferred_representative(y,1); R.chain_preferred_representative(x,1);
}
void useext(const CM& R, const VS& p, const std::vector<int>& v){ bats::extract_pairs(R, p, v, v, size_t(1)); }
void userfdg(FDGx& F, RFDGx& R, const std::vector<CM>& D, const std::vector<std::vector<int>>& v){
  FDGx F1(D, v, -1); F._set_perms(); F.dim(1); F.update_filtration(v);
  RFDGx R1(F); RFDGx R2(F, bats::standard_reduction_flag()); R.persistence_pairs(1); R.persistence_pairs_vec(1); R.maxdim(); R.dim(1); R.hdim(1); R.update_filtration(v);
}
