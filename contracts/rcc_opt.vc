@unit la
@uses rcc_fcc rcc_e
@fn RFCC<F>::new(FCC<F>, StdRedFlag) as rfcc_new_s
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX
@ensures
  rf_of(*C, ret)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, StdRedFlag, BasisFlag) as rfcc_new_sb
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX
@ensures
  rf_of(*C, ret), hom_of(C.C, ret.RC)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, StdRedFlag, ClearFlag) as rfcc_new_sc
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX
@ensures
  rf_of(*C, ret)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, StdRedFlag, ClearFlag, BasisFlag) as rfcc_new_scb
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX
@ensures
  rf_of(*C, ret), hom_of(C.C, ret.RC)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, StdRedFlag, CompFlag) as rfcc_new_sm
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX
@ensures
  rf_of(*C, ret)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, StdRedFlag, CompFlag, BasisFlag) as rfcc_new_smb
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX
@ensures
  rf_of(*C, ret), hom_of(C.C, ret.RC)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, ExtraRedFlag) as rfcc_new_e
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX, forall|k: int| 0 <= k < C.C.boundary@.len() ==> (#[trigger] C.C.boundary@[k]).m < usize::MAX
@ensures
  rf_of(*C, ret)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, ExtraRedFlag, BasisFlag) as rfcc_new_eb
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX, forall|k: int| 0 <= k < C.C.boundary@.len() ==> (#[trigger] C.C.boundary@[k]).m < usize::MAX
@ensures
  rf_of(*C, ret), hom_of(C.C, ret.RC)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, ExtraRedFlag, ClearFlag) as rfcc_new_ec
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX, forall|k: int| 0 <= k < C.C.boundary@.len() ==> (#[trigger] C.C.boundary@[k]).m < usize::MAX
@ensures
  rf_of(*C, ret)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, ExtraRedFlag, ClearFlag, BasisFlag) as rfcc_new_ecb
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX, forall|k: int| 0 <= k < C.C.boundary@.len() ==> (#[trigger] C.C.boundary@[k]).m < usize::MAX
@ensures
  rf_of(*C, ret), hom_of(C.C, ret.RC)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, ExtraRedFlag, CompFlag) as rfcc_new_em
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX, forall|k: int| 0 <= k < C.C.boundary@.len() ==> (#[trigger] C.C.boundary@[k]).m < usize::MAX
@ensures
  rf_of(*C, ret)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn RFCC<F>::new(FCC<F>, ExtraRedFlag, CompFlag, BasisFlag) as rfcc_new_emb
@prop P12 P09
@requires
  filt_ok(*C), C.C.boundary@.len() <= i64::MAX, forall|k: int| 0 <= k < C.C.boundary@.len() ==> (#[trigger] C.C.boundary@[k]).m < usize::MAX
@ensures
  rf_of(*C, ret), hom_of(C.C, ret.RC)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
