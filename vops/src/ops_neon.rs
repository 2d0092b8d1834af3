// generated by vcg/lanes.py
#[no_mangle] pub unsafe fn v_neon_v128_load(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let r = s.v128_load(i); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128_load_unaligned(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let r = s.v128_load_unaligned(i); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128_store(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store(o, a0); }
#[no_mangle] pub unsafe fn v_neon_v128_store_unaligned(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store_unaligned(o, a0); }
#[no_mangle] pub unsafe fn v_neon_v128_create_zero(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let r = s.v128_create_zero(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128_not(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.v128_not(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128_and(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_and(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128_or(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_or(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128_xor(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_xor(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128_andnot(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128_all_zero(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.v128_all_zero(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x16_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x8_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x4_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x2_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x2_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x16_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x16_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x8_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x8_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x4_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x4_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i64x2_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x2_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x2_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x2_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x16_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x8_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_add_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x16_add_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x8_mul_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x4_mul_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_avgr(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_0(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shl_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_shr_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_0(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_16(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_16(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_17(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_17(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_18(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_18(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_19(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_19(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_20(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_20(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_21(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_21(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_22(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_22(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_23(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_23(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_24(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_24(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_25(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_25(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_26(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_26(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_27(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_27(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_28(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_28(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_29(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_29(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_30(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_30(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shl_31(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_shr_31(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_eq(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x16_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x16_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x16_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_eq(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x8_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x8_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x8_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_eq(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x4_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x4_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x4_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_swizzle(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_swizzle(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_bswap(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_bswap(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x2_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u64x2_bswap(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_any_zero(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_any_zero(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_reduce_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_reduce_max(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_reduce_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_reduce_min(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128_bsl(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = s.v128_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_zip_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_zip_hi(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_zip_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8_zip_hi(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_zip_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4_zip_hi(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x2_zip_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x2_zip_hi(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_unzip_even(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_unzip_even(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16_unzip_odd(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_unzip_odd(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_load(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let r = s.v256_load(i); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_load_unaligned(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let r = s.v256_load_unaligned(i); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_store(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store(o, a0); }
#[no_mangle] pub unsafe fn v_neon_v256_store_unaligned(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store_unaligned(o, a0); }
#[no_mangle] pub unsafe fn v_neon_v256_create_zero(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let r = s.v256_create_zero(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_not(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.v256_not(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_and(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_and(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_or(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_or(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_xor(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_xor(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_andnot(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_all_zero(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.v256_all_zero(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x32_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x16_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x8_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x4_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x4_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x32_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x32_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x16_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x16_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x8_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x8_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i64x4_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x4_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x4_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x4_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x32_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x16_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_add_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x32_add_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x16_mul_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x8_mul_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_avgr(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_0(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shl_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_shr_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_0(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_16(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_16(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_17(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_17(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_18(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_18(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_19(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_19(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_20(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_20(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_21(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_21(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_22(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_22(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_23(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_23(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_24(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_24(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_25(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_25(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_26(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_26(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_27(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_27(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_28(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_28(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_29(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_29(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_30(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_30(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shl_31(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_shr_31(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_eq(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x32_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x32_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i8x32_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_eq(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x16_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x16_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i16x16_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_eq(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x8_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x8_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_i32x8_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16x2_swizzle(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_swizzle(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_bswap(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x8_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_bswap(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x4_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_bswap(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_any_zero(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_any_zero(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_reduce_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_reduce_max(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_reduce_min(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_reduce_min(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v256_bsl(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let a2 = ld::<V256>(i, 64); let r = s.v256_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16x2_zip_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x16x2_zip_hi(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8x2_zip_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x8x2_zip_hi(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4x2_zip_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u32x4x2_zip_hi(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x2x2_zip_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x2x2_zip_hi(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_unzip_even(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_unzip_even(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_unzip_odd(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_unzip_odd(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x4_unzip_even(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_even(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u64x4_unzip_odd(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_odd(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128x2_zip_lo(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_v128x2_zip_hi(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u16x16_from_u8x16(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x16_from_u8x16(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_u8x32_swizzle(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_swizzle(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_and(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_or(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_xor(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_andnot(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8xn_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V128>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_i8xn_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V128>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V128>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8xn_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8xn_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8xn_eq(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_i8xn_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_max(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8xn_avgr(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8x16xn_swizzle(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8x16xn_swizzle(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u16xn_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u32xn_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u64xn_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u64xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_all_zero(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::all_zero(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_mask8xn_all(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_mask8xn_any(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_f_mask8x16_all(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_f_mask8x16_any(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_f_u8x16_highbit_all(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_f_u8x16_highbit_any(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_lookup(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = vsimd::table::u8x16xn_lookup(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_hex_check(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::check_xn::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_alsw_check(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = vsimd::alsw::check_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s128_alsw_decode(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let a3 = ld::<V128>(i, 48); let a4 = ld::<V128>(i, 64); let r = vsimd::alsw::decode_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }, vsimd::alsw::AlswLut { hash: a3, offset: a4 }); st(o, 0, r.0); st(o, 16, r.1); }
#[no_mangle] pub unsafe fn v_neon_s256_and(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_or(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_xor(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_andnot(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8xn_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V256>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_i8xn_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V256>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_splat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V256>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8xn_add(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8xn_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_sub(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8xn_eq(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_i8xn_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_lt(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_max(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_max(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8xn_avgr(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8x16xn_swizzle(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8x16xn_swizzle(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u16xn_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u32xn_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u64xn_bswap(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u64xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_all_zero(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::all_zero(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_mask8xn_all(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_mask8xn_any(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_f_mask8x32_all(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_f_mask8x32_any(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_f_u8x32_highbit_all(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_f_u8x32_highbit_any(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_lookup(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = vsimd::table::u8x16xn_lookup(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_hex_check(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::check_xn::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_alsw_check(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V128>(i, 32); let a2 = ld::<V128>(i, 48); let r = vsimd::alsw::check_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }.x2()); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_s256_alsw_decode(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V128>(i, 32); let a2 = ld::<V128>(i, 48); let a3 = ld::<V128>(i, 64); let a4 = ld::<V128>(i, 80); let r = vsimd::alsw::decode_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }.x2(), vsimd::alsw::AlswLut { hash: a3, offset: a4 }.x2()); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] pub unsafe fn v_neon_hex_encode16_lower(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::encode_bytes16(s, a0, vsimd::hex::ENCODE_LOWER_LUT); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_hex_encode32_lower(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::encode_bytes32(s, a0, vsimd::hex::ENCODE_LOWER_LUT); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] pub unsafe fn v_neon_hex_encode16_upper(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::encode_bytes16(s, a0, vsimd::hex::ENCODE_UPPER_LUT); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_hex_encode32_upper(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::encode_bytes32(s, a0, vsimd::hex::ENCODE_UPPER_LUT); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] pub unsafe fn v_neon_hex_decode16(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); match vsimd::hex::decode_ascii16(s, a0) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] pub unsafe fn v_neon_hex_decode32(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); match vsimd::hex::decode_ascii32(s, a0) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] pub unsafe fn v_neon_hex_decode32x2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); match vsimd::hex::decode_ascii32x2(s, (a0, a1)) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] pub unsafe fn v_neon_hex_unhex(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = vsimd::hex::unhex(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_alsw_lookup(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let a1 = ld::<u8>(i, 16); let r = vsimd::alsw::lookup(&a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_alsw_avgr(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let a1 = ld::<u8>(i, 1); let r = vsimd::alsw::avgr(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_alsw_hash(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let a1 = ld::<u8>(i, 16); let r = vsimd::alsw::hash(&a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_alsw_scheck(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let a1 = ld::<[u8; 16]>(i, 16); let a2 = ld::<u8>(i, 32); let r = vsimd::alsw::check(&a0, &a1, a2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_alsw_sdecode(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let a1 = ld::<[u8; 16]>(i, 16); let a2 = ld::<u8>(i, 32); let r = vsimd::alsw::decode(&a0, &a1, a2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V64_from_bytes(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = V64::from_bytes(a0.to_le_bytes()); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V128_from_bytes(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let r = V128::from_bytes(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V256_from_bytes(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<[u8; 32]>(i, 0); let r = V256::from_bytes(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V128_as_bytes(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = *a0.as_bytes(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V256_as_bytes(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = *a0.as_bytes(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V64_to_u64(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V64>(i, 0); let r = a0.to_u64(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V128_to_v64x2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = a0.to_v64x2(); st(o, 0, r.0); st(o, 8, r.1); }
#[no_mangle] pub unsafe fn v_neon_V128_x2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = a0.x2(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V256_from_v128x2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = V256::from_v128x2((a0, a1)); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V256_to_v128x2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = a0.to_v128x2(); st(o, 0, r.0); st(o, 16, r.1); }
#[no_mangle] pub unsafe fn v_neon_V256_double_bytes(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let r = V256::double_bytes(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V256_x2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = a0.x2(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V512_from_v256x2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = V512::from_v256x2((a0, a1)); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_V512_to_v256x2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V512>(i, 0); let r = a0.to_v256x2(); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] pub unsafe fn v_neon_V512_double_bytes(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<[u8; 32]>(i, 0); let r = V512::double_bytes(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u8x16_bitmask(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u8x16_bitmask(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_0(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_0(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_1(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_2(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 3); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_3(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 3); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 4); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_4(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 4); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 5); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_5(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 5); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 6); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_6(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 6); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 7); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_7(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 7); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 8); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_8(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 8); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 9); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_9(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 9); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 10); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_10(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 10); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 11); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_11(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 11); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 12); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_12(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 12); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 13); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_13(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 13); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 14); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_14(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 14); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shr_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 15); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_u16x8_shl_15(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 15); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_neon_sim_i16x8_packus(i: *const u8, o: *mut u8) { let s = NEON::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = vsimd::simulation::i16x8_packus(a0, a1); st(o, 0, r); }
#[cfg(feature = "table")]
pub static TABLE: &[(&str, unsafe fn(*const u8, *mut u8))] = &[
    ("v_neon_v128_load", |i, o| unsafe { v_neon_v128_load(i, o) }),
    ("v_neon_v128_load_unaligned", |i, o| unsafe { v_neon_v128_load_unaligned(i, o) }),
    ("v_neon_v128_store", |i, o| unsafe { v_neon_v128_store(i, o) }),
    ("v_neon_v128_store_unaligned", |i, o| unsafe { v_neon_v128_store_unaligned(i, o) }),
    ("v_neon_v128_create_zero", |i, o| unsafe { v_neon_v128_create_zero(i, o) }),
    ("v_neon_v128_not", |i, o| unsafe { v_neon_v128_not(i, o) }),
    ("v_neon_v128_and", |i, o| unsafe { v_neon_v128_and(i, o) }),
    ("v_neon_v128_or", |i, o| unsafe { v_neon_v128_or(i, o) }),
    ("v_neon_v128_xor", |i, o| unsafe { v_neon_v128_xor(i, o) }),
    ("v_neon_v128_andnot", |i, o| unsafe { v_neon_v128_andnot(i, o) }),
    ("v_neon_v128_all_zero", |i, o| unsafe { v_neon_v128_all_zero(i, o) }),
    ("v_neon_u8x16_splat", |i, o| unsafe { v_neon_u8x16_splat(i, o) }),
    ("v_neon_u16x8_splat", |i, o| unsafe { v_neon_u16x8_splat(i, o) }),
    ("v_neon_u32x4_splat", |i, o| unsafe { v_neon_u32x4_splat(i, o) }),
    ("v_neon_u64x2_splat", |i, o| unsafe { v_neon_u64x2_splat(i, o) }),
    ("v_neon_i8x16_splat", |i, o| unsafe { v_neon_i8x16_splat(i, o) }),
    ("v_neon_i16x8_splat", |i, o| unsafe { v_neon_i16x8_splat(i, o) }),
    ("v_neon_i32x4_splat", |i, o| unsafe { v_neon_i32x4_splat(i, o) }),
    ("v_neon_i64x2_splat", |i, o| unsafe { v_neon_i64x2_splat(i, o) }),
    ("v_neon_u8x16_add", |i, o| unsafe { v_neon_u8x16_add(i, o) }),
    ("v_neon_u8x16_sub", |i, o| unsafe { v_neon_u8x16_sub(i, o) }),
    ("v_neon_u16x8_add", |i, o| unsafe { v_neon_u16x8_add(i, o) }),
    ("v_neon_u16x8_sub", |i, o| unsafe { v_neon_u16x8_sub(i, o) }),
    ("v_neon_u32x4_add", |i, o| unsafe { v_neon_u32x4_add(i, o) }),
    ("v_neon_u32x4_sub", |i, o| unsafe { v_neon_u32x4_sub(i, o) }),
    ("v_neon_u64x2_add", |i, o| unsafe { v_neon_u64x2_add(i, o) }),
    ("v_neon_u64x2_sub", |i, o| unsafe { v_neon_u64x2_sub(i, o) }),
    ("v_neon_u8x16_sub_sat", |i, o| unsafe { v_neon_u8x16_sub_sat(i, o) }),
    ("v_neon_i8x16_sub_sat", |i, o| unsafe { v_neon_i8x16_sub_sat(i, o) }),
    ("v_neon_u16x8_sub_sat", |i, o| unsafe { v_neon_u16x8_sub_sat(i, o) }),
    ("v_neon_i16x8_sub_sat", |i, o| unsafe { v_neon_i16x8_sub_sat(i, o) }),
    ("v_neon_u8x16_add_sat", |i, o| unsafe { v_neon_u8x16_add_sat(i, o) }),
    ("v_neon_i8x16_add_sat", |i, o| unsafe { v_neon_i8x16_add_sat(i, o) }),
    ("v_neon_i16x8_mul_lo", |i, o| unsafe { v_neon_i16x8_mul_lo(i, o) }),
    ("v_neon_i32x4_mul_lo", |i, o| unsafe { v_neon_i32x4_mul_lo(i, o) }),
    ("v_neon_u8x16_avgr", |i, o| unsafe { v_neon_u8x16_avgr(i, o) }),
    ("v_neon_u16x8_shl_0", |i, o| unsafe { v_neon_u16x8_shl_0(i, o) }),
    ("v_neon_u16x8_shl_1", |i, o| unsafe { v_neon_u16x8_shl_1(i, o) }),
    ("v_neon_u16x8_shr_1", |i, o| unsafe { v_neon_u16x8_shr_1(i, o) }),
    ("v_neon_u16x8_shl_2", |i, o| unsafe { v_neon_u16x8_shl_2(i, o) }),
    ("v_neon_u16x8_shr_2", |i, o| unsafe { v_neon_u16x8_shr_2(i, o) }),
    ("v_neon_u16x8_shl_3", |i, o| unsafe { v_neon_u16x8_shl_3(i, o) }),
    ("v_neon_u16x8_shr_3", |i, o| unsafe { v_neon_u16x8_shr_3(i, o) }),
    ("v_neon_u16x8_shl_4", |i, o| unsafe { v_neon_u16x8_shl_4(i, o) }),
    ("v_neon_u16x8_shr_4", |i, o| unsafe { v_neon_u16x8_shr_4(i, o) }),
    ("v_neon_u16x8_shl_5", |i, o| unsafe { v_neon_u16x8_shl_5(i, o) }),
    ("v_neon_u16x8_shr_5", |i, o| unsafe { v_neon_u16x8_shr_5(i, o) }),
    ("v_neon_u16x8_shl_6", |i, o| unsafe { v_neon_u16x8_shl_6(i, o) }),
    ("v_neon_u16x8_shr_6", |i, o| unsafe { v_neon_u16x8_shr_6(i, o) }),
    ("v_neon_u16x8_shl_7", |i, o| unsafe { v_neon_u16x8_shl_7(i, o) }),
    ("v_neon_u16x8_shr_7", |i, o| unsafe { v_neon_u16x8_shr_7(i, o) }),
    ("v_neon_u16x8_shl_8", |i, o| unsafe { v_neon_u16x8_shl_8(i, o) }),
    ("v_neon_u16x8_shr_8", |i, o| unsafe { v_neon_u16x8_shr_8(i, o) }),
    ("v_neon_u16x8_shl_9", |i, o| unsafe { v_neon_u16x8_shl_9(i, o) }),
    ("v_neon_u16x8_shr_9", |i, o| unsafe { v_neon_u16x8_shr_9(i, o) }),
    ("v_neon_u16x8_shl_10", |i, o| unsafe { v_neon_u16x8_shl_10(i, o) }),
    ("v_neon_u16x8_shr_10", |i, o| unsafe { v_neon_u16x8_shr_10(i, o) }),
    ("v_neon_u16x8_shl_11", |i, o| unsafe { v_neon_u16x8_shl_11(i, o) }),
    ("v_neon_u16x8_shr_11", |i, o| unsafe { v_neon_u16x8_shr_11(i, o) }),
    ("v_neon_u16x8_shl_12", |i, o| unsafe { v_neon_u16x8_shl_12(i, o) }),
    ("v_neon_u16x8_shr_12", |i, o| unsafe { v_neon_u16x8_shr_12(i, o) }),
    ("v_neon_u16x8_shl_13", |i, o| unsafe { v_neon_u16x8_shl_13(i, o) }),
    ("v_neon_u16x8_shr_13", |i, o| unsafe { v_neon_u16x8_shr_13(i, o) }),
    ("v_neon_u16x8_shl_14", |i, o| unsafe { v_neon_u16x8_shl_14(i, o) }),
    ("v_neon_u16x8_shr_14", |i, o| unsafe { v_neon_u16x8_shr_14(i, o) }),
    ("v_neon_u16x8_shl_15", |i, o| unsafe { v_neon_u16x8_shl_15(i, o) }),
    ("v_neon_u16x8_shr_15", |i, o| unsafe { v_neon_u16x8_shr_15(i, o) }),
    ("v_neon_u32x4_shl_0", |i, o| unsafe { v_neon_u32x4_shl_0(i, o) }),
    ("v_neon_u32x4_shl_1", |i, o| unsafe { v_neon_u32x4_shl_1(i, o) }),
    ("v_neon_u32x4_shr_1", |i, o| unsafe { v_neon_u32x4_shr_1(i, o) }),
    ("v_neon_u32x4_shl_2", |i, o| unsafe { v_neon_u32x4_shl_2(i, o) }),
    ("v_neon_u32x4_shr_2", |i, o| unsafe { v_neon_u32x4_shr_2(i, o) }),
    ("v_neon_u32x4_shl_3", |i, o| unsafe { v_neon_u32x4_shl_3(i, o) }),
    ("v_neon_u32x4_shr_3", |i, o| unsafe { v_neon_u32x4_shr_3(i, o) }),
    ("v_neon_u32x4_shl_4", |i, o| unsafe { v_neon_u32x4_shl_4(i, o) }),
    ("v_neon_u32x4_shr_4", |i, o| unsafe { v_neon_u32x4_shr_4(i, o) }),
    ("v_neon_u32x4_shl_5", |i, o| unsafe { v_neon_u32x4_shl_5(i, o) }),
    ("v_neon_u32x4_shr_5", |i, o| unsafe { v_neon_u32x4_shr_5(i, o) }),
    ("v_neon_u32x4_shl_6", |i, o| unsafe { v_neon_u32x4_shl_6(i, o) }),
    ("v_neon_u32x4_shr_6", |i, o| unsafe { v_neon_u32x4_shr_6(i, o) }),
    ("v_neon_u32x4_shl_7", |i, o| unsafe { v_neon_u32x4_shl_7(i, o) }),
    ("v_neon_u32x4_shr_7", |i, o| unsafe { v_neon_u32x4_shr_7(i, o) }),
    ("v_neon_u32x4_shl_8", |i, o| unsafe { v_neon_u32x4_shl_8(i, o) }),
    ("v_neon_u32x4_shr_8", |i, o| unsafe { v_neon_u32x4_shr_8(i, o) }),
    ("v_neon_u32x4_shl_9", |i, o| unsafe { v_neon_u32x4_shl_9(i, o) }),
    ("v_neon_u32x4_shr_9", |i, o| unsafe { v_neon_u32x4_shr_9(i, o) }),
    ("v_neon_u32x4_shl_10", |i, o| unsafe { v_neon_u32x4_shl_10(i, o) }),
    ("v_neon_u32x4_shr_10", |i, o| unsafe { v_neon_u32x4_shr_10(i, o) }),
    ("v_neon_u32x4_shl_11", |i, o| unsafe { v_neon_u32x4_shl_11(i, o) }),
    ("v_neon_u32x4_shr_11", |i, o| unsafe { v_neon_u32x4_shr_11(i, o) }),
    ("v_neon_u32x4_shl_12", |i, o| unsafe { v_neon_u32x4_shl_12(i, o) }),
    ("v_neon_u32x4_shr_12", |i, o| unsafe { v_neon_u32x4_shr_12(i, o) }),
    ("v_neon_u32x4_shl_13", |i, o| unsafe { v_neon_u32x4_shl_13(i, o) }),
    ("v_neon_u32x4_shr_13", |i, o| unsafe { v_neon_u32x4_shr_13(i, o) }),
    ("v_neon_u32x4_shl_14", |i, o| unsafe { v_neon_u32x4_shl_14(i, o) }),
    ("v_neon_u32x4_shr_14", |i, o| unsafe { v_neon_u32x4_shr_14(i, o) }),
    ("v_neon_u32x4_shl_15", |i, o| unsafe { v_neon_u32x4_shl_15(i, o) }),
    ("v_neon_u32x4_shr_15", |i, o| unsafe { v_neon_u32x4_shr_15(i, o) }),
    ("v_neon_u32x4_shl_16", |i, o| unsafe { v_neon_u32x4_shl_16(i, o) }),
    ("v_neon_u32x4_shr_16", |i, o| unsafe { v_neon_u32x4_shr_16(i, o) }),
    ("v_neon_u32x4_shl_17", |i, o| unsafe { v_neon_u32x4_shl_17(i, o) }),
    ("v_neon_u32x4_shr_17", |i, o| unsafe { v_neon_u32x4_shr_17(i, o) }),
    ("v_neon_u32x4_shl_18", |i, o| unsafe { v_neon_u32x4_shl_18(i, o) }),
    ("v_neon_u32x4_shr_18", |i, o| unsafe { v_neon_u32x4_shr_18(i, o) }),
    ("v_neon_u32x4_shl_19", |i, o| unsafe { v_neon_u32x4_shl_19(i, o) }),
    ("v_neon_u32x4_shr_19", |i, o| unsafe { v_neon_u32x4_shr_19(i, o) }),
    ("v_neon_u32x4_shl_20", |i, o| unsafe { v_neon_u32x4_shl_20(i, o) }),
    ("v_neon_u32x4_shr_20", |i, o| unsafe { v_neon_u32x4_shr_20(i, o) }),
    ("v_neon_u32x4_shl_21", |i, o| unsafe { v_neon_u32x4_shl_21(i, o) }),
    ("v_neon_u32x4_shr_21", |i, o| unsafe { v_neon_u32x4_shr_21(i, o) }),
    ("v_neon_u32x4_shl_22", |i, o| unsafe { v_neon_u32x4_shl_22(i, o) }),
    ("v_neon_u32x4_shr_22", |i, o| unsafe { v_neon_u32x4_shr_22(i, o) }),
    ("v_neon_u32x4_shl_23", |i, o| unsafe { v_neon_u32x4_shl_23(i, o) }),
    ("v_neon_u32x4_shr_23", |i, o| unsafe { v_neon_u32x4_shr_23(i, o) }),
    ("v_neon_u32x4_shl_24", |i, o| unsafe { v_neon_u32x4_shl_24(i, o) }),
    ("v_neon_u32x4_shr_24", |i, o| unsafe { v_neon_u32x4_shr_24(i, o) }),
    ("v_neon_u32x4_shl_25", |i, o| unsafe { v_neon_u32x4_shl_25(i, o) }),
    ("v_neon_u32x4_shr_25", |i, o| unsafe { v_neon_u32x4_shr_25(i, o) }),
    ("v_neon_u32x4_shl_26", |i, o| unsafe { v_neon_u32x4_shl_26(i, o) }),
    ("v_neon_u32x4_shr_26", |i, o| unsafe { v_neon_u32x4_shr_26(i, o) }),
    ("v_neon_u32x4_shl_27", |i, o| unsafe { v_neon_u32x4_shl_27(i, o) }),
    ("v_neon_u32x4_shr_27", |i, o| unsafe { v_neon_u32x4_shr_27(i, o) }),
    ("v_neon_u32x4_shl_28", |i, o| unsafe { v_neon_u32x4_shl_28(i, o) }),
    ("v_neon_u32x4_shr_28", |i, o| unsafe { v_neon_u32x4_shr_28(i, o) }),
    ("v_neon_u32x4_shl_29", |i, o| unsafe { v_neon_u32x4_shl_29(i, o) }),
    ("v_neon_u32x4_shr_29", |i, o| unsafe { v_neon_u32x4_shr_29(i, o) }),
    ("v_neon_u32x4_shl_30", |i, o| unsafe { v_neon_u32x4_shl_30(i, o) }),
    ("v_neon_u32x4_shr_30", |i, o| unsafe { v_neon_u32x4_shr_30(i, o) }),
    ("v_neon_u32x4_shl_31", |i, o| unsafe { v_neon_u32x4_shl_31(i, o) }),
    ("v_neon_u32x4_shr_31", |i, o| unsafe { v_neon_u32x4_shr_31(i, o) }),
    ("v_neon_u8x16_eq", |i, o| unsafe { v_neon_u8x16_eq(i, o) }),
    ("v_neon_u8x16_lt", |i, o| unsafe { v_neon_u8x16_lt(i, o) }),
    ("v_neon_u8x16_max", |i, o| unsafe { v_neon_u8x16_max(i, o) }),
    ("v_neon_u8x16_min", |i, o| unsafe { v_neon_u8x16_min(i, o) }),
    ("v_neon_i8x16_lt", |i, o| unsafe { v_neon_i8x16_lt(i, o) }),
    ("v_neon_i8x16_max", |i, o| unsafe { v_neon_i8x16_max(i, o) }),
    ("v_neon_i8x16_min", |i, o| unsafe { v_neon_i8x16_min(i, o) }),
    ("v_neon_u16x8_eq", |i, o| unsafe { v_neon_u16x8_eq(i, o) }),
    ("v_neon_u16x8_lt", |i, o| unsafe { v_neon_u16x8_lt(i, o) }),
    ("v_neon_u16x8_max", |i, o| unsafe { v_neon_u16x8_max(i, o) }),
    ("v_neon_u16x8_min", |i, o| unsafe { v_neon_u16x8_min(i, o) }),
    ("v_neon_i16x8_lt", |i, o| unsafe { v_neon_i16x8_lt(i, o) }),
    ("v_neon_i16x8_max", |i, o| unsafe { v_neon_i16x8_max(i, o) }),
    ("v_neon_i16x8_min", |i, o| unsafe { v_neon_i16x8_min(i, o) }),
    ("v_neon_u32x4_eq", |i, o| unsafe { v_neon_u32x4_eq(i, o) }),
    ("v_neon_u32x4_lt", |i, o| unsafe { v_neon_u32x4_lt(i, o) }),
    ("v_neon_u32x4_max", |i, o| unsafe { v_neon_u32x4_max(i, o) }),
    ("v_neon_u32x4_min", |i, o| unsafe { v_neon_u32x4_min(i, o) }),
    ("v_neon_i32x4_lt", |i, o| unsafe { v_neon_i32x4_lt(i, o) }),
    ("v_neon_i32x4_max", |i, o| unsafe { v_neon_i32x4_max(i, o) }),
    ("v_neon_i32x4_min", |i, o| unsafe { v_neon_i32x4_min(i, o) }),
    ("v_neon_u8x16_swizzle", |i, o| unsafe { v_neon_u8x16_swizzle(i, o) }),
    ("v_neon_u16x8_bswap", |i, o| unsafe { v_neon_u16x8_bswap(i, o) }),
    ("v_neon_u32x4_bswap", |i, o| unsafe { v_neon_u32x4_bswap(i, o) }),
    ("v_neon_u64x2_bswap", |i, o| unsafe { v_neon_u64x2_bswap(i, o) }),
    ("v_neon_u8x16_any_zero", |i, o| unsafe { v_neon_u8x16_any_zero(i, o) }),
    ("v_neon_u8x16_reduce_max", |i, o| unsafe { v_neon_u8x16_reduce_max(i, o) }),
    ("v_neon_u8x16_reduce_min", |i, o| unsafe { v_neon_u8x16_reduce_min(i, o) }),
    ("v_neon_v128_bsl", |i, o| unsafe { v_neon_v128_bsl(i, o) }),
    ("v_neon_u8x16_zip_lo", |i, o| unsafe { v_neon_u8x16_zip_lo(i, o) }),
    ("v_neon_u8x16_zip_hi", |i, o| unsafe { v_neon_u8x16_zip_hi(i, o) }),
    ("v_neon_u16x8_zip_lo", |i, o| unsafe { v_neon_u16x8_zip_lo(i, o) }),
    ("v_neon_u16x8_zip_hi", |i, o| unsafe { v_neon_u16x8_zip_hi(i, o) }),
    ("v_neon_u32x4_zip_lo", |i, o| unsafe { v_neon_u32x4_zip_lo(i, o) }),
    ("v_neon_u32x4_zip_hi", |i, o| unsafe { v_neon_u32x4_zip_hi(i, o) }),
    ("v_neon_u64x2_zip_lo", |i, o| unsafe { v_neon_u64x2_zip_lo(i, o) }),
    ("v_neon_u64x2_zip_hi", |i, o| unsafe { v_neon_u64x2_zip_hi(i, o) }),
    ("v_neon_u8x16_unzip_even", |i, o| unsafe { v_neon_u8x16_unzip_even(i, o) }),
    ("v_neon_u8x16_unzip_odd", |i, o| unsafe { v_neon_u8x16_unzip_odd(i, o) }),
    ("v_neon_v256_load", |i, o| unsafe { v_neon_v256_load(i, o) }),
    ("v_neon_v256_load_unaligned", |i, o| unsafe { v_neon_v256_load_unaligned(i, o) }),
    ("v_neon_v256_store", |i, o| unsafe { v_neon_v256_store(i, o) }),
    ("v_neon_v256_store_unaligned", |i, o| unsafe { v_neon_v256_store_unaligned(i, o) }),
    ("v_neon_v256_create_zero", |i, o| unsafe { v_neon_v256_create_zero(i, o) }),
    ("v_neon_v256_not", |i, o| unsafe { v_neon_v256_not(i, o) }),
    ("v_neon_v256_and", |i, o| unsafe { v_neon_v256_and(i, o) }),
    ("v_neon_v256_or", |i, o| unsafe { v_neon_v256_or(i, o) }),
    ("v_neon_v256_xor", |i, o| unsafe { v_neon_v256_xor(i, o) }),
    ("v_neon_v256_andnot", |i, o| unsafe { v_neon_v256_andnot(i, o) }),
    ("v_neon_v256_all_zero", |i, o| unsafe { v_neon_v256_all_zero(i, o) }),
    ("v_neon_u8x32_splat", |i, o| unsafe { v_neon_u8x32_splat(i, o) }),
    ("v_neon_u16x16_splat", |i, o| unsafe { v_neon_u16x16_splat(i, o) }),
    ("v_neon_u32x8_splat", |i, o| unsafe { v_neon_u32x8_splat(i, o) }),
    ("v_neon_u64x4_splat", |i, o| unsafe { v_neon_u64x4_splat(i, o) }),
    ("v_neon_i8x32_splat", |i, o| unsafe { v_neon_i8x32_splat(i, o) }),
    ("v_neon_i16x16_splat", |i, o| unsafe { v_neon_i16x16_splat(i, o) }),
    ("v_neon_i32x8_splat", |i, o| unsafe { v_neon_i32x8_splat(i, o) }),
    ("v_neon_i64x4_splat", |i, o| unsafe { v_neon_i64x4_splat(i, o) }),
    ("v_neon_u8x32_add", |i, o| unsafe { v_neon_u8x32_add(i, o) }),
    ("v_neon_u8x32_sub", |i, o| unsafe { v_neon_u8x32_sub(i, o) }),
    ("v_neon_u16x16_add", |i, o| unsafe { v_neon_u16x16_add(i, o) }),
    ("v_neon_u16x16_sub", |i, o| unsafe { v_neon_u16x16_sub(i, o) }),
    ("v_neon_u32x8_add", |i, o| unsafe { v_neon_u32x8_add(i, o) }),
    ("v_neon_u32x8_sub", |i, o| unsafe { v_neon_u32x8_sub(i, o) }),
    ("v_neon_u64x4_add", |i, o| unsafe { v_neon_u64x4_add(i, o) }),
    ("v_neon_u64x4_sub", |i, o| unsafe { v_neon_u64x4_sub(i, o) }),
    ("v_neon_u8x32_sub_sat", |i, o| unsafe { v_neon_u8x32_sub_sat(i, o) }),
    ("v_neon_i8x32_sub_sat", |i, o| unsafe { v_neon_i8x32_sub_sat(i, o) }),
    ("v_neon_u16x16_sub_sat", |i, o| unsafe { v_neon_u16x16_sub_sat(i, o) }),
    ("v_neon_i16x16_sub_sat", |i, o| unsafe { v_neon_i16x16_sub_sat(i, o) }),
    ("v_neon_u8x32_add_sat", |i, o| unsafe { v_neon_u8x32_add_sat(i, o) }),
    ("v_neon_i8x32_add_sat", |i, o| unsafe { v_neon_i8x32_add_sat(i, o) }),
    ("v_neon_i16x16_mul_lo", |i, o| unsafe { v_neon_i16x16_mul_lo(i, o) }),
    ("v_neon_i32x8_mul_lo", |i, o| unsafe { v_neon_i32x8_mul_lo(i, o) }),
    ("v_neon_u8x32_avgr", |i, o| unsafe { v_neon_u8x32_avgr(i, o) }),
    ("v_neon_u16x16_shl_0", |i, o| unsafe { v_neon_u16x16_shl_0(i, o) }),
    ("v_neon_u16x16_shl_1", |i, o| unsafe { v_neon_u16x16_shl_1(i, o) }),
    ("v_neon_u16x16_shr_1", |i, o| unsafe { v_neon_u16x16_shr_1(i, o) }),
    ("v_neon_u16x16_shl_2", |i, o| unsafe { v_neon_u16x16_shl_2(i, o) }),
    ("v_neon_u16x16_shr_2", |i, o| unsafe { v_neon_u16x16_shr_2(i, o) }),
    ("v_neon_u16x16_shl_3", |i, o| unsafe { v_neon_u16x16_shl_3(i, o) }),
    ("v_neon_u16x16_shr_3", |i, o| unsafe { v_neon_u16x16_shr_3(i, o) }),
    ("v_neon_u16x16_shl_4", |i, o| unsafe { v_neon_u16x16_shl_4(i, o) }),
    ("v_neon_u16x16_shr_4", |i, o| unsafe { v_neon_u16x16_shr_4(i, o) }),
    ("v_neon_u16x16_shl_5", |i, o| unsafe { v_neon_u16x16_shl_5(i, o) }),
    ("v_neon_u16x16_shr_5", |i, o| unsafe { v_neon_u16x16_shr_5(i, o) }),
    ("v_neon_u16x16_shl_6", |i, o| unsafe { v_neon_u16x16_shl_6(i, o) }),
    ("v_neon_u16x16_shr_6", |i, o| unsafe { v_neon_u16x16_shr_6(i, o) }),
    ("v_neon_u16x16_shl_7", |i, o| unsafe { v_neon_u16x16_shl_7(i, o) }),
    ("v_neon_u16x16_shr_7", |i, o| unsafe { v_neon_u16x16_shr_7(i, o) }),
    ("v_neon_u16x16_shl_8", |i, o| unsafe { v_neon_u16x16_shl_8(i, o) }),
    ("v_neon_u16x16_shr_8", |i, o| unsafe { v_neon_u16x16_shr_8(i, o) }),
    ("v_neon_u16x16_shl_9", |i, o| unsafe { v_neon_u16x16_shl_9(i, o) }),
    ("v_neon_u16x16_shr_9", |i, o| unsafe { v_neon_u16x16_shr_9(i, o) }),
    ("v_neon_u16x16_shl_10", |i, o| unsafe { v_neon_u16x16_shl_10(i, o) }),
    ("v_neon_u16x16_shr_10", |i, o| unsafe { v_neon_u16x16_shr_10(i, o) }),
    ("v_neon_u16x16_shl_11", |i, o| unsafe { v_neon_u16x16_shl_11(i, o) }),
    ("v_neon_u16x16_shr_11", |i, o| unsafe { v_neon_u16x16_shr_11(i, o) }),
    ("v_neon_u16x16_shl_12", |i, o| unsafe { v_neon_u16x16_shl_12(i, o) }),
    ("v_neon_u16x16_shr_12", |i, o| unsafe { v_neon_u16x16_shr_12(i, o) }),
    ("v_neon_u16x16_shl_13", |i, o| unsafe { v_neon_u16x16_shl_13(i, o) }),
    ("v_neon_u16x16_shr_13", |i, o| unsafe { v_neon_u16x16_shr_13(i, o) }),
    ("v_neon_u16x16_shl_14", |i, o| unsafe { v_neon_u16x16_shl_14(i, o) }),
    ("v_neon_u16x16_shr_14", |i, o| unsafe { v_neon_u16x16_shr_14(i, o) }),
    ("v_neon_u16x16_shl_15", |i, o| unsafe { v_neon_u16x16_shl_15(i, o) }),
    ("v_neon_u16x16_shr_15", |i, o| unsafe { v_neon_u16x16_shr_15(i, o) }),
    ("v_neon_u32x8_shl_0", |i, o| unsafe { v_neon_u32x8_shl_0(i, o) }),
    ("v_neon_u32x8_shl_1", |i, o| unsafe { v_neon_u32x8_shl_1(i, o) }),
    ("v_neon_u32x8_shr_1", |i, o| unsafe { v_neon_u32x8_shr_1(i, o) }),
    ("v_neon_u32x8_shl_2", |i, o| unsafe { v_neon_u32x8_shl_2(i, o) }),
    ("v_neon_u32x8_shr_2", |i, o| unsafe { v_neon_u32x8_shr_2(i, o) }),
    ("v_neon_u32x8_shl_3", |i, o| unsafe { v_neon_u32x8_shl_3(i, o) }),
    ("v_neon_u32x8_shr_3", |i, o| unsafe { v_neon_u32x8_shr_3(i, o) }),
    ("v_neon_u32x8_shl_4", |i, o| unsafe { v_neon_u32x8_shl_4(i, o) }),
    ("v_neon_u32x8_shr_4", |i, o| unsafe { v_neon_u32x8_shr_4(i, o) }),
    ("v_neon_u32x8_shl_5", |i, o| unsafe { v_neon_u32x8_shl_5(i, o) }),
    ("v_neon_u32x8_shr_5", |i, o| unsafe { v_neon_u32x8_shr_5(i, o) }),
    ("v_neon_u32x8_shl_6", |i, o| unsafe { v_neon_u32x8_shl_6(i, o) }),
    ("v_neon_u32x8_shr_6", |i, o| unsafe { v_neon_u32x8_shr_6(i, o) }),
    ("v_neon_u32x8_shl_7", |i, o| unsafe { v_neon_u32x8_shl_7(i, o) }),
    ("v_neon_u32x8_shr_7", |i, o| unsafe { v_neon_u32x8_shr_7(i, o) }),
    ("v_neon_u32x8_shl_8", |i, o| unsafe { v_neon_u32x8_shl_8(i, o) }),
    ("v_neon_u32x8_shr_8", |i, o| unsafe { v_neon_u32x8_shr_8(i, o) }),
    ("v_neon_u32x8_shl_9", |i, o| unsafe { v_neon_u32x8_shl_9(i, o) }),
    ("v_neon_u32x8_shr_9", |i, o| unsafe { v_neon_u32x8_shr_9(i, o) }),
    ("v_neon_u32x8_shl_10", |i, o| unsafe { v_neon_u32x8_shl_10(i, o) }),
    ("v_neon_u32x8_shr_10", |i, o| unsafe { v_neon_u32x8_shr_10(i, o) }),
    ("v_neon_u32x8_shl_11", |i, o| unsafe { v_neon_u32x8_shl_11(i, o) }),
    ("v_neon_u32x8_shr_11", |i, o| unsafe { v_neon_u32x8_shr_11(i, o) }),
    ("v_neon_u32x8_shl_12", |i, o| unsafe { v_neon_u32x8_shl_12(i, o) }),
    ("v_neon_u32x8_shr_12", |i, o| unsafe { v_neon_u32x8_shr_12(i, o) }),
    ("v_neon_u32x8_shl_13", |i, o| unsafe { v_neon_u32x8_shl_13(i, o) }),
    ("v_neon_u32x8_shr_13", |i, o| unsafe { v_neon_u32x8_shr_13(i, o) }),
    ("v_neon_u32x8_shl_14", |i, o| unsafe { v_neon_u32x8_shl_14(i, o) }),
    ("v_neon_u32x8_shr_14", |i, o| unsafe { v_neon_u32x8_shr_14(i, o) }),
    ("v_neon_u32x8_shl_15", |i, o| unsafe { v_neon_u32x8_shl_15(i, o) }),
    ("v_neon_u32x8_shr_15", |i, o| unsafe { v_neon_u32x8_shr_15(i, o) }),
    ("v_neon_u32x8_shl_16", |i, o| unsafe { v_neon_u32x8_shl_16(i, o) }),
    ("v_neon_u32x8_shr_16", |i, o| unsafe { v_neon_u32x8_shr_16(i, o) }),
    ("v_neon_u32x8_shl_17", |i, o| unsafe { v_neon_u32x8_shl_17(i, o) }),
    ("v_neon_u32x8_shr_17", |i, o| unsafe { v_neon_u32x8_shr_17(i, o) }),
    ("v_neon_u32x8_shl_18", |i, o| unsafe { v_neon_u32x8_shl_18(i, o) }),
    ("v_neon_u32x8_shr_18", |i, o| unsafe { v_neon_u32x8_shr_18(i, o) }),
    ("v_neon_u32x8_shl_19", |i, o| unsafe { v_neon_u32x8_shl_19(i, o) }),
    ("v_neon_u32x8_shr_19", |i, o| unsafe { v_neon_u32x8_shr_19(i, o) }),
    ("v_neon_u32x8_shl_20", |i, o| unsafe { v_neon_u32x8_shl_20(i, o) }),
    ("v_neon_u32x8_shr_20", |i, o| unsafe { v_neon_u32x8_shr_20(i, o) }),
    ("v_neon_u32x8_shl_21", |i, o| unsafe { v_neon_u32x8_shl_21(i, o) }),
    ("v_neon_u32x8_shr_21", |i, o| unsafe { v_neon_u32x8_shr_21(i, o) }),
    ("v_neon_u32x8_shl_22", |i, o| unsafe { v_neon_u32x8_shl_22(i, o) }),
    ("v_neon_u32x8_shr_22", |i, o| unsafe { v_neon_u32x8_shr_22(i, o) }),
    ("v_neon_u32x8_shl_23", |i, o| unsafe { v_neon_u32x8_shl_23(i, o) }),
    ("v_neon_u32x8_shr_23", |i, o| unsafe { v_neon_u32x8_shr_23(i, o) }),
    ("v_neon_u32x8_shl_24", |i, o| unsafe { v_neon_u32x8_shl_24(i, o) }),
    ("v_neon_u32x8_shr_24", |i, o| unsafe { v_neon_u32x8_shr_24(i, o) }),
    ("v_neon_u32x8_shl_25", |i, o| unsafe { v_neon_u32x8_shl_25(i, o) }),
    ("v_neon_u32x8_shr_25", |i, o| unsafe { v_neon_u32x8_shr_25(i, o) }),
    ("v_neon_u32x8_shl_26", |i, o| unsafe { v_neon_u32x8_shl_26(i, o) }),
    ("v_neon_u32x8_shr_26", |i, o| unsafe { v_neon_u32x8_shr_26(i, o) }),
    ("v_neon_u32x8_shl_27", |i, o| unsafe { v_neon_u32x8_shl_27(i, o) }),
    ("v_neon_u32x8_shr_27", |i, o| unsafe { v_neon_u32x8_shr_27(i, o) }),
    ("v_neon_u32x8_shl_28", |i, o| unsafe { v_neon_u32x8_shl_28(i, o) }),
    ("v_neon_u32x8_shr_28", |i, o| unsafe { v_neon_u32x8_shr_28(i, o) }),
    ("v_neon_u32x8_shl_29", |i, o| unsafe { v_neon_u32x8_shl_29(i, o) }),
    ("v_neon_u32x8_shr_29", |i, o| unsafe { v_neon_u32x8_shr_29(i, o) }),
    ("v_neon_u32x8_shl_30", |i, o| unsafe { v_neon_u32x8_shl_30(i, o) }),
    ("v_neon_u32x8_shr_30", |i, o| unsafe { v_neon_u32x8_shr_30(i, o) }),
    ("v_neon_u32x8_shl_31", |i, o| unsafe { v_neon_u32x8_shl_31(i, o) }),
    ("v_neon_u32x8_shr_31", |i, o| unsafe { v_neon_u32x8_shr_31(i, o) }),
    ("v_neon_u8x32_eq", |i, o| unsafe { v_neon_u8x32_eq(i, o) }),
    ("v_neon_u8x32_lt", |i, o| unsafe { v_neon_u8x32_lt(i, o) }),
    ("v_neon_u8x32_max", |i, o| unsafe { v_neon_u8x32_max(i, o) }),
    ("v_neon_u8x32_min", |i, o| unsafe { v_neon_u8x32_min(i, o) }),
    ("v_neon_i8x32_lt", |i, o| unsafe { v_neon_i8x32_lt(i, o) }),
    ("v_neon_i8x32_max", |i, o| unsafe { v_neon_i8x32_max(i, o) }),
    ("v_neon_i8x32_min", |i, o| unsafe { v_neon_i8x32_min(i, o) }),
    ("v_neon_u16x16_eq", |i, o| unsafe { v_neon_u16x16_eq(i, o) }),
    ("v_neon_u16x16_lt", |i, o| unsafe { v_neon_u16x16_lt(i, o) }),
    ("v_neon_u16x16_max", |i, o| unsafe { v_neon_u16x16_max(i, o) }),
    ("v_neon_u16x16_min", |i, o| unsafe { v_neon_u16x16_min(i, o) }),
    ("v_neon_i16x16_lt", |i, o| unsafe { v_neon_i16x16_lt(i, o) }),
    ("v_neon_i16x16_max", |i, o| unsafe { v_neon_i16x16_max(i, o) }),
    ("v_neon_i16x16_min", |i, o| unsafe { v_neon_i16x16_min(i, o) }),
    ("v_neon_u32x8_eq", |i, o| unsafe { v_neon_u32x8_eq(i, o) }),
    ("v_neon_u32x8_lt", |i, o| unsafe { v_neon_u32x8_lt(i, o) }),
    ("v_neon_u32x8_max", |i, o| unsafe { v_neon_u32x8_max(i, o) }),
    ("v_neon_u32x8_min", |i, o| unsafe { v_neon_u32x8_min(i, o) }),
    ("v_neon_i32x8_lt", |i, o| unsafe { v_neon_i32x8_lt(i, o) }),
    ("v_neon_i32x8_max", |i, o| unsafe { v_neon_i32x8_max(i, o) }),
    ("v_neon_i32x8_min", |i, o| unsafe { v_neon_i32x8_min(i, o) }),
    ("v_neon_u8x16x2_swizzle", |i, o| unsafe { v_neon_u8x16x2_swizzle(i, o) }),
    ("v_neon_u16x16_bswap", |i, o| unsafe { v_neon_u16x16_bswap(i, o) }),
    ("v_neon_u32x8_bswap", |i, o| unsafe { v_neon_u32x8_bswap(i, o) }),
    ("v_neon_u64x4_bswap", |i, o| unsafe { v_neon_u64x4_bswap(i, o) }),
    ("v_neon_u8x32_any_zero", |i, o| unsafe { v_neon_u8x32_any_zero(i, o) }),
    ("v_neon_u8x32_reduce_max", |i, o| unsafe { v_neon_u8x32_reduce_max(i, o) }),
    ("v_neon_u8x32_reduce_min", |i, o| unsafe { v_neon_u8x32_reduce_min(i, o) }),
    ("v_neon_v256_bsl", |i, o| unsafe { v_neon_v256_bsl(i, o) }),
    ("v_neon_u8x16x2_zip_lo", |i, o| unsafe { v_neon_u8x16x2_zip_lo(i, o) }),
    ("v_neon_u8x16x2_zip_hi", |i, o| unsafe { v_neon_u8x16x2_zip_hi(i, o) }),
    ("v_neon_u16x8x2_zip_lo", |i, o| unsafe { v_neon_u16x8x2_zip_lo(i, o) }),
    ("v_neon_u16x8x2_zip_hi", |i, o| unsafe { v_neon_u16x8x2_zip_hi(i, o) }),
    ("v_neon_u32x4x2_zip_lo", |i, o| unsafe { v_neon_u32x4x2_zip_lo(i, o) }),
    ("v_neon_u32x4x2_zip_hi", |i, o| unsafe { v_neon_u32x4x2_zip_hi(i, o) }),
    ("v_neon_u64x2x2_zip_lo", |i, o| unsafe { v_neon_u64x2x2_zip_lo(i, o) }),
    ("v_neon_u64x2x2_zip_hi", |i, o| unsafe { v_neon_u64x2x2_zip_hi(i, o) }),
    ("v_neon_u8x32_unzip_even", |i, o| unsafe { v_neon_u8x32_unzip_even(i, o) }),
    ("v_neon_u8x32_unzip_odd", |i, o| unsafe { v_neon_u8x32_unzip_odd(i, o) }),
    ("v_neon_u64x4_unzip_even", |i, o| unsafe { v_neon_u64x4_unzip_even(i, o) }),
    ("v_neon_u64x4_unzip_odd", |i, o| unsafe { v_neon_u64x4_unzip_odd(i, o) }),
    ("v_neon_v128x2_zip_lo", |i, o| unsafe { v_neon_v128x2_zip_lo(i, o) }),
    ("v_neon_v128x2_zip_hi", |i, o| unsafe { v_neon_v128x2_zip_hi(i, o) }),
    ("v_neon_u16x16_from_u8x16", |i, o| unsafe { v_neon_u16x16_from_u8x16(i, o) }),
    ("v_neon_u8x32_swizzle", |i, o| unsafe { v_neon_u8x32_swizzle(i, o) }),
    ("v_neon_s128_and", |i, o| unsafe { v_neon_s128_and(i, o) }),
    ("v_neon_s128_or", |i, o| unsafe { v_neon_s128_or(i, o) }),
    ("v_neon_s128_xor", |i, o| unsafe { v_neon_s128_xor(i, o) }),
    ("v_neon_s128_andnot", |i, o| unsafe { v_neon_s128_andnot(i, o) }),
    ("v_neon_s128_u8xn_splat", |i, o| unsafe { v_neon_s128_u8xn_splat(i, o) }),
    ("v_neon_s128_i8xn_splat", |i, o| unsafe { v_neon_s128_i8xn_splat(i, o) }),
    ("v_neon_s128_u32xn_splat", |i, o| unsafe { v_neon_s128_u32xn_splat(i, o) }),
    ("v_neon_s128_u8xn_add", |i, o| unsafe { v_neon_s128_u8xn_add(i, o) }),
    ("v_neon_s128_u8xn_sub", |i, o| unsafe { v_neon_s128_u8xn_sub(i, o) }),
    ("v_neon_s128_u32xn_sub", |i, o| unsafe { v_neon_s128_u32xn_sub(i, o) }),
    ("v_neon_s128_u8xn_add_sat", |i, o| unsafe { v_neon_s128_u8xn_add_sat(i, o) }),
    ("v_neon_s128_i8xn_add_sat", |i, o| unsafe { v_neon_s128_i8xn_add_sat(i, o) }),
    ("v_neon_s128_u8xn_sub_sat", |i, o| unsafe { v_neon_s128_u8xn_sub_sat(i, o) }),
    ("v_neon_s128_u8xn_eq", |i, o| unsafe { v_neon_s128_u8xn_eq(i, o) }),
    ("v_neon_s128_i8xn_lt", |i, o| unsafe { v_neon_s128_i8xn_lt(i, o) }),
    ("v_neon_s128_u32xn_lt", |i, o| unsafe { v_neon_s128_u32xn_lt(i, o) }),
    ("v_neon_s128_u32xn_max", |i, o| unsafe { v_neon_s128_u32xn_max(i, o) }),
    ("v_neon_s128_u8xn_avgr", |i, o| unsafe { v_neon_s128_u8xn_avgr(i, o) }),
    ("v_neon_s128_u8x16xn_swizzle", |i, o| unsafe { v_neon_s128_u8x16xn_swizzle(i, o) }),
    ("v_neon_s128_u16xn_shl_0", |i, o| unsafe { v_neon_s128_u16xn_shl_0(i, o) }),
    ("v_neon_s128_u16xn_shl_1", |i, o| unsafe { v_neon_s128_u16xn_shl_1(i, o) }),
    ("v_neon_s128_u16xn_shr_1", |i, o| unsafe { v_neon_s128_u16xn_shr_1(i, o) }),
    ("v_neon_s128_u32xn_shr_1", |i, o| unsafe { v_neon_s128_u32xn_shr_1(i, o) }),
    ("v_neon_s128_u16xn_shl_2", |i, o| unsafe { v_neon_s128_u16xn_shl_2(i, o) }),
    ("v_neon_s128_u16xn_shr_2", |i, o| unsafe { v_neon_s128_u16xn_shr_2(i, o) }),
    ("v_neon_s128_u32xn_shr_2", |i, o| unsafe { v_neon_s128_u32xn_shr_2(i, o) }),
    ("v_neon_s128_u16xn_shl_3", |i, o| unsafe { v_neon_s128_u16xn_shl_3(i, o) }),
    ("v_neon_s128_u16xn_shr_3", |i, o| unsafe { v_neon_s128_u16xn_shr_3(i, o) }),
    ("v_neon_s128_u32xn_shr_3", |i, o| unsafe { v_neon_s128_u32xn_shr_3(i, o) }),
    ("v_neon_s128_u16xn_shl_4", |i, o| unsafe { v_neon_s128_u16xn_shl_4(i, o) }),
    ("v_neon_s128_u16xn_shr_4", |i, o| unsafe { v_neon_s128_u16xn_shr_4(i, o) }),
    ("v_neon_s128_u32xn_shr_4", |i, o| unsafe { v_neon_s128_u32xn_shr_4(i, o) }),
    ("v_neon_s128_u16xn_shl_5", |i, o| unsafe { v_neon_s128_u16xn_shl_5(i, o) }),
    ("v_neon_s128_u16xn_shr_5", |i, o| unsafe { v_neon_s128_u16xn_shr_5(i, o) }),
    ("v_neon_s128_u32xn_shr_5", |i, o| unsafe { v_neon_s128_u32xn_shr_5(i, o) }),
    ("v_neon_s128_u16xn_shl_6", |i, o| unsafe { v_neon_s128_u16xn_shl_6(i, o) }),
    ("v_neon_s128_u16xn_shr_6", |i, o| unsafe { v_neon_s128_u16xn_shr_6(i, o) }),
    ("v_neon_s128_u32xn_shr_6", |i, o| unsafe { v_neon_s128_u32xn_shr_6(i, o) }),
    ("v_neon_s128_u16xn_shl_7", |i, o| unsafe { v_neon_s128_u16xn_shl_7(i, o) }),
    ("v_neon_s128_u16xn_shr_7", |i, o| unsafe { v_neon_s128_u16xn_shr_7(i, o) }),
    ("v_neon_s128_u32xn_shr_7", |i, o| unsafe { v_neon_s128_u32xn_shr_7(i, o) }),
    ("v_neon_s128_u16xn_shl_8", |i, o| unsafe { v_neon_s128_u16xn_shl_8(i, o) }),
    ("v_neon_s128_u16xn_shr_8", |i, o| unsafe { v_neon_s128_u16xn_shr_8(i, o) }),
    ("v_neon_s128_u32xn_shr_8", |i, o| unsafe { v_neon_s128_u32xn_shr_8(i, o) }),
    ("v_neon_s128_u16xn_shl_9", |i, o| unsafe { v_neon_s128_u16xn_shl_9(i, o) }),
    ("v_neon_s128_u16xn_shr_9", |i, o| unsafe { v_neon_s128_u16xn_shr_9(i, o) }),
    ("v_neon_s128_u32xn_shr_9", |i, o| unsafe { v_neon_s128_u32xn_shr_9(i, o) }),
    ("v_neon_s128_u16xn_shl_10", |i, o| unsafe { v_neon_s128_u16xn_shl_10(i, o) }),
    ("v_neon_s128_u16xn_shr_10", |i, o| unsafe { v_neon_s128_u16xn_shr_10(i, o) }),
    ("v_neon_s128_u32xn_shr_10", |i, o| unsafe { v_neon_s128_u32xn_shr_10(i, o) }),
    ("v_neon_s128_u16xn_shl_11", |i, o| unsafe { v_neon_s128_u16xn_shl_11(i, o) }),
    ("v_neon_s128_u16xn_shr_11", |i, o| unsafe { v_neon_s128_u16xn_shr_11(i, o) }),
    ("v_neon_s128_u32xn_shr_11", |i, o| unsafe { v_neon_s128_u32xn_shr_11(i, o) }),
    ("v_neon_s128_u16xn_shl_12", |i, o| unsafe { v_neon_s128_u16xn_shl_12(i, o) }),
    ("v_neon_s128_u16xn_shr_12", |i, o| unsafe { v_neon_s128_u16xn_shr_12(i, o) }),
    ("v_neon_s128_u32xn_shr_12", |i, o| unsafe { v_neon_s128_u32xn_shr_12(i, o) }),
    ("v_neon_s128_u16xn_shl_13", |i, o| unsafe { v_neon_s128_u16xn_shl_13(i, o) }),
    ("v_neon_s128_u16xn_shr_13", |i, o| unsafe { v_neon_s128_u16xn_shr_13(i, o) }),
    ("v_neon_s128_u32xn_shr_13", |i, o| unsafe { v_neon_s128_u32xn_shr_13(i, o) }),
    ("v_neon_s128_u16xn_shl_14", |i, o| unsafe { v_neon_s128_u16xn_shl_14(i, o) }),
    ("v_neon_s128_u16xn_shr_14", |i, o| unsafe { v_neon_s128_u16xn_shr_14(i, o) }),
    ("v_neon_s128_u32xn_shr_14", |i, o| unsafe { v_neon_s128_u32xn_shr_14(i, o) }),
    ("v_neon_s128_u16xn_shl_15", |i, o| unsafe { v_neon_s128_u16xn_shl_15(i, o) }),
    ("v_neon_s128_u16xn_shr_15", |i, o| unsafe { v_neon_s128_u16xn_shr_15(i, o) }),
    ("v_neon_s128_u32xn_shr_15", |i, o| unsafe { v_neon_s128_u32xn_shr_15(i, o) }),
    ("v_neon_s128_u32xn_shr_16", |i, o| unsafe { v_neon_s128_u32xn_shr_16(i, o) }),
    ("v_neon_s128_u32xn_shr_17", |i, o| unsafe { v_neon_s128_u32xn_shr_17(i, o) }),
    ("v_neon_s128_u32xn_shr_18", |i, o| unsafe { v_neon_s128_u32xn_shr_18(i, o) }),
    ("v_neon_s128_u32xn_shr_19", |i, o| unsafe { v_neon_s128_u32xn_shr_19(i, o) }),
    ("v_neon_s128_u32xn_shr_20", |i, o| unsafe { v_neon_s128_u32xn_shr_20(i, o) }),
    ("v_neon_s128_u32xn_shr_21", |i, o| unsafe { v_neon_s128_u32xn_shr_21(i, o) }),
    ("v_neon_s128_u32xn_shr_22", |i, o| unsafe { v_neon_s128_u32xn_shr_22(i, o) }),
    ("v_neon_s128_u32xn_shr_23", |i, o| unsafe { v_neon_s128_u32xn_shr_23(i, o) }),
    ("v_neon_s128_u32xn_shr_24", |i, o| unsafe { v_neon_s128_u32xn_shr_24(i, o) }),
    ("v_neon_s128_u32xn_shr_25", |i, o| unsafe { v_neon_s128_u32xn_shr_25(i, o) }),
    ("v_neon_s128_u32xn_shr_26", |i, o| unsafe { v_neon_s128_u32xn_shr_26(i, o) }),
    ("v_neon_s128_u32xn_shr_27", |i, o| unsafe { v_neon_s128_u32xn_shr_27(i, o) }),
    ("v_neon_s128_u32xn_shr_28", |i, o| unsafe { v_neon_s128_u32xn_shr_28(i, o) }),
    ("v_neon_s128_u32xn_shr_29", |i, o| unsafe { v_neon_s128_u32xn_shr_29(i, o) }),
    ("v_neon_s128_u32xn_shr_30", |i, o| unsafe { v_neon_s128_u32xn_shr_30(i, o) }),
    ("v_neon_s128_u32xn_shr_31", |i, o| unsafe { v_neon_s128_u32xn_shr_31(i, o) }),
    ("v_neon_s128_u16xn_bswap", |i, o| unsafe { v_neon_s128_u16xn_bswap(i, o) }),
    ("v_neon_s128_u32xn_bswap", |i, o| unsafe { v_neon_s128_u32xn_bswap(i, o) }),
    ("v_neon_s128_u64xn_bswap", |i, o| unsafe { v_neon_s128_u64xn_bswap(i, o) }),
    ("v_neon_s128_all_zero", |i, o| unsafe { v_neon_s128_all_zero(i, o) }),
    ("v_neon_s128_mask8xn_all", |i, o| unsafe { v_neon_s128_mask8xn_all(i, o) }),
    ("v_neon_s128_mask8xn_any", |i, o| unsafe { v_neon_s128_mask8xn_any(i, o) }),
    ("v_neon_s128_u8xn_highbit_all", |i, o| unsafe { v_neon_s128_u8xn_highbit_all(i, o) }),
    ("v_neon_s128_u8xn_highbit_any", |i, o| unsafe { v_neon_s128_u8xn_highbit_any(i, o) }),
    ("v_neon_f_mask8x16_all", |i, o| unsafe { v_neon_f_mask8x16_all(i, o) }),
    ("v_neon_f_mask8x16_any", |i, o| unsafe { v_neon_f_mask8x16_any(i, o) }),
    ("v_neon_f_u8x16_highbit_all", |i, o| unsafe { v_neon_f_u8x16_highbit_all(i, o) }),
    ("v_neon_f_u8x16_highbit_any", |i, o| unsafe { v_neon_f_u8x16_highbit_any(i, o) }),
    ("v_neon_s128_lookup", |i, o| unsafe { v_neon_s128_lookup(i, o) }),
    ("v_neon_s128_to_ascii_lowercase", |i, o| unsafe { v_neon_s128_to_ascii_lowercase(i, o) }),
    ("v_neon_s128_to_ascii_uppercase", |i, o| unsafe { v_neon_s128_to_ascii_uppercase(i, o) }),
    ("v_neon_s128_hex_check", |i, o| unsafe { v_neon_s128_hex_check(i, o) }),
    ("v_neon_s128_alsw_check", |i, o| unsafe { v_neon_s128_alsw_check(i, o) }),
    ("v_neon_s128_alsw_decode", |i, o| unsafe { v_neon_s128_alsw_decode(i, o) }),
    ("v_neon_s256_and", |i, o| unsafe { v_neon_s256_and(i, o) }),
    ("v_neon_s256_or", |i, o| unsafe { v_neon_s256_or(i, o) }),
    ("v_neon_s256_xor", |i, o| unsafe { v_neon_s256_xor(i, o) }),
    ("v_neon_s256_andnot", |i, o| unsafe { v_neon_s256_andnot(i, o) }),
    ("v_neon_s256_u8xn_splat", |i, o| unsafe { v_neon_s256_u8xn_splat(i, o) }),
    ("v_neon_s256_i8xn_splat", |i, o| unsafe { v_neon_s256_i8xn_splat(i, o) }),
    ("v_neon_s256_u32xn_splat", |i, o| unsafe { v_neon_s256_u32xn_splat(i, o) }),
    ("v_neon_s256_u8xn_add", |i, o| unsafe { v_neon_s256_u8xn_add(i, o) }),
    ("v_neon_s256_u8xn_sub", |i, o| unsafe { v_neon_s256_u8xn_sub(i, o) }),
    ("v_neon_s256_u32xn_sub", |i, o| unsafe { v_neon_s256_u32xn_sub(i, o) }),
    ("v_neon_s256_u8xn_add_sat", |i, o| unsafe { v_neon_s256_u8xn_add_sat(i, o) }),
    ("v_neon_s256_i8xn_add_sat", |i, o| unsafe { v_neon_s256_i8xn_add_sat(i, o) }),
    ("v_neon_s256_u8xn_sub_sat", |i, o| unsafe { v_neon_s256_u8xn_sub_sat(i, o) }),
    ("v_neon_s256_u8xn_eq", |i, o| unsafe { v_neon_s256_u8xn_eq(i, o) }),
    ("v_neon_s256_i8xn_lt", |i, o| unsafe { v_neon_s256_i8xn_lt(i, o) }),
    ("v_neon_s256_u32xn_lt", |i, o| unsafe { v_neon_s256_u32xn_lt(i, o) }),
    ("v_neon_s256_u32xn_max", |i, o| unsafe { v_neon_s256_u32xn_max(i, o) }),
    ("v_neon_s256_u8xn_avgr", |i, o| unsafe { v_neon_s256_u8xn_avgr(i, o) }),
    ("v_neon_s256_u8x16xn_swizzle", |i, o| unsafe { v_neon_s256_u8x16xn_swizzle(i, o) }),
    ("v_neon_s256_u16xn_shl_0", |i, o| unsafe { v_neon_s256_u16xn_shl_0(i, o) }),
    ("v_neon_s256_u16xn_shl_1", |i, o| unsafe { v_neon_s256_u16xn_shl_1(i, o) }),
    ("v_neon_s256_u16xn_shr_1", |i, o| unsafe { v_neon_s256_u16xn_shr_1(i, o) }),
    ("v_neon_s256_u32xn_shr_1", |i, o| unsafe { v_neon_s256_u32xn_shr_1(i, o) }),
    ("v_neon_s256_u16xn_shl_2", |i, o| unsafe { v_neon_s256_u16xn_shl_2(i, o) }),
    ("v_neon_s256_u16xn_shr_2", |i, o| unsafe { v_neon_s256_u16xn_shr_2(i, o) }),
    ("v_neon_s256_u32xn_shr_2", |i, o| unsafe { v_neon_s256_u32xn_shr_2(i, o) }),
    ("v_neon_s256_u16xn_shl_3", |i, o| unsafe { v_neon_s256_u16xn_shl_3(i, o) }),
    ("v_neon_s256_u16xn_shr_3", |i, o| unsafe { v_neon_s256_u16xn_shr_3(i, o) }),
    ("v_neon_s256_u32xn_shr_3", |i, o| unsafe { v_neon_s256_u32xn_shr_3(i, o) }),
    ("v_neon_s256_u16xn_shl_4", |i, o| unsafe { v_neon_s256_u16xn_shl_4(i, o) }),
    ("v_neon_s256_u16xn_shr_4", |i, o| unsafe { v_neon_s256_u16xn_shr_4(i, o) }),
    ("v_neon_s256_u32xn_shr_4", |i, o| unsafe { v_neon_s256_u32xn_shr_4(i, o) }),
    ("v_neon_s256_u16xn_shl_5", |i, o| unsafe { v_neon_s256_u16xn_shl_5(i, o) }),
    ("v_neon_s256_u16xn_shr_5", |i, o| unsafe { v_neon_s256_u16xn_shr_5(i, o) }),
    ("v_neon_s256_u32xn_shr_5", |i, o| unsafe { v_neon_s256_u32xn_shr_5(i, o) }),
    ("v_neon_s256_u16xn_shl_6", |i, o| unsafe { v_neon_s256_u16xn_shl_6(i, o) }),
    ("v_neon_s256_u16xn_shr_6", |i, o| unsafe { v_neon_s256_u16xn_shr_6(i, o) }),
    ("v_neon_s256_u32xn_shr_6", |i, o| unsafe { v_neon_s256_u32xn_shr_6(i, o) }),
    ("v_neon_s256_u16xn_shl_7", |i, o| unsafe { v_neon_s256_u16xn_shl_7(i, o) }),
    ("v_neon_s256_u16xn_shr_7", |i, o| unsafe { v_neon_s256_u16xn_shr_7(i, o) }),
    ("v_neon_s256_u32xn_shr_7", |i, o| unsafe { v_neon_s256_u32xn_shr_7(i, o) }),
    ("v_neon_s256_u16xn_shl_8", |i, o| unsafe { v_neon_s256_u16xn_shl_8(i, o) }),
    ("v_neon_s256_u16xn_shr_8", |i, o| unsafe { v_neon_s256_u16xn_shr_8(i, o) }),
    ("v_neon_s256_u32xn_shr_8", |i, o| unsafe { v_neon_s256_u32xn_shr_8(i, o) }),
    ("v_neon_s256_u16xn_shl_9", |i, o| unsafe { v_neon_s256_u16xn_shl_9(i, o) }),
    ("v_neon_s256_u16xn_shr_9", |i, o| unsafe { v_neon_s256_u16xn_shr_9(i, o) }),
    ("v_neon_s256_u32xn_shr_9", |i, o| unsafe { v_neon_s256_u32xn_shr_9(i, o) }),
    ("v_neon_s256_u16xn_shl_10", |i, o| unsafe { v_neon_s256_u16xn_shl_10(i, o) }),
    ("v_neon_s256_u16xn_shr_10", |i, o| unsafe { v_neon_s256_u16xn_shr_10(i, o) }),
    ("v_neon_s256_u32xn_shr_10", |i, o| unsafe { v_neon_s256_u32xn_shr_10(i, o) }),
    ("v_neon_s256_u16xn_shl_11", |i, o| unsafe { v_neon_s256_u16xn_shl_11(i, o) }),
    ("v_neon_s256_u16xn_shr_11", |i, o| unsafe { v_neon_s256_u16xn_shr_11(i, o) }),
    ("v_neon_s256_u32xn_shr_11", |i, o| unsafe { v_neon_s256_u32xn_shr_11(i, o) }),
    ("v_neon_s256_u16xn_shl_12", |i, o| unsafe { v_neon_s256_u16xn_shl_12(i, o) }),
    ("v_neon_s256_u16xn_shr_12", |i, o| unsafe { v_neon_s256_u16xn_shr_12(i, o) }),
    ("v_neon_s256_u32xn_shr_12", |i, o| unsafe { v_neon_s256_u32xn_shr_12(i, o) }),
    ("v_neon_s256_u16xn_shl_13", |i, o| unsafe { v_neon_s256_u16xn_shl_13(i, o) }),
    ("v_neon_s256_u16xn_shr_13", |i, o| unsafe { v_neon_s256_u16xn_shr_13(i, o) }),
    ("v_neon_s256_u32xn_shr_13", |i, o| unsafe { v_neon_s256_u32xn_shr_13(i, o) }),
    ("v_neon_s256_u16xn_shl_14", |i, o| unsafe { v_neon_s256_u16xn_shl_14(i, o) }),
    ("v_neon_s256_u16xn_shr_14", |i, o| unsafe { v_neon_s256_u16xn_shr_14(i, o) }),
    ("v_neon_s256_u32xn_shr_14", |i, o| unsafe { v_neon_s256_u32xn_shr_14(i, o) }),
    ("v_neon_s256_u16xn_shl_15", |i, o| unsafe { v_neon_s256_u16xn_shl_15(i, o) }),
    ("v_neon_s256_u16xn_shr_15", |i, o| unsafe { v_neon_s256_u16xn_shr_15(i, o) }),
    ("v_neon_s256_u32xn_shr_15", |i, o| unsafe { v_neon_s256_u32xn_shr_15(i, o) }),
    ("v_neon_s256_u32xn_shr_16", |i, o| unsafe { v_neon_s256_u32xn_shr_16(i, o) }),
    ("v_neon_s256_u32xn_shr_17", |i, o| unsafe { v_neon_s256_u32xn_shr_17(i, o) }),
    ("v_neon_s256_u32xn_shr_18", |i, o| unsafe { v_neon_s256_u32xn_shr_18(i, o) }),
    ("v_neon_s256_u32xn_shr_19", |i, o| unsafe { v_neon_s256_u32xn_shr_19(i, o) }),
    ("v_neon_s256_u32xn_shr_20", |i, o| unsafe { v_neon_s256_u32xn_shr_20(i, o) }),
    ("v_neon_s256_u32xn_shr_21", |i, o| unsafe { v_neon_s256_u32xn_shr_21(i, o) }),
    ("v_neon_s256_u32xn_shr_22", |i, o| unsafe { v_neon_s256_u32xn_shr_22(i, o) }),
    ("v_neon_s256_u32xn_shr_23", |i, o| unsafe { v_neon_s256_u32xn_shr_23(i, o) }),
    ("v_neon_s256_u32xn_shr_24", |i, o| unsafe { v_neon_s256_u32xn_shr_24(i, o) }),
    ("v_neon_s256_u32xn_shr_25", |i, o| unsafe { v_neon_s256_u32xn_shr_25(i, o) }),
    ("v_neon_s256_u32xn_shr_26", |i, o| unsafe { v_neon_s256_u32xn_shr_26(i, o) }),
    ("v_neon_s256_u32xn_shr_27", |i, o| unsafe { v_neon_s256_u32xn_shr_27(i, o) }),
    ("v_neon_s256_u32xn_shr_28", |i, o| unsafe { v_neon_s256_u32xn_shr_28(i, o) }),
    ("v_neon_s256_u32xn_shr_29", |i, o| unsafe { v_neon_s256_u32xn_shr_29(i, o) }),
    ("v_neon_s256_u32xn_shr_30", |i, o| unsafe { v_neon_s256_u32xn_shr_30(i, o) }),
    ("v_neon_s256_u32xn_shr_31", |i, o| unsafe { v_neon_s256_u32xn_shr_31(i, o) }),
    ("v_neon_s256_u16xn_bswap", |i, o| unsafe { v_neon_s256_u16xn_bswap(i, o) }),
    ("v_neon_s256_u32xn_bswap", |i, o| unsafe { v_neon_s256_u32xn_bswap(i, o) }),
    ("v_neon_s256_u64xn_bswap", |i, o| unsafe { v_neon_s256_u64xn_bswap(i, o) }),
    ("v_neon_s256_all_zero", |i, o| unsafe { v_neon_s256_all_zero(i, o) }),
    ("v_neon_s256_mask8xn_all", |i, o| unsafe { v_neon_s256_mask8xn_all(i, o) }),
    ("v_neon_s256_mask8xn_any", |i, o| unsafe { v_neon_s256_mask8xn_any(i, o) }),
    ("v_neon_s256_u8xn_highbit_all", |i, o| unsafe { v_neon_s256_u8xn_highbit_all(i, o) }),
    ("v_neon_s256_u8xn_highbit_any", |i, o| unsafe { v_neon_s256_u8xn_highbit_any(i, o) }),
    ("v_neon_f_mask8x32_all", |i, o| unsafe { v_neon_f_mask8x32_all(i, o) }),
    ("v_neon_f_mask8x32_any", |i, o| unsafe { v_neon_f_mask8x32_any(i, o) }),
    ("v_neon_f_u8x32_highbit_all", |i, o| unsafe { v_neon_f_u8x32_highbit_all(i, o) }),
    ("v_neon_f_u8x32_highbit_any", |i, o| unsafe { v_neon_f_u8x32_highbit_any(i, o) }),
    ("v_neon_s256_lookup", |i, o| unsafe { v_neon_s256_lookup(i, o) }),
    ("v_neon_s256_to_ascii_lowercase", |i, o| unsafe { v_neon_s256_to_ascii_lowercase(i, o) }),
    ("v_neon_s256_to_ascii_uppercase", |i, o| unsafe { v_neon_s256_to_ascii_uppercase(i, o) }),
    ("v_neon_s256_hex_check", |i, o| unsafe { v_neon_s256_hex_check(i, o) }),
    ("v_neon_s256_alsw_check", |i, o| unsafe { v_neon_s256_alsw_check(i, o) }),
    ("v_neon_s256_alsw_decode", |i, o| unsafe { v_neon_s256_alsw_decode(i, o) }),
    ("v_neon_hex_encode16_lower", |i, o| unsafe { v_neon_hex_encode16_lower(i, o) }),
    ("v_neon_hex_encode32_lower", |i, o| unsafe { v_neon_hex_encode32_lower(i, o) }),
    ("v_neon_hex_encode16_upper", |i, o| unsafe { v_neon_hex_encode16_upper(i, o) }),
    ("v_neon_hex_encode32_upper", |i, o| unsafe { v_neon_hex_encode32_upper(i, o) }),
    ("v_neon_hex_decode16", |i, o| unsafe { v_neon_hex_decode16(i, o) }),
    ("v_neon_hex_decode32", |i, o| unsafe { v_neon_hex_decode32(i, o) }),
    ("v_neon_hex_decode32x2", |i, o| unsafe { v_neon_hex_decode32x2(i, o) }),
    ("v_neon_hex_unhex", |i, o| unsafe { v_neon_hex_unhex(i, o) }),
    ("v_neon_alsw_lookup", |i, o| unsafe { v_neon_alsw_lookup(i, o) }),
    ("v_neon_alsw_avgr", |i, o| unsafe { v_neon_alsw_avgr(i, o) }),
    ("v_neon_alsw_hash", |i, o| unsafe { v_neon_alsw_hash(i, o) }),
    ("v_neon_alsw_scheck", |i, o| unsafe { v_neon_alsw_scheck(i, o) }),
    ("v_neon_alsw_sdecode", |i, o| unsafe { v_neon_alsw_sdecode(i, o) }),
    ("v_neon_V64_from_bytes", |i, o| unsafe { v_neon_V64_from_bytes(i, o) }),
    ("v_neon_V128_from_bytes", |i, o| unsafe { v_neon_V128_from_bytes(i, o) }),
    ("v_neon_V256_from_bytes", |i, o| unsafe { v_neon_V256_from_bytes(i, o) }),
    ("v_neon_V128_as_bytes", |i, o| unsafe { v_neon_V128_as_bytes(i, o) }),
    ("v_neon_V256_as_bytes", |i, o| unsafe { v_neon_V256_as_bytes(i, o) }),
    ("v_neon_V64_to_u64", |i, o| unsafe { v_neon_V64_to_u64(i, o) }),
    ("v_neon_V128_to_v64x2", |i, o| unsafe { v_neon_V128_to_v64x2(i, o) }),
    ("v_neon_V128_x2", |i, o| unsafe { v_neon_V128_x2(i, o) }),
    ("v_neon_V256_from_v128x2", |i, o| unsafe { v_neon_V256_from_v128x2(i, o) }),
    ("v_neon_V256_to_v128x2", |i, o| unsafe { v_neon_V256_to_v128x2(i, o) }),
    ("v_neon_V256_double_bytes", |i, o| unsafe { v_neon_V256_double_bytes(i, o) }),
    ("v_neon_V256_x2", |i, o| unsafe { v_neon_V256_x2(i, o) }),
    ("v_neon_V512_from_v256x2", |i, o| unsafe { v_neon_V512_from_v256x2(i, o) }),
    ("v_neon_V512_to_v256x2", |i, o| unsafe { v_neon_V512_to_v256x2(i, o) }),
    ("v_neon_V512_double_bytes", |i, o| unsafe { v_neon_V512_double_bytes(i, o) }),
    ("v_neon_sim_u8x16_bitmask", |i, o| unsafe { v_neon_sim_u8x16_bitmask(i, o) }),
    ("v_neon_sim_u16x8_shr_0", |i, o| unsafe { v_neon_sim_u16x8_shr_0(i, o) }),
    ("v_neon_sim_u16x8_shl_0", |i, o| unsafe { v_neon_sim_u16x8_shl_0(i, o) }),
    ("v_neon_sim_u16x8_shr_1", |i, o| unsafe { v_neon_sim_u16x8_shr_1(i, o) }),
    ("v_neon_sim_u16x8_shl_1", |i, o| unsafe { v_neon_sim_u16x8_shl_1(i, o) }),
    ("v_neon_sim_u16x8_shr_2", |i, o| unsafe { v_neon_sim_u16x8_shr_2(i, o) }),
    ("v_neon_sim_u16x8_shl_2", |i, o| unsafe { v_neon_sim_u16x8_shl_2(i, o) }),
    ("v_neon_sim_u16x8_shr_3", |i, o| unsafe { v_neon_sim_u16x8_shr_3(i, o) }),
    ("v_neon_sim_u16x8_shl_3", |i, o| unsafe { v_neon_sim_u16x8_shl_3(i, o) }),
    ("v_neon_sim_u16x8_shr_4", |i, o| unsafe { v_neon_sim_u16x8_shr_4(i, o) }),
    ("v_neon_sim_u16x8_shl_4", |i, o| unsafe { v_neon_sim_u16x8_shl_4(i, o) }),
    ("v_neon_sim_u16x8_shr_5", |i, o| unsafe { v_neon_sim_u16x8_shr_5(i, o) }),
    ("v_neon_sim_u16x8_shl_5", |i, o| unsafe { v_neon_sim_u16x8_shl_5(i, o) }),
    ("v_neon_sim_u16x8_shr_6", |i, o| unsafe { v_neon_sim_u16x8_shr_6(i, o) }),
    ("v_neon_sim_u16x8_shl_6", |i, o| unsafe { v_neon_sim_u16x8_shl_6(i, o) }),
    ("v_neon_sim_u16x8_shr_7", |i, o| unsafe { v_neon_sim_u16x8_shr_7(i, o) }),
    ("v_neon_sim_u16x8_shl_7", |i, o| unsafe { v_neon_sim_u16x8_shl_7(i, o) }),
    ("v_neon_sim_u16x8_shr_8", |i, o| unsafe { v_neon_sim_u16x8_shr_8(i, o) }),
    ("v_neon_sim_u16x8_shl_8", |i, o| unsafe { v_neon_sim_u16x8_shl_8(i, o) }),
    ("v_neon_sim_u16x8_shr_9", |i, o| unsafe { v_neon_sim_u16x8_shr_9(i, o) }),
    ("v_neon_sim_u16x8_shl_9", |i, o| unsafe { v_neon_sim_u16x8_shl_9(i, o) }),
    ("v_neon_sim_u16x8_shr_10", |i, o| unsafe { v_neon_sim_u16x8_shr_10(i, o) }),
    ("v_neon_sim_u16x8_shl_10", |i, o| unsafe { v_neon_sim_u16x8_shl_10(i, o) }),
    ("v_neon_sim_u16x8_shr_11", |i, o| unsafe { v_neon_sim_u16x8_shr_11(i, o) }),
    ("v_neon_sim_u16x8_shl_11", |i, o| unsafe { v_neon_sim_u16x8_shl_11(i, o) }),
    ("v_neon_sim_u16x8_shr_12", |i, o| unsafe { v_neon_sim_u16x8_shr_12(i, o) }),
    ("v_neon_sim_u16x8_shl_12", |i, o| unsafe { v_neon_sim_u16x8_shl_12(i, o) }),
    ("v_neon_sim_u16x8_shr_13", |i, o| unsafe { v_neon_sim_u16x8_shr_13(i, o) }),
    ("v_neon_sim_u16x8_shl_13", |i, o| unsafe { v_neon_sim_u16x8_shl_13(i, o) }),
    ("v_neon_sim_u16x8_shr_14", |i, o| unsafe { v_neon_sim_u16x8_shr_14(i, o) }),
    ("v_neon_sim_u16x8_shl_14", |i, o| unsafe { v_neon_sim_u16x8_shl_14(i, o) }),
    ("v_neon_sim_u16x8_shr_15", |i, o| unsafe { v_neon_sim_u16x8_shr_15(i, o) }),
    ("v_neon_sim_u16x8_shl_15", |i, o| unsafe { v_neon_sim_u16x8_shl_15(i, o) }),
    ("v_neon_sim_i16x8_packus", |i, o| unsafe { v_neon_sim_i16x8_packus(i, o) }),
];
