// generated by vcg/lanes.py
#[no_mangle] pub unsafe fn v_sse2_v128_load(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let r = s.v128_load(i); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128_load_unaligned(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let r = s.v128_load_unaligned(i); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128_store(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store(o, a0); }
#[no_mangle] pub unsafe fn v_sse2_v128_store_unaligned(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store_unaligned(o, a0); }
#[no_mangle] pub unsafe fn v_sse2_v128_create_zero(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let r = s.v128_create_zero(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128_not(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.v128_not(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128_and(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_and(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128_or(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_or(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128_xor(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_xor(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128_andnot(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x16_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x8_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x4_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x2_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x2_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i8x16_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x16_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x8_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x8_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i32x4_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x4_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i64x2_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x2_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x2_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x2_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i8x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x8_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_add_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i8x16_add_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x8_mul_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_mul_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x8_mul_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x8_madd(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_madd(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_avgr(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shl_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_shr_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_16(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_16(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_17(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_17(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_18(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_18(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_19(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_19(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_20(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_20(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_21(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_21(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_22(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_22(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_23(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_23(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_24(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_24(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_25(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_25(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_26(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_26(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_27(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_27(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_28(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_28(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_29(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_29(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_30(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_30(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shl_31(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_shr_31(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_eq(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_max(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_min(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i8x16_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_eq(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x8_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x8_max(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x8_min(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_eq(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i32x4_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_any_zero(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_any_zero(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_bitmask(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_bitmask(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128_bsl(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = s.v128_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_zip_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16_zip_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_zip_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8_zip_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_zip_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4_zip_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v256_load(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let r = s.v256_load(i); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v256_load_unaligned(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let r = s.v256_load_unaligned(i); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v256_store(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store(o, a0); }
#[no_mangle] pub unsafe fn v_sse2_v256_store_unaligned(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store_unaligned(o, a0); }
#[no_mangle] pub unsafe fn v_sse2_v256_create_zero(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let r = s.v256_create_zero(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v256_not(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.v256_not(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v256_and(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_and(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v256_or(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_or(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v256_xor(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_xor(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v256_andnot(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x32_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x16_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x8_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x4_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x4_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i8x32_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x32_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x16_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x16_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i32x8_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x8_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i64x4_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x4_splat(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x4_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x4_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i8x32_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_add_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i8x32_add_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x16_mul_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_mul_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x16_mul_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x16_madd(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_madd(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_avgr(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shl_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_shr_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_16(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_16(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_17(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_17(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_18(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_18(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_19(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_19(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_20(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_20(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_21(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_21(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_22(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_22(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_23(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_23(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_24(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_24(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_25(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_25(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_26(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_26(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_27(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_27(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_28(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_28(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_29(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_29(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_30(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_30(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shl_31(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_shr_31(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_eq(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_max(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_min(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i8x32_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_eq(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x16_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x16_max(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x16_min(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_eq(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x8_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i32x8_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_any_zero(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_any_zero(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x32_bitmask(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_bitmask(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v256_bsl(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let a2 = ld::<V256>(i, 64); let r = s.v256_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u8x16x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x8x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u32x4x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x2x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x2x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_i16x8_packus(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_packus(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x4_unzip_even(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_even(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u64x4_unzip_odd(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_odd(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_v128x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_u16x16_from_u8x16(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x16_from_u8x16(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_and(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_or(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_xor(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_andnot(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u8xn_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V128>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_i8xn_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V128>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V128>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u8xn_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u8xn_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u8xn_eq(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_i8xn_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u8xn_avgr(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_mask8xn_all(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_mask8xn_any(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_f_mask8x16_all(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_f_mask8x16_any(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_f_u8x16_highbit_all(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_f_u8x16_highbit_any(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s128_hex_check(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::check_xn::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_and(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_or(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_xor(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_andnot(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u8xn_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V256>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_i8xn_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V256>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_splat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V256>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u8xn_add(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u8xn_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_sub(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u8xn_eq(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_i8xn_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_lt(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u8xn_avgr(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_mask8xn_all(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_mask8xn_any(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_f_mask8x32_all(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_f_mask8x32_any(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_f_u8x32_highbit_all(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_f_u8x32_highbit_any(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_s256_hex_check(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::check_xn::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_hex_sse2_encode16_lower(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::sse2::encode16(s, a0, vsimd::hex::sse2::LOWER_OFFSET); st(o, 0, r.0); st(o, 16, r.1); }
#[no_mangle] pub unsafe fn v_sse2_hex_sse2_encode16_upper(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::sse2::encode16(s, a0, vsimd::hex::sse2::UPPER_OFFSET); st(o, 0, r.0); st(o, 16, r.1); }
#[no_mangle] pub unsafe fn v_sse2_hex_sse2_decode_nibbles(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::sse2::decode_nibbles(s, a0); st(o, 0, r.0); st(o, 16, r.1); }
#[no_mangle] pub unsafe fn v_sse2_hex_sse2_merge_bits(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::sse2::merge_bits(s, a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_hex_unhex(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = vsimd::hex::unhex(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_alsw_lookup(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let a1 = ld::<u8>(i, 16); let r = vsimd::alsw::lookup(&a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_alsw_avgr(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let a1 = ld::<u8>(i, 1); let r = vsimd::alsw::avgr(a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_alsw_hash(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let a1 = ld::<u8>(i, 16); let r = vsimd::alsw::hash(&a0, a1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_alsw_scheck(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let a1 = ld::<[u8; 16]>(i, 16); let a2 = ld::<u8>(i, 32); let r = vsimd::alsw::check(&a0, &a1, a2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_alsw_sdecode(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let a1 = ld::<[u8; 16]>(i, 16); let a2 = ld::<u8>(i, 32); let r = vsimd::alsw::decode(&a0, &a1, a2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V64_from_bytes(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = V64::from_bytes(a0.to_le_bytes()); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V128_from_bytes(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let r = V128::from_bytes(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V256_from_bytes(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<[u8; 32]>(i, 0); let r = V256::from_bytes(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V128_as_bytes(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = *a0.as_bytes(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V256_as_bytes(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = *a0.as_bytes(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V64_to_u64(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V64>(i, 0); let r = a0.to_u64(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V128_to_v64x2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = a0.to_v64x2(); st(o, 0, r.0); st(o, 8, r.1); }
#[no_mangle] pub unsafe fn v_sse2_V128_x2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = a0.x2(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V256_from_v128x2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = V256::from_v128x2((a0, a1)); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V256_to_v128x2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = a0.to_v128x2(); st(o, 0, r.0); st(o, 16, r.1); }
#[no_mangle] pub unsafe fn v_sse2_V256_double_bytes(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<[u8; 16]>(i, 0); let r = V256::double_bytes(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V256_x2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = a0.x2(); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V512_from_v256x2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = V512::from_v256x2((a0, a1)); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_V512_to_v256x2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V512>(i, 0); let r = a0.to_v256x2(); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] pub unsafe fn v_sse2_V512_double_bytes(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<[u8; 32]>(i, 0); let r = V512::double_bytes(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u8x16_bitmask(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u8x16_bitmask(a0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_0(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 0); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_1(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 1); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_2(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 2); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 3); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_3(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 3); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 4); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_4(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 4); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 5); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_5(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 5); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 6); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_6(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 6); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 7); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_7(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 7); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 8); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_8(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 8); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 9); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_9(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 9); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 10); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_10(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 10); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 11); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_11(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 11); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 12); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_12(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 12); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 13); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_13(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 13); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 14); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_14(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 14); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shr_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shr(a0, 15); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_u16x8_shl_15(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::simulation::u16x8_shl(a0, 15); st(o, 0, r); }
#[no_mangle] pub unsafe fn v_sse2_sim_i16x8_packus(i: *const u8, o: *mut u8) { let s = SSE2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = vsimd::simulation::i16x8_packus(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_load(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let r = s.v128_load(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_load_unaligned(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let r = s.v128_load_unaligned(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_store(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store(o, a0); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_store_unaligned(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store_unaligned(o, a0); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_create_zero(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let r = s.v128_create_zero(); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_not(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.v128_not(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_and(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_and(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_or(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_or(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_xor(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_xor(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_andnot(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x2_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x2_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i8x16_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i32x4_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i64x2_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x2_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x2_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x2_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i8x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_add_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i8x16_add_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_mul_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_mul_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_mul_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_maddubs(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_maddubs(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_madd(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_madd(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_avgr(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shl_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_shr_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_16(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_16(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_17(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_17(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_18(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_18(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_19(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_19(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_20(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_20(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_21(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_21(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_22(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_22(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_23(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_23(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_24(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_24(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_25(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_25(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_26(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_26(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_27(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_27(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_28(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_28(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_29(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_29(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_30(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_30(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shl_31(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_shr_31(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_eq(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_max(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_min(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i8x16_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_eq(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_max(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_min(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_eq(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i32x4_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_swizzle(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_swizzle(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x2_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u64x2_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_any_zero(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_any_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_bitmask(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_bitmask(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128_bsl(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = s.v128_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_zip_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16_zip_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_zip_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8_zip_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_zip_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4_zip_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_load(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let r = s.v256_load(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_load_unaligned(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let r = s.v256_load_unaligned(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_store(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store(o, a0); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_store_unaligned(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store_unaligned(o, a0); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_create_zero(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let r = s.v256_create_zero(); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_not(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.v256_not(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_and(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_and(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_or(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_or(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_xor(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_xor(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_andnot(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x32_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x4_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i8x32_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x32_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x16_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i32x8_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i64x4_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x4_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x4_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i8x32_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_add_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i8x32_add_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x16_mul_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_mul_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x16_mul_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x16_maddubs(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_maddubs(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x16_madd(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_madd(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_avgr(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shl_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_shr_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_16(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_16(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_17(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_17(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_18(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_18(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_19(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_19(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_20(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_20(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_21(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_21(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_22(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_22(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_23(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_23(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_24(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_24(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_25(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_25(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_26(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_26(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_27(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_27(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_28(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_28(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_29(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_29(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_30(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_30(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shl_31(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_shr_31(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_eq(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_max(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_min(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i8x32_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_eq(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x16_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x16_max(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x16_min(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_eq(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i32x8_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16x2_swizzle(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_swizzle(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x8_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x4_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_any_zero(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_any_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x32_bitmask(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_bitmask(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v256_bsl(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let a2 = ld::<V256>(i, 64); let r = s.v256_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u8x16x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x8x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u32x4x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x2x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x2x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_i16x8_packus(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_packus(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x4_unzip_even(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_even(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u64x4_unzip_odd(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_odd(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_v128x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_u16x16_from_u8x16(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x16_from_u8x16(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_and(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_or(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_xor(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_andnot(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8xn_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V128>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_i8xn_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V128>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V128>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8xn_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8xn_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8xn_eq(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_i8xn_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8xn_avgr(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8x16xn_swizzle(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8x16xn_swizzle(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u16xn_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u32xn_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u64xn_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u64xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_mask8xn_all(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_mask8xn_any(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_f_mask8x16_all(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_f_mask8x16_any(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_f_u8x16_highbit_all(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_f_u8x16_highbit_any(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_lookup(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = vsimd::table::u8x16xn_lookup(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_hex_check(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::check_xn::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_alsw_check(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = vsimd::alsw::check_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s128_alsw_decode(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let a3 = ld::<V128>(i, 48); let a4 = ld::<V128>(i, 64); let r = vsimd::alsw::decode_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }, vsimd::alsw::AlswLut { hash: a3, offset: a4 }); st(o, 0, r.0); st(o, 16, r.1); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_and(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_or(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_xor(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_andnot(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8xn_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V256>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_i8xn_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V256>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_splat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V256>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8xn_add(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8xn_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_sub(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8xn_eq(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_i8xn_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_lt(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8xn_avgr(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8x16xn_swizzle(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8x16xn_swizzle(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_0(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u16xn_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u32xn_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u64xn_bswap(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u64xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_mask8xn_all(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_mask8xn_any(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_f_mask8x32_all(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_f_mask8x32_any(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_f_u8x32_highbit_all(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_f_u8x32_highbit_any(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_lookup(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = vsimd::table::u8x16xn_lookup(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_hex_check(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::check_xn::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_alsw_check(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V128>(i, 32); let a2 = ld::<V128>(i, 48); let r = vsimd::alsw::check_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }.x2()); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_s256_alsw_decode(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V128>(i, 32); let a2 = ld::<V128>(i, 48); let a3 = ld::<V128>(i, 64); let a4 = ld::<V128>(i, 80); let r = vsimd::alsw::decode_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }.x2(), vsimd::alsw::AlswLut { hash: a3, offset: a4 }.x2()); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_hex_encode16_lower(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::encode_bytes16(s, a0, vsimd::hex::ENCODE_LOWER_LUT); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_hex_encode32_lower(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::encode_bytes32(s, a0, vsimd::hex::ENCODE_LOWER_LUT); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_hex_encode16_upper(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::encode_bytes16(s, a0, vsimd::hex::ENCODE_UPPER_LUT); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_hex_encode32_upper(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::encode_bytes32(s, a0, vsimd::hex::ENCODE_UPPER_LUT); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_hex_decode16(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); match vsimd::hex::decode_ascii16(s, a0) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_hex_decode32(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); match vsimd::hex::decode_ascii32(s, a0) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] #[target_feature(enable = "ssse3")] pub unsafe fn v_ssse3_hex_decode32x2(i: *const u8, o: *mut u8) { let s = SSSE3::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); match vsimd::hex::decode_ascii32x2(s, (a0, a1)) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_load(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let r = s.v128_load(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_load_unaligned(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let r = s.v128_load_unaligned(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_store(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store(o, a0); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_store_unaligned(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store_unaligned(o, a0); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_create_zero(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let r = s.v128_create_zero(); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_not(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.v128_not(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_and(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_and(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_or(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_or(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_xor(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_xor(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_andnot(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_all_zero(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.v128_all_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x2_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x2_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x16_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x4_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i64x2_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x2_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x2_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x2_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_add_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x16_add_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_mul_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x4_mul_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_mul_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_mul_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_maddubs(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_maddubs(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_madd(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_madd(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_avgr(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shl_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_shr_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_16(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_16(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_17(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_17(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_18(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_18(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_19(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_19(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_20(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_20(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_21(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_21(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_22(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_22(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_23(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_23(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_24(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_24(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_25(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_25(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_26(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_26(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_27(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_27(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_28(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_28(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_29(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_29(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_30(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_30(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shl_31(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_shr_31(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_eq(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x16_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x16_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x16_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_eq(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_eq(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x4_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x4_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x4_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_swizzle(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_swizzle(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x2_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u64x2_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_any_zero(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_any_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_bitmask(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_bitmask(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128_bsl(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = s.v128_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_blendv(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = s.u8x16_blendv(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_zip_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16_zip_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_zip_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_zip_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_zip_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4_zip_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_load(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let r = s.v256_load(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_load_unaligned(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let r = s.v256_load_unaligned(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_store(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store(o, a0); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_store_unaligned(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store_unaligned(o, a0); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_create_zero(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let r = s.v256_create_zero(); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_not(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.v256_not(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_and(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_and(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_or(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_or(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_xor(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_xor(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_andnot(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_all_zero(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.v256_all_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x32_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x4_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x32_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x32_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x16_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x8_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i64x4_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x4_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x4_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x32_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x16_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_add_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x32_add_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x16_mul_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x8_mul_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_mul_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x16_mul_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x16_maddubs(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_maddubs(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x16_madd(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_madd(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_avgr(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shl_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_shr_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_16(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_16(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_17(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_17(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_18(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_18(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_19(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_19(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_20(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_20(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_21(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_21(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_22(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_22(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_23(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_23(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_24(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_24(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_25(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_25(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_26(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_26(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_27(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_27(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_28(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_28(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_29(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_29(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_30(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_30(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shl_31(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_shr_31(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_eq(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x32_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x32_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i8x32_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_eq(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x16_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x16_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x16_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_eq(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x8_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x8_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i32x8_min(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16x2_swizzle(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_swizzle(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x8_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x4_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_any_zero(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_any_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_bitmask(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_bitmask(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v256_bsl(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let a2 = ld::<V256>(i, 64); let r = s.v256_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x32_blendv(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let a2 = ld::<V256>(i, 64); let r = s.u8x32_blendv(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u8x16x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u32x4x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x2x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x2x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_i16x8_packus(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_packus(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x4_unzip_even(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_even(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u64x4_unzip_odd(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_odd(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128x2_zip_lo(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_v128x2_zip_hi(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x16_from_u8x16(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x16_from_u8x16(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<0>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<1>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<2>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<3>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<4>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<5>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<6>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<7>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<8>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<9>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<10>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<11>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<12>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<13>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<14>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<15>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_16(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<16>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_17(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<17>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_18(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<18>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_19(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<19>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_20(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<20>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_21(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<21>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_22(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<22>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_23(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<23>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_24(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<24>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_25(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<25>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_26(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<26>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_27(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<27>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_28(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<28>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_29(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<29>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_30(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<30>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_31(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<31>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_32(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<32>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_33(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<33>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_34(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<34>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_35(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<35>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_36(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<36>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_37(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<37>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_38(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<38>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_39(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<39>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_40(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<40>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_41(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<41>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_42(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<42>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_43(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<43>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_44(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<44>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_45(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<45>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_46(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<46>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_47(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<47>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_48(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<48>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_49(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<49>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_50(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<50>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_51(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<51>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_52(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<52>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_53(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<53>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_54(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<54>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_55(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<55>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_56(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<56>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_57(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<57>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_58(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<58>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_59(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<59>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_60(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<60>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_61(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<61>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_62(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<62>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_63(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<63>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_64(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<64>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_65(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<65>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_66(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<66>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_67(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<67>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_68(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<68>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_69(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<69>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_70(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<70>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_71(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<71>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_72(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<72>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_73(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<73>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_74(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<74>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_75(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<75>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_76(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<76>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_77(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<77>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_78(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<78>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_79(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<79>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_80(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<80>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_81(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<81>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_82(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<82>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_83(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<83>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_84(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<84>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_85(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<85>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_86(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<86>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_87(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<87>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_88(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<88>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_89(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<89>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_90(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<90>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_91(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<91>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_92(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<92>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_93(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<93>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_94(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<94>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_95(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<95>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_96(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<96>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_97(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<97>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_98(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<98>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_99(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<99>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_100(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<100>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_101(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<101>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_102(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<102>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_103(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<103>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_104(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<104>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_105(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<105>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_106(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<106>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_107(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<107>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_108(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<108>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_109(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<109>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_110(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<110>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_111(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<111>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_112(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<112>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_113(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<113>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_114(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<114>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_115(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<115>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_116(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<116>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_117(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<117>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_118(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<118>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_119(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<119>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_120(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<120>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_121(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<121>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_122(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<122>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_123(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<123>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_124(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<124>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_125(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<125>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_126(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<126>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_127(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<127>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_128(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<128>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_129(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<129>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_130(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<130>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_131(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<131>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_132(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<132>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_133(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<133>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_134(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<134>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_135(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<135>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_136(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<136>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_137(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<137>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_138(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<138>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_139(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<139>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_140(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<140>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_141(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<141>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_142(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<142>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_143(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<143>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_144(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<144>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_145(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<145>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_146(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<146>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_147(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<147>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_148(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<148>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_149(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<149>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_150(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<150>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_151(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<151>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_152(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<152>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_153(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<153>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_154(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<154>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_155(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<155>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_156(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<156>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_157(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<157>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_158(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<158>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_159(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<159>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_160(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<160>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_161(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<161>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_162(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<162>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_163(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<163>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_164(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<164>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_165(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<165>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_166(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<166>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_167(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<167>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_168(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<168>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_169(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<169>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_170(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<170>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_171(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<171>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_172(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<172>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_173(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<173>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_174(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<174>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_175(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<175>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_176(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<176>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_177(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<177>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_178(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<178>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_179(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<179>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_180(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<180>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_181(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<181>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_182(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<182>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_183(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<183>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_184(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<184>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_185(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<185>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_186(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<186>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_187(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<187>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_188(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<188>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_189(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<189>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_190(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<190>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_191(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<191>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_192(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<192>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_193(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<193>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_194(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<194>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_195(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<195>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_196(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<196>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_197(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<197>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_198(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<198>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_199(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<199>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_200(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<200>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_201(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<201>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_202(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<202>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_203(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<203>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_204(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<204>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_205(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<205>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_206(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<206>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_207(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<207>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_208(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<208>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_209(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<209>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_210(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<210>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_211(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<211>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_212(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<212>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_213(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<213>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_214(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<214>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_215(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<215>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_216(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<216>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_217(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<217>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_218(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<218>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_219(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<219>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_220(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<220>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_221(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<221>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_222(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<222>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_223(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<223>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_224(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<224>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_225(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<225>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_226(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<226>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_227(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<227>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_228(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<228>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_229(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<229>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_230(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<230>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_231(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<231>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_232(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<232>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_233(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<233>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_234(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<234>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_235(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<235>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_236(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<236>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_237(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<237>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_238(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<238>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_239(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<239>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_240(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<240>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_241(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<241>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_242(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<242>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_243(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<243>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_244(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<244>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_245(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<245>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_246(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<246>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_247(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<247>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_248(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<248>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_249(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<249>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_250(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<250>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_251(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<251>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_252(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<252>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_253(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<253>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_254(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<254>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_u16x8_blend_255(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<255>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_and(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_or(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_xor(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_andnot(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8xn_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V128>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_i8xn_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V128>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V128>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8xn_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8xn_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8xn_eq(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_i8xn_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_max(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8xn_avgr(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8x16xn_swizzle(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8x16xn_swizzle(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u16xn_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u32xn_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u64xn_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u64xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_all_zero(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::all_zero(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_mask8xn_all(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_mask8xn_any(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_f_mask8x16_all(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_f_mask8x16_any(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_f_u8x16_highbit_all(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_f_u8x16_highbit_any(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_lookup(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = vsimd::table::u8x16xn_lookup(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_hex_check(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::check_xn::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_alsw_check(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = vsimd::alsw::check_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s128_alsw_decode(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let a3 = ld::<V128>(i, 48); let a4 = ld::<V128>(i, 64); let r = vsimd::alsw::decode_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }, vsimd::alsw::AlswLut { hash: a3, offset: a4 }); st(o, 0, r.0); st(o, 16, r.1); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_and(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_or(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_xor(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_andnot(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8xn_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V256>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_i8xn_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V256>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_splat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V256>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8xn_add(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8xn_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_sub(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8xn_eq(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_i8xn_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_lt(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_max(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_max(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8xn_avgr(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8x16xn_swizzle(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8x16xn_swizzle(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_0(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u16xn_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u32xn_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u64xn_bswap(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u64xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_all_zero(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::all_zero(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_mask8xn_all(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_mask8xn_any(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_f_mask8x32_all(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_f_mask8x32_any(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_f_u8x32_highbit_all(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_f_u8x32_highbit_any(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_lookup(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = vsimd::table::u8x16xn_lookup(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_hex_check(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::check_xn::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_alsw_check(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V128>(i, 32); let a2 = ld::<V128>(i, 48); let r = vsimd::alsw::check_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }.x2()); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_s256_alsw_decode(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V128>(i, 32); let a2 = ld::<V128>(i, 48); let a3 = ld::<V128>(i, 64); let a4 = ld::<V128>(i, 80); let r = vsimd::alsw::decode_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }.x2(), vsimd::alsw::AlswLut { hash: a3, offset: a4 }.x2()); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_hex_encode16_lower(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::encode_bytes16(s, a0, vsimd::hex::ENCODE_LOWER_LUT); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_hex_encode32_lower(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::encode_bytes32(s, a0, vsimd::hex::ENCODE_LOWER_LUT); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_hex_encode16_upper(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::encode_bytes16(s, a0, vsimd::hex::ENCODE_UPPER_LUT); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_hex_encode32_upper(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::encode_bytes32(s, a0, vsimd::hex::ENCODE_UPPER_LUT); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_hex_decode16(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); match vsimd::hex::decode_ascii16(s, a0) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_hex_decode32(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); match vsimd::hex::decode_ascii32(s, a0) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] #[target_feature(enable = "sse4.1")] pub unsafe fn v_sse41_hex_decode32x2(i: *const u8, o: *mut u8) { let s = SSE41::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); match vsimd::hex::decode_ascii32x2(s, (a0, a1)) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_load(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let r = s.v128_load(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_load_unaligned(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let r = s.v128_load_unaligned(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_store(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store(o, a0); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_store_unaligned(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); s.v128_store_unaligned(o, a0); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_create_zero(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let r = s.v128_create_zero(); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_not(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.v128_not(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_and(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_and(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_or(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_or(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_xor(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_xor(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_andnot(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.v128_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_all_zero(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.v128_all_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x2_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x2_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x16_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x4_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i64x2_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x2_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x2_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x2_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x16_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_add_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x16_add_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_mul_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x4_mul_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_mul_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_mul_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_maddubs(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_maddubs(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_madd(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_madd(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_avgr(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shl_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_shr_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_17(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_17(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_18(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_18(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_19(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_19(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_20(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_20(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_21(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_21(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_22(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_22(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_23(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_23(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_24(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_24(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_25(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_25(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_26(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_26(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_27(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_27(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_28(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_28(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_29(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_29(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_30(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_30(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shl_31(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_shr_31(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_eq(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x16_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x16_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x16_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i8x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_eq(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_eq(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x4_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x4_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x4_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i32x4_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_swizzle(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_swizzle(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x8_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u32x4_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x2_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u64x2_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_any_zero(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_any_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_bitmask(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u8x16_bitmask(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128_bsl(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = s.v128_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_blendv(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = s.u8x16_blendv(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_zip_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16_zip_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u8x16_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_zip_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_zip_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_zip_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4_zip_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u32x4_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x2_zip_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x2_zip_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u64x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_load(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let r = s.v256_load(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_load_unaligned(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let r = s.v256_load_unaligned(i); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_store(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store(o, a0); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_store_unaligned(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); s.v256_store_unaligned(o, a0); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_create_zero(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let r = s.v256_create_zero(); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_not(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.v256_not(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_and(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_and(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_or(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_or(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_xor(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_xor(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_andnot(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v256_andnot(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_all_zero(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.v256_all_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = s.u8x32_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u16>(i, 0); let r = s.u16x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = s.u32x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u64>(i, 0); let r = s.u64x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x32_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = s.i8x32_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x16_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i16>(i, 0); let r = s.i16x16_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x8_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i32>(i, 0); let r = s.i32x8_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i64x4_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i64>(i, 0); let r = s.i64x4_splat(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_add(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_sub(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x32_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x16_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_sub_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_add_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x32_add_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_add_sat(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x16_mul_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x8_mul_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_mul_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_mul_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x16_mul_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_mul_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x16_maddubs(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_maddubs(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x16_madd(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_madd(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_avgr(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_avgr(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shl_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_shr_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_17(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_17(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_18(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_18(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_19(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_19(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_20(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_20(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_21(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_21(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_22(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_22(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_23(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_23(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_24(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_24(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_25(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_25(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_26(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_26(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_27(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_27(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_28(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_28(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_29(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_29(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_30(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_30(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shl_31(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shl::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_shr_31(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_shr::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_eq(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x32_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x32_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x32_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i8x32_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i8x32_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_eq(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x16_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x16_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x16_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i16x16_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_eq(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_eq(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x8_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_lt(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x8_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_max(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i32x8_min(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.i32x8_min(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16x2_swizzle(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_swizzle(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u16x16_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u32x8_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_bswap(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_any_zero(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_any_zero(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_bitmask(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u8x32_bitmask(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v256_bsl(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let a2 = ld::<V256>(i, 64); let r = s.v256_bsl(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x32_blendv(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let a2 = ld::<V256>(i, 64); let r = s.u8x32_blendv(a0, a1, a2); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16x2_zip_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u8x16x2_zip_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u8x16x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8x2_zip_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8x2_zip_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u16x8x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4x2_zip_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x4x2_zip_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x4x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x2x2_zip_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x2x2_zip_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x2x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_i16x8_packus(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.i16x8_packus(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_unzip_even(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_even(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_unzip_odd(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u64x4_unzip_odd(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128x2_zip_lo(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_lo(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_v128x2_zip_hi(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.v128x2_zip_hi(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x16_from_u8x16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = s.u16x16_from_u8x16(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<0>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<0>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<0>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<1>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<1>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<1>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<2>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<2>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<2>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<3>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<3>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<3>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<4>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<4>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<4>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<5>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<5>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<5>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<6>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<6>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<6>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<7>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<7>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<7>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<8>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<8>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<8>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<9>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<9>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<9>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<10>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<10>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<10>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<11>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<11>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<11>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<12>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<12>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<12>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<13>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<13>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<13>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<14>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<14>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<14>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<15>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<15>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<15>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<16>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<16>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<16>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_17(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<17>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_17(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<17>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_17(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<17>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_18(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<18>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_18(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<18>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_18(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<18>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_19(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<19>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_19(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<19>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_19(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<19>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_20(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<20>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_20(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<20>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_20(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<20>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_21(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<21>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_21(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<21>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_21(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<21>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_22(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<22>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_22(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<22>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_22(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<22>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_23(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<23>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_23(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<23>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_23(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<23>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_24(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<24>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_24(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<24>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_24(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<24>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_25(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<25>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_25(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<25>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_25(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<25>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_26(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<26>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_26(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<26>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_26(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<26>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_27(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<27>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_27(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<27>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_27(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<27>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_28(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<28>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_28(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<28>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_28(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<28>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_29(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<29>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_29(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<29>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_29(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<29>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_30(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<30>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_30(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<30>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_30(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<30>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_31(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<31>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_31(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<31>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_31(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<31>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_32(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<32>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_32(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<32>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_32(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<32>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_33(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<33>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_33(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<33>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_33(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<33>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_34(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<34>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_34(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<34>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_34(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<34>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_35(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<35>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_35(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<35>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_35(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<35>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_36(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<36>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_36(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<36>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_36(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<36>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_37(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<37>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_37(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<37>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_37(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<37>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_38(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<38>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_38(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<38>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_38(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<38>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_39(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<39>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_39(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<39>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_39(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<39>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_40(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<40>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_40(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<40>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_40(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<40>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_41(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<41>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_41(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<41>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_41(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<41>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_42(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<42>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_42(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<42>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_42(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<42>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_43(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<43>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_43(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<43>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_43(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<43>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_44(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<44>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_44(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<44>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_44(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<44>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_45(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<45>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_45(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<45>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_45(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<45>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_46(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<46>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_46(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<46>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_46(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<46>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_47(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<47>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_47(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<47>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_47(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<47>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_48(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<48>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_48(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<48>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_48(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<48>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_49(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<49>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_49(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<49>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_49(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<49>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_50(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<50>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_50(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<50>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_50(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<50>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_51(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<51>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_51(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<51>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_51(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<51>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_52(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<52>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_52(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<52>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_52(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<52>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_53(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<53>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_53(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<53>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_53(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<53>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_54(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<54>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_54(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<54>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_54(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<54>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_55(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<55>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_55(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<55>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_55(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<55>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_56(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<56>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_56(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<56>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_56(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<56>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_57(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<57>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_57(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<57>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_57(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<57>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_58(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<58>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_58(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<58>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_58(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<58>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_59(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<59>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_59(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<59>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_59(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<59>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_60(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<60>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_60(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<60>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_60(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<60>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_61(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<61>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_61(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<61>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_61(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<61>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_62(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<62>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_62(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<62>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_62(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<62>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_63(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<63>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_63(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<63>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_63(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<63>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_64(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<64>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_64(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<64>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_64(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<64>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_65(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<65>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_65(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<65>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_65(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<65>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_66(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<66>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_66(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<66>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_66(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<66>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_67(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<67>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_67(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<67>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_67(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<67>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_68(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<68>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_68(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<68>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_68(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<68>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_69(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<69>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_69(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<69>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_69(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<69>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_70(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<70>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_70(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<70>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_70(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<70>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_71(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<71>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_71(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<71>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_71(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<71>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_72(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<72>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_72(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<72>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_72(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<72>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_73(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<73>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_73(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<73>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_73(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<73>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_74(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<74>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_74(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<74>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_74(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<74>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_75(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<75>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_75(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<75>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_75(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<75>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_76(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<76>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_76(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<76>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_76(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<76>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_77(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<77>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_77(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<77>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_77(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<77>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_78(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<78>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_78(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<78>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_78(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<78>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_79(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<79>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_79(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<79>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_79(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<79>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_80(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<80>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_80(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<80>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_80(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<80>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_81(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<81>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_81(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<81>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_81(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<81>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_82(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<82>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_82(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<82>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_82(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<82>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_83(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<83>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_83(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<83>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_83(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<83>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_84(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<84>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_84(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<84>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_84(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<84>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_85(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<85>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_85(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<85>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_85(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<85>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_86(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<86>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_86(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<86>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_86(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<86>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_87(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<87>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_87(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<87>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_87(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<87>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_88(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<88>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_88(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<88>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_88(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<88>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_89(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<89>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_89(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<89>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_89(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<89>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_90(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<90>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_90(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<90>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_90(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<90>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_91(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<91>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_91(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<91>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_91(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<91>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_92(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<92>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_92(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<92>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_92(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<92>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_93(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<93>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_93(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<93>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_93(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<93>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_94(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<94>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_94(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<94>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_94(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<94>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_95(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<95>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_95(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<95>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_95(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<95>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_96(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<96>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_96(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<96>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_96(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<96>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_97(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<97>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_97(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<97>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_97(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<97>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_98(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<98>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_98(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<98>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_98(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<98>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_99(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<99>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_99(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<99>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_99(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<99>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_100(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<100>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_100(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<100>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_100(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<100>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_101(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<101>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_101(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<101>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_101(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<101>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_102(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<102>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_102(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<102>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_102(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<102>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_103(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<103>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_103(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<103>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_103(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<103>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_104(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<104>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_104(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<104>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_104(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<104>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_105(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<105>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_105(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<105>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_105(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<105>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_106(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<106>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_106(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<106>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_106(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<106>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_107(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<107>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_107(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<107>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_107(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<107>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_108(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<108>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_108(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<108>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_108(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<108>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_109(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<109>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_109(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<109>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_109(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<109>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_110(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<110>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_110(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<110>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_110(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<110>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_111(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<111>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_111(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<111>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_111(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<111>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_112(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<112>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_112(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<112>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_112(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<112>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_113(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<113>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_113(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<113>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_113(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<113>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_114(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<114>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_114(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<114>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_114(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<114>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_115(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<115>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_115(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<115>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_115(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<115>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_116(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<116>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_116(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<116>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_116(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<116>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_117(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<117>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_117(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<117>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_117(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<117>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_118(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<118>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_118(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<118>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_118(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<118>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_119(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<119>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_119(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<119>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_119(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<119>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_120(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<120>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_120(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<120>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_120(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<120>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_121(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<121>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_121(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<121>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_121(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<121>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_122(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<122>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_122(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<122>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_122(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<122>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_123(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<123>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_123(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<123>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_123(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<123>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_124(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<124>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_124(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<124>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_124(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<124>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_125(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<125>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_125(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<125>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_125(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<125>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_126(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<126>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_126(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<126>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_126(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<126>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_127(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<127>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_127(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<127>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_127(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<127>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_128(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<128>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_128(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<128>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_128(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<128>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_129(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<129>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_129(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<129>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_129(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<129>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_130(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<130>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_130(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<130>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_130(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<130>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_131(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<131>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_131(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<131>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_131(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<131>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_132(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<132>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_132(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<132>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_132(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<132>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_133(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<133>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_133(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<133>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_133(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<133>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_134(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<134>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_134(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<134>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_134(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<134>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_135(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<135>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_135(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<135>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_135(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<135>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_136(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<136>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_136(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<136>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_136(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<136>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_137(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<137>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_137(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<137>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_137(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<137>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_138(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<138>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_138(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<138>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_138(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<138>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_139(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<139>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_139(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<139>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_139(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<139>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_140(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<140>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_140(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<140>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_140(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<140>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_141(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<141>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_141(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<141>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_141(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<141>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_142(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<142>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_142(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<142>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_142(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<142>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_143(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<143>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_143(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<143>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_143(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<143>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_144(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<144>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_144(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<144>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_144(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<144>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_145(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<145>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_145(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<145>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_145(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<145>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_146(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<146>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_146(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<146>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_146(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<146>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_147(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<147>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_147(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<147>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_147(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<147>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_148(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<148>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_148(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<148>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_148(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<148>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_149(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<149>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_149(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<149>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_149(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<149>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_150(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<150>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_150(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<150>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_150(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<150>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_151(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<151>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_151(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<151>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_151(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<151>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_152(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<152>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_152(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<152>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_152(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<152>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_153(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<153>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_153(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<153>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_153(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<153>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_154(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<154>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_154(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<154>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_154(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<154>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_155(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<155>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_155(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<155>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_155(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<155>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_156(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<156>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_156(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<156>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_156(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<156>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_157(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<157>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_157(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<157>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_157(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<157>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_158(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<158>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_158(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<158>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_158(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<158>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_159(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<159>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_159(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<159>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_159(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<159>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_160(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<160>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_160(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<160>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_160(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<160>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_161(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<161>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_161(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<161>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_161(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<161>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_162(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<162>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_162(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<162>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_162(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<162>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_163(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<163>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_163(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<163>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_163(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<163>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_164(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<164>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_164(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<164>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_164(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<164>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_165(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<165>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_165(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<165>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_165(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<165>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_166(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<166>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_166(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<166>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_166(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<166>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_167(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<167>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_167(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<167>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_167(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<167>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_168(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<168>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_168(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<168>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_168(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<168>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_169(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<169>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_169(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<169>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_169(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<169>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_170(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<170>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_170(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<170>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_170(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<170>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_171(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<171>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_171(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<171>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_171(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<171>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_172(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<172>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_172(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<172>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_172(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<172>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_173(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<173>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_173(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<173>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_173(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<173>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_174(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<174>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_174(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<174>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_174(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<174>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_175(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<175>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_175(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<175>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_175(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<175>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_176(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<176>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_176(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<176>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_176(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<176>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_177(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<177>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_177(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<177>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_177(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<177>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_178(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<178>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_178(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<178>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_178(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<178>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_179(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<179>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_179(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<179>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_179(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<179>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_180(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<180>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_180(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<180>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_180(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<180>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_181(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<181>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_181(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<181>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_181(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<181>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_182(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<182>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_182(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<182>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_182(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<182>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_183(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<183>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_183(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<183>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_183(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<183>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_184(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<184>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_184(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<184>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_184(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<184>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_185(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<185>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_185(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<185>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_185(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<185>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_186(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<186>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_186(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<186>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_186(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<186>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_187(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<187>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_187(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<187>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_187(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<187>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_188(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<188>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_188(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<188>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_188(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<188>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_189(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<189>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_189(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<189>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_189(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<189>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_190(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<190>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_190(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<190>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_190(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<190>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_191(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<191>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_191(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<191>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_191(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<191>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_192(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<192>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_192(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<192>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_192(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<192>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_193(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<193>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_193(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<193>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_193(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<193>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_194(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<194>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_194(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<194>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_194(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<194>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_195(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<195>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_195(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<195>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_195(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<195>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_196(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<196>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_196(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<196>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_196(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<196>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_197(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<197>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_197(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<197>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_197(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<197>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_198(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<198>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_198(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<198>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_198(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<198>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_199(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<199>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_199(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<199>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_199(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<199>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_200(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<200>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_200(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<200>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_200(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<200>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_201(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<201>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_201(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<201>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_201(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<201>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_202(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<202>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_202(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<202>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_202(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<202>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_203(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<203>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_203(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<203>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_203(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<203>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_204(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<204>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_204(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<204>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_204(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<204>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_205(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<205>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_205(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<205>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_205(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<205>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_206(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<206>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_206(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<206>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_206(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<206>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_207(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<207>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_207(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<207>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_207(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<207>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_208(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<208>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_208(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<208>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_208(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<208>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_209(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<209>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_209(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<209>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_209(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<209>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_210(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<210>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_210(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<210>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_210(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<210>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_211(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<211>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_211(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<211>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_211(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<211>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_212(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<212>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_212(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<212>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_212(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<212>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_213(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<213>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_213(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<213>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_213(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<213>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_214(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<214>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_214(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<214>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_214(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<214>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_215(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<215>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_215(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<215>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_215(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<215>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_216(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<216>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_216(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<216>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_216(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<216>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_217(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<217>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_217(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<217>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_217(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<217>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_218(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<218>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_218(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<218>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_218(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<218>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_219(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<219>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_219(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<219>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_219(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<219>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_220(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<220>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_220(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<220>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_220(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<220>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_221(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<221>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_221(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<221>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_221(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<221>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_222(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<222>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_222(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<222>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_222(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<222>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_223(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<223>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_223(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<223>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_223(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<223>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_224(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<224>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_224(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<224>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_224(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<224>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_225(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<225>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_225(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<225>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_225(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<225>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_226(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<226>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_226(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<226>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_226(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<226>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_227(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<227>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_227(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<227>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_227(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<227>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_228(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<228>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_228(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<228>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_228(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<228>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_229(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<229>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_229(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<229>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_229(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<229>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_230(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<230>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_230(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<230>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_230(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<230>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_231(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<231>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_231(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<231>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_231(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<231>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_232(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<232>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_232(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<232>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_232(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<232>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_233(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<233>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_233(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<233>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_233(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<233>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_234(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<234>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_234(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<234>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_234(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<234>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_235(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<235>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_235(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<235>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_235(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<235>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_236(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<236>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_236(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<236>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_236(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<236>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_237(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<237>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_237(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<237>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_237(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<237>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_238(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<238>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_238(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<238>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_238(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<238>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_239(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<239>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_239(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<239>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_239(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<239>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_240(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<240>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_240(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<240>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_240(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<240>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_241(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<241>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_241(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<241>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_241(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<241>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_242(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<242>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_242(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<242>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_242(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<242>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_243(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<243>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_243(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<243>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_243(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<243>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_244(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<244>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_244(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<244>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_244(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<244>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_245(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<245>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_245(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<245>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_245(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<245>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_246(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<246>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_246(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<246>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_246(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<246>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_247(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<247>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_247(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<247>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_247(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<247>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_248(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<248>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_248(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<248>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_248(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<248>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_249(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<249>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_249(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<249>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_249(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<249>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_250(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<250>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_250(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<250>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_250(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<250>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_251(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<251>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_251(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<251>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_251(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<251>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_252(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<252>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_252(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<252>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_252(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<252>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_253(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<253>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_253(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<253>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_253(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<253>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_254(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<254>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_254(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<254>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_254(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<254>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u64x4_permute_255(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = s.u64x4_permute::<255>(a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u16x8_blend_255(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = s.u16x8_blend::<255>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_u32x8_blend_255(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = s.u32x8_blend::<255>(a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_and(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_or(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_xor(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_andnot(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8xn_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V128>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_i8xn_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V128>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V128>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8xn_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8xn_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8xn_eq(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_i8xn_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u32xn_max(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8xn_avgr(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8x16xn_swizzle(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = <_ as Scalable<V128>>::u8x16xn_swizzle(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u16xn_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u16xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u32xn_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u32xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u64xn_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u64xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_all_zero(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::all_zero(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_mask8xn_all(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_mask8xn_any(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = <_ as Scalable<V128>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_f_mask8x16_all(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_f_mask8x16_any(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::mask8x16_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_f_u8x16_highbit_all(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_f_u8x16_highbit_any(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::mask::u8x16_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_lookup(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let r = vsimd::table::u8x16xn_lookup(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_hex_check(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::check_xn::<_, V128>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_alsw_check(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let r = vsimd::alsw::check_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s128_alsw_decode(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let a1 = ld::<V128>(i, 16); let a2 = ld::<V128>(i, 32); let a3 = ld::<V128>(i, 48); let a4 = ld::<V128>(i, 64); let r = vsimd::alsw::decode_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }, vsimd::alsw::AlswLut { hash: a3, offset: a4 }); st(o, 0, r.0); st(o, 16, r.1); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_and(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::and(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_or(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::or(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_xor(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::xor(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_andnot(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::andnot(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8xn_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u8>(i, 0); let r = <_ as Scalable<V256>>::u8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_i8xn_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<i8>(i, 0); let r = <_ as Scalable<V256>>::i8xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_splat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<u32>(i, 0); let r = <_ as Scalable<V256>>::u32xn_splat(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8xn_add(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8xn_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_sub(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_sub(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8xn_add_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_i8xn_add_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_add_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8xn_sub_sat(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_sub_sat(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8xn_eq(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_eq(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_i8xn_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::i8xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_lt(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_lt(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_max(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u32xn_max(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8xn_avgr(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8xn_avgr(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8x16xn_swizzle(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = <_ as Scalable<V256>>::u8x16xn_swizzle(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_0(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<0>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_1(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<1>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<2>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_3(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<3>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_4(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<4>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_5(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<5>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_6(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<6>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_7(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<7>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_8(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<8>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_9(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<9>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_10(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<10>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_11(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<11>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_12(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<12>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_13(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<13>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_14(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<14>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shl_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shl::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_shr_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_15(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<15>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<16>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_17(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<17>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_18(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<18>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_19(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<19>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_20(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<20>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_21(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<21>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_22(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<22>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_23(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<23>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_24(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<24>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_25(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<25>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_26(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<26>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_27(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<27>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_28(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<28>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_29(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<29>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_30(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<30>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_shr_31(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_shr::<31>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u16xn_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u16xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u32xn_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u32xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u64xn_bswap(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u64xn_bswap(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_all_zero(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::all_zero(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_mask8xn_all(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_mask8xn_any(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::mask8xn_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8xn_highbit_all(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_u8xn_highbit_any(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = <_ as Scalable<V256>>::u8xn_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_f_mask8x32_all(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_f_mask8x32_any(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::mask8x32_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_f_u8x32_highbit_all(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_all(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_f_u8x32_highbit_any(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::mask::u8x32_highbit_any(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_lookup(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); let r = vsimd::table::u8x16xn_lookup(s, a0, a1); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_to_ascii_lowercase(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_lowercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_to_ascii_uppercase(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::ascii::to_ascii_uppercase::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_hex_check(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::check_xn::<_, V256>(s, a0); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_alsw_check(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V128>(i, 32); let a2 = ld::<V128>(i, 48); let r = vsimd::alsw::check_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }.x2()); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_s256_alsw_decode(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V128>(i, 32); let a2 = ld::<V128>(i, 48); let a3 = ld::<V128>(i, 64); let a4 = ld::<V128>(i, 80); let r = vsimd::alsw::decode_ascii_xn(s, a0, vsimd::alsw::AlswLut { hash: a1, offset: a2 }.x2(), vsimd::alsw::AlswLut { hash: a3, offset: a4 }.x2()); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_hex_encode16_lower(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::encode_bytes16(s, a0, vsimd::hex::ENCODE_LOWER_LUT); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_hex_encode32_lower(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::encode_bytes32(s, a0, vsimd::hex::ENCODE_LOWER_LUT); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_hex_encode16_upper(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); let r = vsimd::hex::encode_bytes16(s, a0, vsimd::hex::ENCODE_UPPER_LUT); st(o, 0, r); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_hex_encode32_upper(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let r = vsimd::hex::encode_bytes32(s, a0, vsimd::hex::ENCODE_UPPER_LUT); st(o, 0, r.0); st(o, 32, r.1); }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_hex_decode16(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V128>(i, 0); match vsimd::hex::decode_ascii16(s, a0) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_hex_decode32(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); match vsimd::hex::decode_ascii32(s, a0) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[no_mangle] #[target_feature(enable = "avx2")] pub unsafe fn v_avx2_hex_decode32x2(i: *const u8, o: *mut u8) { let s = AVX2::new(); let _ = (s, i, o); let a0 = ld::<V256>(i, 0); let a1 = ld::<V256>(i, 32); match vsimd::hex::decode_ascii32x2(s, (a0, a1)) { Ok(v) => { st(o, 0, 1u8); st(o, 1, v) } Err(_) => st(o, 0, 0u8) } }
#[cfg(feature = "table")]
pub static TABLE: &[(&str, unsafe fn(*const u8, *mut u8))] = &[
    ("v_sse2_v128_load", |i, o| unsafe { v_sse2_v128_load(i, o) }),
    ("v_sse2_v128_load_unaligned", |i, o| unsafe { v_sse2_v128_load_unaligned(i, o) }),
    ("v_sse2_v128_store", |i, o| unsafe { v_sse2_v128_store(i, o) }),
    ("v_sse2_v128_store_unaligned", |i, o| unsafe { v_sse2_v128_store_unaligned(i, o) }),
    ("v_sse2_v128_create_zero", |i, o| unsafe { v_sse2_v128_create_zero(i, o) }),
    ("v_sse2_v128_not", |i, o| unsafe { v_sse2_v128_not(i, o) }),
    ("v_sse2_v128_and", |i, o| unsafe { v_sse2_v128_and(i, o) }),
    ("v_sse2_v128_or", |i, o| unsafe { v_sse2_v128_or(i, o) }),
    ("v_sse2_v128_xor", |i, o| unsafe { v_sse2_v128_xor(i, o) }),
    ("v_sse2_v128_andnot", |i, o| unsafe { v_sse2_v128_andnot(i, o) }),
    ("v_sse2_u8x16_splat", |i, o| unsafe { v_sse2_u8x16_splat(i, o) }),
    ("v_sse2_u16x8_splat", |i, o| unsafe { v_sse2_u16x8_splat(i, o) }),
    ("v_sse2_u32x4_splat", |i, o| unsafe { v_sse2_u32x4_splat(i, o) }),
    ("v_sse2_u64x2_splat", |i, o| unsafe { v_sse2_u64x2_splat(i, o) }),
    ("v_sse2_i8x16_splat", |i, o| unsafe { v_sse2_i8x16_splat(i, o) }),
    ("v_sse2_i16x8_splat", |i, o| unsafe { v_sse2_i16x8_splat(i, o) }),
    ("v_sse2_i32x4_splat", |i, o| unsafe { v_sse2_i32x4_splat(i, o) }),
    ("v_sse2_i64x2_splat", |i, o| unsafe { v_sse2_i64x2_splat(i, o) }),
    ("v_sse2_u8x16_add", |i, o| unsafe { v_sse2_u8x16_add(i, o) }),
    ("v_sse2_u8x16_sub", |i, o| unsafe { v_sse2_u8x16_sub(i, o) }),
    ("v_sse2_u16x8_add", |i, o| unsafe { v_sse2_u16x8_add(i, o) }),
    ("v_sse2_u16x8_sub", |i, o| unsafe { v_sse2_u16x8_sub(i, o) }),
    ("v_sse2_u32x4_add", |i, o| unsafe { v_sse2_u32x4_add(i, o) }),
    ("v_sse2_u32x4_sub", |i, o| unsafe { v_sse2_u32x4_sub(i, o) }),
    ("v_sse2_u64x2_add", |i, o| unsafe { v_sse2_u64x2_add(i, o) }),
    ("v_sse2_u64x2_sub", |i, o| unsafe { v_sse2_u64x2_sub(i, o) }),
    ("v_sse2_u8x16_sub_sat", |i, o| unsafe { v_sse2_u8x16_sub_sat(i, o) }),
    ("v_sse2_i8x16_sub_sat", |i, o| unsafe { v_sse2_i8x16_sub_sat(i, o) }),
    ("v_sse2_u16x8_sub_sat", |i, o| unsafe { v_sse2_u16x8_sub_sat(i, o) }),
    ("v_sse2_i16x8_sub_sat", |i, o| unsafe { v_sse2_i16x8_sub_sat(i, o) }),
    ("v_sse2_u8x16_add_sat", |i, o| unsafe { v_sse2_u8x16_add_sat(i, o) }),
    ("v_sse2_i8x16_add_sat", |i, o| unsafe { v_sse2_i8x16_add_sat(i, o) }),
    ("v_sse2_i16x8_mul_lo", |i, o| unsafe { v_sse2_i16x8_mul_lo(i, o) }),
    ("v_sse2_u16x8_mul_hi", |i, o| unsafe { v_sse2_u16x8_mul_hi(i, o) }),
    ("v_sse2_i16x8_mul_hi", |i, o| unsafe { v_sse2_i16x8_mul_hi(i, o) }),
    ("v_sse2_i16x8_madd", |i, o| unsafe { v_sse2_i16x8_madd(i, o) }),
    ("v_sse2_u8x16_avgr", |i, o| unsafe { v_sse2_u8x16_avgr(i, o) }),
    ("v_sse2_u16x8_shl_0", |i, o| unsafe { v_sse2_u16x8_shl_0(i, o) }),
    ("v_sse2_u16x8_shr_0", |i, o| unsafe { v_sse2_u16x8_shr_0(i, o) }),
    ("v_sse2_u16x8_shl_1", |i, o| unsafe { v_sse2_u16x8_shl_1(i, o) }),
    ("v_sse2_u16x8_shr_1", |i, o| unsafe { v_sse2_u16x8_shr_1(i, o) }),
    ("v_sse2_u16x8_shl_2", |i, o| unsafe { v_sse2_u16x8_shl_2(i, o) }),
    ("v_sse2_u16x8_shr_2", |i, o| unsafe { v_sse2_u16x8_shr_2(i, o) }),
    ("v_sse2_u16x8_shl_3", |i, o| unsafe { v_sse2_u16x8_shl_3(i, o) }),
    ("v_sse2_u16x8_shr_3", |i, o| unsafe { v_sse2_u16x8_shr_3(i, o) }),
    ("v_sse2_u16x8_shl_4", |i, o| unsafe { v_sse2_u16x8_shl_4(i, o) }),
    ("v_sse2_u16x8_shr_4", |i, o| unsafe { v_sse2_u16x8_shr_4(i, o) }),
    ("v_sse2_u16x8_shl_5", |i, o| unsafe { v_sse2_u16x8_shl_5(i, o) }),
    ("v_sse2_u16x8_shr_5", |i, o| unsafe { v_sse2_u16x8_shr_5(i, o) }),
    ("v_sse2_u16x8_shl_6", |i, o| unsafe { v_sse2_u16x8_shl_6(i, o) }),
    ("v_sse2_u16x8_shr_6", |i, o| unsafe { v_sse2_u16x8_shr_6(i, o) }),
    ("v_sse2_u16x8_shl_7", |i, o| unsafe { v_sse2_u16x8_shl_7(i, o) }),
    ("v_sse2_u16x8_shr_7", |i, o| unsafe { v_sse2_u16x8_shr_7(i, o) }),
    ("v_sse2_u16x8_shl_8", |i, o| unsafe { v_sse2_u16x8_shl_8(i, o) }),
    ("v_sse2_u16x8_shr_8", |i, o| unsafe { v_sse2_u16x8_shr_8(i, o) }),
    ("v_sse2_u16x8_shl_9", |i, o| unsafe { v_sse2_u16x8_shl_9(i, o) }),
    ("v_sse2_u16x8_shr_9", |i, o| unsafe { v_sse2_u16x8_shr_9(i, o) }),
    ("v_sse2_u16x8_shl_10", |i, o| unsafe { v_sse2_u16x8_shl_10(i, o) }),
    ("v_sse2_u16x8_shr_10", |i, o| unsafe { v_sse2_u16x8_shr_10(i, o) }),
    ("v_sse2_u16x8_shl_11", |i, o| unsafe { v_sse2_u16x8_shl_11(i, o) }),
    ("v_sse2_u16x8_shr_11", |i, o| unsafe { v_sse2_u16x8_shr_11(i, o) }),
    ("v_sse2_u16x8_shl_12", |i, o| unsafe { v_sse2_u16x8_shl_12(i, o) }),
    ("v_sse2_u16x8_shr_12", |i, o| unsafe { v_sse2_u16x8_shr_12(i, o) }),
    ("v_sse2_u16x8_shl_13", |i, o| unsafe { v_sse2_u16x8_shl_13(i, o) }),
    ("v_sse2_u16x8_shr_13", |i, o| unsafe { v_sse2_u16x8_shr_13(i, o) }),
    ("v_sse2_u16x8_shl_14", |i, o| unsafe { v_sse2_u16x8_shl_14(i, o) }),
    ("v_sse2_u16x8_shr_14", |i, o| unsafe { v_sse2_u16x8_shr_14(i, o) }),
    ("v_sse2_u16x8_shl_15", |i, o| unsafe { v_sse2_u16x8_shl_15(i, o) }),
    ("v_sse2_u16x8_shr_15", |i, o| unsafe { v_sse2_u16x8_shr_15(i, o) }),
    ("v_sse2_u32x4_shl_0", |i, o| unsafe { v_sse2_u32x4_shl_0(i, o) }),
    ("v_sse2_u32x4_shr_0", |i, o| unsafe { v_sse2_u32x4_shr_0(i, o) }),
    ("v_sse2_u32x4_shl_1", |i, o| unsafe { v_sse2_u32x4_shl_1(i, o) }),
    ("v_sse2_u32x4_shr_1", |i, o| unsafe { v_sse2_u32x4_shr_1(i, o) }),
    ("v_sse2_u32x4_shl_2", |i, o| unsafe { v_sse2_u32x4_shl_2(i, o) }),
    ("v_sse2_u32x4_shr_2", |i, o| unsafe { v_sse2_u32x4_shr_2(i, o) }),
    ("v_sse2_u32x4_shl_3", |i, o| unsafe { v_sse2_u32x4_shl_3(i, o) }),
    ("v_sse2_u32x4_shr_3", |i, o| unsafe { v_sse2_u32x4_shr_3(i, o) }),
    ("v_sse2_u32x4_shl_4", |i, o| unsafe { v_sse2_u32x4_shl_4(i, o) }),
    ("v_sse2_u32x4_shr_4", |i, o| unsafe { v_sse2_u32x4_shr_4(i, o) }),
    ("v_sse2_u32x4_shl_5", |i, o| unsafe { v_sse2_u32x4_shl_5(i, o) }),
    ("v_sse2_u32x4_shr_5", |i, o| unsafe { v_sse2_u32x4_shr_5(i, o) }),
    ("v_sse2_u32x4_shl_6", |i, o| unsafe { v_sse2_u32x4_shl_6(i, o) }),
    ("v_sse2_u32x4_shr_6", |i, o| unsafe { v_sse2_u32x4_shr_6(i, o) }),
    ("v_sse2_u32x4_shl_7", |i, o| unsafe { v_sse2_u32x4_shl_7(i, o) }),
    ("v_sse2_u32x4_shr_7", |i, o| unsafe { v_sse2_u32x4_shr_7(i, o) }),
    ("v_sse2_u32x4_shl_8", |i, o| unsafe { v_sse2_u32x4_shl_8(i, o) }),
    ("v_sse2_u32x4_shr_8", |i, o| unsafe { v_sse2_u32x4_shr_8(i, o) }),
    ("v_sse2_u32x4_shl_9", |i, o| unsafe { v_sse2_u32x4_shl_9(i, o) }),
    ("v_sse2_u32x4_shr_9", |i, o| unsafe { v_sse2_u32x4_shr_9(i, o) }),
    ("v_sse2_u32x4_shl_10", |i, o| unsafe { v_sse2_u32x4_shl_10(i, o) }),
    ("v_sse2_u32x4_shr_10", |i, o| unsafe { v_sse2_u32x4_shr_10(i, o) }),
    ("v_sse2_u32x4_shl_11", |i, o| unsafe { v_sse2_u32x4_shl_11(i, o) }),
    ("v_sse2_u32x4_shr_11", |i, o| unsafe { v_sse2_u32x4_shr_11(i, o) }),
    ("v_sse2_u32x4_shl_12", |i, o| unsafe { v_sse2_u32x4_shl_12(i, o) }),
    ("v_sse2_u32x4_shr_12", |i, o| unsafe { v_sse2_u32x4_shr_12(i, o) }),
    ("v_sse2_u32x4_shl_13", |i, o| unsafe { v_sse2_u32x4_shl_13(i, o) }),
    ("v_sse2_u32x4_shr_13", |i, o| unsafe { v_sse2_u32x4_shr_13(i, o) }),
    ("v_sse2_u32x4_shl_14", |i, o| unsafe { v_sse2_u32x4_shl_14(i, o) }),
    ("v_sse2_u32x4_shr_14", |i, o| unsafe { v_sse2_u32x4_shr_14(i, o) }),
    ("v_sse2_u32x4_shl_15", |i, o| unsafe { v_sse2_u32x4_shl_15(i, o) }),
    ("v_sse2_u32x4_shr_15", |i, o| unsafe { v_sse2_u32x4_shr_15(i, o) }),
    ("v_sse2_u32x4_shl_16", |i, o| unsafe { v_sse2_u32x4_shl_16(i, o) }),
    ("v_sse2_u32x4_shr_16", |i, o| unsafe { v_sse2_u32x4_shr_16(i, o) }),
    ("v_sse2_u32x4_shl_17", |i, o| unsafe { v_sse2_u32x4_shl_17(i, o) }),
    ("v_sse2_u32x4_shr_17", |i, o| unsafe { v_sse2_u32x4_shr_17(i, o) }),
    ("v_sse2_u32x4_shl_18", |i, o| unsafe { v_sse2_u32x4_shl_18(i, o) }),
    ("v_sse2_u32x4_shr_18", |i, o| unsafe { v_sse2_u32x4_shr_18(i, o) }),
    ("v_sse2_u32x4_shl_19", |i, o| unsafe { v_sse2_u32x4_shl_19(i, o) }),
    ("v_sse2_u32x4_shr_19", |i, o| unsafe { v_sse2_u32x4_shr_19(i, o) }),
    ("v_sse2_u32x4_shl_20", |i, o| unsafe { v_sse2_u32x4_shl_20(i, o) }),
    ("v_sse2_u32x4_shr_20", |i, o| unsafe { v_sse2_u32x4_shr_20(i, o) }),
    ("v_sse2_u32x4_shl_21", |i, o| unsafe { v_sse2_u32x4_shl_21(i, o) }),
    ("v_sse2_u32x4_shr_21", |i, o| unsafe { v_sse2_u32x4_shr_21(i, o) }),
    ("v_sse2_u32x4_shl_22", |i, o| unsafe { v_sse2_u32x4_shl_22(i, o) }),
    ("v_sse2_u32x4_shr_22", |i, o| unsafe { v_sse2_u32x4_shr_22(i, o) }),
    ("v_sse2_u32x4_shl_23", |i, o| unsafe { v_sse2_u32x4_shl_23(i, o) }),
    ("v_sse2_u32x4_shr_23", |i, o| unsafe { v_sse2_u32x4_shr_23(i, o) }),
    ("v_sse2_u32x4_shl_24", |i, o| unsafe { v_sse2_u32x4_shl_24(i, o) }),
    ("v_sse2_u32x4_shr_24", |i, o| unsafe { v_sse2_u32x4_shr_24(i, o) }),
    ("v_sse2_u32x4_shl_25", |i, o| unsafe { v_sse2_u32x4_shl_25(i, o) }),
    ("v_sse2_u32x4_shr_25", |i, o| unsafe { v_sse2_u32x4_shr_25(i, o) }),
    ("v_sse2_u32x4_shl_26", |i, o| unsafe { v_sse2_u32x4_shl_26(i, o) }),
    ("v_sse2_u32x4_shr_26", |i, o| unsafe { v_sse2_u32x4_shr_26(i, o) }),
    ("v_sse2_u32x4_shl_27", |i, o| unsafe { v_sse2_u32x4_shl_27(i, o) }),
    ("v_sse2_u32x4_shr_27", |i, o| unsafe { v_sse2_u32x4_shr_27(i, o) }),
    ("v_sse2_u32x4_shl_28", |i, o| unsafe { v_sse2_u32x4_shl_28(i, o) }),
    ("v_sse2_u32x4_shr_28", |i, o| unsafe { v_sse2_u32x4_shr_28(i, o) }),
    ("v_sse2_u32x4_shl_29", |i, o| unsafe { v_sse2_u32x4_shl_29(i, o) }),
    ("v_sse2_u32x4_shr_29", |i, o| unsafe { v_sse2_u32x4_shr_29(i, o) }),
    ("v_sse2_u32x4_shl_30", |i, o| unsafe { v_sse2_u32x4_shl_30(i, o) }),
    ("v_sse2_u32x4_shr_30", |i, o| unsafe { v_sse2_u32x4_shr_30(i, o) }),
    ("v_sse2_u32x4_shl_31", |i, o| unsafe { v_sse2_u32x4_shl_31(i, o) }),
    ("v_sse2_u32x4_shr_31", |i, o| unsafe { v_sse2_u32x4_shr_31(i, o) }),
    ("v_sse2_u8x16_eq", |i, o| unsafe { v_sse2_u8x16_eq(i, o) }),
    ("v_sse2_u8x16_lt", |i, o| unsafe { v_sse2_u8x16_lt(i, o) }),
    ("v_sse2_u8x16_max", |i, o| unsafe { v_sse2_u8x16_max(i, o) }),
    ("v_sse2_u8x16_min", |i, o| unsafe { v_sse2_u8x16_min(i, o) }),
    ("v_sse2_i8x16_lt", |i, o| unsafe { v_sse2_i8x16_lt(i, o) }),
    ("v_sse2_u16x8_eq", |i, o| unsafe { v_sse2_u16x8_eq(i, o) }),
    ("v_sse2_u16x8_lt", |i, o| unsafe { v_sse2_u16x8_lt(i, o) }),
    ("v_sse2_i16x8_lt", |i, o| unsafe { v_sse2_i16x8_lt(i, o) }),
    ("v_sse2_i16x8_max", |i, o| unsafe { v_sse2_i16x8_max(i, o) }),
    ("v_sse2_i16x8_min", |i, o| unsafe { v_sse2_i16x8_min(i, o) }),
    ("v_sse2_u32x4_eq", |i, o| unsafe { v_sse2_u32x4_eq(i, o) }),
    ("v_sse2_u32x4_lt", |i, o| unsafe { v_sse2_u32x4_lt(i, o) }),
    ("v_sse2_i32x4_lt", |i, o| unsafe { v_sse2_i32x4_lt(i, o) }),
    ("v_sse2_u8x16_any_zero", |i, o| unsafe { v_sse2_u8x16_any_zero(i, o) }),
    ("v_sse2_u8x16_bitmask", |i, o| unsafe { v_sse2_u8x16_bitmask(i, o) }),
    ("v_sse2_v128_bsl", |i, o| unsafe { v_sse2_v128_bsl(i, o) }),
    ("v_sse2_u8x16_zip_lo", |i, o| unsafe { v_sse2_u8x16_zip_lo(i, o) }),
    ("v_sse2_u8x16_zip_hi", |i, o| unsafe { v_sse2_u8x16_zip_hi(i, o) }),
    ("v_sse2_u16x8_zip_lo", |i, o| unsafe { v_sse2_u16x8_zip_lo(i, o) }),
    ("v_sse2_u16x8_zip_hi", |i, o| unsafe { v_sse2_u16x8_zip_hi(i, o) }),
    ("v_sse2_u32x4_zip_lo", |i, o| unsafe { v_sse2_u32x4_zip_lo(i, o) }),
    ("v_sse2_u32x4_zip_hi", |i, o| unsafe { v_sse2_u32x4_zip_hi(i, o) }),
    ("v_sse2_u64x2_zip_lo", |i, o| unsafe { v_sse2_u64x2_zip_lo(i, o) }),
    ("v_sse2_u64x2_zip_hi", |i, o| unsafe { v_sse2_u64x2_zip_hi(i, o) }),
    ("v_sse2_v256_load", |i, o| unsafe { v_sse2_v256_load(i, o) }),
    ("v_sse2_v256_load_unaligned", |i, o| unsafe { v_sse2_v256_load_unaligned(i, o) }),
    ("v_sse2_v256_store", |i, o| unsafe { v_sse2_v256_store(i, o) }),
    ("v_sse2_v256_store_unaligned", |i, o| unsafe { v_sse2_v256_store_unaligned(i, o) }),
    ("v_sse2_v256_create_zero", |i, o| unsafe { v_sse2_v256_create_zero(i, o) }),
    ("v_sse2_v256_not", |i, o| unsafe { v_sse2_v256_not(i, o) }),
    ("v_sse2_v256_and", |i, o| unsafe { v_sse2_v256_and(i, o) }),
    ("v_sse2_v256_or", |i, o| unsafe { v_sse2_v256_or(i, o) }),
    ("v_sse2_v256_xor", |i, o| unsafe { v_sse2_v256_xor(i, o) }),
    ("v_sse2_v256_andnot", |i, o| unsafe { v_sse2_v256_andnot(i, o) }),
    ("v_sse2_u8x32_splat", |i, o| unsafe { v_sse2_u8x32_splat(i, o) }),
    ("v_sse2_u16x16_splat", |i, o| unsafe { v_sse2_u16x16_splat(i, o) }),
    ("v_sse2_u32x8_splat", |i, o| unsafe { v_sse2_u32x8_splat(i, o) }),
    ("v_sse2_u64x4_splat", |i, o| unsafe { v_sse2_u64x4_splat(i, o) }),
    ("v_sse2_i8x32_splat", |i, o| unsafe { v_sse2_i8x32_splat(i, o) }),
    ("v_sse2_i16x16_splat", |i, o| unsafe { v_sse2_i16x16_splat(i, o) }),
    ("v_sse2_i32x8_splat", |i, o| unsafe { v_sse2_i32x8_splat(i, o) }),
    ("v_sse2_i64x4_splat", |i, o| unsafe { v_sse2_i64x4_splat(i, o) }),
    ("v_sse2_u8x32_add", |i, o| unsafe { v_sse2_u8x32_add(i, o) }),
    ("v_sse2_u8x32_sub", |i, o| unsafe { v_sse2_u8x32_sub(i, o) }),
    ("v_sse2_u16x16_add", |i, o| unsafe { v_sse2_u16x16_add(i, o) }),
    ("v_sse2_u16x16_sub", |i, o| unsafe { v_sse2_u16x16_sub(i, o) }),
    ("v_sse2_u32x8_add", |i, o| unsafe { v_sse2_u32x8_add(i, o) }),
    ("v_sse2_u32x8_sub", |i, o| unsafe { v_sse2_u32x8_sub(i, o) }),
    ("v_sse2_u64x4_add", |i, o| unsafe { v_sse2_u64x4_add(i, o) }),
    ("v_sse2_u64x4_sub", |i, o| unsafe { v_sse2_u64x4_sub(i, o) }),
    ("v_sse2_u8x32_sub_sat", |i, o| unsafe { v_sse2_u8x32_sub_sat(i, o) }),
    ("v_sse2_i8x32_sub_sat", |i, o| unsafe { v_sse2_i8x32_sub_sat(i, o) }),
    ("v_sse2_u16x16_sub_sat", |i, o| unsafe { v_sse2_u16x16_sub_sat(i, o) }),
    ("v_sse2_i16x16_sub_sat", |i, o| unsafe { v_sse2_i16x16_sub_sat(i, o) }),
    ("v_sse2_u8x32_add_sat", |i, o| unsafe { v_sse2_u8x32_add_sat(i, o) }),
    ("v_sse2_i8x32_add_sat", |i, o| unsafe { v_sse2_i8x32_add_sat(i, o) }),
    ("v_sse2_i16x16_mul_lo", |i, o| unsafe { v_sse2_i16x16_mul_lo(i, o) }),
    ("v_sse2_u16x16_mul_hi", |i, o| unsafe { v_sse2_u16x16_mul_hi(i, o) }),
    ("v_sse2_i16x16_mul_hi", |i, o| unsafe { v_sse2_i16x16_mul_hi(i, o) }),
    ("v_sse2_i16x16_madd", |i, o| unsafe { v_sse2_i16x16_madd(i, o) }),
    ("v_sse2_u8x32_avgr", |i, o| unsafe { v_sse2_u8x32_avgr(i, o) }),
    ("v_sse2_u16x16_shl_0", |i, o| unsafe { v_sse2_u16x16_shl_0(i, o) }),
    ("v_sse2_u16x16_shr_0", |i, o| unsafe { v_sse2_u16x16_shr_0(i, o) }),
    ("v_sse2_u16x16_shl_1", |i, o| unsafe { v_sse2_u16x16_shl_1(i, o) }),
    ("v_sse2_u16x16_shr_1", |i, o| unsafe { v_sse2_u16x16_shr_1(i, o) }),
    ("v_sse2_u16x16_shl_2", |i, o| unsafe { v_sse2_u16x16_shl_2(i, o) }),
    ("v_sse2_u16x16_shr_2", |i, o| unsafe { v_sse2_u16x16_shr_2(i, o) }),
    ("v_sse2_u16x16_shl_3", |i, o| unsafe { v_sse2_u16x16_shl_3(i, o) }),
    ("v_sse2_u16x16_shr_3", |i, o| unsafe { v_sse2_u16x16_shr_3(i, o) }),
    ("v_sse2_u16x16_shl_4", |i, o| unsafe { v_sse2_u16x16_shl_4(i, o) }),
    ("v_sse2_u16x16_shr_4", |i, o| unsafe { v_sse2_u16x16_shr_4(i, o) }),
    ("v_sse2_u16x16_shl_5", |i, o| unsafe { v_sse2_u16x16_shl_5(i, o) }),
    ("v_sse2_u16x16_shr_5", |i, o| unsafe { v_sse2_u16x16_shr_5(i, o) }),
    ("v_sse2_u16x16_shl_6", |i, o| unsafe { v_sse2_u16x16_shl_6(i, o) }),
    ("v_sse2_u16x16_shr_6", |i, o| unsafe { v_sse2_u16x16_shr_6(i, o) }),
    ("v_sse2_u16x16_shl_7", |i, o| unsafe { v_sse2_u16x16_shl_7(i, o) }),
    ("v_sse2_u16x16_shr_7", |i, o| unsafe { v_sse2_u16x16_shr_7(i, o) }),
    ("v_sse2_u16x16_shl_8", |i, o| unsafe { v_sse2_u16x16_shl_8(i, o) }),
    ("v_sse2_u16x16_shr_8", |i, o| unsafe { v_sse2_u16x16_shr_8(i, o) }),
    ("v_sse2_u16x16_shl_9", |i, o| unsafe { v_sse2_u16x16_shl_9(i, o) }),
    ("v_sse2_u16x16_shr_9", |i, o| unsafe { v_sse2_u16x16_shr_9(i, o) }),
    ("v_sse2_u16x16_shl_10", |i, o| unsafe { v_sse2_u16x16_shl_10(i, o) }),
    ("v_sse2_u16x16_shr_10", |i, o| unsafe { v_sse2_u16x16_shr_10(i, o) }),
    ("v_sse2_u16x16_shl_11", |i, o| unsafe { v_sse2_u16x16_shl_11(i, o) }),
    ("v_sse2_u16x16_shr_11", |i, o| unsafe { v_sse2_u16x16_shr_11(i, o) }),
    ("v_sse2_u16x16_shl_12", |i, o| unsafe { v_sse2_u16x16_shl_12(i, o) }),
    ("v_sse2_u16x16_shr_12", |i, o| unsafe { v_sse2_u16x16_shr_12(i, o) }),
    ("v_sse2_u16x16_shl_13", |i, o| unsafe { v_sse2_u16x16_shl_13(i, o) }),
    ("v_sse2_u16x16_shr_13", |i, o| unsafe { v_sse2_u16x16_shr_13(i, o) }),
    ("v_sse2_u16x16_shl_14", |i, o| unsafe { v_sse2_u16x16_shl_14(i, o) }),
    ("v_sse2_u16x16_shr_14", |i, o| unsafe { v_sse2_u16x16_shr_14(i, o) }),
    ("v_sse2_u16x16_shl_15", |i, o| unsafe { v_sse2_u16x16_shl_15(i, o) }),
    ("v_sse2_u16x16_shr_15", |i, o| unsafe { v_sse2_u16x16_shr_15(i, o) }),
    ("v_sse2_u32x8_shl_0", |i, o| unsafe { v_sse2_u32x8_shl_0(i, o) }),
    ("v_sse2_u32x8_shr_0", |i, o| unsafe { v_sse2_u32x8_shr_0(i, o) }),
    ("v_sse2_u32x8_shl_1", |i, o| unsafe { v_sse2_u32x8_shl_1(i, o) }),
    ("v_sse2_u32x8_shr_1", |i, o| unsafe { v_sse2_u32x8_shr_1(i, o) }),
    ("v_sse2_u32x8_shl_2", |i, o| unsafe { v_sse2_u32x8_shl_2(i, o) }),
    ("v_sse2_u32x8_shr_2", |i, o| unsafe { v_sse2_u32x8_shr_2(i, o) }),
    ("v_sse2_u32x8_shl_3", |i, o| unsafe { v_sse2_u32x8_shl_3(i, o) }),
    ("v_sse2_u32x8_shr_3", |i, o| unsafe { v_sse2_u32x8_shr_3(i, o) }),
    ("v_sse2_u32x8_shl_4", |i, o| unsafe { v_sse2_u32x8_shl_4(i, o) }),
    ("v_sse2_u32x8_shr_4", |i, o| unsafe { v_sse2_u32x8_shr_4(i, o) }),
    ("v_sse2_u32x8_shl_5", |i, o| unsafe { v_sse2_u32x8_shl_5(i, o) }),
    ("v_sse2_u32x8_shr_5", |i, o| unsafe { v_sse2_u32x8_shr_5(i, o) }),
    ("v_sse2_u32x8_shl_6", |i, o| unsafe { v_sse2_u32x8_shl_6(i, o) }),
    ("v_sse2_u32x8_shr_6", |i, o| unsafe { v_sse2_u32x8_shr_6(i, o) }),
    ("v_sse2_u32x8_shl_7", |i, o| unsafe { v_sse2_u32x8_shl_7(i, o) }),
    ("v_sse2_u32x8_shr_7", |i, o| unsafe { v_sse2_u32x8_shr_7(i, o) }),
    ("v_sse2_u32x8_shl_8", |i, o| unsafe { v_sse2_u32x8_shl_8(i, o) }),
    ("v_sse2_u32x8_shr_8", |i, o| unsafe { v_sse2_u32x8_shr_8(i, o) }),
    ("v_sse2_u32x8_shl_9", |i, o| unsafe { v_sse2_u32x8_shl_9(i, o) }),
    ("v_sse2_u32x8_shr_9", |i, o| unsafe { v_sse2_u32x8_shr_9(i, o) }),
    ("v_sse2_u32x8_shl_10", |i, o| unsafe { v_sse2_u32x8_shl_10(i, o) }),
    ("v_sse2_u32x8_shr_10", |i, o| unsafe { v_sse2_u32x8_shr_10(i, o) }),
    ("v_sse2_u32x8_shl_11", |i, o| unsafe { v_sse2_u32x8_shl_11(i, o) }),
    ("v_sse2_u32x8_shr_11", |i, o| unsafe { v_sse2_u32x8_shr_11(i, o) }),
    ("v_sse2_u32x8_shl_12", |i, o| unsafe { v_sse2_u32x8_shl_12(i, o) }),
    ("v_sse2_u32x8_shr_12", |i, o| unsafe { v_sse2_u32x8_shr_12(i, o) }),
    ("v_sse2_u32x8_shl_13", |i, o| unsafe { v_sse2_u32x8_shl_13(i, o) }),
    ("v_sse2_u32x8_shr_13", |i, o| unsafe { v_sse2_u32x8_shr_13(i, o) }),
    ("v_sse2_u32x8_shl_14", |i, o| unsafe { v_sse2_u32x8_shl_14(i, o) }),
    ("v_sse2_u32x8_shr_14", |i, o| unsafe { v_sse2_u32x8_shr_14(i, o) }),
    ("v_sse2_u32x8_shl_15", |i, o| unsafe { v_sse2_u32x8_shl_15(i, o) }),
    ("v_sse2_u32x8_shr_15", |i, o| unsafe { v_sse2_u32x8_shr_15(i, o) }),
    ("v_sse2_u32x8_shl_16", |i, o| unsafe { v_sse2_u32x8_shl_16(i, o) }),
    ("v_sse2_u32x8_shr_16", |i, o| unsafe { v_sse2_u32x8_shr_16(i, o) }),
    ("v_sse2_u32x8_shl_17", |i, o| unsafe { v_sse2_u32x8_shl_17(i, o) }),
    ("v_sse2_u32x8_shr_17", |i, o| unsafe { v_sse2_u32x8_shr_17(i, o) }),
    ("v_sse2_u32x8_shl_18", |i, o| unsafe { v_sse2_u32x8_shl_18(i, o) }),
    ("v_sse2_u32x8_shr_18", |i, o| unsafe { v_sse2_u32x8_shr_18(i, o) }),
    ("v_sse2_u32x8_shl_19", |i, o| unsafe { v_sse2_u32x8_shl_19(i, o) }),
    ("v_sse2_u32x8_shr_19", |i, o| unsafe { v_sse2_u32x8_shr_19(i, o) }),
    ("v_sse2_u32x8_shl_20", |i, o| unsafe { v_sse2_u32x8_shl_20(i, o) }),
    ("v_sse2_u32x8_shr_20", |i, o| unsafe { v_sse2_u32x8_shr_20(i, o) }),
    ("v_sse2_u32x8_shl_21", |i, o| unsafe { v_sse2_u32x8_shl_21(i, o) }),
    ("v_sse2_u32x8_shr_21", |i, o| unsafe { v_sse2_u32x8_shr_21(i, o) }),
    ("v_sse2_u32x8_shl_22", |i, o| unsafe { v_sse2_u32x8_shl_22(i, o) }),
    ("v_sse2_u32x8_shr_22", |i, o| unsafe { v_sse2_u32x8_shr_22(i, o) }),
    ("v_sse2_u32x8_shl_23", |i, o| unsafe { v_sse2_u32x8_shl_23(i, o) }),
    ("v_sse2_u32x8_shr_23", |i, o| unsafe { v_sse2_u32x8_shr_23(i, o) }),
    ("v_sse2_u32x8_shl_24", |i, o| unsafe { v_sse2_u32x8_shl_24(i, o) }),
    ("v_sse2_u32x8_shr_24", |i, o| unsafe { v_sse2_u32x8_shr_24(i, o) }),
    ("v_sse2_u32x8_shl_25", |i, o| unsafe { v_sse2_u32x8_shl_25(i, o) }),
    ("v_sse2_u32x8_shr_25", |i, o| unsafe { v_sse2_u32x8_shr_25(i, o) }),
    ("v_sse2_u32x8_shl_26", |i, o| unsafe { v_sse2_u32x8_shl_26(i, o) }),
    ("v_sse2_u32x8_shr_26", |i, o| unsafe { v_sse2_u32x8_shr_26(i, o) }),
    ("v_sse2_u32x8_shl_27", |i, o| unsafe { v_sse2_u32x8_shl_27(i, o) }),
    ("v_sse2_u32x8_shr_27", |i, o| unsafe { v_sse2_u32x8_shr_27(i, o) }),
    ("v_sse2_u32x8_shl_28", |i, o| unsafe { v_sse2_u32x8_shl_28(i, o) }),
    ("v_sse2_u32x8_shr_28", |i, o| unsafe { v_sse2_u32x8_shr_28(i, o) }),
    ("v_sse2_u32x8_shl_29", |i, o| unsafe { v_sse2_u32x8_shl_29(i, o) }),
    ("v_sse2_u32x8_shr_29", |i, o| unsafe { v_sse2_u32x8_shr_29(i, o) }),
    ("v_sse2_u32x8_shl_30", |i, o| unsafe { v_sse2_u32x8_shl_30(i, o) }),
    ("v_sse2_u32x8_shr_30", |i, o| unsafe { v_sse2_u32x8_shr_30(i, o) }),
    ("v_sse2_u32x8_shl_31", |i, o| unsafe { v_sse2_u32x8_shl_31(i, o) }),
    ("v_sse2_u32x8_shr_31", |i, o| unsafe { v_sse2_u32x8_shr_31(i, o) }),
    ("v_sse2_u8x32_eq", |i, o| unsafe { v_sse2_u8x32_eq(i, o) }),
    ("v_sse2_u8x32_lt", |i, o| unsafe { v_sse2_u8x32_lt(i, o) }),
    ("v_sse2_u8x32_max", |i, o| unsafe { v_sse2_u8x32_max(i, o) }),
    ("v_sse2_u8x32_min", |i, o| unsafe { v_sse2_u8x32_min(i, o) }),
    ("v_sse2_i8x32_lt", |i, o| unsafe { v_sse2_i8x32_lt(i, o) }),
    ("v_sse2_u16x16_eq", |i, o| unsafe { v_sse2_u16x16_eq(i, o) }),
    ("v_sse2_u16x16_lt", |i, o| unsafe { v_sse2_u16x16_lt(i, o) }),
    ("v_sse2_i16x16_lt", |i, o| unsafe { v_sse2_i16x16_lt(i, o) }),
    ("v_sse2_i16x16_max", |i, o| unsafe { v_sse2_i16x16_max(i, o) }),
    ("v_sse2_i16x16_min", |i, o| unsafe { v_sse2_i16x16_min(i, o) }),
    ("v_sse2_u32x8_eq", |i, o| unsafe { v_sse2_u32x8_eq(i, o) }),
    ("v_sse2_u32x8_lt", |i, o| unsafe { v_sse2_u32x8_lt(i, o) }),
    ("v_sse2_i32x8_lt", |i, o| unsafe { v_sse2_i32x8_lt(i, o) }),
    ("v_sse2_u8x32_any_zero", |i, o| unsafe { v_sse2_u8x32_any_zero(i, o) }),
    ("v_sse2_u8x32_bitmask", |i, o| unsafe { v_sse2_u8x32_bitmask(i, o) }),
    ("v_sse2_v256_bsl", |i, o| unsafe { v_sse2_v256_bsl(i, o) }),
    ("v_sse2_u8x16x2_zip_lo", |i, o| unsafe { v_sse2_u8x16x2_zip_lo(i, o) }),
    ("v_sse2_u8x16x2_zip_hi", |i, o| unsafe { v_sse2_u8x16x2_zip_hi(i, o) }),
    ("v_sse2_u16x8x2_zip_lo", |i, o| unsafe { v_sse2_u16x8x2_zip_lo(i, o) }),
    ("v_sse2_u16x8x2_zip_hi", |i, o| unsafe { v_sse2_u16x8x2_zip_hi(i, o) }),
    ("v_sse2_u32x4x2_zip_lo", |i, o| unsafe { v_sse2_u32x4x2_zip_lo(i, o) }),
    ("v_sse2_u32x4x2_zip_hi", |i, o| unsafe { v_sse2_u32x4x2_zip_hi(i, o) }),
    ("v_sse2_u64x2x2_zip_lo", |i, o| unsafe { v_sse2_u64x2x2_zip_lo(i, o) }),
    ("v_sse2_u64x2x2_zip_hi", |i, o| unsafe { v_sse2_u64x2x2_zip_hi(i, o) }),
    ("v_sse2_i16x8_packus", |i, o| unsafe { v_sse2_i16x8_packus(i, o) }),
    ("v_sse2_u64x4_unzip_even", |i, o| unsafe { v_sse2_u64x4_unzip_even(i, o) }),
    ("v_sse2_u64x4_unzip_odd", |i, o| unsafe { v_sse2_u64x4_unzip_odd(i, o) }),
    ("v_sse2_v128x2_zip_lo", |i, o| unsafe { v_sse2_v128x2_zip_lo(i, o) }),
    ("v_sse2_v128x2_zip_hi", |i, o| unsafe { v_sse2_v128x2_zip_hi(i, o) }),
    ("v_sse2_u16x16_from_u8x16", |i, o| unsafe { v_sse2_u16x16_from_u8x16(i, o) }),
    ("v_sse2_s128_and", |i, o| unsafe { v_sse2_s128_and(i, o) }),
    ("v_sse2_s128_or", |i, o| unsafe { v_sse2_s128_or(i, o) }),
    ("v_sse2_s128_xor", |i, o| unsafe { v_sse2_s128_xor(i, o) }),
    ("v_sse2_s128_andnot", |i, o| unsafe { v_sse2_s128_andnot(i, o) }),
    ("v_sse2_s128_u8xn_splat", |i, o| unsafe { v_sse2_s128_u8xn_splat(i, o) }),
    ("v_sse2_s128_i8xn_splat", |i, o| unsafe { v_sse2_s128_i8xn_splat(i, o) }),
    ("v_sse2_s128_u32xn_splat", |i, o| unsafe { v_sse2_s128_u32xn_splat(i, o) }),
    ("v_sse2_s128_u8xn_add", |i, o| unsafe { v_sse2_s128_u8xn_add(i, o) }),
    ("v_sse2_s128_u8xn_sub", |i, o| unsafe { v_sse2_s128_u8xn_sub(i, o) }),
    ("v_sse2_s128_u32xn_sub", |i, o| unsafe { v_sse2_s128_u32xn_sub(i, o) }),
    ("v_sse2_s128_u8xn_add_sat", |i, o| unsafe { v_sse2_s128_u8xn_add_sat(i, o) }),
    ("v_sse2_s128_i8xn_add_sat", |i, o| unsafe { v_sse2_s128_i8xn_add_sat(i, o) }),
    ("v_sse2_s128_u8xn_sub_sat", |i, o| unsafe { v_sse2_s128_u8xn_sub_sat(i, o) }),
    ("v_sse2_s128_u8xn_eq", |i, o| unsafe { v_sse2_s128_u8xn_eq(i, o) }),
    ("v_sse2_s128_i8xn_lt", |i, o| unsafe { v_sse2_s128_i8xn_lt(i, o) }),
    ("v_sse2_s128_u32xn_lt", |i, o| unsafe { v_sse2_s128_u32xn_lt(i, o) }),
    ("v_sse2_s128_u8xn_avgr", |i, o| unsafe { v_sse2_s128_u8xn_avgr(i, o) }),
    ("v_sse2_s128_u16xn_shl_0", |i, o| unsafe { v_sse2_s128_u16xn_shl_0(i, o) }),
    ("v_sse2_s128_u16xn_shr_0", |i, o| unsafe { v_sse2_s128_u16xn_shr_0(i, o) }),
    ("v_sse2_s128_u32xn_shr_0", |i, o| unsafe { v_sse2_s128_u32xn_shr_0(i, o) }),
    ("v_sse2_s128_u16xn_shl_1", |i, o| unsafe { v_sse2_s128_u16xn_shl_1(i, o) }),
    ("v_sse2_s128_u16xn_shr_1", |i, o| unsafe { v_sse2_s128_u16xn_shr_1(i, o) }),
    ("v_sse2_s128_u32xn_shr_1", |i, o| unsafe { v_sse2_s128_u32xn_shr_1(i, o) }),
    ("v_sse2_s128_u16xn_shl_2", |i, o| unsafe { v_sse2_s128_u16xn_shl_2(i, o) }),
    ("v_sse2_s128_u16xn_shr_2", |i, o| unsafe { v_sse2_s128_u16xn_shr_2(i, o) }),
    ("v_sse2_s128_u32xn_shr_2", |i, o| unsafe { v_sse2_s128_u32xn_shr_2(i, o) }),
    ("v_sse2_s128_u16xn_shl_3", |i, o| unsafe { v_sse2_s128_u16xn_shl_3(i, o) }),
    ("v_sse2_s128_u16xn_shr_3", |i, o| unsafe { v_sse2_s128_u16xn_shr_3(i, o) }),
    ("v_sse2_s128_u32xn_shr_3", |i, o| unsafe { v_sse2_s128_u32xn_shr_3(i, o) }),
    ("v_sse2_s128_u16xn_shl_4", |i, o| unsafe { v_sse2_s128_u16xn_shl_4(i, o) }),
    ("v_sse2_s128_u16xn_shr_4", |i, o| unsafe { v_sse2_s128_u16xn_shr_4(i, o) }),
    ("v_sse2_s128_u32xn_shr_4", |i, o| unsafe { v_sse2_s128_u32xn_shr_4(i, o) }),
    ("v_sse2_s128_u16xn_shl_5", |i, o| unsafe { v_sse2_s128_u16xn_shl_5(i, o) }),
    ("v_sse2_s128_u16xn_shr_5", |i, o| unsafe { v_sse2_s128_u16xn_shr_5(i, o) }),
    ("v_sse2_s128_u32xn_shr_5", |i, o| unsafe { v_sse2_s128_u32xn_shr_5(i, o) }),
    ("v_sse2_s128_u16xn_shl_6", |i, o| unsafe { v_sse2_s128_u16xn_shl_6(i, o) }),
    ("v_sse2_s128_u16xn_shr_6", |i, o| unsafe { v_sse2_s128_u16xn_shr_6(i, o) }),
    ("v_sse2_s128_u32xn_shr_6", |i, o| unsafe { v_sse2_s128_u32xn_shr_6(i, o) }),
    ("v_sse2_s128_u16xn_shl_7", |i, o| unsafe { v_sse2_s128_u16xn_shl_7(i, o) }),
    ("v_sse2_s128_u16xn_shr_7", |i, o| unsafe { v_sse2_s128_u16xn_shr_7(i, o) }),
    ("v_sse2_s128_u32xn_shr_7", |i, o| unsafe { v_sse2_s128_u32xn_shr_7(i, o) }),
    ("v_sse2_s128_u16xn_shl_8", |i, o| unsafe { v_sse2_s128_u16xn_shl_8(i, o) }),
    ("v_sse2_s128_u16xn_shr_8", |i, o| unsafe { v_sse2_s128_u16xn_shr_8(i, o) }),
    ("v_sse2_s128_u32xn_shr_8", |i, o| unsafe { v_sse2_s128_u32xn_shr_8(i, o) }),
    ("v_sse2_s128_u16xn_shl_9", |i, o| unsafe { v_sse2_s128_u16xn_shl_9(i, o) }),
    ("v_sse2_s128_u16xn_shr_9", |i, o| unsafe { v_sse2_s128_u16xn_shr_9(i, o) }),
    ("v_sse2_s128_u32xn_shr_9", |i, o| unsafe { v_sse2_s128_u32xn_shr_9(i, o) }),
    ("v_sse2_s128_u16xn_shl_10", |i, o| unsafe { v_sse2_s128_u16xn_shl_10(i, o) }),
    ("v_sse2_s128_u16xn_shr_10", |i, o| unsafe { v_sse2_s128_u16xn_shr_10(i, o) }),
    ("v_sse2_s128_u32xn_shr_10", |i, o| unsafe { v_sse2_s128_u32xn_shr_10(i, o) }),
    ("v_sse2_s128_u16xn_shl_11", |i, o| unsafe { v_sse2_s128_u16xn_shl_11(i, o) }),
    ("v_sse2_s128_u16xn_shr_11", |i, o| unsafe { v_sse2_s128_u16xn_shr_11(i, o) }),
    ("v_sse2_s128_u32xn_shr_11", |i, o| unsafe { v_sse2_s128_u32xn_shr_11(i, o) }),
    ("v_sse2_s128_u16xn_shl_12", |i, o| unsafe { v_sse2_s128_u16xn_shl_12(i, o) }),
    ("v_sse2_s128_u16xn_shr_12", |i, o| unsafe { v_sse2_s128_u16xn_shr_12(i, o) }),
    ("v_sse2_s128_u32xn_shr_12", |i, o| unsafe { v_sse2_s128_u32xn_shr_12(i, o) }),
    ("v_sse2_s128_u16xn_shl_13", |i, o| unsafe { v_sse2_s128_u16xn_shl_13(i, o) }),
    ("v_sse2_s128_u16xn_shr_13", |i, o| unsafe { v_sse2_s128_u16xn_shr_13(i, o) }),
    ("v_sse2_s128_u32xn_shr_13", |i, o| unsafe { v_sse2_s128_u32xn_shr_13(i, o) }),
    ("v_sse2_s128_u16xn_shl_14", |i, o| unsafe { v_sse2_s128_u16xn_shl_14(i, o) }),
    ("v_sse2_s128_u16xn_shr_14", |i, o| unsafe { v_sse2_s128_u16xn_shr_14(i, o) }),
    ("v_sse2_s128_u32xn_shr_14", |i, o| unsafe { v_sse2_s128_u32xn_shr_14(i, o) }),
    ("v_sse2_s128_u16xn_shl_15", |i, o| unsafe { v_sse2_s128_u16xn_shl_15(i, o) }),
    ("v_sse2_s128_u16xn_shr_15", |i, o| unsafe { v_sse2_s128_u16xn_shr_15(i, o) }),
    ("v_sse2_s128_u32xn_shr_15", |i, o| unsafe { v_sse2_s128_u32xn_shr_15(i, o) }),
    ("v_sse2_s128_u32xn_shr_16", |i, o| unsafe { v_sse2_s128_u32xn_shr_16(i, o) }),
    ("v_sse2_s128_u32xn_shr_17", |i, o| unsafe { v_sse2_s128_u32xn_shr_17(i, o) }),
    ("v_sse2_s128_u32xn_shr_18", |i, o| unsafe { v_sse2_s128_u32xn_shr_18(i, o) }),
    ("v_sse2_s128_u32xn_shr_19", |i, o| unsafe { v_sse2_s128_u32xn_shr_19(i, o) }),
    ("v_sse2_s128_u32xn_shr_20", |i, o| unsafe { v_sse2_s128_u32xn_shr_20(i, o) }),
    ("v_sse2_s128_u32xn_shr_21", |i, o| unsafe { v_sse2_s128_u32xn_shr_21(i, o) }),
    ("v_sse2_s128_u32xn_shr_22", |i, o| unsafe { v_sse2_s128_u32xn_shr_22(i, o) }),
    ("v_sse2_s128_u32xn_shr_23", |i, o| unsafe { v_sse2_s128_u32xn_shr_23(i, o) }),
    ("v_sse2_s128_u32xn_shr_24", |i, o| unsafe { v_sse2_s128_u32xn_shr_24(i, o) }),
    ("v_sse2_s128_u32xn_shr_25", |i, o| unsafe { v_sse2_s128_u32xn_shr_25(i, o) }),
    ("v_sse2_s128_u32xn_shr_26", |i, o| unsafe { v_sse2_s128_u32xn_shr_26(i, o) }),
    ("v_sse2_s128_u32xn_shr_27", |i, o| unsafe { v_sse2_s128_u32xn_shr_27(i, o) }),
    ("v_sse2_s128_u32xn_shr_28", |i, o| unsafe { v_sse2_s128_u32xn_shr_28(i, o) }),
    ("v_sse2_s128_u32xn_shr_29", |i, o| unsafe { v_sse2_s128_u32xn_shr_29(i, o) }),
    ("v_sse2_s128_u32xn_shr_30", |i, o| unsafe { v_sse2_s128_u32xn_shr_30(i, o) }),
    ("v_sse2_s128_u32xn_shr_31", |i, o| unsafe { v_sse2_s128_u32xn_shr_31(i, o) }),
    ("v_sse2_s128_mask8xn_all", |i, o| unsafe { v_sse2_s128_mask8xn_all(i, o) }),
    ("v_sse2_s128_mask8xn_any", |i, o| unsafe { v_sse2_s128_mask8xn_any(i, o) }),
    ("v_sse2_s128_u8xn_highbit_all", |i, o| unsafe { v_sse2_s128_u8xn_highbit_all(i, o) }),
    ("v_sse2_s128_u8xn_highbit_any", |i, o| unsafe { v_sse2_s128_u8xn_highbit_any(i, o) }),
    ("v_sse2_f_mask8x16_all", |i, o| unsafe { v_sse2_f_mask8x16_all(i, o) }),
    ("v_sse2_f_mask8x16_any", |i, o| unsafe { v_sse2_f_mask8x16_any(i, o) }),
    ("v_sse2_f_u8x16_highbit_all", |i, o| unsafe { v_sse2_f_u8x16_highbit_all(i, o) }),
    ("v_sse2_f_u8x16_highbit_any", |i, o| unsafe { v_sse2_f_u8x16_highbit_any(i, o) }),
    ("v_sse2_s128_to_ascii_lowercase", |i, o| unsafe { v_sse2_s128_to_ascii_lowercase(i, o) }),
    ("v_sse2_s128_to_ascii_uppercase", |i, o| unsafe { v_sse2_s128_to_ascii_uppercase(i, o) }),
    ("v_sse2_s128_hex_check", |i, o| unsafe { v_sse2_s128_hex_check(i, o) }),
    ("v_sse2_s256_and", |i, o| unsafe { v_sse2_s256_and(i, o) }),
    ("v_sse2_s256_or", |i, o| unsafe { v_sse2_s256_or(i, o) }),
    ("v_sse2_s256_xor", |i, o| unsafe { v_sse2_s256_xor(i, o) }),
    ("v_sse2_s256_andnot", |i, o| unsafe { v_sse2_s256_andnot(i, o) }),
    ("v_sse2_s256_u8xn_splat", |i, o| unsafe { v_sse2_s256_u8xn_splat(i, o) }),
    ("v_sse2_s256_i8xn_splat", |i, o| unsafe { v_sse2_s256_i8xn_splat(i, o) }),
    ("v_sse2_s256_u32xn_splat", |i, o| unsafe { v_sse2_s256_u32xn_splat(i, o) }),
    ("v_sse2_s256_u8xn_add", |i, o| unsafe { v_sse2_s256_u8xn_add(i, o) }),
    ("v_sse2_s256_u8xn_sub", |i, o| unsafe { v_sse2_s256_u8xn_sub(i, o) }),
    ("v_sse2_s256_u32xn_sub", |i, o| unsafe { v_sse2_s256_u32xn_sub(i, o) }),
    ("v_sse2_s256_u8xn_add_sat", |i, o| unsafe { v_sse2_s256_u8xn_add_sat(i, o) }),
    ("v_sse2_s256_i8xn_add_sat", |i, o| unsafe { v_sse2_s256_i8xn_add_sat(i, o) }),
    ("v_sse2_s256_u8xn_sub_sat", |i, o| unsafe { v_sse2_s256_u8xn_sub_sat(i, o) }),
    ("v_sse2_s256_u8xn_eq", |i, o| unsafe { v_sse2_s256_u8xn_eq(i, o) }),
    ("v_sse2_s256_i8xn_lt", |i, o| unsafe { v_sse2_s256_i8xn_lt(i, o) }),
    ("v_sse2_s256_u32xn_lt", |i, o| unsafe { v_sse2_s256_u32xn_lt(i, o) }),
    ("v_sse2_s256_u8xn_avgr", |i, o| unsafe { v_sse2_s256_u8xn_avgr(i, o) }),
    ("v_sse2_s256_u16xn_shl_0", |i, o| unsafe { v_sse2_s256_u16xn_shl_0(i, o) }),
    ("v_sse2_s256_u16xn_shr_0", |i, o| unsafe { v_sse2_s256_u16xn_shr_0(i, o) }),
    ("v_sse2_s256_u32xn_shr_0", |i, o| unsafe { v_sse2_s256_u32xn_shr_0(i, o) }),
    ("v_sse2_s256_u16xn_shl_1", |i, o| unsafe { v_sse2_s256_u16xn_shl_1(i, o) }),
    ("v_sse2_s256_u16xn_shr_1", |i, o| unsafe { v_sse2_s256_u16xn_shr_1(i, o) }),
    ("v_sse2_s256_u32xn_shr_1", |i, o| unsafe { v_sse2_s256_u32xn_shr_1(i, o) }),
    ("v_sse2_s256_u16xn_shl_2", |i, o| unsafe { v_sse2_s256_u16xn_shl_2(i, o) }),
    ("v_sse2_s256_u16xn_shr_2", |i, o| unsafe { v_sse2_s256_u16xn_shr_2(i, o) }),
    ("v_sse2_s256_u32xn_shr_2", |i, o| unsafe { v_sse2_s256_u32xn_shr_2(i, o) }),
    ("v_sse2_s256_u16xn_shl_3", |i, o| unsafe { v_sse2_s256_u16xn_shl_3(i, o) }),
    ("v_sse2_s256_u16xn_shr_3", |i, o| unsafe { v_sse2_s256_u16xn_shr_3(i, o) }),
    ("v_sse2_s256_u32xn_shr_3", |i, o| unsafe { v_sse2_s256_u32xn_shr_3(i, o) }),
    ("v_sse2_s256_u16xn_shl_4", |i, o| unsafe { v_sse2_s256_u16xn_shl_4(i, o) }),
    ("v_sse2_s256_u16xn_shr_4", |i, o| unsafe { v_sse2_s256_u16xn_shr_4(i, o) }),
    ("v_sse2_s256_u32xn_shr_4", |i, o| unsafe { v_sse2_s256_u32xn_shr_4(i, o) }),
    ("v_sse2_s256_u16xn_shl_5", |i, o| unsafe { v_sse2_s256_u16xn_shl_5(i, o) }),
    ("v_sse2_s256_u16xn_shr_5", |i, o| unsafe { v_sse2_s256_u16xn_shr_5(i, o) }),
    ("v_sse2_s256_u32xn_shr_5", |i, o| unsafe { v_sse2_s256_u32xn_shr_5(i, o) }),
    ("v_sse2_s256_u16xn_shl_6", |i, o| unsafe { v_sse2_s256_u16xn_shl_6(i, o) }),
    ("v_sse2_s256_u16xn_shr_6", |i, o| unsafe { v_sse2_s256_u16xn_shr_6(i, o) }),
    ("v_sse2_s256_u32xn_shr_6", |i, o| unsafe { v_sse2_s256_u32xn_shr_6(i, o) }),
    ("v_sse2_s256_u16xn_shl_7", |i, o| unsafe { v_sse2_s256_u16xn_shl_7(i, o) }),
    ("v_sse2_s256_u16xn_shr_7", |i, o| unsafe { v_sse2_s256_u16xn_shr_7(i, o) }),
    ("v_sse2_s256_u32xn_shr_7", |i, o| unsafe { v_sse2_s256_u32xn_shr_7(i, o) }),
    ("v_sse2_s256_u16xn_shl_8", |i, o| unsafe { v_sse2_s256_u16xn_shl_8(i, o) }),
    ("v_sse2_s256_u16xn_shr_8", |i, o| unsafe { v_sse2_s256_u16xn_shr_8(i, o) }),
    ("v_sse2_s256_u32xn_shr_8", |i, o| unsafe { v_sse2_s256_u32xn_shr_8(i, o) }),
    ("v_sse2_s256_u16xn_shl_9", |i, o| unsafe { v_sse2_s256_u16xn_shl_9(i, o) }),
    ("v_sse2_s256_u16xn_shr_9", |i, o| unsafe { v_sse2_s256_u16xn_shr_9(i, o) }),
    ("v_sse2_s256_u32xn_shr_9", |i, o| unsafe { v_sse2_s256_u32xn_shr_9(i, o) }),
    ("v_sse2_s256_u16xn_shl_10", |i, o| unsafe { v_sse2_s256_u16xn_shl_10(i, o) }),
    ("v_sse2_s256_u16xn_shr_10", |i, o| unsafe { v_sse2_s256_u16xn_shr_10(i, o) }),
    ("v_sse2_s256_u32xn_shr_10", |i, o| unsafe { v_sse2_s256_u32xn_shr_10(i, o) }),
    ("v_sse2_s256_u16xn_shl_11", |i, o| unsafe { v_sse2_s256_u16xn_shl_11(i, o) }),
    ("v_sse2_s256_u16xn_shr_11", |i, o| unsafe { v_sse2_s256_u16xn_shr_11(i, o) }),
    ("v_sse2_s256_u32xn_shr_11", |i, o| unsafe { v_sse2_s256_u32xn_shr_11(i, o) }),
    ("v_sse2_s256_u16xn_shl_12", |i, o| unsafe { v_sse2_s256_u16xn_shl_12(i, o) }),
    ("v_sse2_s256_u16xn_shr_12", |i, o| unsafe { v_sse2_s256_u16xn_shr_12(i, o) }),
    ("v_sse2_s256_u32xn_shr_12", |i, o| unsafe { v_sse2_s256_u32xn_shr_12(i, o) }),
    ("v_sse2_s256_u16xn_shl_13", |i, o| unsafe { v_sse2_s256_u16xn_shl_13(i, o) }),
    ("v_sse2_s256_u16xn_shr_13", |i, o| unsafe { v_sse2_s256_u16xn_shr_13(i, o) }),
    ("v_sse2_s256_u32xn_shr_13", |i, o| unsafe { v_sse2_s256_u32xn_shr_13(i, o) }),
    ("v_sse2_s256_u16xn_shl_14", |i, o| unsafe { v_sse2_s256_u16xn_shl_14(i, o) }),
    ("v_sse2_s256_u16xn_shr_14", |i, o| unsafe { v_sse2_s256_u16xn_shr_14(i, o) }),
    ("v_sse2_s256_u32xn_shr_14", |i, o| unsafe { v_sse2_s256_u32xn_shr_14(i, o) }),
    ("v_sse2_s256_u16xn_shl_15", |i, o| unsafe { v_sse2_s256_u16xn_shl_15(i, o) }),
    ("v_sse2_s256_u16xn_shr_15", |i, o| unsafe { v_sse2_s256_u16xn_shr_15(i, o) }),
    ("v_sse2_s256_u32xn_shr_15", |i, o| unsafe { v_sse2_s256_u32xn_shr_15(i, o) }),
    ("v_sse2_s256_u32xn_shr_16", |i, o| unsafe { v_sse2_s256_u32xn_shr_16(i, o) }),
    ("v_sse2_s256_u32xn_shr_17", |i, o| unsafe { v_sse2_s256_u32xn_shr_17(i, o) }),
    ("v_sse2_s256_u32xn_shr_18", |i, o| unsafe { v_sse2_s256_u32xn_shr_18(i, o) }),
    ("v_sse2_s256_u32xn_shr_19", |i, o| unsafe { v_sse2_s256_u32xn_shr_19(i, o) }),
    ("v_sse2_s256_u32xn_shr_20", |i, o| unsafe { v_sse2_s256_u32xn_shr_20(i, o) }),
    ("v_sse2_s256_u32xn_shr_21", |i, o| unsafe { v_sse2_s256_u32xn_shr_21(i, o) }),
    ("v_sse2_s256_u32xn_shr_22", |i, o| unsafe { v_sse2_s256_u32xn_shr_22(i, o) }),
    ("v_sse2_s256_u32xn_shr_23", |i, o| unsafe { v_sse2_s256_u32xn_shr_23(i, o) }),
    ("v_sse2_s256_u32xn_shr_24", |i, o| unsafe { v_sse2_s256_u32xn_shr_24(i, o) }),
    ("v_sse2_s256_u32xn_shr_25", |i, o| unsafe { v_sse2_s256_u32xn_shr_25(i, o) }),
    ("v_sse2_s256_u32xn_shr_26", |i, o| unsafe { v_sse2_s256_u32xn_shr_26(i, o) }),
    ("v_sse2_s256_u32xn_shr_27", |i, o| unsafe { v_sse2_s256_u32xn_shr_27(i, o) }),
    ("v_sse2_s256_u32xn_shr_28", |i, o| unsafe { v_sse2_s256_u32xn_shr_28(i, o) }),
    ("v_sse2_s256_u32xn_shr_29", |i, o| unsafe { v_sse2_s256_u32xn_shr_29(i, o) }),
    ("v_sse2_s256_u32xn_shr_30", |i, o| unsafe { v_sse2_s256_u32xn_shr_30(i, o) }),
    ("v_sse2_s256_u32xn_shr_31", |i, o| unsafe { v_sse2_s256_u32xn_shr_31(i, o) }),
    ("v_sse2_s256_mask8xn_all", |i, o| unsafe { v_sse2_s256_mask8xn_all(i, o) }),
    ("v_sse2_s256_mask8xn_any", |i, o| unsafe { v_sse2_s256_mask8xn_any(i, o) }),
    ("v_sse2_s256_u8xn_highbit_all", |i, o| unsafe { v_sse2_s256_u8xn_highbit_all(i, o) }),
    ("v_sse2_s256_u8xn_highbit_any", |i, o| unsafe { v_sse2_s256_u8xn_highbit_any(i, o) }),
    ("v_sse2_f_mask8x32_all", |i, o| unsafe { v_sse2_f_mask8x32_all(i, o) }),
    ("v_sse2_f_mask8x32_any", |i, o| unsafe { v_sse2_f_mask8x32_any(i, o) }),
    ("v_sse2_f_u8x32_highbit_all", |i, o| unsafe { v_sse2_f_u8x32_highbit_all(i, o) }),
    ("v_sse2_f_u8x32_highbit_any", |i, o| unsafe { v_sse2_f_u8x32_highbit_any(i, o) }),
    ("v_sse2_s256_to_ascii_lowercase", |i, o| unsafe { v_sse2_s256_to_ascii_lowercase(i, o) }),
    ("v_sse2_s256_to_ascii_uppercase", |i, o| unsafe { v_sse2_s256_to_ascii_uppercase(i, o) }),
    ("v_sse2_s256_hex_check", |i, o| unsafe { v_sse2_s256_hex_check(i, o) }),
    ("v_sse2_hex_sse2_encode16_lower", |i, o| unsafe { v_sse2_hex_sse2_encode16_lower(i, o) }),
    ("v_sse2_hex_sse2_encode16_upper", |i, o| unsafe { v_sse2_hex_sse2_encode16_upper(i, o) }),
    ("v_sse2_hex_sse2_decode_nibbles", |i, o| unsafe { v_sse2_hex_sse2_decode_nibbles(i, o) }),
    ("v_sse2_hex_sse2_merge_bits", |i, o| unsafe { v_sse2_hex_sse2_merge_bits(i, o) }),
    ("v_sse2_hex_unhex", |i, o| unsafe { v_sse2_hex_unhex(i, o) }),
    ("v_sse2_alsw_lookup", |i, o| unsafe { v_sse2_alsw_lookup(i, o) }),
    ("v_sse2_alsw_avgr", |i, o| unsafe { v_sse2_alsw_avgr(i, o) }),
    ("v_sse2_alsw_hash", |i, o| unsafe { v_sse2_alsw_hash(i, o) }),
    ("v_sse2_alsw_scheck", |i, o| unsafe { v_sse2_alsw_scheck(i, o) }),
    ("v_sse2_alsw_sdecode", |i, o| unsafe { v_sse2_alsw_sdecode(i, o) }),
    ("v_sse2_V64_from_bytes", |i, o| unsafe { v_sse2_V64_from_bytes(i, o) }),
    ("v_sse2_V128_from_bytes", |i, o| unsafe { v_sse2_V128_from_bytes(i, o) }),
    ("v_sse2_V256_from_bytes", |i, o| unsafe { v_sse2_V256_from_bytes(i, o) }),
    ("v_sse2_V128_as_bytes", |i, o| unsafe { v_sse2_V128_as_bytes(i, o) }),
    ("v_sse2_V256_as_bytes", |i, o| unsafe { v_sse2_V256_as_bytes(i, o) }),
    ("v_sse2_V64_to_u64", |i, o| unsafe { v_sse2_V64_to_u64(i, o) }),
    ("v_sse2_V128_to_v64x2", |i, o| unsafe { v_sse2_V128_to_v64x2(i, o) }),
    ("v_sse2_V128_x2", |i, o| unsafe { v_sse2_V128_x2(i, o) }),
    ("v_sse2_V256_from_v128x2", |i, o| unsafe { v_sse2_V256_from_v128x2(i, o) }),
    ("v_sse2_V256_to_v128x2", |i, o| unsafe { v_sse2_V256_to_v128x2(i, o) }),
    ("v_sse2_V256_double_bytes", |i, o| unsafe { v_sse2_V256_double_bytes(i, o) }),
    ("v_sse2_V256_x2", |i, o| unsafe { v_sse2_V256_x2(i, o) }),
    ("v_sse2_V512_from_v256x2", |i, o| unsafe { v_sse2_V512_from_v256x2(i, o) }),
    ("v_sse2_V512_to_v256x2", |i, o| unsafe { v_sse2_V512_to_v256x2(i, o) }),
    ("v_sse2_V512_double_bytes", |i, o| unsafe { v_sse2_V512_double_bytes(i, o) }),
    ("v_sse2_sim_u8x16_bitmask", |i, o| unsafe { v_sse2_sim_u8x16_bitmask(i, o) }),
    ("v_sse2_sim_u16x8_shr_0", |i, o| unsafe { v_sse2_sim_u16x8_shr_0(i, o) }),
    ("v_sse2_sim_u16x8_shl_0", |i, o| unsafe { v_sse2_sim_u16x8_shl_0(i, o) }),
    ("v_sse2_sim_u16x8_shr_1", |i, o| unsafe { v_sse2_sim_u16x8_shr_1(i, o) }),
    ("v_sse2_sim_u16x8_shl_1", |i, o| unsafe { v_sse2_sim_u16x8_shl_1(i, o) }),
    ("v_sse2_sim_u16x8_shr_2", |i, o| unsafe { v_sse2_sim_u16x8_shr_2(i, o) }),
    ("v_sse2_sim_u16x8_shl_2", |i, o| unsafe { v_sse2_sim_u16x8_shl_2(i, o) }),
    ("v_sse2_sim_u16x8_shr_3", |i, o| unsafe { v_sse2_sim_u16x8_shr_3(i, o) }),
    ("v_sse2_sim_u16x8_shl_3", |i, o| unsafe { v_sse2_sim_u16x8_shl_3(i, o) }),
    ("v_sse2_sim_u16x8_shr_4", |i, o| unsafe { v_sse2_sim_u16x8_shr_4(i, o) }),
    ("v_sse2_sim_u16x8_shl_4", |i, o| unsafe { v_sse2_sim_u16x8_shl_4(i, o) }),
    ("v_sse2_sim_u16x8_shr_5", |i, o| unsafe { v_sse2_sim_u16x8_shr_5(i, o) }),
    ("v_sse2_sim_u16x8_shl_5", |i, o| unsafe { v_sse2_sim_u16x8_shl_5(i, o) }),
    ("v_sse2_sim_u16x8_shr_6", |i, o| unsafe { v_sse2_sim_u16x8_shr_6(i, o) }),
    ("v_sse2_sim_u16x8_shl_6", |i, o| unsafe { v_sse2_sim_u16x8_shl_6(i, o) }),
    ("v_sse2_sim_u16x8_shr_7", |i, o| unsafe { v_sse2_sim_u16x8_shr_7(i, o) }),
    ("v_sse2_sim_u16x8_shl_7", |i, o| unsafe { v_sse2_sim_u16x8_shl_7(i, o) }),
    ("v_sse2_sim_u16x8_shr_8", |i, o| unsafe { v_sse2_sim_u16x8_shr_8(i, o) }),
    ("v_sse2_sim_u16x8_shl_8", |i, o| unsafe { v_sse2_sim_u16x8_shl_8(i, o) }),
    ("v_sse2_sim_u16x8_shr_9", |i, o| unsafe { v_sse2_sim_u16x8_shr_9(i, o) }),
    ("v_sse2_sim_u16x8_shl_9", |i, o| unsafe { v_sse2_sim_u16x8_shl_9(i, o) }),
    ("v_sse2_sim_u16x8_shr_10", |i, o| unsafe { v_sse2_sim_u16x8_shr_10(i, o) }),
    ("v_sse2_sim_u16x8_shl_10", |i, o| unsafe { v_sse2_sim_u16x8_shl_10(i, o) }),
    ("v_sse2_sim_u16x8_shr_11", |i, o| unsafe { v_sse2_sim_u16x8_shr_11(i, o) }),
    ("v_sse2_sim_u16x8_shl_11", |i, o| unsafe { v_sse2_sim_u16x8_shl_11(i, o) }),
    ("v_sse2_sim_u16x8_shr_12", |i, o| unsafe { v_sse2_sim_u16x8_shr_12(i, o) }),
    ("v_sse2_sim_u16x8_shl_12", |i, o| unsafe { v_sse2_sim_u16x8_shl_12(i, o) }),
    ("v_sse2_sim_u16x8_shr_13", |i, o| unsafe { v_sse2_sim_u16x8_shr_13(i, o) }),
    ("v_sse2_sim_u16x8_shl_13", |i, o| unsafe { v_sse2_sim_u16x8_shl_13(i, o) }),
    ("v_sse2_sim_u16x8_shr_14", |i, o| unsafe { v_sse2_sim_u16x8_shr_14(i, o) }),
    ("v_sse2_sim_u16x8_shl_14", |i, o| unsafe { v_sse2_sim_u16x8_shl_14(i, o) }),
    ("v_sse2_sim_u16x8_shr_15", |i, o| unsafe { v_sse2_sim_u16x8_shr_15(i, o) }),
    ("v_sse2_sim_u16x8_shl_15", |i, o| unsafe { v_sse2_sim_u16x8_shl_15(i, o) }),
    ("v_sse2_sim_i16x8_packus", |i, o| unsafe { v_sse2_sim_i16x8_packus(i, o) }),
    ("v_ssse3_v128_load", |i, o| unsafe { v_ssse3_v128_load(i, o) }),
    ("v_ssse3_v128_load_unaligned", |i, o| unsafe { v_ssse3_v128_load_unaligned(i, o) }),
    ("v_ssse3_v128_store", |i, o| unsafe { v_ssse3_v128_store(i, o) }),
    ("v_ssse3_v128_store_unaligned", |i, o| unsafe { v_ssse3_v128_store_unaligned(i, o) }),
    ("v_ssse3_v128_create_zero", |i, o| unsafe { v_ssse3_v128_create_zero(i, o) }),
    ("v_ssse3_v128_not", |i, o| unsafe { v_ssse3_v128_not(i, o) }),
    ("v_ssse3_v128_and", |i, o| unsafe { v_ssse3_v128_and(i, o) }),
    ("v_ssse3_v128_or", |i, o| unsafe { v_ssse3_v128_or(i, o) }),
    ("v_ssse3_v128_xor", |i, o| unsafe { v_ssse3_v128_xor(i, o) }),
    ("v_ssse3_v128_andnot", |i, o| unsafe { v_ssse3_v128_andnot(i, o) }),
    ("v_ssse3_u8x16_splat", |i, o| unsafe { v_ssse3_u8x16_splat(i, o) }),
    ("v_ssse3_u16x8_splat", |i, o| unsafe { v_ssse3_u16x8_splat(i, o) }),
    ("v_ssse3_u32x4_splat", |i, o| unsafe { v_ssse3_u32x4_splat(i, o) }),
    ("v_ssse3_u64x2_splat", |i, o| unsafe { v_ssse3_u64x2_splat(i, o) }),
    ("v_ssse3_i8x16_splat", |i, o| unsafe { v_ssse3_i8x16_splat(i, o) }),
    ("v_ssse3_i16x8_splat", |i, o| unsafe { v_ssse3_i16x8_splat(i, o) }),
    ("v_ssse3_i32x4_splat", |i, o| unsafe { v_ssse3_i32x4_splat(i, o) }),
    ("v_ssse3_i64x2_splat", |i, o| unsafe { v_ssse3_i64x2_splat(i, o) }),
    ("v_ssse3_u8x16_add", |i, o| unsafe { v_ssse3_u8x16_add(i, o) }),
    ("v_ssse3_u8x16_sub", |i, o| unsafe { v_ssse3_u8x16_sub(i, o) }),
    ("v_ssse3_u16x8_add", |i, o| unsafe { v_ssse3_u16x8_add(i, o) }),
    ("v_ssse3_u16x8_sub", |i, o| unsafe { v_ssse3_u16x8_sub(i, o) }),
    ("v_ssse3_u32x4_add", |i, o| unsafe { v_ssse3_u32x4_add(i, o) }),
    ("v_ssse3_u32x4_sub", |i, o| unsafe { v_ssse3_u32x4_sub(i, o) }),
    ("v_ssse3_u64x2_add", |i, o| unsafe { v_ssse3_u64x2_add(i, o) }),
    ("v_ssse3_u64x2_sub", |i, o| unsafe { v_ssse3_u64x2_sub(i, o) }),
    ("v_ssse3_u8x16_sub_sat", |i, o| unsafe { v_ssse3_u8x16_sub_sat(i, o) }),
    ("v_ssse3_i8x16_sub_sat", |i, o| unsafe { v_ssse3_i8x16_sub_sat(i, o) }),
    ("v_ssse3_u16x8_sub_sat", |i, o| unsafe { v_ssse3_u16x8_sub_sat(i, o) }),
    ("v_ssse3_i16x8_sub_sat", |i, o| unsafe { v_ssse3_i16x8_sub_sat(i, o) }),
    ("v_ssse3_u8x16_add_sat", |i, o| unsafe { v_ssse3_u8x16_add_sat(i, o) }),
    ("v_ssse3_i8x16_add_sat", |i, o| unsafe { v_ssse3_i8x16_add_sat(i, o) }),
    ("v_ssse3_i16x8_mul_lo", |i, o| unsafe { v_ssse3_i16x8_mul_lo(i, o) }),
    ("v_ssse3_u16x8_mul_hi", |i, o| unsafe { v_ssse3_u16x8_mul_hi(i, o) }),
    ("v_ssse3_i16x8_mul_hi", |i, o| unsafe { v_ssse3_i16x8_mul_hi(i, o) }),
    ("v_ssse3_i16x8_maddubs", |i, o| unsafe { v_ssse3_i16x8_maddubs(i, o) }),
    ("v_ssse3_i16x8_madd", |i, o| unsafe { v_ssse3_i16x8_madd(i, o) }),
    ("v_ssse3_u8x16_avgr", |i, o| unsafe { v_ssse3_u8x16_avgr(i, o) }),
    ("v_ssse3_u16x8_shl_0", |i, o| unsafe { v_ssse3_u16x8_shl_0(i, o) }),
    ("v_ssse3_u16x8_shr_0", |i, o| unsafe { v_ssse3_u16x8_shr_0(i, o) }),
    ("v_ssse3_u16x8_shl_1", |i, o| unsafe { v_ssse3_u16x8_shl_1(i, o) }),
    ("v_ssse3_u16x8_shr_1", |i, o| unsafe { v_ssse3_u16x8_shr_1(i, o) }),
    ("v_ssse3_u16x8_shl_2", |i, o| unsafe { v_ssse3_u16x8_shl_2(i, o) }),
    ("v_ssse3_u16x8_shr_2", |i, o| unsafe { v_ssse3_u16x8_shr_2(i, o) }),
    ("v_ssse3_u16x8_shl_3", |i, o| unsafe { v_ssse3_u16x8_shl_3(i, o) }),
    ("v_ssse3_u16x8_shr_3", |i, o| unsafe { v_ssse3_u16x8_shr_3(i, o) }),
    ("v_ssse3_u16x8_shl_4", |i, o| unsafe { v_ssse3_u16x8_shl_4(i, o) }),
    ("v_ssse3_u16x8_shr_4", |i, o| unsafe { v_ssse3_u16x8_shr_4(i, o) }),
    ("v_ssse3_u16x8_shl_5", |i, o| unsafe { v_ssse3_u16x8_shl_5(i, o) }),
    ("v_ssse3_u16x8_shr_5", |i, o| unsafe { v_ssse3_u16x8_shr_5(i, o) }),
    ("v_ssse3_u16x8_shl_6", |i, o| unsafe { v_ssse3_u16x8_shl_6(i, o) }),
    ("v_ssse3_u16x8_shr_6", |i, o| unsafe { v_ssse3_u16x8_shr_6(i, o) }),
    ("v_ssse3_u16x8_shl_7", |i, o| unsafe { v_ssse3_u16x8_shl_7(i, o) }),
    ("v_ssse3_u16x8_shr_7", |i, o| unsafe { v_ssse3_u16x8_shr_7(i, o) }),
    ("v_ssse3_u16x8_shl_8", |i, o| unsafe { v_ssse3_u16x8_shl_8(i, o) }),
    ("v_ssse3_u16x8_shr_8", |i, o| unsafe { v_ssse3_u16x8_shr_8(i, o) }),
    ("v_ssse3_u16x8_shl_9", |i, o| unsafe { v_ssse3_u16x8_shl_9(i, o) }),
    ("v_ssse3_u16x8_shr_9", |i, o| unsafe { v_ssse3_u16x8_shr_9(i, o) }),
    ("v_ssse3_u16x8_shl_10", |i, o| unsafe { v_ssse3_u16x8_shl_10(i, o) }),
    ("v_ssse3_u16x8_shr_10", |i, o| unsafe { v_ssse3_u16x8_shr_10(i, o) }),
    ("v_ssse3_u16x8_shl_11", |i, o| unsafe { v_ssse3_u16x8_shl_11(i, o) }),
    ("v_ssse3_u16x8_shr_11", |i, o| unsafe { v_ssse3_u16x8_shr_11(i, o) }),
    ("v_ssse3_u16x8_shl_12", |i, o| unsafe { v_ssse3_u16x8_shl_12(i, o) }),
    ("v_ssse3_u16x8_shr_12", |i, o| unsafe { v_ssse3_u16x8_shr_12(i, o) }),
    ("v_ssse3_u16x8_shl_13", |i, o| unsafe { v_ssse3_u16x8_shl_13(i, o) }),
    ("v_ssse3_u16x8_shr_13", |i, o| unsafe { v_ssse3_u16x8_shr_13(i, o) }),
    ("v_ssse3_u16x8_shl_14", |i, o| unsafe { v_ssse3_u16x8_shl_14(i, o) }),
    ("v_ssse3_u16x8_shr_14", |i, o| unsafe { v_ssse3_u16x8_shr_14(i, o) }),
    ("v_ssse3_u16x8_shl_15", |i, o| unsafe { v_ssse3_u16x8_shl_15(i, o) }),
    ("v_ssse3_u16x8_shr_15", |i, o| unsafe { v_ssse3_u16x8_shr_15(i, o) }),
    ("v_ssse3_u32x4_shl_0", |i, o| unsafe { v_ssse3_u32x4_shl_0(i, o) }),
    ("v_ssse3_u32x4_shr_0", |i, o| unsafe { v_ssse3_u32x4_shr_0(i, o) }),
    ("v_ssse3_u32x4_shl_1", |i, o| unsafe { v_ssse3_u32x4_shl_1(i, o) }),
    ("v_ssse3_u32x4_shr_1", |i, o| unsafe { v_ssse3_u32x4_shr_1(i, o) }),
    ("v_ssse3_u32x4_shl_2", |i, o| unsafe { v_ssse3_u32x4_shl_2(i, o) }),
    ("v_ssse3_u32x4_shr_2", |i, o| unsafe { v_ssse3_u32x4_shr_2(i, o) }),
    ("v_ssse3_u32x4_shl_3", |i, o| unsafe { v_ssse3_u32x4_shl_3(i, o) }),
    ("v_ssse3_u32x4_shr_3", |i, o| unsafe { v_ssse3_u32x4_shr_3(i, o) }),
    ("v_ssse3_u32x4_shl_4", |i, o| unsafe { v_ssse3_u32x4_shl_4(i, o) }),
    ("v_ssse3_u32x4_shr_4", |i, o| unsafe { v_ssse3_u32x4_shr_4(i, o) }),
    ("v_ssse3_u32x4_shl_5", |i, o| unsafe { v_ssse3_u32x4_shl_5(i, o) }),
    ("v_ssse3_u32x4_shr_5", |i, o| unsafe { v_ssse3_u32x4_shr_5(i, o) }),
    ("v_ssse3_u32x4_shl_6", |i, o| unsafe { v_ssse3_u32x4_shl_6(i, o) }),
    ("v_ssse3_u32x4_shr_6", |i, o| unsafe { v_ssse3_u32x4_shr_6(i, o) }),
    ("v_ssse3_u32x4_shl_7", |i, o| unsafe { v_ssse3_u32x4_shl_7(i, o) }),
    ("v_ssse3_u32x4_shr_7", |i, o| unsafe { v_ssse3_u32x4_shr_7(i, o) }),
    ("v_ssse3_u32x4_shl_8", |i, o| unsafe { v_ssse3_u32x4_shl_8(i, o) }),
    ("v_ssse3_u32x4_shr_8", |i, o| unsafe { v_ssse3_u32x4_shr_8(i, o) }),
    ("v_ssse3_u32x4_shl_9", |i, o| unsafe { v_ssse3_u32x4_shl_9(i, o) }),
    ("v_ssse3_u32x4_shr_9", |i, o| unsafe { v_ssse3_u32x4_shr_9(i, o) }),
    ("v_ssse3_u32x4_shl_10", |i, o| unsafe { v_ssse3_u32x4_shl_10(i, o) }),
    ("v_ssse3_u32x4_shr_10", |i, o| unsafe { v_ssse3_u32x4_shr_10(i, o) }),
    ("v_ssse3_u32x4_shl_11", |i, o| unsafe { v_ssse3_u32x4_shl_11(i, o) }),
    ("v_ssse3_u32x4_shr_11", |i, o| unsafe { v_ssse3_u32x4_shr_11(i, o) }),
    ("v_ssse3_u32x4_shl_12", |i, o| unsafe { v_ssse3_u32x4_shl_12(i, o) }),
    ("v_ssse3_u32x4_shr_12", |i, o| unsafe { v_ssse3_u32x4_shr_12(i, o) }),
    ("v_ssse3_u32x4_shl_13", |i, o| unsafe { v_ssse3_u32x4_shl_13(i, o) }),
    ("v_ssse3_u32x4_shr_13", |i, o| unsafe { v_ssse3_u32x4_shr_13(i, o) }),
    ("v_ssse3_u32x4_shl_14", |i, o| unsafe { v_ssse3_u32x4_shl_14(i, o) }),
    ("v_ssse3_u32x4_shr_14", |i, o| unsafe { v_ssse3_u32x4_shr_14(i, o) }),
    ("v_ssse3_u32x4_shl_15", |i, o| unsafe { v_ssse3_u32x4_shl_15(i, o) }),
    ("v_ssse3_u32x4_shr_15", |i, o| unsafe { v_ssse3_u32x4_shr_15(i, o) }),
    ("v_ssse3_u32x4_shl_16", |i, o| unsafe { v_ssse3_u32x4_shl_16(i, o) }),
    ("v_ssse3_u32x4_shr_16", |i, o| unsafe { v_ssse3_u32x4_shr_16(i, o) }),
    ("v_ssse3_u32x4_shl_17", |i, o| unsafe { v_ssse3_u32x4_shl_17(i, o) }),
    ("v_ssse3_u32x4_shr_17", |i, o| unsafe { v_ssse3_u32x4_shr_17(i, o) }),
    ("v_ssse3_u32x4_shl_18", |i, o| unsafe { v_ssse3_u32x4_shl_18(i, o) }),
    ("v_ssse3_u32x4_shr_18", |i, o| unsafe { v_ssse3_u32x4_shr_18(i, o) }),
    ("v_ssse3_u32x4_shl_19", |i, o| unsafe { v_ssse3_u32x4_shl_19(i, o) }),
    ("v_ssse3_u32x4_shr_19", |i, o| unsafe { v_ssse3_u32x4_shr_19(i, o) }),
    ("v_ssse3_u32x4_shl_20", |i, o| unsafe { v_ssse3_u32x4_shl_20(i, o) }),
    ("v_ssse3_u32x4_shr_20", |i, o| unsafe { v_ssse3_u32x4_shr_20(i, o) }),
    ("v_ssse3_u32x4_shl_21", |i, o| unsafe { v_ssse3_u32x4_shl_21(i, o) }),
    ("v_ssse3_u32x4_shr_21", |i, o| unsafe { v_ssse3_u32x4_shr_21(i, o) }),
    ("v_ssse3_u32x4_shl_22", |i, o| unsafe { v_ssse3_u32x4_shl_22(i, o) }),
    ("v_ssse3_u32x4_shr_22", |i, o| unsafe { v_ssse3_u32x4_shr_22(i, o) }),
    ("v_ssse3_u32x4_shl_23", |i, o| unsafe { v_ssse3_u32x4_shl_23(i, o) }),
    ("v_ssse3_u32x4_shr_23", |i, o| unsafe { v_ssse3_u32x4_shr_23(i, o) }),
    ("v_ssse3_u32x4_shl_24", |i, o| unsafe { v_ssse3_u32x4_shl_24(i, o) }),
    ("v_ssse3_u32x4_shr_24", |i, o| unsafe { v_ssse3_u32x4_shr_24(i, o) }),
    ("v_ssse3_u32x4_shl_25", |i, o| unsafe { v_ssse3_u32x4_shl_25(i, o) }),
    ("v_ssse3_u32x4_shr_25", |i, o| unsafe { v_ssse3_u32x4_shr_25(i, o) }),
    ("v_ssse3_u32x4_shl_26", |i, o| unsafe { v_ssse3_u32x4_shl_26(i, o) }),
    ("v_ssse3_u32x4_shr_26", |i, o| unsafe { v_ssse3_u32x4_shr_26(i, o) }),
    ("v_ssse3_u32x4_shl_27", |i, o| unsafe { v_ssse3_u32x4_shl_27(i, o) }),
    ("v_ssse3_u32x4_shr_27", |i, o| unsafe { v_ssse3_u32x4_shr_27(i, o) }),
    ("v_ssse3_u32x4_shl_28", |i, o| unsafe { v_ssse3_u32x4_shl_28(i, o) }),
    ("v_ssse3_u32x4_shr_28", |i, o| unsafe { v_ssse3_u32x4_shr_28(i, o) }),
    ("v_ssse3_u32x4_shl_29", |i, o| unsafe { v_ssse3_u32x4_shl_29(i, o) }),
    ("v_ssse3_u32x4_shr_29", |i, o| unsafe { v_ssse3_u32x4_shr_29(i, o) }),
    ("v_ssse3_u32x4_shl_30", |i, o| unsafe { v_ssse3_u32x4_shl_30(i, o) }),
    ("v_ssse3_u32x4_shr_30", |i, o| unsafe { v_ssse3_u32x4_shr_30(i, o) }),
    ("v_ssse3_u32x4_shl_31", |i, o| unsafe { v_ssse3_u32x4_shl_31(i, o) }),
    ("v_ssse3_u32x4_shr_31", |i, o| unsafe { v_ssse3_u32x4_shr_31(i, o) }),
    ("v_ssse3_u8x16_eq", |i, o| unsafe { v_ssse3_u8x16_eq(i, o) }),
    ("v_ssse3_u8x16_lt", |i, o| unsafe { v_ssse3_u8x16_lt(i, o) }),
    ("v_ssse3_u8x16_max", |i, o| unsafe { v_ssse3_u8x16_max(i, o) }),
    ("v_ssse3_u8x16_min", |i, o| unsafe { v_ssse3_u8x16_min(i, o) }),
    ("v_ssse3_i8x16_lt", |i, o| unsafe { v_ssse3_i8x16_lt(i, o) }),
    ("v_ssse3_u16x8_eq", |i, o| unsafe { v_ssse3_u16x8_eq(i, o) }),
    ("v_ssse3_u16x8_lt", |i, o| unsafe { v_ssse3_u16x8_lt(i, o) }),
    ("v_ssse3_i16x8_lt", |i, o| unsafe { v_ssse3_i16x8_lt(i, o) }),
    ("v_ssse3_i16x8_max", |i, o| unsafe { v_ssse3_i16x8_max(i, o) }),
    ("v_ssse3_i16x8_min", |i, o| unsafe { v_ssse3_i16x8_min(i, o) }),
    ("v_ssse3_u32x4_eq", |i, o| unsafe { v_ssse3_u32x4_eq(i, o) }),
    ("v_ssse3_u32x4_lt", |i, o| unsafe { v_ssse3_u32x4_lt(i, o) }),
    ("v_ssse3_i32x4_lt", |i, o| unsafe { v_ssse3_i32x4_lt(i, o) }),
    ("v_ssse3_u8x16_swizzle", |i, o| unsafe { v_ssse3_u8x16_swizzle(i, o) }),
    ("v_ssse3_u16x8_bswap", |i, o| unsafe { v_ssse3_u16x8_bswap(i, o) }),
    ("v_ssse3_u32x4_bswap", |i, o| unsafe { v_ssse3_u32x4_bswap(i, o) }),
    ("v_ssse3_u64x2_bswap", |i, o| unsafe { v_ssse3_u64x2_bswap(i, o) }),
    ("v_ssse3_u8x16_any_zero", |i, o| unsafe { v_ssse3_u8x16_any_zero(i, o) }),
    ("v_ssse3_u8x16_bitmask", |i, o| unsafe { v_ssse3_u8x16_bitmask(i, o) }),
    ("v_ssse3_v128_bsl", |i, o| unsafe { v_ssse3_v128_bsl(i, o) }),
    ("v_ssse3_u8x16_zip_lo", |i, o| unsafe { v_ssse3_u8x16_zip_lo(i, o) }),
    ("v_ssse3_u8x16_zip_hi", |i, o| unsafe { v_ssse3_u8x16_zip_hi(i, o) }),
    ("v_ssse3_u16x8_zip_lo", |i, o| unsafe { v_ssse3_u16x8_zip_lo(i, o) }),
    ("v_ssse3_u16x8_zip_hi", |i, o| unsafe { v_ssse3_u16x8_zip_hi(i, o) }),
    ("v_ssse3_u32x4_zip_lo", |i, o| unsafe { v_ssse3_u32x4_zip_lo(i, o) }),
    ("v_ssse3_u32x4_zip_hi", |i, o| unsafe { v_ssse3_u32x4_zip_hi(i, o) }),
    ("v_ssse3_u64x2_zip_lo", |i, o| unsafe { v_ssse3_u64x2_zip_lo(i, o) }),
    ("v_ssse3_u64x2_zip_hi", |i, o| unsafe { v_ssse3_u64x2_zip_hi(i, o) }),
    ("v_ssse3_v256_load", |i, o| unsafe { v_ssse3_v256_load(i, o) }),
    ("v_ssse3_v256_load_unaligned", |i, o| unsafe { v_ssse3_v256_load_unaligned(i, o) }),
    ("v_ssse3_v256_store", |i, o| unsafe { v_ssse3_v256_store(i, o) }),
    ("v_ssse3_v256_store_unaligned", |i, o| unsafe { v_ssse3_v256_store_unaligned(i, o) }),
    ("v_ssse3_v256_create_zero", |i, o| unsafe { v_ssse3_v256_create_zero(i, o) }),
    ("v_ssse3_v256_not", |i, o| unsafe { v_ssse3_v256_not(i, o) }),
    ("v_ssse3_v256_and", |i, o| unsafe { v_ssse3_v256_and(i, o) }),
    ("v_ssse3_v256_or", |i, o| unsafe { v_ssse3_v256_or(i, o) }),
    ("v_ssse3_v256_xor", |i, o| unsafe { v_ssse3_v256_xor(i, o) }),
    ("v_ssse3_v256_andnot", |i, o| unsafe { v_ssse3_v256_andnot(i, o) }),
    ("v_ssse3_u8x32_splat", |i, o| unsafe { v_ssse3_u8x32_splat(i, o) }),
    ("v_ssse3_u16x16_splat", |i, o| unsafe { v_ssse3_u16x16_splat(i, o) }),
    ("v_ssse3_u32x8_splat", |i, o| unsafe { v_ssse3_u32x8_splat(i, o) }),
    ("v_ssse3_u64x4_splat", |i, o| unsafe { v_ssse3_u64x4_splat(i, o) }),
    ("v_ssse3_i8x32_splat", |i, o| unsafe { v_ssse3_i8x32_splat(i, o) }),
    ("v_ssse3_i16x16_splat", |i, o| unsafe { v_ssse3_i16x16_splat(i, o) }),
    ("v_ssse3_i32x8_splat", |i, o| unsafe { v_ssse3_i32x8_splat(i, o) }),
    ("v_ssse3_i64x4_splat", |i, o| unsafe { v_ssse3_i64x4_splat(i, o) }),
    ("v_ssse3_u8x32_add", |i, o| unsafe { v_ssse3_u8x32_add(i, o) }),
    ("v_ssse3_u8x32_sub", |i, o| unsafe { v_ssse3_u8x32_sub(i, o) }),
    ("v_ssse3_u16x16_add", |i, o| unsafe { v_ssse3_u16x16_add(i, o) }),
    ("v_ssse3_u16x16_sub", |i, o| unsafe { v_ssse3_u16x16_sub(i, o) }),
    ("v_ssse3_u32x8_add", |i, o| unsafe { v_ssse3_u32x8_add(i, o) }),
    ("v_ssse3_u32x8_sub", |i, o| unsafe { v_ssse3_u32x8_sub(i, o) }),
    ("v_ssse3_u64x4_add", |i, o| unsafe { v_ssse3_u64x4_add(i, o) }),
    ("v_ssse3_u64x4_sub", |i, o| unsafe { v_ssse3_u64x4_sub(i, o) }),
    ("v_ssse3_u8x32_sub_sat", |i, o| unsafe { v_ssse3_u8x32_sub_sat(i, o) }),
    ("v_ssse3_i8x32_sub_sat", |i, o| unsafe { v_ssse3_i8x32_sub_sat(i, o) }),
    ("v_ssse3_u16x16_sub_sat", |i, o| unsafe { v_ssse3_u16x16_sub_sat(i, o) }),
    ("v_ssse3_i16x16_sub_sat", |i, o| unsafe { v_ssse3_i16x16_sub_sat(i, o) }),
    ("v_ssse3_u8x32_add_sat", |i, o| unsafe { v_ssse3_u8x32_add_sat(i, o) }),
    ("v_ssse3_i8x32_add_sat", |i, o| unsafe { v_ssse3_i8x32_add_sat(i, o) }),
    ("v_ssse3_i16x16_mul_lo", |i, o| unsafe { v_ssse3_i16x16_mul_lo(i, o) }),
    ("v_ssse3_u16x16_mul_hi", |i, o| unsafe { v_ssse3_u16x16_mul_hi(i, o) }),
    ("v_ssse3_i16x16_mul_hi", |i, o| unsafe { v_ssse3_i16x16_mul_hi(i, o) }),
    ("v_ssse3_i16x16_maddubs", |i, o| unsafe { v_ssse3_i16x16_maddubs(i, o) }),
    ("v_ssse3_i16x16_madd", |i, o| unsafe { v_ssse3_i16x16_madd(i, o) }),
    ("v_ssse3_u8x32_avgr", |i, o| unsafe { v_ssse3_u8x32_avgr(i, o) }),
    ("v_ssse3_u16x16_shl_0", |i, o| unsafe { v_ssse3_u16x16_shl_0(i, o) }),
    ("v_ssse3_u16x16_shr_0", |i, o| unsafe { v_ssse3_u16x16_shr_0(i, o) }),
    ("v_ssse3_u16x16_shl_1", |i, o| unsafe { v_ssse3_u16x16_shl_1(i, o) }),
    ("v_ssse3_u16x16_shr_1", |i, o| unsafe { v_ssse3_u16x16_shr_1(i, o) }),
    ("v_ssse3_u16x16_shl_2", |i, o| unsafe { v_ssse3_u16x16_shl_2(i, o) }),
    ("v_ssse3_u16x16_shr_2", |i, o| unsafe { v_ssse3_u16x16_shr_2(i, o) }),
    ("v_ssse3_u16x16_shl_3", |i, o| unsafe { v_ssse3_u16x16_shl_3(i, o) }),
    ("v_ssse3_u16x16_shr_3", |i, o| unsafe { v_ssse3_u16x16_shr_3(i, o) }),
    ("v_ssse3_u16x16_shl_4", |i, o| unsafe { v_ssse3_u16x16_shl_4(i, o) }),
    ("v_ssse3_u16x16_shr_4", |i, o| unsafe { v_ssse3_u16x16_shr_4(i, o) }),
    ("v_ssse3_u16x16_shl_5", |i, o| unsafe { v_ssse3_u16x16_shl_5(i, o) }),
    ("v_ssse3_u16x16_shr_5", |i, o| unsafe { v_ssse3_u16x16_shr_5(i, o) }),
    ("v_ssse3_u16x16_shl_6", |i, o| unsafe { v_ssse3_u16x16_shl_6(i, o) }),
    ("v_ssse3_u16x16_shr_6", |i, o| unsafe { v_ssse3_u16x16_shr_6(i, o) }),
    ("v_ssse3_u16x16_shl_7", |i, o| unsafe { v_ssse3_u16x16_shl_7(i, o) }),
    ("v_ssse3_u16x16_shr_7", |i, o| unsafe { v_ssse3_u16x16_shr_7(i, o) }),
    ("v_ssse3_u16x16_shl_8", |i, o| unsafe { v_ssse3_u16x16_shl_8(i, o) }),
    ("v_ssse3_u16x16_shr_8", |i, o| unsafe { v_ssse3_u16x16_shr_8(i, o) }),
    ("v_ssse3_u16x16_shl_9", |i, o| unsafe { v_ssse3_u16x16_shl_9(i, o) }),
    ("v_ssse3_u16x16_shr_9", |i, o| unsafe { v_ssse3_u16x16_shr_9(i, o) }),
    ("v_ssse3_u16x16_shl_10", |i, o| unsafe { v_ssse3_u16x16_shl_10(i, o) }),
    ("v_ssse3_u16x16_shr_10", |i, o| unsafe { v_ssse3_u16x16_shr_10(i, o) }),
    ("v_ssse3_u16x16_shl_11", |i, o| unsafe { v_ssse3_u16x16_shl_11(i, o) }),
    ("v_ssse3_u16x16_shr_11", |i, o| unsafe { v_ssse3_u16x16_shr_11(i, o) }),
    ("v_ssse3_u16x16_shl_12", |i, o| unsafe { v_ssse3_u16x16_shl_12(i, o) }),
    ("v_ssse3_u16x16_shr_12", |i, o| unsafe { v_ssse3_u16x16_shr_12(i, o) }),
    ("v_ssse3_u16x16_shl_13", |i, o| unsafe { v_ssse3_u16x16_shl_13(i, o) }),
    ("v_ssse3_u16x16_shr_13", |i, o| unsafe { v_ssse3_u16x16_shr_13(i, o) }),
    ("v_ssse3_u16x16_shl_14", |i, o| unsafe { v_ssse3_u16x16_shl_14(i, o) }),
    ("v_ssse3_u16x16_shr_14", |i, o| unsafe { v_ssse3_u16x16_shr_14(i, o) }),
    ("v_ssse3_u16x16_shl_15", |i, o| unsafe { v_ssse3_u16x16_shl_15(i, o) }),
    ("v_ssse3_u16x16_shr_15", |i, o| unsafe { v_ssse3_u16x16_shr_15(i, o) }),
    ("v_ssse3_u32x8_shl_0", |i, o| unsafe { v_ssse3_u32x8_shl_0(i, o) }),
    ("v_ssse3_u32x8_shr_0", |i, o| unsafe { v_ssse3_u32x8_shr_0(i, o) }),
    ("v_ssse3_u32x8_shl_1", |i, o| unsafe { v_ssse3_u32x8_shl_1(i, o) }),
    ("v_ssse3_u32x8_shr_1", |i, o| unsafe { v_ssse3_u32x8_shr_1(i, o) }),
    ("v_ssse3_u32x8_shl_2", |i, o| unsafe { v_ssse3_u32x8_shl_2(i, o) }),
    ("v_ssse3_u32x8_shr_2", |i, o| unsafe { v_ssse3_u32x8_shr_2(i, o) }),
    ("v_ssse3_u32x8_shl_3", |i, o| unsafe { v_ssse3_u32x8_shl_3(i, o) }),
    ("v_ssse3_u32x8_shr_3", |i, o| unsafe { v_ssse3_u32x8_shr_3(i, o) }),
    ("v_ssse3_u32x8_shl_4", |i, o| unsafe { v_ssse3_u32x8_shl_4(i, o) }),
    ("v_ssse3_u32x8_shr_4", |i, o| unsafe { v_ssse3_u32x8_shr_4(i, o) }),
    ("v_ssse3_u32x8_shl_5", |i, o| unsafe { v_ssse3_u32x8_shl_5(i, o) }),
    ("v_ssse3_u32x8_shr_5", |i, o| unsafe { v_ssse3_u32x8_shr_5(i, o) }),
    ("v_ssse3_u32x8_shl_6", |i, o| unsafe { v_ssse3_u32x8_shl_6(i, o) }),
    ("v_ssse3_u32x8_shr_6", |i, o| unsafe { v_ssse3_u32x8_shr_6(i, o) }),
    ("v_ssse3_u32x8_shl_7", |i, o| unsafe { v_ssse3_u32x8_shl_7(i, o) }),
    ("v_ssse3_u32x8_shr_7", |i, o| unsafe { v_ssse3_u32x8_shr_7(i, o) }),
    ("v_ssse3_u32x8_shl_8", |i, o| unsafe { v_ssse3_u32x8_shl_8(i, o) }),
    ("v_ssse3_u32x8_shr_8", |i, o| unsafe { v_ssse3_u32x8_shr_8(i, o) }),
    ("v_ssse3_u32x8_shl_9", |i, o| unsafe { v_ssse3_u32x8_shl_9(i, o) }),
    ("v_ssse3_u32x8_shr_9", |i, o| unsafe { v_ssse3_u32x8_shr_9(i, o) }),
    ("v_ssse3_u32x8_shl_10", |i, o| unsafe { v_ssse3_u32x8_shl_10(i, o) }),
    ("v_ssse3_u32x8_shr_10", |i, o| unsafe { v_ssse3_u32x8_shr_10(i, o) }),
    ("v_ssse3_u32x8_shl_11", |i, o| unsafe { v_ssse3_u32x8_shl_11(i, o) }),
    ("v_ssse3_u32x8_shr_11", |i, o| unsafe { v_ssse3_u32x8_shr_11(i, o) }),
    ("v_ssse3_u32x8_shl_12", |i, o| unsafe { v_ssse3_u32x8_shl_12(i, o) }),
    ("v_ssse3_u32x8_shr_12", |i, o| unsafe { v_ssse3_u32x8_shr_12(i, o) }),
    ("v_ssse3_u32x8_shl_13", |i, o| unsafe { v_ssse3_u32x8_shl_13(i, o) }),
    ("v_ssse3_u32x8_shr_13", |i, o| unsafe { v_ssse3_u32x8_shr_13(i, o) }),
    ("v_ssse3_u32x8_shl_14", |i, o| unsafe { v_ssse3_u32x8_shl_14(i, o) }),
    ("v_ssse3_u32x8_shr_14", |i, o| unsafe { v_ssse3_u32x8_shr_14(i, o) }),
    ("v_ssse3_u32x8_shl_15", |i, o| unsafe { v_ssse3_u32x8_shl_15(i, o) }),
    ("v_ssse3_u32x8_shr_15", |i, o| unsafe { v_ssse3_u32x8_shr_15(i, o) }),
    ("v_ssse3_u32x8_shl_16", |i, o| unsafe { v_ssse3_u32x8_shl_16(i, o) }),
    ("v_ssse3_u32x8_shr_16", |i, o| unsafe { v_ssse3_u32x8_shr_16(i, o) }),
    ("v_ssse3_u32x8_shl_17", |i, o| unsafe { v_ssse3_u32x8_shl_17(i, o) }),
    ("v_ssse3_u32x8_shr_17", |i, o| unsafe { v_ssse3_u32x8_shr_17(i, o) }),
    ("v_ssse3_u32x8_shl_18", |i, o| unsafe { v_ssse3_u32x8_shl_18(i, o) }),
    ("v_ssse3_u32x8_shr_18", |i, o| unsafe { v_ssse3_u32x8_shr_18(i, o) }),
    ("v_ssse3_u32x8_shl_19", |i, o| unsafe { v_ssse3_u32x8_shl_19(i, o) }),
    ("v_ssse3_u32x8_shr_19", |i, o| unsafe { v_ssse3_u32x8_shr_19(i, o) }),
    ("v_ssse3_u32x8_shl_20", |i, o| unsafe { v_ssse3_u32x8_shl_20(i, o) }),
    ("v_ssse3_u32x8_shr_20", |i, o| unsafe { v_ssse3_u32x8_shr_20(i, o) }),
    ("v_ssse3_u32x8_shl_21", |i, o| unsafe { v_ssse3_u32x8_shl_21(i, o) }),
    ("v_ssse3_u32x8_shr_21", |i, o| unsafe { v_ssse3_u32x8_shr_21(i, o) }),
    ("v_ssse3_u32x8_shl_22", |i, o| unsafe { v_ssse3_u32x8_shl_22(i, o) }),
    ("v_ssse3_u32x8_shr_22", |i, o| unsafe { v_ssse3_u32x8_shr_22(i, o) }),
    ("v_ssse3_u32x8_shl_23", |i, o| unsafe { v_ssse3_u32x8_shl_23(i, o) }),
    ("v_ssse3_u32x8_shr_23", |i, o| unsafe { v_ssse3_u32x8_shr_23(i, o) }),
    ("v_ssse3_u32x8_shl_24", |i, o| unsafe { v_ssse3_u32x8_shl_24(i, o) }),
    ("v_ssse3_u32x8_shr_24", |i, o| unsafe { v_ssse3_u32x8_shr_24(i, o) }),
    ("v_ssse3_u32x8_shl_25", |i, o| unsafe { v_ssse3_u32x8_shl_25(i, o) }),
    ("v_ssse3_u32x8_shr_25", |i, o| unsafe { v_ssse3_u32x8_shr_25(i, o) }),
    ("v_ssse3_u32x8_shl_26", |i, o| unsafe { v_ssse3_u32x8_shl_26(i, o) }),
    ("v_ssse3_u32x8_shr_26", |i, o| unsafe { v_ssse3_u32x8_shr_26(i, o) }),
    ("v_ssse3_u32x8_shl_27", |i, o| unsafe { v_ssse3_u32x8_shl_27(i, o) }),
    ("v_ssse3_u32x8_shr_27", |i, o| unsafe { v_ssse3_u32x8_shr_27(i, o) }),
    ("v_ssse3_u32x8_shl_28", |i, o| unsafe { v_ssse3_u32x8_shl_28(i, o) }),
    ("v_ssse3_u32x8_shr_28", |i, o| unsafe { v_ssse3_u32x8_shr_28(i, o) }),
    ("v_ssse3_u32x8_shl_29", |i, o| unsafe { v_ssse3_u32x8_shl_29(i, o) }),
    ("v_ssse3_u32x8_shr_29", |i, o| unsafe { v_ssse3_u32x8_shr_29(i, o) }),
    ("v_ssse3_u32x8_shl_30", |i, o| unsafe { v_ssse3_u32x8_shl_30(i, o) }),
    ("v_ssse3_u32x8_shr_30", |i, o| unsafe { v_ssse3_u32x8_shr_30(i, o) }),
    ("v_ssse3_u32x8_shl_31", |i, o| unsafe { v_ssse3_u32x8_shl_31(i, o) }),
    ("v_ssse3_u32x8_shr_31", |i, o| unsafe { v_ssse3_u32x8_shr_31(i, o) }),
    ("v_ssse3_u8x32_eq", |i, o| unsafe { v_ssse3_u8x32_eq(i, o) }),
    ("v_ssse3_u8x32_lt", |i, o| unsafe { v_ssse3_u8x32_lt(i, o) }),
    ("v_ssse3_u8x32_max", |i, o| unsafe { v_ssse3_u8x32_max(i, o) }),
    ("v_ssse3_u8x32_min", |i, o| unsafe { v_ssse3_u8x32_min(i, o) }),
    ("v_ssse3_i8x32_lt", |i, o| unsafe { v_ssse3_i8x32_lt(i, o) }),
    ("v_ssse3_u16x16_eq", |i, o| unsafe { v_ssse3_u16x16_eq(i, o) }),
    ("v_ssse3_u16x16_lt", |i, o| unsafe { v_ssse3_u16x16_lt(i, o) }),
    ("v_ssse3_i16x16_lt", |i, o| unsafe { v_ssse3_i16x16_lt(i, o) }),
    ("v_ssse3_i16x16_max", |i, o| unsafe { v_ssse3_i16x16_max(i, o) }),
    ("v_ssse3_i16x16_min", |i, o| unsafe { v_ssse3_i16x16_min(i, o) }),
    ("v_ssse3_u32x8_eq", |i, o| unsafe { v_ssse3_u32x8_eq(i, o) }),
    ("v_ssse3_u32x8_lt", |i, o| unsafe { v_ssse3_u32x8_lt(i, o) }),
    ("v_ssse3_i32x8_lt", |i, o| unsafe { v_ssse3_i32x8_lt(i, o) }),
    ("v_ssse3_u8x16x2_swizzle", |i, o| unsafe { v_ssse3_u8x16x2_swizzle(i, o) }),
    ("v_ssse3_u16x16_bswap", |i, o| unsafe { v_ssse3_u16x16_bswap(i, o) }),
    ("v_ssse3_u32x8_bswap", |i, o| unsafe { v_ssse3_u32x8_bswap(i, o) }),
    ("v_ssse3_u64x4_bswap", |i, o| unsafe { v_ssse3_u64x4_bswap(i, o) }),
    ("v_ssse3_u8x32_any_zero", |i, o| unsafe { v_ssse3_u8x32_any_zero(i, o) }),
    ("v_ssse3_u8x32_bitmask", |i, o| unsafe { v_ssse3_u8x32_bitmask(i, o) }),
    ("v_ssse3_v256_bsl", |i, o| unsafe { v_ssse3_v256_bsl(i, o) }),
    ("v_ssse3_u8x16x2_zip_lo", |i, o| unsafe { v_ssse3_u8x16x2_zip_lo(i, o) }),
    ("v_ssse3_u8x16x2_zip_hi", |i, o| unsafe { v_ssse3_u8x16x2_zip_hi(i, o) }),
    ("v_ssse3_u16x8x2_zip_lo", |i, o| unsafe { v_ssse3_u16x8x2_zip_lo(i, o) }),
    ("v_ssse3_u16x8x2_zip_hi", |i, o| unsafe { v_ssse3_u16x8x2_zip_hi(i, o) }),
    ("v_ssse3_u32x4x2_zip_lo", |i, o| unsafe { v_ssse3_u32x4x2_zip_lo(i, o) }),
    ("v_ssse3_u32x4x2_zip_hi", |i, o| unsafe { v_ssse3_u32x4x2_zip_hi(i, o) }),
    ("v_ssse3_u64x2x2_zip_lo", |i, o| unsafe { v_ssse3_u64x2x2_zip_lo(i, o) }),
    ("v_ssse3_u64x2x2_zip_hi", |i, o| unsafe { v_ssse3_u64x2x2_zip_hi(i, o) }),
    ("v_ssse3_i16x8_packus", |i, o| unsafe { v_ssse3_i16x8_packus(i, o) }),
    ("v_ssse3_u64x4_unzip_even", |i, o| unsafe { v_ssse3_u64x4_unzip_even(i, o) }),
    ("v_ssse3_u64x4_unzip_odd", |i, o| unsafe { v_ssse3_u64x4_unzip_odd(i, o) }),
    ("v_ssse3_v128x2_zip_lo", |i, o| unsafe { v_ssse3_v128x2_zip_lo(i, o) }),
    ("v_ssse3_v128x2_zip_hi", |i, o| unsafe { v_ssse3_v128x2_zip_hi(i, o) }),
    ("v_ssse3_u16x16_from_u8x16", |i, o| unsafe { v_ssse3_u16x16_from_u8x16(i, o) }),
    ("v_ssse3_s128_and", |i, o| unsafe { v_ssse3_s128_and(i, o) }),
    ("v_ssse3_s128_or", |i, o| unsafe { v_ssse3_s128_or(i, o) }),
    ("v_ssse3_s128_xor", |i, o| unsafe { v_ssse3_s128_xor(i, o) }),
    ("v_ssse3_s128_andnot", |i, o| unsafe { v_ssse3_s128_andnot(i, o) }),
    ("v_ssse3_s128_u8xn_splat", |i, o| unsafe { v_ssse3_s128_u8xn_splat(i, o) }),
    ("v_ssse3_s128_i8xn_splat", |i, o| unsafe { v_ssse3_s128_i8xn_splat(i, o) }),
    ("v_ssse3_s128_u32xn_splat", |i, o| unsafe { v_ssse3_s128_u32xn_splat(i, o) }),
    ("v_ssse3_s128_u8xn_add", |i, o| unsafe { v_ssse3_s128_u8xn_add(i, o) }),
    ("v_ssse3_s128_u8xn_sub", |i, o| unsafe { v_ssse3_s128_u8xn_sub(i, o) }),
    ("v_ssse3_s128_u32xn_sub", |i, o| unsafe { v_ssse3_s128_u32xn_sub(i, o) }),
    ("v_ssse3_s128_u8xn_add_sat", |i, o| unsafe { v_ssse3_s128_u8xn_add_sat(i, o) }),
    ("v_ssse3_s128_i8xn_add_sat", |i, o| unsafe { v_ssse3_s128_i8xn_add_sat(i, o) }),
    ("v_ssse3_s128_u8xn_sub_sat", |i, o| unsafe { v_ssse3_s128_u8xn_sub_sat(i, o) }),
    ("v_ssse3_s128_u8xn_eq", |i, o| unsafe { v_ssse3_s128_u8xn_eq(i, o) }),
    ("v_ssse3_s128_i8xn_lt", |i, o| unsafe { v_ssse3_s128_i8xn_lt(i, o) }),
    ("v_ssse3_s128_u32xn_lt", |i, o| unsafe { v_ssse3_s128_u32xn_lt(i, o) }),
    ("v_ssse3_s128_u8xn_avgr", |i, o| unsafe { v_ssse3_s128_u8xn_avgr(i, o) }),
    ("v_ssse3_s128_u8x16xn_swizzle", |i, o| unsafe { v_ssse3_s128_u8x16xn_swizzle(i, o) }),
    ("v_ssse3_s128_u16xn_shl_0", |i, o| unsafe { v_ssse3_s128_u16xn_shl_0(i, o) }),
    ("v_ssse3_s128_u16xn_shr_0", |i, o| unsafe { v_ssse3_s128_u16xn_shr_0(i, o) }),
    ("v_ssse3_s128_u32xn_shr_0", |i, o| unsafe { v_ssse3_s128_u32xn_shr_0(i, o) }),
    ("v_ssse3_s128_u16xn_shl_1", |i, o| unsafe { v_ssse3_s128_u16xn_shl_1(i, o) }),
    ("v_ssse3_s128_u16xn_shr_1", |i, o| unsafe { v_ssse3_s128_u16xn_shr_1(i, o) }),
    ("v_ssse3_s128_u32xn_shr_1", |i, o| unsafe { v_ssse3_s128_u32xn_shr_1(i, o) }),
    ("v_ssse3_s128_u16xn_shl_2", |i, o| unsafe { v_ssse3_s128_u16xn_shl_2(i, o) }),
    ("v_ssse3_s128_u16xn_shr_2", |i, o| unsafe { v_ssse3_s128_u16xn_shr_2(i, o) }),
    ("v_ssse3_s128_u32xn_shr_2", |i, o| unsafe { v_ssse3_s128_u32xn_shr_2(i, o) }),
    ("v_ssse3_s128_u16xn_shl_3", |i, o| unsafe { v_ssse3_s128_u16xn_shl_3(i, o) }),
    ("v_ssse3_s128_u16xn_shr_3", |i, o| unsafe { v_ssse3_s128_u16xn_shr_3(i, o) }),
    ("v_ssse3_s128_u32xn_shr_3", |i, o| unsafe { v_ssse3_s128_u32xn_shr_3(i, o) }),
    ("v_ssse3_s128_u16xn_shl_4", |i, o| unsafe { v_ssse3_s128_u16xn_shl_4(i, o) }),
    ("v_ssse3_s128_u16xn_shr_4", |i, o| unsafe { v_ssse3_s128_u16xn_shr_4(i, o) }),
    ("v_ssse3_s128_u32xn_shr_4", |i, o| unsafe { v_ssse3_s128_u32xn_shr_4(i, o) }),
    ("v_ssse3_s128_u16xn_shl_5", |i, o| unsafe { v_ssse3_s128_u16xn_shl_5(i, o) }),
    ("v_ssse3_s128_u16xn_shr_5", |i, o| unsafe { v_ssse3_s128_u16xn_shr_5(i, o) }),
    ("v_ssse3_s128_u32xn_shr_5", |i, o| unsafe { v_ssse3_s128_u32xn_shr_5(i, o) }),
    ("v_ssse3_s128_u16xn_shl_6", |i, o| unsafe { v_ssse3_s128_u16xn_shl_6(i, o) }),
    ("v_ssse3_s128_u16xn_shr_6", |i, o| unsafe { v_ssse3_s128_u16xn_shr_6(i, o) }),
    ("v_ssse3_s128_u32xn_shr_6", |i, o| unsafe { v_ssse3_s128_u32xn_shr_6(i, o) }),
    ("v_ssse3_s128_u16xn_shl_7", |i, o| unsafe { v_ssse3_s128_u16xn_shl_7(i, o) }),
    ("v_ssse3_s128_u16xn_shr_7", |i, o| unsafe { v_ssse3_s128_u16xn_shr_7(i, o) }),
    ("v_ssse3_s128_u32xn_shr_7", |i, o| unsafe { v_ssse3_s128_u32xn_shr_7(i, o) }),
    ("v_ssse3_s128_u16xn_shl_8", |i, o| unsafe { v_ssse3_s128_u16xn_shl_8(i, o) }),
    ("v_ssse3_s128_u16xn_shr_8", |i, o| unsafe { v_ssse3_s128_u16xn_shr_8(i, o) }),
    ("v_ssse3_s128_u32xn_shr_8", |i, o| unsafe { v_ssse3_s128_u32xn_shr_8(i, o) }),
    ("v_ssse3_s128_u16xn_shl_9", |i, o| unsafe { v_ssse3_s128_u16xn_shl_9(i, o) }),
    ("v_ssse3_s128_u16xn_shr_9", |i, o| unsafe { v_ssse3_s128_u16xn_shr_9(i, o) }),
    ("v_ssse3_s128_u32xn_shr_9", |i, o| unsafe { v_ssse3_s128_u32xn_shr_9(i, o) }),
    ("v_ssse3_s128_u16xn_shl_10", |i, o| unsafe { v_ssse3_s128_u16xn_shl_10(i, o) }),
    ("v_ssse3_s128_u16xn_shr_10", |i, o| unsafe { v_ssse3_s128_u16xn_shr_10(i, o) }),
    ("v_ssse3_s128_u32xn_shr_10", |i, o| unsafe { v_ssse3_s128_u32xn_shr_10(i, o) }),
    ("v_ssse3_s128_u16xn_shl_11", |i, o| unsafe { v_ssse3_s128_u16xn_shl_11(i, o) }),
    ("v_ssse3_s128_u16xn_shr_11", |i, o| unsafe { v_ssse3_s128_u16xn_shr_11(i, o) }),
    ("v_ssse3_s128_u32xn_shr_11", |i, o| unsafe { v_ssse3_s128_u32xn_shr_11(i, o) }),
    ("v_ssse3_s128_u16xn_shl_12", |i, o| unsafe { v_ssse3_s128_u16xn_shl_12(i, o) }),
    ("v_ssse3_s128_u16xn_shr_12", |i, o| unsafe { v_ssse3_s128_u16xn_shr_12(i, o) }),
    ("v_ssse3_s128_u32xn_shr_12", |i, o| unsafe { v_ssse3_s128_u32xn_shr_12(i, o) }),
    ("v_ssse3_s128_u16xn_shl_13", |i, o| unsafe { v_ssse3_s128_u16xn_shl_13(i, o) }),
    ("v_ssse3_s128_u16xn_shr_13", |i, o| unsafe { v_ssse3_s128_u16xn_shr_13(i, o) }),
    ("v_ssse3_s128_u32xn_shr_13", |i, o| unsafe { v_ssse3_s128_u32xn_shr_13(i, o) }),
    ("v_ssse3_s128_u16xn_shl_14", |i, o| unsafe { v_ssse3_s128_u16xn_shl_14(i, o) }),
    ("v_ssse3_s128_u16xn_shr_14", |i, o| unsafe { v_ssse3_s128_u16xn_shr_14(i, o) }),
    ("v_ssse3_s128_u32xn_shr_14", |i, o| unsafe { v_ssse3_s128_u32xn_shr_14(i, o) }),
    ("v_ssse3_s128_u16xn_shl_15", |i, o| unsafe { v_ssse3_s128_u16xn_shl_15(i, o) }),
    ("v_ssse3_s128_u16xn_shr_15", |i, o| unsafe { v_ssse3_s128_u16xn_shr_15(i, o) }),
    ("v_ssse3_s128_u32xn_shr_15", |i, o| unsafe { v_ssse3_s128_u32xn_shr_15(i, o) }),
    ("v_ssse3_s128_u32xn_shr_16", |i, o| unsafe { v_ssse3_s128_u32xn_shr_16(i, o) }),
    ("v_ssse3_s128_u32xn_shr_17", |i, o| unsafe { v_ssse3_s128_u32xn_shr_17(i, o) }),
    ("v_ssse3_s128_u32xn_shr_18", |i, o| unsafe { v_ssse3_s128_u32xn_shr_18(i, o) }),
    ("v_ssse3_s128_u32xn_shr_19", |i, o| unsafe { v_ssse3_s128_u32xn_shr_19(i, o) }),
    ("v_ssse3_s128_u32xn_shr_20", |i, o| unsafe { v_ssse3_s128_u32xn_shr_20(i, o) }),
    ("v_ssse3_s128_u32xn_shr_21", |i, o| unsafe { v_ssse3_s128_u32xn_shr_21(i, o) }),
    ("v_ssse3_s128_u32xn_shr_22", |i, o| unsafe { v_ssse3_s128_u32xn_shr_22(i, o) }),
    ("v_ssse3_s128_u32xn_shr_23", |i, o| unsafe { v_ssse3_s128_u32xn_shr_23(i, o) }),
    ("v_ssse3_s128_u32xn_shr_24", |i, o| unsafe { v_ssse3_s128_u32xn_shr_24(i, o) }),
    ("v_ssse3_s128_u32xn_shr_25", |i, o| unsafe { v_ssse3_s128_u32xn_shr_25(i, o) }),
    ("v_ssse3_s128_u32xn_shr_26", |i, o| unsafe { v_ssse3_s128_u32xn_shr_26(i, o) }),
    ("v_ssse3_s128_u32xn_shr_27", |i, o| unsafe { v_ssse3_s128_u32xn_shr_27(i, o) }),
    ("v_ssse3_s128_u32xn_shr_28", |i, o| unsafe { v_ssse3_s128_u32xn_shr_28(i, o) }),
    ("v_ssse3_s128_u32xn_shr_29", |i, o| unsafe { v_ssse3_s128_u32xn_shr_29(i, o) }),
    ("v_ssse3_s128_u32xn_shr_30", |i, o| unsafe { v_ssse3_s128_u32xn_shr_30(i, o) }),
    ("v_ssse3_s128_u32xn_shr_31", |i, o| unsafe { v_ssse3_s128_u32xn_shr_31(i, o) }),
    ("v_ssse3_s128_u16xn_bswap", |i, o| unsafe { v_ssse3_s128_u16xn_bswap(i, o) }),
    ("v_ssse3_s128_u32xn_bswap", |i, o| unsafe { v_ssse3_s128_u32xn_bswap(i, o) }),
    ("v_ssse3_s128_u64xn_bswap", |i, o| unsafe { v_ssse3_s128_u64xn_bswap(i, o) }),
    ("v_ssse3_s128_mask8xn_all", |i, o| unsafe { v_ssse3_s128_mask8xn_all(i, o) }),
    ("v_ssse3_s128_mask8xn_any", |i, o| unsafe { v_ssse3_s128_mask8xn_any(i, o) }),
    ("v_ssse3_s128_u8xn_highbit_all", |i, o| unsafe { v_ssse3_s128_u8xn_highbit_all(i, o) }),
    ("v_ssse3_s128_u8xn_highbit_any", |i, o| unsafe { v_ssse3_s128_u8xn_highbit_any(i, o) }),
    ("v_ssse3_f_mask8x16_all", |i, o| unsafe { v_ssse3_f_mask8x16_all(i, o) }),
    ("v_ssse3_f_mask8x16_any", |i, o| unsafe { v_ssse3_f_mask8x16_any(i, o) }),
    ("v_ssse3_f_u8x16_highbit_all", |i, o| unsafe { v_ssse3_f_u8x16_highbit_all(i, o) }),
    ("v_ssse3_f_u8x16_highbit_any", |i, o| unsafe { v_ssse3_f_u8x16_highbit_any(i, o) }),
    ("v_ssse3_s128_lookup", |i, o| unsafe { v_ssse3_s128_lookup(i, o) }),
    ("v_ssse3_s128_to_ascii_lowercase", |i, o| unsafe { v_ssse3_s128_to_ascii_lowercase(i, o) }),
    ("v_ssse3_s128_to_ascii_uppercase", |i, o| unsafe { v_ssse3_s128_to_ascii_uppercase(i, o) }),
    ("v_ssse3_s128_hex_check", |i, o| unsafe { v_ssse3_s128_hex_check(i, o) }),
    ("v_ssse3_s128_alsw_check", |i, o| unsafe { v_ssse3_s128_alsw_check(i, o) }),
    ("v_ssse3_s128_alsw_decode", |i, o| unsafe { v_ssse3_s128_alsw_decode(i, o) }),
    ("v_ssse3_s256_and", |i, o| unsafe { v_ssse3_s256_and(i, o) }),
    ("v_ssse3_s256_or", |i, o| unsafe { v_ssse3_s256_or(i, o) }),
    ("v_ssse3_s256_xor", |i, o| unsafe { v_ssse3_s256_xor(i, o) }),
    ("v_ssse3_s256_andnot", |i, o| unsafe { v_ssse3_s256_andnot(i, o) }),
    ("v_ssse3_s256_u8xn_splat", |i, o| unsafe { v_ssse3_s256_u8xn_splat(i, o) }),
    ("v_ssse3_s256_i8xn_splat", |i, o| unsafe { v_ssse3_s256_i8xn_splat(i, o) }),
    ("v_ssse3_s256_u32xn_splat", |i, o| unsafe { v_ssse3_s256_u32xn_splat(i, o) }),
    ("v_ssse3_s256_u8xn_add", |i, o| unsafe { v_ssse3_s256_u8xn_add(i, o) }),
    ("v_ssse3_s256_u8xn_sub", |i, o| unsafe { v_ssse3_s256_u8xn_sub(i, o) }),
    ("v_ssse3_s256_u32xn_sub", |i, o| unsafe { v_ssse3_s256_u32xn_sub(i, o) }),
    ("v_ssse3_s256_u8xn_add_sat", |i, o| unsafe { v_ssse3_s256_u8xn_add_sat(i, o) }),
    ("v_ssse3_s256_i8xn_add_sat", |i, o| unsafe { v_ssse3_s256_i8xn_add_sat(i, o) }),
    ("v_ssse3_s256_u8xn_sub_sat", |i, o| unsafe { v_ssse3_s256_u8xn_sub_sat(i, o) }),
    ("v_ssse3_s256_u8xn_eq", |i, o| unsafe { v_ssse3_s256_u8xn_eq(i, o) }),
    ("v_ssse3_s256_i8xn_lt", |i, o| unsafe { v_ssse3_s256_i8xn_lt(i, o) }),
    ("v_ssse3_s256_u32xn_lt", |i, o| unsafe { v_ssse3_s256_u32xn_lt(i, o) }),
    ("v_ssse3_s256_u8xn_avgr", |i, o| unsafe { v_ssse3_s256_u8xn_avgr(i, o) }),
    ("v_ssse3_s256_u8x16xn_swizzle", |i, o| unsafe { v_ssse3_s256_u8x16xn_swizzle(i, o) }),
    ("v_ssse3_s256_u16xn_shl_0", |i, o| unsafe { v_ssse3_s256_u16xn_shl_0(i, o) }),
    ("v_ssse3_s256_u16xn_shr_0", |i, o| unsafe { v_ssse3_s256_u16xn_shr_0(i, o) }),
    ("v_ssse3_s256_u32xn_shr_0", |i, o| unsafe { v_ssse3_s256_u32xn_shr_0(i, o) }),
    ("v_ssse3_s256_u16xn_shl_1", |i, o| unsafe { v_ssse3_s256_u16xn_shl_1(i, o) }),
    ("v_ssse3_s256_u16xn_shr_1", |i, o| unsafe { v_ssse3_s256_u16xn_shr_1(i, o) }),
    ("v_ssse3_s256_u32xn_shr_1", |i, o| unsafe { v_ssse3_s256_u32xn_shr_1(i, o) }),
    ("v_ssse3_s256_u16xn_shl_2", |i, o| unsafe { v_ssse3_s256_u16xn_shl_2(i, o) }),
    ("v_ssse3_s256_u16xn_shr_2", |i, o| unsafe { v_ssse3_s256_u16xn_shr_2(i, o) }),
    ("v_ssse3_s256_u32xn_shr_2", |i, o| unsafe { v_ssse3_s256_u32xn_shr_2(i, o) }),
    ("v_ssse3_s256_u16xn_shl_3", |i, o| unsafe { v_ssse3_s256_u16xn_shl_3(i, o) }),
    ("v_ssse3_s256_u16xn_shr_3", |i, o| unsafe { v_ssse3_s256_u16xn_shr_3(i, o) }),
    ("v_ssse3_s256_u32xn_shr_3", |i, o| unsafe { v_ssse3_s256_u32xn_shr_3(i, o) }),
    ("v_ssse3_s256_u16xn_shl_4", |i, o| unsafe { v_ssse3_s256_u16xn_shl_4(i, o) }),
    ("v_ssse3_s256_u16xn_shr_4", |i, o| unsafe { v_ssse3_s256_u16xn_shr_4(i, o) }),
    ("v_ssse3_s256_u32xn_shr_4", |i, o| unsafe { v_ssse3_s256_u32xn_shr_4(i, o) }),
    ("v_ssse3_s256_u16xn_shl_5", |i, o| unsafe { v_ssse3_s256_u16xn_shl_5(i, o) }),
    ("v_ssse3_s256_u16xn_shr_5", |i, o| unsafe { v_ssse3_s256_u16xn_shr_5(i, o) }),
    ("v_ssse3_s256_u32xn_shr_5", |i, o| unsafe { v_ssse3_s256_u32xn_shr_5(i, o) }),
    ("v_ssse3_s256_u16xn_shl_6", |i, o| unsafe { v_ssse3_s256_u16xn_shl_6(i, o) }),
    ("v_ssse3_s256_u16xn_shr_6", |i, o| unsafe { v_ssse3_s256_u16xn_shr_6(i, o) }),
    ("v_ssse3_s256_u32xn_shr_6", |i, o| unsafe { v_ssse3_s256_u32xn_shr_6(i, o) }),
    ("v_ssse3_s256_u16xn_shl_7", |i, o| unsafe { v_ssse3_s256_u16xn_shl_7(i, o) }),
    ("v_ssse3_s256_u16xn_shr_7", |i, o| unsafe { v_ssse3_s256_u16xn_shr_7(i, o) }),
    ("v_ssse3_s256_u32xn_shr_7", |i, o| unsafe { v_ssse3_s256_u32xn_shr_7(i, o) }),
    ("v_ssse3_s256_u16xn_shl_8", |i, o| unsafe { v_ssse3_s256_u16xn_shl_8(i, o) }),
    ("v_ssse3_s256_u16xn_shr_8", |i, o| unsafe { v_ssse3_s256_u16xn_shr_8(i, o) }),
    ("v_ssse3_s256_u32xn_shr_8", |i, o| unsafe { v_ssse3_s256_u32xn_shr_8(i, o) }),
    ("v_ssse3_s256_u16xn_shl_9", |i, o| unsafe { v_ssse3_s256_u16xn_shl_9(i, o) }),
    ("v_ssse3_s256_u16xn_shr_9", |i, o| unsafe { v_ssse3_s256_u16xn_shr_9(i, o) }),
    ("v_ssse3_s256_u32xn_shr_9", |i, o| unsafe { v_ssse3_s256_u32xn_shr_9(i, o) }),
    ("v_ssse3_s256_u16xn_shl_10", |i, o| unsafe { v_ssse3_s256_u16xn_shl_10(i, o) }),
    ("v_ssse3_s256_u16xn_shr_10", |i, o| unsafe { v_ssse3_s256_u16xn_shr_10(i, o) }),
    ("v_ssse3_s256_u32xn_shr_10", |i, o| unsafe { v_ssse3_s256_u32xn_shr_10(i, o) }),
    ("v_ssse3_s256_u16xn_shl_11", |i, o| unsafe { v_ssse3_s256_u16xn_shl_11(i, o) }),
    ("v_ssse3_s256_u16xn_shr_11", |i, o| unsafe { v_ssse3_s256_u16xn_shr_11(i, o) }),
    ("v_ssse3_s256_u32xn_shr_11", |i, o| unsafe { v_ssse3_s256_u32xn_shr_11(i, o) }),
    ("v_ssse3_s256_u16xn_shl_12", |i, o| unsafe { v_ssse3_s256_u16xn_shl_12(i, o) }),
    ("v_ssse3_s256_u16xn_shr_12", |i, o| unsafe { v_ssse3_s256_u16xn_shr_12(i, o) }),
    ("v_ssse3_s256_u32xn_shr_12", |i, o| unsafe { v_ssse3_s256_u32xn_shr_12(i, o) }),
    ("v_ssse3_s256_u16xn_shl_13", |i, o| unsafe { v_ssse3_s256_u16xn_shl_13(i, o) }),
    ("v_ssse3_s256_u16xn_shr_13", |i, o| unsafe { v_ssse3_s256_u16xn_shr_13(i, o) }),
    ("v_ssse3_s256_u32xn_shr_13", |i, o| unsafe { v_ssse3_s256_u32xn_shr_13(i, o) }),
    ("v_ssse3_s256_u16xn_shl_14", |i, o| unsafe { v_ssse3_s256_u16xn_shl_14(i, o) }),
    ("v_ssse3_s256_u16xn_shr_14", |i, o| unsafe { v_ssse3_s256_u16xn_shr_14(i, o) }),
    ("v_ssse3_s256_u32xn_shr_14", |i, o| unsafe { v_ssse3_s256_u32xn_shr_14(i, o) }),
    ("v_ssse3_s256_u16xn_shl_15", |i, o| unsafe { v_ssse3_s256_u16xn_shl_15(i, o) }),
    ("v_ssse3_s256_u16xn_shr_15", |i, o| unsafe { v_ssse3_s256_u16xn_shr_15(i, o) }),
    ("v_ssse3_s256_u32xn_shr_15", |i, o| unsafe { v_ssse3_s256_u32xn_shr_15(i, o) }),
    ("v_ssse3_s256_u32xn_shr_16", |i, o| unsafe { v_ssse3_s256_u32xn_shr_16(i, o) }),
    ("v_ssse3_s256_u32xn_shr_17", |i, o| unsafe { v_ssse3_s256_u32xn_shr_17(i, o) }),
    ("v_ssse3_s256_u32xn_shr_18", |i, o| unsafe { v_ssse3_s256_u32xn_shr_18(i, o) }),
    ("v_ssse3_s256_u32xn_shr_19", |i, o| unsafe { v_ssse3_s256_u32xn_shr_19(i, o) }),
    ("v_ssse3_s256_u32xn_shr_20", |i, o| unsafe { v_ssse3_s256_u32xn_shr_20(i, o) }),
    ("v_ssse3_s256_u32xn_shr_21", |i, o| unsafe { v_ssse3_s256_u32xn_shr_21(i, o) }),
    ("v_ssse3_s256_u32xn_shr_22", |i, o| unsafe { v_ssse3_s256_u32xn_shr_22(i, o) }),
    ("v_ssse3_s256_u32xn_shr_23", |i, o| unsafe { v_ssse3_s256_u32xn_shr_23(i, o) }),
    ("v_ssse3_s256_u32xn_shr_24", |i, o| unsafe { v_ssse3_s256_u32xn_shr_24(i, o) }),
    ("v_ssse3_s256_u32xn_shr_25", |i, o| unsafe { v_ssse3_s256_u32xn_shr_25(i, o) }),
    ("v_ssse3_s256_u32xn_shr_26", |i, o| unsafe { v_ssse3_s256_u32xn_shr_26(i, o) }),
    ("v_ssse3_s256_u32xn_shr_27", |i, o| unsafe { v_ssse3_s256_u32xn_shr_27(i, o) }),
    ("v_ssse3_s256_u32xn_shr_28", |i, o| unsafe { v_ssse3_s256_u32xn_shr_28(i, o) }),
    ("v_ssse3_s256_u32xn_shr_29", |i, o| unsafe { v_ssse3_s256_u32xn_shr_29(i, o) }),
    ("v_ssse3_s256_u32xn_shr_30", |i, o| unsafe { v_ssse3_s256_u32xn_shr_30(i, o) }),
    ("v_ssse3_s256_u32xn_shr_31", |i, o| unsafe { v_ssse3_s256_u32xn_shr_31(i, o) }),
    ("v_ssse3_s256_u16xn_bswap", |i, o| unsafe { v_ssse3_s256_u16xn_bswap(i, o) }),
    ("v_ssse3_s256_u32xn_bswap", |i, o| unsafe { v_ssse3_s256_u32xn_bswap(i, o) }),
    ("v_ssse3_s256_u64xn_bswap", |i, o| unsafe { v_ssse3_s256_u64xn_bswap(i, o) }),
    ("v_ssse3_s256_mask8xn_all", |i, o| unsafe { v_ssse3_s256_mask8xn_all(i, o) }),
    ("v_ssse3_s256_mask8xn_any", |i, o| unsafe { v_ssse3_s256_mask8xn_any(i, o) }),
    ("v_ssse3_s256_u8xn_highbit_all", |i, o| unsafe { v_ssse3_s256_u8xn_highbit_all(i, o) }),
    ("v_ssse3_s256_u8xn_highbit_any", |i, o| unsafe { v_ssse3_s256_u8xn_highbit_any(i, o) }),
    ("v_ssse3_f_mask8x32_all", |i, o| unsafe { v_ssse3_f_mask8x32_all(i, o) }),
    ("v_ssse3_f_mask8x32_any", |i, o| unsafe { v_ssse3_f_mask8x32_any(i, o) }),
    ("v_ssse3_f_u8x32_highbit_all", |i, o| unsafe { v_ssse3_f_u8x32_highbit_all(i, o) }),
    ("v_ssse3_f_u8x32_highbit_any", |i, o| unsafe { v_ssse3_f_u8x32_highbit_any(i, o) }),
    ("v_ssse3_s256_lookup", |i, o| unsafe { v_ssse3_s256_lookup(i, o) }),
    ("v_ssse3_s256_to_ascii_lowercase", |i, o| unsafe { v_ssse3_s256_to_ascii_lowercase(i, o) }),
    ("v_ssse3_s256_to_ascii_uppercase", |i, o| unsafe { v_ssse3_s256_to_ascii_uppercase(i, o) }),
    ("v_ssse3_s256_hex_check", |i, o| unsafe { v_ssse3_s256_hex_check(i, o) }),
    ("v_ssse3_s256_alsw_check", |i, o| unsafe { v_ssse3_s256_alsw_check(i, o) }),
    ("v_ssse3_s256_alsw_decode", |i, o| unsafe { v_ssse3_s256_alsw_decode(i, o) }),
    ("v_ssse3_hex_encode16_lower", |i, o| unsafe { v_ssse3_hex_encode16_lower(i, o) }),
    ("v_ssse3_hex_encode32_lower", |i, o| unsafe { v_ssse3_hex_encode32_lower(i, o) }),
    ("v_ssse3_hex_encode16_upper", |i, o| unsafe { v_ssse3_hex_encode16_upper(i, o) }),
    ("v_ssse3_hex_encode32_upper", |i, o| unsafe { v_ssse3_hex_encode32_upper(i, o) }),
    ("v_ssse3_hex_decode16", |i, o| unsafe { v_ssse3_hex_decode16(i, o) }),
    ("v_ssse3_hex_decode32", |i, o| unsafe { v_ssse3_hex_decode32(i, o) }),
    ("v_ssse3_hex_decode32x2", |i, o| unsafe { v_ssse3_hex_decode32x2(i, o) }),
    ("v_sse41_v128_load", |i, o| unsafe { v_sse41_v128_load(i, o) }),
    ("v_sse41_v128_load_unaligned", |i, o| unsafe { v_sse41_v128_load_unaligned(i, o) }),
    ("v_sse41_v128_store", |i, o| unsafe { v_sse41_v128_store(i, o) }),
    ("v_sse41_v128_store_unaligned", |i, o| unsafe { v_sse41_v128_store_unaligned(i, o) }),
    ("v_sse41_v128_create_zero", |i, o| unsafe { v_sse41_v128_create_zero(i, o) }),
    ("v_sse41_v128_not", |i, o| unsafe { v_sse41_v128_not(i, o) }),
    ("v_sse41_v128_and", |i, o| unsafe { v_sse41_v128_and(i, o) }),
    ("v_sse41_v128_or", |i, o| unsafe { v_sse41_v128_or(i, o) }),
    ("v_sse41_v128_xor", |i, o| unsafe { v_sse41_v128_xor(i, o) }),
    ("v_sse41_v128_andnot", |i, o| unsafe { v_sse41_v128_andnot(i, o) }),
    ("v_sse41_v128_all_zero", |i, o| unsafe { v_sse41_v128_all_zero(i, o) }),
    ("v_sse41_u8x16_splat", |i, o| unsafe { v_sse41_u8x16_splat(i, o) }),
    ("v_sse41_u16x8_splat", |i, o| unsafe { v_sse41_u16x8_splat(i, o) }),
    ("v_sse41_u32x4_splat", |i, o| unsafe { v_sse41_u32x4_splat(i, o) }),
    ("v_sse41_u64x2_splat", |i, o| unsafe { v_sse41_u64x2_splat(i, o) }),
    ("v_sse41_i8x16_splat", |i, o| unsafe { v_sse41_i8x16_splat(i, o) }),
    ("v_sse41_i16x8_splat", |i, o| unsafe { v_sse41_i16x8_splat(i, o) }),
    ("v_sse41_i32x4_splat", |i, o| unsafe { v_sse41_i32x4_splat(i, o) }),
    ("v_sse41_i64x2_splat", |i, o| unsafe { v_sse41_i64x2_splat(i, o) }),
    ("v_sse41_u8x16_add", |i, o| unsafe { v_sse41_u8x16_add(i, o) }),
    ("v_sse41_u8x16_sub", |i, o| unsafe { v_sse41_u8x16_sub(i, o) }),
    ("v_sse41_u16x8_add", |i, o| unsafe { v_sse41_u16x8_add(i, o) }),
    ("v_sse41_u16x8_sub", |i, o| unsafe { v_sse41_u16x8_sub(i, o) }),
    ("v_sse41_u32x4_add", |i, o| unsafe { v_sse41_u32x4_add(i, o) }),
    ("v_sse41_u32x4_sub", |i, o| unsafe { v_sse41_u32x4_sub(i, o) }),
    ("v_sse41_u64x2_add", |i, o| unsafe { v_sse41_u64x2_add(i, o) }),
    ("v_sse41_u64x2_sub", |i, o| unsafe { v_sse41_u64x2_sub(i, o) }),
    ("v_sse41_u8x16_sub_sat", |i, o| unsafe { v_sse41_u8x16_sub_sat(i, o) }),
    ("v_sse41_i8x16_sub_sat", |i, o| unsafe { v_sse41_i8x16_sub_sat(i, o) }),
    ("v_sse41_u16x8_sub_sat", |i, o| unsafe { v_sse41_u16x8_sub_sat(i, o) }),
    ("v_sse41_i16x8_sub_sat", |i, o| unsafe { v_sse41_i16x8_sub_sat(i, o) }),
    ("v_sse41_u8x16_add_sat", |i, o| unsafe { v_sse41_u8x16_add_sat(i, o) }),
    ("v_sse41_i8x16_add_sat", |i, o| unsafe { v_sse41_i8x16_add_sat(i, o) }),
    ("v_sse41_i16x8_mul_lo", |i, o| unsafe { v_sse41_i16x8_mul_lo(i, o) }),
    ("v_sse41_i32x4_mul_lo", |i, o| unsafe { v_sse41_i32x4_mul_lo(i, o) }),
    ("v_sse41_u16x8_mul_hi", |i, o| unsafe { v_sse41_u16x8_mul_hi(i, o) }),
    ("v_sse41_i16x8_mul_hi", |i, o| unsafe { v_sse41_i16x8_mul_hi(i, o) }),
    ("v_sse41_i16x8_maddubs", |i, o| unsafe { v_sse41_i16x8_maddubs(i, o) }),
    ("v_sse41_i16x8_madd", |i, o| unsafe { v_sse41_i16x8_madd(i, o) }),
    ("v_sse41_u8x16_avgr", |i, o| unsafe { v_sse41_u8x16_avgr(i, o) }),
    ("v_sse41_u16x8_shl_0", |i, o| unsafe { v_sse41_u16x8_shl_0(i, o) }),
    ("v_sse41_u16x8_shr_0", |i, o| unsafe { v_sse41_u16x8_shr_0(i, o) }),
    ("v_sse41_u16x8_shl_1", |i, o| unsafe { v_sse41_u16x8_shl_1(i, o) }),
    ("v_sse41_u16x8_shr_1", |i, o| unsafe { v_sse41_u16x8_shr_1(i, o) }),
    ("v_sse41_u16x8_shl_2", |i, o| unsafe { v_sse41_u16x8_shl_2(i, o) }),
    ("v_sse41_u16x8_shr_2", |i, o| unsafe { v_sse41_u16x8_shr_2(i, o) }),
    ("v_sse41_u16x8_shl_3", |i, o| unsafe { v_sse41_u16x8_shl_3(i, o) }),
    ("v_sse41_u16x8_shr_3", |i, o| unsafe { v_sse41_u16x8_shr_3(i, o) }),
    ("v_sse41_u16x8_shl_4", |i, o| unsafe { v_sse41_u16x8_shl_4(i, o) }),
    ("v_sse41_u16x8_shr_4", |i, o| unsafe { v_sse41_u16x8_shr_4(i, o) }),
    ("v_sse41_u16x8_shl_5", |i, o| unsafe { v_sse41_u16x8_shl_5(i, o) }),
    ("v_sse41_u16x8_shr_5", |i, o| unsafe { v_sse41_u16x8_shr_5(i, o) }),
    ("v_sse41_u16x8_shl_6", |i, o| unsafe { v_sse41_u16x8_shl_6(i, o) }),
    ("v_sse41_u16x8_shr_6", |i, o| unsafe { v_sse41_u16x8_shr_6(i, o) }),
    ("v_sse41_u16x8_shl_7", |i, o| unsafe { v_sse41_u16x8_shl_7(i, o) }),
    ("v_sse41_u16x8_shr_7", |i, o| unsafe { v_sse41_u16x8_shr_7(i, o) }),
    ("v_sse41_u16x8_shl_8", |i, o| unsafe { v_sse41_u16x8_shl_8(i, o) }),
    ("v_sse41_u16x8_shr_8", |i, o| unsafe { v_sse41_u16x8_shr_8(i, o) }),
    ("v_sse41_u16x8_shl_9", |i, o| unsafe { v_sse41_u16x8_shl_9(i, o) }),
    ("v_sse41_u16x8_shr_9", |i, o| unsafe { v_sse41_u16x8_shr_9(i, o) }),
    ("v_sse41_u16x8_shl_10", |i, o| unsafe { v_sse41_u16x8_shl_10(i, o) }),
    ("v_sse41_u16x8_shr_10", |i, o| unsafe { v_sse41_u16x8_shr_10(i, o) }),
    ("v_sse41_u16x8_shl_11", |i, o| unsafe { v_sse41_u16x8_shl_11(i, o) }),
    ("v_sse41_u16x8_shr_11", |i, o| unsafe { v_sse41_u16x8_shr_11(i, o) }),
    ("v_sse41_u16x8_shl_12", |i, o| unsafe { v_sse41_u16x8_shl_12(i, o) }),
    ("v_sse41_u16x8_shr_12", |i, o| unsafe { v_sse41_u16x8_shr_12(i, o) }),
    ("v_sse41_u16x8_shl_13", |i, o| unsafe { v_sse41_u16x8_shl_13(i, o) }),
    ("v_sse41_u16x8_shr_13", |i, o| unsafe { v_sse41_u16x8_shr_13(i, o) }),
    ("v_sse41_u16x8_shl_14", |i, o| unsafe { v_sse41_u16x8_shl_14(i, o) }),
    ("v_sse41_u16x8_shr_14", |i, o| unsafe { v_sse41_u16x8_shr_14(i, o) }),
    ("v_sse41_u16x8_shl_15", |i, o| unsafe { v_sse41_u16x8_shl_15(i, o) }),
    ("v_sse41_u16x8_shr_15", |i, o| unsafe { v_sse41_u16x8_shr_15(i, o) }),
    ("v_sse41_u32x4_shl_0", |i, o| unsafe { v_sse41_u32x4_shl_0(i, o) }),
    ("v_sse41_u32x4_shr_0", |i, o| unsafe { v_sse41_u32x4_shr_0(i, o) }),
    ("v_sse41_u32x4_shl_1", |i, o| unsafe { v_sse41_u32x4_shl_1(i, o) }),
    ("v_sse41_u32x4_shr_1", |i, o| unsafe { v_sse41_u32x4_shr_1(i, o) }),
    ("v_sse41_u32x4_shl_2", |i, o| unsafe { v_sse41_u32x4_shl_2(i, o) }),
    ("v_sse41_u32x4_shr_2", |i, o| unsafe { v_sse41_u32x4_shr_2(i, o) }),
    ("v_sse41_u32x4_shl_3", |i, o| unsafe { v_sse41_u32x4_shl_3(i, o) }),
    ("v_sse41_u32x4_shr_3", |i, o| unsafe { v_sse41_u32x4_shr_3(i, o) }),
    ("v_sse41_u32x4_shl_4", |i, o| unsafe { v_sse41_u32x4_shl_4(i, o) }),
    ("v_sse41_u32x4_shr_4", |i, o| unsafe { v_sse41_u32x4_shr_4(i, o) }),
    ("v_sse41_u32x4_shl_5", |i, o| unsafe { v_sse41_u32x4_shl_5(i, o) }),
    ("v_sse41_u32x4_shr_5", |i, o| unsafe { v_sse41_u32x4_shr_5(i, o) }),
    ("v_sse41_u32x4_shl_6", |i, o| unsafe { v_sse41_u32x4_shl_6(i, o) }),
    ("v_sse41_u32x4_shr_6", |i, o| unsafe { v_sse41_u32x4_shr_6(i, o) }),
    ("v_sse41_u32x4_shl_7", |i, o| unsafe { v_sse41_u32x4_shl_7(i, o) }),
    ("v_sse41_u32x4_shr_7", |i, o| unsafe { v_sse41_u32x4_shr_7(i, o) }),
    ("v_sse41_u32x4_shl_8", |i, o| unsafe { v_sse41_u32x4_shl_8(i, o) }),
    ("v_sse41_u32x4_shr_8", |i, o| unsafe { v_sse41_u32x4_shr_8(i, o) }),
    ("v_sse41_u32x4_shl_9", |i, o| unsafe { v_sse41_u32x4_shl_9(i, o) }),
    ("v_sse41_u32x4_shr_9", |i, o| unsafe { v_sse41_u32x4_shr_9(i, o) }),
    ("v_sse41_u32x4_shl_10", |i, o| unsafe { v_sse41_u32x4_shl_10(i, o) }),
    ("v_sse41_u32x4_shr_10", |i, o| unsafe { v_sse41_u32x4_shr_10(i, o) }),
    ("v_sse41_u32x4_shl_11", |i, o| unsafe { v_sse41_u32x4_shl_11(i, o) }),
    ("v_sse41_u32x4_shr_11", |i, o| unsafe { v_sse41_u32x4_shr_11(i, o) }),
    ("v_sse41_u32x4_shl_12", |i, o| unsafe { v_sse41_u32x4_shl_12(i, o) }),
    ("v_sse41_u32x4_shr_12", |i, o| unsafe { v_sse41_u32x4_shr_12(i, o) }),
    ("v_sse41_u32x4_shl_13", |i, o| unsafe { v_sse41_u32x4_shl_13(i, o) }),
    ("v_sse41_u32x4_shr_13", |i, o| unsafe { v_sse41_u32x4_shr_13(i, o) }),
    ("v_sse41_u32x4_shl_14", |i, o| unsafe { v_sse41_u32x4_shl_14(i, o) }),
    ("v_sse41_u32x4_shr_14", |i, o| unsafe { v_sse41_u32x4_shr_14(i, o) }),
    ("v_sse41_u32x4_shl_15", |i, o| unsafe { v_sse41_u32x4_shl_15(i, o) }),
    ("v_sse41_u32x4_shr_15", |i, o| unsafe { v_sse41_u32x4_shr_15(i, o) }),
    ("v_sse41_u32x4_shl_16", |i, o| unsafe { v_sse41_u32x4_shl_16(i, o) }),
    ("v_sse41_u32x4_shr_16", |i, o| unsafe { v_sse41_u32x4_shr_16(i, o) }),
    ("v_sse41_u32x4_shl_17", |i, o| unsafe { v_sse41_u32x4_shl_17(i, o) }),
    ("v_sse41_u32x4_shr_17", |i, o| unsafe { v_sse41_u32x4_shr_17(i, o) }),
    ("v_sse41_u32x4_shl_18", |i, o| unsafe { v_sse41_u32x4_shl_18(i, o) }),
    ("v_sse41_u32x4_shr_18", |i, o| unsafe { v_sse41_u32x4_shr_18(i, o) }),
    ("v_sse41_u32x4_shl_19", |i, o| unsafe { v_sse41_u32x4_shl_19(i, o) }),
    ("v_sse41_u32x4_shr_19", |i, o| unsafe { v_sse41_u32x4_shr_19(i, o) }),
    ("v_sse41_u32x4_shl_20", |i, o| unsafe { v_sse41_u32x4_shl_20(i, o) }),
    ("v_sse41_u32x4_shr_20", |i, o| unsafe { v_sse41_u32x4_shr_20(i, o) }),
    ("v_sse41_u32x4_shl_21", |i, o| unsafe { v_sse41_u32x4_shl_21(i, o) }),
    ("v_sse41_u32x4_shr_21", |i, o| unsafe { v_sse41_u32x4_shr_21(i, o) }),
    ("v_sse41_u32x4_shl_22", |i, o| unsafe { v_sse41_u32x4_shl_22(i, o) }),
    ("v_sse41_u32x4_shr_22", |i, o| unsafe { v_sse41_u32x4_shr_22(i, o) }),
    ("v_sse41_u32x4_shl_23", |i, o| unsafe { v_sse41_u32x4_shl_23(i, o) }),
    ("v_sse41_u32x4_shr_23", |i, o| unsafe { v_sse41_u32x4_shr_23(i, o) }),
    ("v_sse41_u32x4_shl_24", |i, o| unsafe { v_sse41_u32x4_shl_24(i, o) }),
    ("v_sse41_u32x4_shr_24", |i, o| unsafe { v_sse41_u32x4_shr_24(i, o) }),
    ("v_sse41_u32x4_shl_25", |i, o| unsafe { v_sse41_u32x4_shl_25(i, o) }),
    ("v_sse41_u32x4_shr_25", |i, o| unsafe { v_sse41_u32x4_shr_25(i, o) }),
    ("v_sse41_u32x4_shl_26", |i, o| unsafe { v_sse41_u32x4_shl_26(i, o) }),
    ("v_sse41_u32x4_shr_26", |i, o| unsafe { v_sse41_u32x4_shr_26(i, o) }),
    ("v_sse41_u32x4_shl_27", |i, o| unsafe { v_sse41_u32x4_shl_27(i, o) }),
    ("v_sse41_u32x4_shr_27", |i, o| unsafe { v_sse41_u32x4_shr_27(i, o) }),
    ("v_sse41_u32x4_shl_28", |i, o| unsafe { v_sse41_u32x4_shl_28(i, o) }),
    ("v_sse41_u32x4_shr_28", |i, o| unsafe { v_sse41_u32x4_shr_28(i, o) }),
    ("v_sse41_u32x4_shl_29", |i, o| unsafe { v_sse41_u32x4_shl_29(i, o) }),
    ("v_sse41_u32x4_shr_29", |i, o| unsafe { v_sse41_u32x4_shr_29(i, o) }),
    ("v_sse41_u32x4_shl_30", |i, o| unsafe { v_sse41_u32x4_shl_30(i, o) }),
    ("v_sse41_u32x4_shr_30", |i, o| unsafe { v_sse41_u32x4_shr_30(i, o) }),
    ("v_sse41_u32x4_shl_31", |i, o| unsafe { v_sse41_u32x4_shl_31(i, o) }),
    ("v_sse41_u32x4_shr_31", |i, o| unsafe { v_sse41_u32x4_shr_31(i, o) }),
    ("v_sse41_u8x16_eq", |i, o| unsafe { v_sse41_u8x16_eq(i, o) }),
    ("v_sse41_u8x16_lt", |i, o| unsafe { v_sse41_u8x16_lt(i, o) }),
    ("v_sse41_u8x16_max", |i, o| unsafe { v_sse41_u8x16_max(i, o) }),
    ("v_sse41_u8x16_min", |i, o| unsafe { v_sse41_u8x16_min(i, o) }),
    ("v_sse41_i8x16_lt", |i, o| unsafe { v_sse41_i8x16_lt(i, o) }),
    ("v_sse41_i8x16_max", |i, o| unsafe { v_sse41_i8x16_max(i, o) }),
    ("v_sse41_i8x16_min", |i, o| unsafe { v_sse41_i8x16_min(i, o) }),
    ("v_sse41_u16x8_eq", |i, o| unsafe { v_sse41_u16x8_eq(i, o) }),
    ("v_sse41_u16x8_lt", |i, o| unsafe { v_sse41_u16x8_lt(i, o) }),
    ("v_sse41_u16x8_max", |i, o| unsafe { v_sse41_u16x8_max(i, o) }),
    ("v_sse41_u16x8_min", |i, o| unsafe { v_sse41_u16x8_min(i, o) }),
    ("v_sse41_i16x8_lt", |i, o| unsafe { v_sse41_i16x8_lt(i, o) }),
    ("v_sse41_i16x8_max", |i, o| unsafe { v_sse41_i16x8_max(i, o) }),
    ("v_sse41_i16x8_min", |i, o| unsafe { v_sse41_i16x8_min(i, o) }),
    ("v_sse41_u32x4_eq", |i, o| unsafe { v_sse41_u32x4_eq(i, o) }),
    ("v_sse41_u32x4_lt", |i, o| unsafe { v_sse41_u32x4_lt(i, o) }),
    ("v_sse41_u32x4_max", |i, o| unsafe { v_sse41_u32x4_max(i, o) }),
    ("v_sse41_u32x4_min", |i, o| unsafe { v_sse41_u32x4_min(i, o) }),
    ("v_sse41_i32x4_lt", |i, o| unsafe { v_sse41_i32x4_lt(i, o) }),
    ("v_sse41_i32x4_max", |i, o| unsafe { v_sse41_i32x4_max(i, o) }),
    ("v_sse41_i32x4_min", |i, o| unsafe { v_sse41_i32x4_min(i, o) }),
    ("v_sse41_u8x16_swizzle", |i, o| unsafe { v_sse41_u8x16_swizzle(i, o) }),
    ("v_sse41_u16x8_bswap", |i, o| unsafe { v_sse41_u16x8_bswap(i, o) }),
    ("v_sse41_u32x4_bswap", |i, o| unsafe { v_sse41_u32x4_bswap(i, o) }),
    ("v_sse41_u64x2_bswap", |i, o| unsafe { v_sse41_u64x2_bswap(i, o) }),
    ("v_sse41_u8x16_any_zero", |i, o| unsafe { v_sse41_u8x16_any_zero(i, o) }),
    ("v_sse41_u8x16_bitmask", |i, o| unsafe { v_sse41_u8x16_bitmask(i, o) }),
    ("v_sse41_v128_bsl", |i, o| unsafe { v_sse41_v128_bsl(i, o) }),
    ("v_sse41_u8x16_blendv", |i, o| unsafe { v_sse41_u8x16_blendv(i, o) }),
    ("v_sse41_u8x16_zip_lo", |i, o| unsafe { v_sse41_u8x16_zip_lo(i, o) }),
    ("v_sse41_u8x16_zip_hi", |i, o| unsafe { v_sse41_u8x16_zip_hi(i, o) }),
    ("v_sse41_u16x8_zip_lo", |i, o| unsafe { v_sse41_u16x8_zip_lo(i, o) }),
    ("v_sse41_u16x8_zip_hi", |i, o| unsafe { v_sse41_u16x8_zip_hi(i, o) }),
    ("v_sse41_u32x4_zip_lo", |i, o| unsafe { v_sse41_u32x4_zip_lo(i, o) }),
    ("v_sse41_u32x4_zip_hi", |i, o| unsafe { v_sse41_u32x4_zip_hi(i, o) }),
    ("v_sse41_u64x2_zip_lo", |i, o| unsafe { v_sse41_u64x2_zip_lo(i, o) }),
    ("v_sse41_u64x2_zip_hi", |i, o| unsafe { v_sse41_u64x2_zip_hi(i, o) }),
    ("v_sse41_v256_load", |i, o| unsafe { v_sse41_v256_load(i, o) }),
    ("v_sse41_v256_load_unaligned", |i, o| unsafe { v_sse41_v256_load_unaligned(i, o) }),
    ("v_sse41_v256_store", |i, o| unsafe { v_sse41_v256_store(i, o) }),
    ("v_sse41_v256_store_unaligned", |i, o| unsafe { v_sse41_v256_store_unaligned(i, o) }),
    ("v_sse41_v256_create_zero", |i, o| unsafe { v_sse41_v256_create_zero(i, o) }),
    ("v_sse41_v256_not", |i, o| unsafe { v_sse41_v256_not(i, o) }),
    ("v_sse41_v256_and", |i, o| unsafe { v_sse41_v256_and(i, o) }),
    ("v_sse41_v256_or", |i, o| unsafe { v_sse41_v256_or(i, o) }),
    ("v_sse41_v256_xor", |i, o| unsafe { v_sse41_v256_xor(i, o) }),
    ("v_sse41_v256_andnot", |i, o| unsafe { v_sse41_v256_andnot(i, o) }),
    ("v_sse41_v256_all_zero", |i, o| unsafe { v_sse41_v256_all_zero(i, o) }),
    ("v_sse41_u8x32_splat", |i, o| unsafe { v_sse41_u8x32_splat(i, o) }),
    ("v_sse41_u16x16_splat", |i, o| unsafe { v_sse41_u16x16_splat(i, o) }),
    ("v_sse41_u32x8_splat", |i, o| unsafe { v_sse41_u32x8_splat(i, o) }),
    ("v_sse41_u64x4_splat", |i, o| unsafe { v_sse41_u64x4_splat(i, o) }),
    ("v_sse41_i8x32_splat", |i, o| unsafe { v_sse41_i8x32_splat(i, o) }),
    ("v_sse41_i16x16_splat", |i, o| unsafe { v_sse41_i16x16_splat(i, o) }),
    ("v_sse41_i32x8_splat", |i, o| unsafe { v_sse41_i32x8_splat(i, o) }),
    ("v_sse41_i64x4_splat", |i, o| unsafe { v_sse41_i64x4_splat(i, o) }),
    ("v_sse41_u8x32_add", |i, o| unsafe { v_sse41_u8x32_add(i, o) }),
    ("v_sse41_u8x32_sub", |i, o| unsafe { v_sse41_u8x32_sub(i, o) }),
    ("v_sse41_u16x16_add", |i, o| unsafe { v_sse41_u16x16_add(i, o) }),
    ("v_sse41_u16x16_sub", |i, o| unsafe { v_sse41_u16x16_sub(i, o) }),
    ("v_sse41_u32x8_add", |i, o| unsafe { v_sse41_u32x8_add(i, o) }),
    ("v_sse41_u32x8_sub", |i, o| unsafe { v_sse41_u32x8_sub(i, o) }),
    ("v_sse41_u64x4_add", |i, o| unsafe { v_sse41_u64x4_add(i, o) }),
    ("v_sse41_u64x4_sub", |i, o| unsafe { v_sse41_u64x4_sub(i, o) }),
    ("v_sse41_u8x32_sub_sat", |i, o| unsafe { v_sse41_u8x32_sub_sat(i, o) }),
    ("v_sse41_i8x32_sub_sat", |i, o| unsafe { v_sse41_i8x32_sub_sat(i, o) }),
    ("v_sse41_u16x16_sub_sat", |i, o| unsafe { v_sse41_u16x16_sub_sat(i, o) }),
    ("v_sse41_i16x16_sub_sat", |i, o| unsafe { v_sse41_i16x16_sub_sat(i, o) }),
    ("v_sse41_u8x32_add_sat", |i, o| unsafe { v_sse41_u8x32_add_sat(i, o) }),
    ("v_sse41_i8x32_add_sat", |i, o| unsafe { v_sse41_i8x32_add_sat(i, o) }),
    ("v_sse41_i16x16_mul_lo", |i, o| unsafe { v_sse41_i16x16_mul_lo(i, o) }),
    ("v_sse41_i32x8_mul_lo", |i, o| unsafe { v_sse41_i32x8_mul_lo(i, o) }),
    ("v_sse41_u16x16_mul_hi", |i, o| unsafe { v_sse41_u16x16_mul_hi(i, o) }),
    ("v_sse41_i16x16_mul_hi", |i, o| unsafe { v_sse41_i16x16_mul_hi(i, o) }),
    ("v_sse41_i16x16_maddubs", |i, o| unsafe { v_sse41_i16x16_maddubs(i, o) }),
    ("v_sse41_i16x16_madd", |i, o| unsafe { v_sse41_i16x16_madd(i, o) }),
    ("v_sse41_u8x32_avgr", |i, o| unsafe { v_sse41_u8x32_avgr(i, o) }),
    ("v_sse41_u16x16_shl_0", |i, o| unsafe { v_sse41_u16x16_shl_0(i, o) }),
    ("v_sse41_u16x16_shr_0", |i, o| unsafe { v_sse41_u16x16_shr_0(i, o) }),
    ("v_sse41_u16x16_shl_1", |i, o| unsafe { v_sse41_u16x16_shl_1(i, o) }),
    ("v_sse41_u16x16_shr_1", |i, o| unsafe { v_sse41_u16x16_shr_1(i, o) }),
    ("v_sse41_u16x16_shl_2", |i, o| unsafe { v_sse41_u16x16_shl_2(i, o) }),
    ("v_sse41_u16x16_shr_2", |i, o| unsafe { v_sse41_u16x16_shr_2(i, o) }),
    ("v_sse41_u16x16_shl_3", |i, o| unsafe { v_sse41_u16x16_shl_3(i, o) }),
    ("v_sse41_u16x16_shr_3", |i, o| unsafe { v_sse41_u16x16_shr_3(i, o) }),
    ("v_sse41_u16x16_shl_4", |i, o| unsafe { v_sse41_u16x16_shl_4(i, o) }),
    ("v_sse41_u16x16_shr_4", |i, o| unsafe { v_sse41_u16x16_shr_4(i, o) }),
    ("v_sse41_u16x16_shl_5", |i, o| unsafe { v_sse41_u16x16_shl_5(i, o) }),
    ("v_sse41_u16x16_shr_5", |i, o| unsafe { v_sse41_u16x16_shr_5(i, o) }),
    ("v_sse41_u16x16_shl_6", |i, o| unsafe { v_sse41_u16x16_shl_6(i, o) }),
    ("v_sse41_u16x16_shr_6", |i, o| unsafe { v_sse41_u16x16_shr_6(i, o) }),
    ("v_sse41_u16x16_shl_7", |i, o| unsafe { v_sse41_u16x16_shl_7(i, o) }),
    ("v_sse41_u16x16_shr_7", |i, o| unsafe { v_sse41_u16x16_shr_7(i, o) }),
    ("v_sse41_u16x16_shl_8", |i, o| unsafe { v_sse41_u16x16_shl_8(i, o) }),
    ("v_sse41_u16x16_shr_8", |i, o| unsafe { v_sse41_u16x16_shr_8(i, o) }),
    ("v_sse41_u16x16_shl_9", |i, o| unsafe { v_sse41_u16x16_shl_9(i, o) }),
    ("v_sse41_u16x16_shr_9", |i, o| unsafe { v_sse41_u16x16_shr_9(i, o) }),
    ("v_sse41_u16x16_shl_10", |i, o| unsafe { v_sse41_u16x16_shl_10(i, o) }),
    ("v_sse41_u16x16_shr_10", |i, o| unsafe { v_sse41_u16x16_shr_10(i, o) }),
    ("v_sse41_u16x16_shl_11", |i, o| unsafe { v_sse41_u16x16_shl_11(i, o) }),
    ("v_sse41_u16x16_shr_11", |i, o| unsafe { v_sse41_u16x16_shr_11(i, o) }),
    ("v_sse41_u16x16_shl_12", |i, o| unsafe { v_sse41_u16x16_shl_12(i, o) }),
    ("v_sse41_u16x16_shr_12", |i, o| unsafe { v_sse41_u16x16_shr_12(i, o) }),
    ("v_sse41_u16x16_shl_13", |i, o| unsafe { v_sse41_u16x16_shl_13(i, o) }),
    ("v_sse41_u16x16_shr_13", |i, o| unsafe { v_sse41_u16x16_shr_13(i, o) }),
    ("v_sse41_u16x16_shl_14", |i, o| unsafe { v_sse41_u16x16_shl_14(i, o) }),
    ("v_sse41_u16x16_shr_14", |i, o| unsafe { v_sse41_u16x16_shr_14(i, o) }),
    ("v_sse41_u16x16_shl_15", |i, o| unsafe { v_sse41_u16x16_shl_15(i, o) }),
    ("v_sse41_u16x16_shr_15", |i, o| unsafe { v_sse41_u16x16_shr_15(i, o) }),
    ("v_sse41_u32x8_shl_0", |i, o| unsafe { v_sse41_u32x8_shl_0(i, o) }),
    ("v_sse41_u32x8_shr_0", |i, o| unsafe { v_sse41_u32x8_shr_0(i, o) }),
    ("v_sse41_u32x8_shl_1", |i, o| unsafe { v_sse41_u32x8_shl_1(i, o) }),
    ("v_sse41_u32x8_shr_1", |i, o| unsafe { v_sse41_u32x8_shr_1(i, o) }),
    ("v_sse41_u32x8_shl_2", |i, o| unsafe { v_sse41_u32x8_shl_2(i, o) }),
    ("v_sse41_u32x8_shr_2", |i, o| unsafe { v_sse41_u32x8_shr_2(i, o) }),
    ("v_sse41_u32x8_shl_3", |i, o| unsafe { v_sse41_u32x8_shl_3(i, o) }),
    ("v_sse41_u32x8_shr_3", |i, o| unsafe { v_sse41_u32x8_shr_3(i, o) }),
    ("v_sse41_u32x8_shl_4", |i, o| unsafe { v_sse41_u32x8_shl_4(i, o) }),
    ("v_sse41_u32x8_shr_4", |i, o| unsafe { v_sse41_u32x8_shr_4(i, o) }),
    ("v_sse41_u32x8_shl_5", |i, o| unsafe { v_sse41_u32x8_shl_5(i, o) }),
    ("v_sse41_u32x8_shr_5", |i, o| unsafe { v_sse41_u32x8_shr_5(i, o) }),
    ("v_sse41_u32x8_shl_6", |i, o| unsafe { v_sse41_u32x8_shl_6(i, o) }),
    ("v_sse41_u32x8_shr_6", |i, o| unsafe { v_sse41_u32x8_shr_6(i, o) }),
    ("v_sse41_u32x8_shl_7", |i, o| unsafe { v_sse41_u32x8_shl_7(i, o) }),
    ("v_sse41_u32x8_shr_7", |i, o| unsafe { v_sse41_u32x8_shr_7(i, o) }),
    ("v_sse41_u32x8_shl_8", |i, o| unsafe { v_sse41_u32x8_shl_8(i, o) }),
    ("v_sse41_u32x8_shr_8", |i, o| unsafe { v_sse41_u32x8_shr_8(i, o) }),
    ("v_sse41_u32x8_shl_9", |i, o| unsafe { v_sse41_u32x8_shl_9(i, o) }),
    ("v_sse41_u32x8_shr_9", |i, o| unsafe { v_sse41_u32x8_shr_9(i, o) }),
    ("v_sse41_u32x8_shl_10", |i, o| unsafe { v_sse41_u32x8_shl_10(i, o) }),
    ("v_sse41_u32x8_shr_10", |i, o| unsafe { v_sse41_u32x8_shr_10(i, o) }),
    ("v_sse41_u32x8_shl_11", |i, o| unsafe { v_sse41_u32x8_shl_11(i, o) }),
    ("v_sse41_u32x8_shr_11", |i, o| unsafe { v_sse41_u32x8_shr_11(i, o) }),
    ("v_sse41_u32x8_shl_12", |i, o| unsafe { v_sse41_u32x8_shl_12(i, o) }),
    ("v_sse41_u32x8_shr_12", |i, o| unsafe { v_sse41_u32x8_shr_12(i, o) }),
    ("v_sse41_u32x8_shl_13", |i, o| unsafe { v_sse41_u32x8_shl_13(i, o) }),
    ("v_sse41_u32x8_shr_13", |i, o| unsafe { v_sse41_u32x8_shr_13(i, o) }),
    ("v_sse41_u32x8_shl_14", |i, o| unsafe { v_sse41_u32x8_shl_14(i, o) }),
    ("v_sse41_u32x8_shr_14", |i, o| unsafe { v_sse41_u32x8_shr_14(i, o) }),
    ("v_sse41_u32x8_shl_15", |i, o| unsafe { v_sse41_u32x8_shl_15(i, o) }),
    ("v_sse41_u32x8_shr_15", |i, o| unsafe { v_sse41_u32x8_shr_15(i, o) }),
    ("v_sse41_u32x8_shl_16", |i, o| unsafe { v_sse41_u32x8_shl_16(i, o) }),
    ("v_sse41_u32x8_shr_16", |i, o| unsafe { v_sse41_u32x8_shr_16(i, o) }),
    ("v_sse41_u32x8_shl_17", |i, o| unsafe { v_sse41_u32x8_shl_17(i, o) }),
    ("v_sse41_u32x8_shr_17", |i, o| unsafe { v_sse41_u32x8_shr_17(i, o) }),
    ("v_sse41_u32x8_shl_18", |i, o| unsafe { v_sse41_u32x8_shl_18(i, o) }),
    ("v_sse41_u32x8_shr_18", |i, o| unsafe { v_sse41_u32x8_shr_18(i, o) }),
    ("v_sse41_u32x8_shl_19", |i, o| unsafe { v_sse41_u32x8_shl_19(i, o) }),
    ("v_sse41_u32x8_shr_19", |i, o| unsafe { v_sse41_u32x8_shr_19(i, o) }),
    ("v_sse41_u32x8_shl_20", |i, o| unsafe { v_sse41_u32x8_shl_20(i, o) }),
    ("v_sse41_u32x8_shr_20", |i, o| unsafe { v_sse41_u32x8_shr_20(i, o) }),
    ("v_sse41_u32x8_shl_21", |i, o| unsafe { v_sse41_u32x8_shl_21(i, o) }),
    ("v_sse41_u32x8_shr_21", |i, o| unsafe { v_sse41_u32x8_shr_21(i, o) }),
    ("v_sse41_u32x8_shl_22", |i, o| unsafe { v_sse41_u32x8_shl_22(i, o) }),
    ("v_sse41_u32x8_shr_22", |i, o| unsafe { v_sse41_u32x8_shr_22(i, o) }),
    ("v_sse41_u32x8_shl_23", |i, o| unsafe { v_sse41_u32x8_shl_23(i, o) }),
    ("v_sse41_u32x8_shr_23", |i, o| unsafe { v_sse41_u32x8_shr_23(i, o) }),
    ("v_sse41_u32x8_shl_24", |i, o| unsafe { v_sse41_u32x8_shl_24(i, o) }),
    ("v_sse41_u32x8_shr_24", |i, o| unsafe { v_sse41_u32x8_shr_24(i, o) }),
    ("v_sse41_u32x8_shl_25", |i, o| unsafe { v_sse41_u32x8_shl_25(i, o) }),
    ("v_sse41_u32x8_shr_25", |i, o| unsafe { v_sse41_u32x8_shr_25(i, o) }),
    ("v_sse41_u32x8_shl_26", |i, o| unsafe { v_sse41_u32x8_shl_26(i, o) }),
    ("v_sse41_u32x8_shr_26", |i, o| unsafe { v_sse41_u32x8_shr_26(i, o) }),
    ("v_sse41_u32x8_shl_27", |i, o| unsafe { v_sse41_u32x8_shl_27(i, o) }),
    ("v_sse41_u32x8_shr_27", |i, o| unsafe { v_sse41_u32x8_shr_27(i, o) }),
    ("v_sse41_u32x8_shl_28", |i, o| unsafe { v_sse41_u32x8_shl_28(i, o) }),
    ("v_sse41_u32x8_shr_28", |i, o| unsafe { v_sse41_u32x8_shr_28(i, o) }),
    ("v_sse41_u32x8_shl_29", |i, o| unsafe { v_sse41_u32x8_shl_29(i, o) }),
    ("v_sse41_u32x8_shr_29", |i, o| unsafe { v_sse41_u32x8_shr_29(i, o) }),
    ("v_sse41_u32x8_shl_30", |i, o| unsafe { v_sse41_u32x8_shl_30(i, o) }),
    ("v_sse41_u32x8_shr_30", |i, o| unsafe { v_sse41_u32x8_shr_30(i, o) }),
    ("v_sse41_u32x8_shl_31", |i, o| unsafe { v_sse41_u32x8_shl_31(i, o) }),
    ("v_sse41_u32x8_shr_31", |i, o| unsafe { v_sse41_u32x8_shr_31(i, o) }),
    ("v_sse41_u8x32_eq", |i, o| unsafe { v_sse41_u8x32_eq(i, o) }),
    ("v_sse41_u8x32_lt", |i, o| unsafe { v_sse41_u8x32_lt(i, o) }),
    ("v_sse41_u8x32_max", |i, o| unsafe { v_sse41_u8x32_max(i, o) }),
    ("v_sse41_u8x32_min", |i, o| unsafe { v_sse41_u8x32_min(i, o) }),
    ("v_sse41_i8x32_lt", |i, o| unsafe { v_sse41_i8x32_lt(i, o) }),
    ("v_sse41_i8x32_max", |i, o| unsafe { v_sse41_i8x32_max(i, o) }),
    ("v_sse41_i8x32_min", |i, o| unsafe { v_sse41_i8x32_min(i, o) }),
    ("v_sse41_u16x16_eq", |i, o| unsafe { v_sse41_u16x16_eq(i, o) }),
    ("v_sse41_u16x16_lt", |i, o| unsafe { v_sse41_u16x16_lt(i, o) }),
    ("v_sse41_u16x16_max", |i, o| unsafe { v_sse41_u16x16_max(i, o) }),
    ("v_sse41_u16x16_min", |i, o| unsafe { v_sse41_u16x16_min(i, o) }),
    ("v_sse41_i16x16_lt", |i, o| unsafe { v_sse41_i16x16_lt(i, o) }),
    ("v_sse41_i16x16_max", |i, o| unsafe { v_sse41_i16x16_max(i, o) }),
    ("v_sse41_i16x16_min", |i, o| unsafe { v_sse41_i16x16_min(i, o) }),
    ("v_sse41_u32x8_eq", |i, o| unsafe { v_sse41_u32x8_eq(i, o) }),
    ("v_sse41_u32x8_lt", |i, o| unsafe { v_sse41_u32x8_lt(i, o) }),
    ("v_sse41_u32x8_max", |i, o| unsafe { v_sse41_u32x8_max(i, o) }),
    ("v_sse41_u32x8_min", |i, o| unsafe { v_sse41_u32x8_min(i, o) }),
    ("v_sse41_i32x8_lt", |i, o| unsafe { v_sse41_i32x8_lt(i, o) }),
    ("v_sse41_i32x8_max", |i, o| unsafe { v_sse41_i32x8_max(i, o) }),
    ("v_sse41_i32x8_min", |i, o| unsafe { v_sse41_i32x8_min(i, o) }),
    ("v_sse41_u8x16x2_swizzle", |i, o| unsafe { v_sse41_u8x16x2_swizzle(i, o) }),
    ("v_sse41_u16x16_bswap", |i, o| unsafe { v_sse41_u16x16_bswap(i, o) }),
    ("v_sse41_u32x8_bswap", |i, o| unsafe { v_sse41_u32x8_bswap(i, o) }),
    ("v_sse41_u64x4_bswap", |i, o| unsafe { v_sse41_u64x4_bswap(i, o) }),
    ("v_sse41_u8x32_any_zero", |i, o| unsafe { v_sse41_u8x32_any_zero(i, o) }),
    ("v_sse41_u8x32_bitmask", |i, o| unsafe { v_sse41_u8x32_bitmask(i, o) }),
    ("v_sse41_v256_bsl", |i, o| unsafe { v_sse41_v256_bsl(i, o) }),
    ("v_sse41_u8x32_blendv", |i, o| unsafe { v_sse41_u8x32_blendv(i, o) }),
    ("v_sse41_u8x16x2_zip_lo", |i, o| unsafe { v_sse41_u8x16x2_zip_lo(i, o) }),
    ("v_sse41_u8x16x2_zip_hi", |i, o| unsafe { v_sse41_u8x16x2_zip_hi(i, o) }),
    ("v_sse41_u16x8x2_zip_lo", |i, o| unsafe { v_sse41_u16x8x2_zip_lo(i, o) }),
    ("v_sse41_u16x8x2_zip_hi", |i, o| unsafe { v_sse41_u16x8x2_zip_hi(i, o) }),
    ("v_sse41_u32x4x2_zip_lo", |i, o| unsafe { v_sse41_u32x4x2_zip_lo(i, o) }),
    ("v_sse41_u32x4x2_zip_hi", |i, o| unsafe { v_sse41_u32x4x2_zip_hi(i, o) }),
    ("v_sse41_u64x2x2_zip_lo", |i, o| unsafe { v_sse41_u64x2x2_zip_lo(i, o) }),
    ("v_sse41_u64x2x2_zip_hi", |i, o| unsafe { v_sse41_u64x2x2_zip_hi(i, o) }),
    ("v_sse41_i16x8_packus", |i, o| unsafe { v_sse41_i16x8_packus(i, o) }),
    ("v_sse41_u64x4_unzip_even", |i, o| unsafe { v_sse41_u64x4_unzip_even(i, o) }),
    ("v_sse41_u64x4_unzip_odd", |i, o| unsafe { v_sse41_u64x4_unzip_odd(i, o) }),
    ("v_sse41_v128x2_zip_lo", |i, o| unsafe { v_sse41_v128x2_zip_lo(i, o) }),
    ("v_sse41_v128x2_zip_hi", |i, o| unsafe { v_sse41_v128x2_zip_hi(i, o) }),
    ("v_sse41_u16x16_from_u8x16", |i, o| unsafe { v_sse41_u16x16_from_u8x16(i, o) }),
    ("v_sse41_u16x8_blend_0", |i, o| unsafe { v_sse41_u16x8_blend_0(i, o) }),
    ("v_sse41_u16x8_blend_1", |i, o| unsafe { v_sse41_u16x8_blend_1(i, o) }),
    ("v_sse41_u16x8_blend_2", |i, o| unsafe { v_sse41_u16x8_blend_2(i, o) }),
    ("v_sse41_u16x8_blend_3", |i, o| unsafe { v_sse41_u16x8_blend_3(i, o) }),
    ("v_sse41_u16x8_blend_4", |i, o| unsafe { v_sse41_u16x8_blend_4(i, o) }),
    ("v_sse41_u16x8_blend_5", |i, o| unsafe { v_sse41_u16x8_blend_5(i, o) }),
    ("v_sse41_u16x8_blend_6", |i, o| unsafe { v_sse41_u16x8_blend_6(i, o) }),
    ("v_sse41_u16x8_blend_7", |i, o| unsafe { v_sse41_u16x8_blend_7(i, o) }),
    ("v_sse41_u16x8_blend_8", |i, o| unsafe { v_sse41_u16x8_blend_8(i, o) }),
    ("v_sse41_u16x8_blend_9", |i, o| unsafe { v_sse41_u16x8_blend_9(i, o) }),
    ("v_sse41_u16x8_blend_10", |i, o| unsafe { v_sse41_u16x8_blend_10(i, o) }),
    ("v_sse41_u16x8_blend_11", |i, o| unsafe { v_sse41_u16x8_blend_11(i, o) }),
    ("v_sse41_u16x8_blend_12", |i, o| unsafe { v_sse41_u16x8_blend_12(i, o) }),
    ("v_sse41_u16x8_blend_13", |i, o| unsafe { v_sse41_u16x8_blend_13(i, o) }),
    ("v_sse41_u16x8_blend_14", |i, o| unsafe { v_sse41_u16x8_blend_14(i, o) }),
    ("v_sse41_u16x8_blend_15", |i, o| unsafe { v_sse41_u16x8_blend_15(i, o) }),
    ("v_sse41_u16x8_blend_16", |i, o| unsafe { v_sse41_u16x8_blend_16(i, o) }),
    ("v_sse41_u16x8_blend_17", |i, o| unsafe { v_sse41_u16x8_blend_17(i, o) }),
    ("v_sse41_u16x8_blend_18", |i, o| unsafe { v_sse41_u16x8_blend_18(i, o) }),
    ("v_sse41_u16x8_blend_19", |i, o| unsafe { v_sse41_u16x8_blend_19(i, o) }),
    ("v_sse41_u16x8_blend_20", |i, o| unsafe { v_sse41_u16x8_blend_20(i, o) }),
    ("v_sse41_u16x8_blend_21", |i, o| unsafe { v_sse41_u16x8_blend_21(i, o) }),
    ("v_sse41_u16x8_blend_22", |i, o| unsafe { v_sse41_u16x8_blend_22(i, o) }),
    ("v_sse41_u16x8_blend_23", |i, o| unsafe { v_sse41_u16x8_blend_23(i, o) }),
    ("v_sse41_u16x8_blend_24", |i, o| unsafe { v_sse41_u16x8_blend_24(i, o) }),
    ("v_sse41_u16x8_blend_25", |i, o| unsafe { v_sse41_u16x8_blend_25(i, o) }),
    ("v_sse41_u16x8_blend_26", |i, o| unsafe { v_sse41_u16x8_blend_26(i, o) }),
    ("v_sse41_u16x8_blend_27", |i, o| unsafe { v_sse41_u16x8_blend_27(i, o) }),
    ("v_sse41_u16x8_blend_28", |i, o| unsafe { v_sse41_u16x8_blend_28(i, o) }),
    ("v_sse41_u16x8_blend_29", |i, o| unsafe { v_sse41_u16x8_blend_29(i, o) }),
    ("v_sse41_u16x8_blend_30", |i, o| unsafe { v_sse41_u16x8_blend_30(i, o) }),
    ("v_sse41_u16x8_blend_31", |i, o| unsafe { v_sse41_u16x8_blend_31(i, o) }),
    ("v_sse41_u16x8_blend_32", |i, o| unsafe { v_sse41_u16x8_blend_32(i, o) }),
    ("v_sse41_u16x8_blend_33", |i, o| unsafe { v_sse41_u16x8_blend_33(i, o) }),
    ("v_sse41_u16x8_blend_34", |i, o| unsafe { v_sse41_u16x8_blend_34(i, o) }),
    ("v_sse41_u16x8_blend_35", |i, o| unsafe { v_sse41_u16x8_blend_35(i, o) }),
    ("v_sse41_u16x8_blend_36", |i, o| unsafe { v_sse41_u16x8_blend_36(i, o) }),
    ("v_sse41_u16x8_blend_37", |i, o| unsafe { v_sse41_u16x8_blend_37(i, o) }),
    ("v_sse41_u16x8_blend_38", |i, o| unsafe { v_sse41_u16x8_blend_38(i, o) }),
    ("v_sse41_u16x8_blend_39", |i, o| unsafe { v_sse41_u16x8_blend_39(i, o) }),
    ("v_sse41_u16x8_blend_40", |i, o| unsafe { v_sse41_u16x8_blend_40(i, o) }),
    ("v_sse41_u16x8_blend_41", |i, o| unsafe { v_sse41_u16x8_blend_41(i, o) }),
    ("v_sse41_u16x8_blend_42", |i, o| unsafe { v_sse41_u16x8_blend_42(i, o) }),
    ("v_sse41_u16x8_blend_43", |i, o| unsafe { v_sse41_u16x8_blend_43(i, o) }),
    ("v_sse41_u16x8_blend_44", |i, o| unsafe { v_sse41_u16x8_blend_44(i, o) }),
    ("v_sse41_u16x8_blend_45", |i, o| unsafe { v_sse41_u16x8_blend_45(i, o) }),
    ("v_sse41_u16x8_blend_46", |i, o| unsafe { v_sse41_u16x8_blend_46(i, o) }),
    ("v_sse41_u16x8_blend_47", |i, o| unsafe { v_sse41_u16x8_blend_47(i, o) }),
    ("v_sse41_u16x8_blend_48", |i, o| unsafe { v_sse41_u16x8_blend_48(i, o) }),
    ("v_sse41_u16x8_blend_49", |i, o| unsafe { v_sse41_u16x8_blend_49(i, o) }),
    ("v_sse41_u16x8_blend_50", |i, o| unsafe { v_sse41_u16x8_blend_50(i, o) }),
    ("v_sse41_u16x8_blend_51", |i, o| unsafe { v_sse41_u16x8_blend_51(i, o) }),
    ("v_sse41_u16x8_blend_52", |i, o| unsafe { v_sse41_u16x8_blend_52(i, o) }),
    ("v_sse41_u16x8_blend_53", |i, o| unsafe { v_sse41_u16x8_blend_53(i, o) }),
    ("v_sse41_u16x8_blend_54", |i, o| unsafe { v_sse41_u16x8_blend_54(i, o) }),
    ("v_sse41_u16x8_blend_55", |i, o| unsafe { v_sse41_u16x8_blend_55(i, o) }),
    ("v_sse41_u16x8_blend_56", |i, o| unsafe { v_sse41_u16x8_blend_56(i, o) }),
    ("v_sse41_u16x8_blend_57", |i, o| unsafe { v_sse41_u16x8_blend_57(i, o) }),
    ("v_sse41_u16x8_blend_58", |i, o| unsafe { v_sse41_u16x8_blend_58(i, o) }),
    ("v_sse41_u16x8_blend_59", |i, o| unsafe { v_sse41_u16x8_blend_59(i, o) }),
    ("v_sse41_u16x8_blend_60", |i, o| unsafe { v_sse41_u16x8_blend_60(i, o) }),
    ("v_sse41_u16x8_blend_61", |i, o| unsafe { v_sse41_u16x8_blend_61(i, o) }),
    ("v_sse41_u16x8_blend_62", |i, o| unsafe { v_sse41_u16x8_blend_62(i, o) }),
    ("v_sse41_u16x8_blend_63", |i, o| unsafe { v_sse41_u16x8_blend_63(i, o) }),
    ("v_sse41_u16x8_blend_64", |i, o| unsafe { v_sse41_u16x8_blend_64(i, o) }),
    ("v_sse41_u16x8_blend_65", |i, o| unsafe { v_sse41_u16x8_blend_65(i, o) }),
    ("v_sse41_u16x8_blend_66", |i, o| unsafe { v_sse41_u16x8_blend_66(i, o) }),
    ("v_sse41_u16x8_blend_67", |i, o| unsafe { v_sse41_u16x8_blend_67(i, o) }),
    ("v_sse41_u16x8_blend_68", |i, o| unsafe { v_sse41_u16x8_blend_68(i, o) }),
    ("v_sse41_u16x8_blend_69", |i, o| unsafe { v_sse41_u16x8_blend_69(i, o) }),
    ("v_sse41_u16x8_blend_70", |i, o| unsafe { v_sse41_u16x8_blend_70(i, o) }),
    ("v_sse41_u16x8_blend_71", |i, o| unsafe { v_sse41_u16x8_blend_71(i, o) }),
    ("v_sse41_u16x8_blend_72", |i, o| unsafe { v_sse41_u16x8_blend_72(i, o) }),
    ("v_sse41_u16x8_blend_73", |i, o| unsafe { v_sse41_u16x8_blend_73(i, o) }),
    ("v_sse41_u16x8_blend_74", |i, o| unsafe { v_sse41_u16x8_blend_74(i, o) }),
    ("v_sse41_u16x8_blend_75", |i, o| unsafe { v_sse41_u16x8_blend_75(i, o) }),
    ("v_sse41_u16x8_blend_76", |i, o| unsafe { v_sse41_u16x8_blend_76(i, o) }),
    ("v_sse41_u16x8_blend_77", |i, o| unsafe { v_sse41_u16x8_blend_77(i, o) }),
    ("v_sse41_u16x8_blend_78", |i, o| unsafe { v_sse41_u16x8_blend_78(i, o) }),
    ("v_sse41_u16x8_blend_79", |i, o| unsafe { v_sse41_u16x8_blend_79(i, o) }),
    ("v_sse41_u16x8_blend_80", |i, o| unsafe { v_sse41_u16x8_blend_80(i, o) }),
    ("v_sse41_u16x8_blend_81", |i, o| unsafe { v_sse41_u16x8_blend_81(i, o) }),
    ("v_sse41_u16x8_blend_82", |i, o| unsafe { v_sse41_u16x8_blend_82(i, o) }),
    ("v_sse41_u16x8_blend_83", |i, o| unsafe { v_sse41_u16x8_blend_83(i, o) }),
    ("v_sse41_u16x8_blend_84", |i, o| unsafe { v_sse41_u16x8_blend_84(i, o) }),
    ("v_sse41_u16x8_blend_85", |i, o| unsafe { v_sse41_u16x8_blend_85(i, o) }),
    ("v_sse41_u16x8_blend_86", |i, o| unsafe { v_sse41_u16x8_blend_86(i, o) }),
    ("v_sse41_u16x8_blend_87", |i, o| unsafe { v_sse41_u16x8_blend_87(i, o) }),
    ("v_sse41_u16x8_blend_88", |i, o| unsafe { v_sse41_u16x8_blend_88(i, o) }),
    ("v_sse41_u16x8_blend_89", |i, o| unsafe { v_sse41_u16x8_blend_89(i, o) }),
    ("v_sse41_u16x8_blend_90", |i, o| unsafe { v_sse41_u16x8_blend_90(i, o) }),
    ("v_sse41_u16x8_blend_91", |i, o| unsafe { v_sse41_u16x8_blend_91(i, o) }),
    ("v_sse41_u16x8_blend_92", |i, o| unsafe { v_sse41_u16x8_blend_92(i, o) }),
    ("v_sse41_u16x8_blend_93", |i, o| unsafe { v_sse41_u16x8_blend_93(i, o) }),
    ("v_sse41_u16x8_blend_94", |i, o| unsafe { v_sse41_u16x8_blend_94(i, o) }),
    ("v_sse41_u16x8_blend_95", |i, o| unsafe { v_sse41_u16x8_blend_95(i, o) }),
    ("v_sse41_u16x8_blend_96", |i, o| unsafe { v_sse41_u16x8_blend_96(i, o) }),
    ("v_sse41_u16x8_blend_97", |i, o| unsafe { v_sse41_u16x8_blend_97(i, o) }),
    ("v_sse41_u16x8_blend_98", |i, o| unsafe { v_sse41_u16x8_blend_98(i, o) }),
    ("v_sse41_u16x8_blend_99", |i, o| unsafe { v_sse41_u16x8_blend_99(i, o) }),
    ("v_sse41_u16x8_blend_100", |i, o| unsafe { v_sse41_u16x8_blend_100(i, o) }),
    ("v_sse41_u16x8_blend_101", |i, o| unsafe { v_sse41_u16x8_blend_101(i, o) }),
    ("v_sse41_u16x8_blend_102", |i, o| unsafe { v_sse41_u16x8_blend_102(i, o) }),
    ("v_sse41_u16x8_blend_103", |i, o| unsafe { v_sse41_u16x8_blend_103(i, o) }),
    ("v_sse41_u16x8_blend_104", |i, o| unsafe { v_sse41_u16x8_blend_104(i, o) }),
    ("v_sse41_u16x8_blend_105", |i, o| unsafe { v_sse41_u16x8_blend_105(i, o) }),
    ("v_sse41_u16x8_blend_106", |i, o| unsafe { v_sse41_u16x8_blend_106(i, o) }),
    ("v_sse41_u16x8_blend_107", |i, o| unsafe { v_sse41_u16x8_blend_107(i, o) }),
    ("v_sse41_u16x8_blend_108", |i, o| unsafe { v_sse41_u16x8_blend_108(i, o) }),
    ("v_sse41_u16x8_blend_109", |i, o| unsafe { v_sse41_u16x8_blend_109(i, o) }),
    ("v_sse41_u16x8_blend_110", |i, o| unsafe { v_sse41_u16x8_blend_110(i, o) }),
    ("v_sse41_u16x8_blend_111", |i, o| unsafe { v_sse41_u16x8_blend_111(i, o) }),
    ("v_sse41_u16x8_blend_112", |i, o| unsafe { v_sse41_u16x8_blend_112(i, o) }),
    ("v_sse41_u16x8_blend_113", |i, o| unsafe { v_sse41_u16x8_blend_113(i, o) }),
    ("v_sse41_u16x8_blend_114", |i, o| unsafe { v_sse41_u16x8_blend_114(i, o) }),
    ("v_sse41_u16x8_blend_115", |i, o| unsafe { v_sse41_u16x8_blend_115(i, o) }),
    ("v_sse41_u16x8_blend_116", |i, o| unsafe { v_sse41_u16x8_blend_116(i, o) }),
    ("v_sse41_u16x8_blend_117", |i, o| unsafe { v_sse41_u16x8_blend_117(i, o) }),
    ("v_sse41_u16x8_blend_118", |i, o| unsafe { v_sse41_u16x8_blend_118(i, o) }),
    ("v_sse41_u16x8_blend_119", |i, o| unsafe { v_sse41_u16x8_blend_119(i, o) }),
    ("v_sse41_u16x8_blend_120", |i, o| unsafe { v_sse41_u16x8_blend_120(i, o) }),
    ("v_sse41_u16x8_blend_121", |i, o| unsafe { v_sse41_u16x8_blend_121(i, o) }),
    ("v_sse41_u16x8_blend_122", |i, o| unsafe { v_sse41_u16x8_blend_122(i, o) }),
    ("v_sse41_u16x8_blend_123", |i, o| unsafe { v_sse41_u16x8_blend_123(i, o) }),
    ("v_sse41_u16x8_blend_124", |i, o| unsafe { v_sse41_u16x8_blend_124(i, o) }),
    ("v_sse41_u16x8_blend_125", |i, o| unsafe { v_sse41_u16x8_blend_125(i, o) }),
    ("v_sse41_u16x8_blend_126", |i, o| unsafe { v_sse41_u16x8_blend_126(i, o) }),
    ("v_sse41_u16x8_blend_127", |i, o| unsafe { v_sse41_u16x8_blend_127(i, o) }),
    ("v_sse41_u16x8_blend_128", |i, o| unsafe { v_sse41_u16x8_blend_128(i, o) }),
    ("v_sse41_u16x8_blend_129", |i, o| unsafe { v_sse41_u16x8_blend_129(i, o) }),
    ("v_sse41_u16x8_blend_130", |i, o| unsafe { v_sse41_u16x8_blend_130(i, o) }),
    ("v_sse41_u16x8_blend_131", |i, o| unsafe { v_sse41_u16x8_blend_131(i, o) }),
    ("v_sse41_u16x8_blend_132", |i, o| unsafe { v_sse41_u16x8_blend_132(i, o) }),
    ("v_sse41_u16x8_blend_133", |i, o| unsafe { v_sse41_u16x8_blend_133(i, o) }),
    ("v_sse41_u16x8_blend_134", |i, o| unsafe { v_sse41_u16x8_blend_134(i, o) }),
    ("v_sse41_u16x8_blend_135", |i, o| unsafe { v_sse41_u16x8_blend_135(i, o) }),
    ("v_sse41_u16x8_blend_136", |i, o| unsafe { v_sse41_u16x8_blend_136(i, o) }),
    ("v_sse41_u16x8_blend_137", |i, o| unsafe { v_sse41_u16x8_blend_137(i, o) }),
    ("v_sse41_u16x8_blend_138", |i, o| unsafe { v_sse41_u16x8_blend_138(i, o) }),
    ("v_sse41_u16x8_blend_139", |i, o| unsafe { v_sse41_u16x8_blend_139(i, o) }),
    ("v_sse41_u16x8_blend_140", |i, o| unsafe { v_sse41_u16x8_blend_140(i, o) }),
    ("v_sse41_u16x8_blend_141", |i, o| unsafe { v_sse41_u16x8_blend_141(i, o) }),
    ("v_sse41_u16x8_blend_142", |i, o| unsafe { v_sse41_u16x8_blend_142(i, o) }),
    ("v_sse41_u16x8_blend_143", |i, o| unsafe { v_sse41_u16x8_blend_143(i, o) }),
    ("v_sse41_u16x8_blend_144", |i, o| unsafe { v_sse41_u16x8_blend_144(i, o) }),
    ("v_sse41_u16x8_blend_145", |i, o| unsafe { v_sse41_u16x8_blend_145(i, o) }),
    ("v_sse41_u16x8_blend_146", |i, o| unsafe { v_sse41_u16x8_blend_146(i, o) }),
    ("v_sse41_u16x8_blend_147", |i, o| unsafe { v_sse41_u16x8_blend_147(i, o) }),
    ("v_sse41_u16x8_blend_148", |i, o| unsafe { v_sse41_u16x8_blend_148(i, o) }),
    ("v_sse41_u16x8_blend_149", |i, o| unsafe { v_sse41_u16x8_blend_149(i, o) }),
    ("v_sse41_u16x8_blend_150", |i, o| unsafe { v_sse41_u16x8_blend_150(i, o) }),
    ("v_sse41_u16x8_blend_151", |i, o| unsafe { v_sse41_u16x8_blend_151(i, o) }),
    ("v_sse41_u16x8_blend_152", |i, o| unsafe { v_sse41_u16x8_blend_152(i, o) }),
    ("v_sse41_u16x8_blend_153", |i, o| unsafe { v_sse41_u16x8_blend_153(i, o) }),
    ("v_sse41_u16x8_blend_154", |i, o| unsafe { v_sse41_u16x8_blend_154(i, o) }),
    ("v_sse41_u16x8_blend_155", |i, o| unsafe { v_sse41_u16x8_blend_155(i, o) }),
    ("v_sse41_u16x8_blend_156", |i, o| unsafe { v_sse41_u16x8_blend_156(i, o) }),
    ("v_sse41_u16x8_blend_157", |i, o| unsafe { v_sse41_u16x8_blend_157(i, o) }),
    ("v_sse41_u16x8_blend_158", |i, o| unsafe { v_sse41_u16x8_blend_158(i, o) }),
    ("v_sse41_u16x8_blend_159", |i, o| unsafe { v_sse41_u16x8_blend_159(i, o) }),
    ("v_sse41_u16x8_blend_160", |i, o| unsafe { v_sse41_u16x8_blend_160(i, o) }),
    ("v_sse41_u16x8_blend_161", |i, o| unsafe { v_sse41_u16x8_blend_161(i, o) }),
    ("v_sse41_u16x8_blend_162", |i, o| unsafe { v_sse41_u16x8_blend_162(i, o) }),
    ("v_sse41_u16x8_blend_163", |i, o| unsafe { v_sse41_u16x8_blend_163(i, o) }),
    ("v_sse41_u16x8_blend_164", |i, o| unsafe { v_sse41_u16x8_blend_164(i, o) }),
    ("v_sse41_u16x8_blend_165", |i, o| unsafe { v_sse41_u16x8_blend_165(i, o) }),
    ("v_sse41_u16x8_blend_166", |i, o| unsafe { v_sse41_u16x8_blend_166(i, o) }),
    ("v_sse41_u16x8_blend_167", |i, o| unsafe { v_sse41_u16x8_blend_167(i, o) }),
    ("v_sse41_u16x8_blend_168", |i, o| unsafe { v_sse41_u16x8_blend_168(i, o) }),
    ("v_sse41_u16x8_blend_169", |i, o| unsafe { v_sse41_u16x8_blend_169(i, o) }),
    ("v_sse41_u16x8_blend_170", |i, o| unsafe { v_sse41_u16x8_blend_170(i, o) }),
    ("v_sse41_u16x8_blend_171", |i, o| unsafe { v_sse41_u16x8_blend_171(i, o) }),
    ("v_sse41_u16x8_blend_172", |i, o| unsafe { v_sse41_u16x8_blend_172(i, o) }),
    ("v_sse41_u16x8_blend_173", |i, o| unsafe { v_sse41_u16x8_blend_173(i, o) }),
    ("v_sse41_u16x8_blend_174", |i, o| unsafe { v_sse41_u16x8_blend_174(i, o) }),
    ("v_sse41_u16x8_blend_175", |i, o| unsafe { v_sse41_u16x8_blend_175(i, o) }),
    ("v_sse41_u16x8_blend_176", |i, o| unsafe { v_sse41_u16x8_blend_176(i, o) }),
    ("v_sse41_u16x8_blend_177", |i, o| unsafe { v_sse41_u16x8_blend_177(i, o) }),
    ("v_sse41_u16x8_blend_178", |i, o| unsafe { v_sse41_u16x8_blend_178(i, o) }),
    ("v_sse41_u16x8_blend_179", |i, o| unsafe { v_sse41_u16x8_blend_179(i, o) }),
    ("v_sse41_u16x8_blend_180", |i, o| unsafe { v_sse41_u16x8_blend_180(i, o) }),
    ("v_sse41_u16x8_blend_181", |i, o| unsafe { v_sse41_u16x8_blend_181(i, o) }),
    ("v_sse41_u16x8_blend_182", |i, o| unsafe { v_sse41_u16x8_blend_182(i, o) }),
    ("v_sse41_u16x8_blend_183", |i, o| unsafe { v_sse41_u16x8_blend_183(i, o) }),
    ("v_sse41_u16x8_blend_184", |i, o| unsafe { v_sse41_u16x8_blend_184(i, o) }),
    ("v_sse41_u16x8_blend_185", |i, o| unsafe { v_sse41_u16x8_blend_185(i, o) }),
    ("v_sse41_u16x8_blend_186", |i, o| unsafe { v_sse41_u16x8_blend_186(i, o) }),
    ("v_sse41_u16x8_blend_187", |i, o| unsafe { v_sse41_u16x8_blend_187(i, o) }),
    ("v_sse41_u16x8_blend_188", |i, o| unsafe { v_sse41_u16x8_blend_188(i, o) }),
    ("v_sse41_u16x8_blend_189", |i, o| unsafe { v_sse41_u16x8_blend_189(i, o) }),
    ("v_sse41_u16x8_blend_190", |i, o| unsafe { v_sse41_u16x8_blend_190(i, o) }),
    ("v_sse41_u16x8_blend_191", |i, o| unsafe { v_sse41_u16x8_blend_191(i, o) }),
    ("v_sse41_u16x8_blend_192", |i, o| unsafe { v_sse41_u16x8_blend_192(i, o) }),
    ("v_sse41_u16x8_blend_193", |i, o| unsafe { v_sse41_u16x8_blend_193(i, o) }),
    ("v_sse41_u16x8_blend_194", |i, o| unsafe { v_sse41_u16x8_blend_194(i, o) }),
    ("v_sse41_u16x8_blend_195", |i, o| unsafe { v_sse41_u16x8_blend_195(i, o) }),
    ("v_sse41_u16x8_blend_196", |i, o| unsafe { v_sse41_u16x8_blend_196(i, o) }),
    ("v_sse41_u16x8_blend_197", |i, o| unsafe { v_sse41_u16x8_blend_197(i, o) }),
    ("v_sse41_u16x8_blend_198", |i, o| unsafe { v_sse41_u16x8_blend_198(i, o) }),
    ("v_sse41_u16x8_blend_199", |i, o| unsafe { v_sse41_u16x8_blend_199(i, o) }),
    ("v_sse41_u16x8_blend_200", |i, o| unsafe { v_sse41_u16x8_blend_200(i, o) }),
    ("v_sse41_u16x8_blend_201", |i, o| unsafe { v_sse41_u16x8_blend_201(i, o) }),
    ("v_sse41_u16x8_blend_202", |i, o| unsafe { v_sse41_u16x8_blend_202(i, o) }),
    ("v_sse41_u16x8_blend_203", |i, o| unsafe { v_sse41_u16x8_blend_203(i, o) }),
    ("v_sse41_u16x8_blend_204", |i, o| unsafe { v_sse41_u16x8_blend_204(i, o) }),
    ("v_sse41_u16x8_blend_205", |i, o| unsafe { v_sse41_u16x8_blend_205(i, o) }),
    ("v_sse41_u16x8_blend_206", |i, o| unsafe { v_sse41_u16x8_blend_206(i, o) }),
    ("v_sse41_u16x8_blend_207", |i, o| unsafe { v_sse41_u16x8_blend_207(i, o) }),
    ("v_sse41_u16x8_blend_208", |i, o| unsafe { v_sse41_u16x8_blend_208(i, o) }),
    ("v_sse41_u16x8_blend_209", |i, o| unsafe { v_sse41_u16x8_blend_209(i, o) }),
    ("v_sse41_u16x8_blend_210", |i, o| unsafe { v_sse41_u16x8_blend_210(i, o) }),
    ("v_sse41_u16x8_blend_211", |i, o| unsafe { v_sse41_u16x8_blend_211(i, o) }),
    ("v_sse41_u16x8_blend_212", |i, o| unsafe { v_sse41_u16x8_blend_212(i, o) }),
    ("v_sse41_u16x8_blend_213", |i, o| unsafe { v_sse41_u16x8_blend_213(i, o) }),
    ("v_sse41_u16x8_blend_214", |i, o| unsafe { v_sse41_u16x8_blend_214(i, o) }),
    ("v_sse41_u16x8_blend_215", |i, o| unsafe { v_sse41_u16x8_blend_215(i, o) }),
    ("v_sse41_u16x8_blend_216", |i, o| unsafe { v_sse41_u16x8_blend_216(i, o) }),
    ("v_sse41_u16x8_blend_217", |i, o| unsafe { v_sse41_u16x8_blend_217(i, o) }),
    ("v_sse41_u16x8_blend_218", |i, o| unsafe { v_sse41_u16x8_blend_218(i, o) }),
    ("v_sse41_u16x8_blend_219", |i, o| unsafe { v_sse41_u16x8_blend_219(i, o) }),
    ("v_sse41_u16x8_blend_220", |i, o| unsafe { v_sse41_u16x8_blend_220(i, o) }),
    ("v_sse41_u16x8_blend_221", |i, o| unsafe { v_sse41_u16x8_blend_221(i, o) }),
    ("v_sse41_u16x8_blend_222", |i, o| unsafe { v_sse41_u16x8_blend_222(i, o) }),
    ("v_sse41_u16x8_blend_223", |i, o| unsafe { v_sse41_u16x8_blend_223(i, o) }),
    ("v_sse41_u16x8_blend_224", |i, o| unsafe { v_sse41_u16x8_blend_224(i, o) }),
    ("v_sse41_u16x8_blend_225", |i, o| unsafe { v_sse41_u16x8_blend_225(i, o) }),
    ("v_sse41_u16x8_blend_226", |i, o| unsafe { v_sse41_u16x8_blend_226(i, o) }),
    ("v_sse41_u16x8_blend_227", |i, o| unsafe { v_sse41_u16x8_blend_227(i, o) }),
    ("v_sse41_u16x8_blend_228", |i, o| unsafe { v_sse41_u16x8_blend_228(i, o) }),
    ("v_sse41_u16x8_blend_229", |i, o| unsafe { v_sse41_u16x8_blend_229(i, o) }),
    ("v_sse41_u16x8_blend_230", |i, o| unsafe { v_sse41_u16x8_blend_230(i, o) }),
    ("v_sse41_u16x8_blend_231", |i, o| unsafe { v_sse41_u16x8_blend_231(i, o) }),
    ("v_sse41_u16x8_blend_232", |i, o| unsafe { v_sse41_u16x8_blend_232(i, o) }),
    ("v_sse41_u16x8_blend_233", |i, o| unsafe { v_sse41_u16x8_blend_233(i, o) }),
    ("v_sse41_u16x8_blend_234", |i, o| unsafe { v_sse41_u16x8_blend_234(i, o) }),
    ("v_sse41_u16x8_blend_235", |i, o| unsafe { v_sse41_u16x8_blend_235(i, o) }),
    ("v_sse41_u16x8_blend_236", |i, o| unsafe { v_sse41_u16x8_blend_236(i, o) }),
    ("v_sse41_u16x8_blend_237", |i, o| unsafe { v_sse41_u16x8_blend_237(i, o) }),
    ("v_sse41_u16x8_blend_238", |i, o| unsafe { v_sse41_u16x8_blend_238(i, o) }),
    ("v_sse41_u16x8_blend_239", |i, o| unsafe { v_sse41_u16x8_blend_239(i, o) }),
    ("v_sse41_u16x8_blend_240", |i, o| unsafe { v_sse41_u16x8_blend_240(i, o) }),
    ("v_sse41_u16x8_blend_241", |i, o| unsafe { v_sse41_u16x8_blend_241(i, o) }),
    ("v_sse41_u16x8_blend_242", |i, o| unsafe { v_sse41_u16x8_blend_242(i, o) }),
    ("v_sse41_u16x8_blend_243", |i, o| unsafe { v_sse41_u16x8_blend_243(i, o) }),
    ("v_sse41_u16x8_blend_244", |i, o| unsafe { v_sse41_u16x8_blend_244(i, o) }),
    ("v_sse41_u16x8_blend_245", |i, o| unsafe { v_sse41_u16x8_blend_245(i, o) }),
    ("v_sse41_u16x8_blend_246", |i, o| unsafe { v_sse41_u16x8_blend_246(i, o) }),
    ("v_sse41_u16x8_blend_247", |i, o| unsafe { v_sse41_u16x8_blend_247(i, o) }),
    ("v_sse41_u16x8_blend_248", |i, o| unsafe { v_sse41_u16x8_blend_248(i, o) }),
    ("v_sse41_u16x8_blend_249", |i, o| unsafe { v_sse41_u16x8_blend_249(i, o) }),
    ("v_sse41_u16x8_blend_250", |i, o| unsafe { v_sse41_u16x8_blend_250(i, o) }),
    ("v_sse41_u16x8_blend_251", |i, o| unsafe { v_sse41_u16x8_blend_251(i, o) }),
    ("v_sse41_u16x8_blend_252", |i, o| unsafe { v_sse41_u16x8_blend_252(i, o) }),
    ("v_sse41_u16x8_blend_253", |i, o| unsafe { v_sse41_u16x8_blend_253(i, o) }),
    ("v_sse41_u16x8_blend_254", |i, o| unsafe { v_sse41_u16x8_blend_254(i, o) }),
    ("v_sse41_u16x8_blend_255", |i, o| unsafe { v_sse41_u16x8_blend_255(i, o) }),
    ("v_sse41_s128_and", |i, o| unsafe { v_sse41_s128_and(i, o) }),
    ("v_sse41_s128_or", |i, o| unsafe { v_sse41_s128_or(i, o) }),
    ("v_sse41_s128_xor", |i, o| unsafe { v_sse41_s128_xor(i, o) }),
    ("v_sse41_s128_andnot", |i, o| unsafe { v_sse41_s128_andnot(i, o) }),
    ("v_sse41_s128_u8xn_splat", |i, o| unsafe { v_sse41_s128_u8xn_splat(i, o) }),
    ("v_sse41_s128_i8xn_splat", |i, o| unsafe { v_sse41_s128_i8xn_splat(i, o) }),
    ("v_sse41_s128_u32xn_splat", |i, o| unsafe { v_sse41_s128_u32xn_splat(i, o) }),
    ("v_sse41_s128_u8xn_add", |i, o| unsafe { v_sse41_s128_u8xn_add(i, o) }),
    ("v_sse41_s128_u8xn_sub", |i, o| unsafe { v_sse41_s128_u8xn_sub(i, o) }),
    ("v_sse41_s128_u32xn_sub", |i, o| unsafe { v_sse41_s128_u32xn_sub(i, o) }),
    ("v_sse41_s128_u8xn_add_sat", |i, o| unsafe { v_sse41_s128_u8xn_add_sat(i, o) }),
    ("v_sse41_s128_i8xn_add_sat", |i, o| unsafe { v_sse41_s128_i8xn_add_sat(i, o) }),
    ("v_sse41_s128_u8xn_sub_sat", |i, o| unsafe { v_sse41_s128_u8xn_sub_sat(i, o) }),
    ("v_sse41_s128_u8xn_eq", |i, o| unsafe { v_sse41_s128_u8xn_eq(i, o) }),
    ("v_sse41_s128_i8xn_lt", |i, o| unsafe { v_sse41_s128_i8xn_lt(i, o) }),
    ("v_sse41_s128_u32xn_lt", |i, o| unsafe { v_sse41_s128_u32xn_lt(i, o) }),
    ("v_sse41_s128_u32xn_max", |i, o| unsafe { v_sse41_s128_u32xn_max(i, o) }),
    ("v_sse41_s128_u8xn_avgr", |i, o| unsafe { v_sse41_s128_u8xn_avgr(i, o) }),
    ("v_sse41_s128_u8x16xn_swizzle", |i, o| unsafe { v_sse41_s128_u8x16xn_swizzle(i, o) }),
    ("v_sse41_s128_u16xn_shl_0", |i, o| unsafe { v_sse41_s128_u16xn_shl_0(i, o) }),
    ("v_sse41_s128_u16xn_shr_0", |i, o| unsafe { v_sse41_s128_u16xn_shr_0(i, o) }),
    ("v_sse41_s128_u32xn_shr_0", |i, o| unsafe { v_sse41_s128_u32xn_shr_0(i, o) }),
    ("v_sse41_s128_u16xn_shl_1", |i, o| unsafe { v_sse41_s128_u16xn_shl_1(i, o) }),
    ("v_sse41_s128_u16xn_shr_1", |i, o| unsafe { v_sse41_s128_u16xn_shr_1(i, o) }),
    ("v_sse41_s128_u32xn_shr_1", |i, o| unsafe { v_sse41_s128_u32xn_shr_1(i, o) }),
    ("v_sse41_s128_u16xn_shl_2", |i, o| unsafe { v_sse41_s128_u16xn_shl_2(i, o) }),
    ("v_sse41_s128_u16xn_shr_2", |i, o| unsafe { v_sse41_s128_u16xn_shr_2(i, o) }),
    ("v_sse41_s128_u32xn_shr_2", |i, o| unsafe { v_sse41_s128_u32xn_shr_2(i, o) }),
    ("v_sse41_s128_u16xn_shl_3", |i, o| unsafe { v_sse41_s128_u16xn_shl_3(i, o) }),
    ("v_sse41_s128_u16xn_shr_3", |i, o| unsafe { v_sse41_s128_u16xn_shr_3(i, o) }),
    ("v_sse41_s128_u32xn_shr_3", |i, o| unsafe { v_sse41_s128_u32xn_shr_3(i, o) }),
    ("v_sse41_s128_u16xn_shl_4", |i, o| unsafe { v_sse41_s128_u16xn_shl_4(i, o) }),
    ("v_sse41_s128_u16xn_shr_4", |i, o| unsafe { v_sse41_s128_u16xn_shr_4(i, o) }),
    ("v_sse41_s128_u32xn_shr_4", |i, o| unsafe { v_sse41_s128_u32xn_shr_4(i, o) }),
    ("v_sse41_s128_u16xn_shl_5", |i, o| unsafe { v_sse41_s128_u16xn_shl_5(i, o) }),
    ("v_sse41_s128_u16xn_shr_5", |i, o| unsafe { v_sse41_s128_u16xn_shr_5(i, o) }),
    ("v_sse41_s128_u32xn_shr_5", |i, o| unsafe { v_sse41_s128_u32xn_shr_5(i, o) }),
    ("v_sse41_s128_u16xn_shl_6", |i, o| unsafe { v_sse41_s128_u16xn_shl_6(i, o) }),
    ("v_sse41_s128_u16xn_shr_6", |i, o| unsafe { v_sse41_s128_u16xn_shr_6(i, o) }),
    ("v_sse41_s128_u32xn_shr_6", |i, o| unsafe { v_sse41_s128_u32xn_shr_6(i, o) }),
    ("v_sse41_s128_u16xn_shl_7", |i, o| unsafe { v_sse41_s128_u16xn_shl_7(i, o) }),
    ("v_sse41_s128_u16xn_shr_7", |i, o| unsafe { v_sse41_s128_u16xn_shr_7(i, o) }),
    ("v_sse41_s128_u32xn_shr_7", |i, o| unsafe { v_sse41_s128_u32xn_shr_7(i, o) }),
    ("v_sse41_s128_u16xn_shl_8", |i, o| unsafe { v_sse41_s128_u16xn_shl_8(i, o) }),
    ("v_sse41_s128_u16xn_shr_8", |i, o| unsafe { v_sse41_s128_u16xn_shr_8(i, o) }),
    ("v_sse41_s128_u32xn_shr_8", |i, o| unsafe { v_sse41_s128_u32xn_shr_8(i, o) }),
    ("v_sse41_s128_u16xn_shl_9", |i, o| unsafe { v_sse41_s128_u16xn_shl_9(i, o) }),
    ("v_sse41_s128_u16xn_shr_9", |i, o| unsafe { v_sse41_s128_u16xn_shr_9(i, o) }),
    ("v_sse41_s128_u32xn_shr_9", |i, o| unsafe { v_sse41_s128_u32xn_shr_9(i, o) }),
    ("v_sse41_s128_u16xn_shl_10", |i, o| unsafe { v_sse41_s128_u16xn_shl_10(i, o) }),
    ("v_sse41_s128_u16xn_shr_10", |i, o| unsafe { v_sse41_s128_u16xn_shr_10(i, o) }),
    ("v_sse41_s128_u32xn_shr_10", |i, o| unsafe { v_sse41_s128_u32xn_shr_10(i, o) }),
    ("v_sse41_s128_u16xn_shl_11", |i, o| unsafe { v_sse41_s128_u16xn_shl_11(i, o) }),
    ("v_sse41_s128_u16xn_shr_11", |i, o| unsafe { v_sse41_s128_u16xn_shr_11(i, o) }),
    ("v_sse41_s128_u32xn_shr_11", |i, o| unsafe { v_sse41_s128_u32xn_shr_11(i, o) }),
    ("v_sse41_s128_u16xn_shl_12", |i, o| unsafe { v_sse41_s128_u16xn_shl_12(i, o) }),
    ("v_sse41_s128_u16xn_shr_12", |i, o| unsafe { v_sse41_s128_u16xn_shr_12(i, o) }),
    ("v_sse41_s128_u32xn_shr_12", |i, o| unsafe { v_sse41_s128_u32xn_shr_12(i, o) }),
    ("v_sse41_s128_u16xn_shl_13", |i, o| unsafe { v_sse41_s128_u16xn_shl_13(i, o) }),
    ("v_sse41_s128_u16xn_shr_13", |i, o| unsafe { v_sse41_s128_u16xn_shr_13(i, o) }),
    ("v_sse41_s128_u32xn_shr_13", |i, o| unsafe { v_sse41_s128_u32xn_shr_13(i, o) }),
    ("v_sse41_s128_u16xn_shl_14", |i, o| unsafe { v_sse41_s128_u16xn_shl_14(i, o) }),
    ("v_sse41_s128_u16xn_shr_14", |i, o| unsafe { v_sse41_s128_u16xn_shr_14(i, o) }),
    ("v_sse41_s128_u32xn_shr_14", |i, o| unsafe { v_sse41_s128_u32xn_shr_14(i, o) }),
    ("v_sse41_s128_u16xn_shl_15", |i, o| unsafe { v_sse41_s128_u16xn_shl_15(i, o) }),
    ("v_sse41_s128_u16xn_shr_15", |i, o| unsafe { v_sse41_s128_u16xn_shr_15(i, o) }),
    ("v_sse41_s128_u32xn_shr_15", |i, o| unsafe { v_sse41_s128_u32xn_shr_15(i, o) }),
    ("v_sse41_s128_u32xn_shr_16", |i, o| unsafe { v_sse41_s128_u32xn_shr_16(i, o) }),
    ("v_sse41_s128_u32xn_shr_17", |i, o| unsafe { v_sse41_s128_u32xn_shr_17(i, o) }),
    ("v_sse41_s128_u32xn_shr_18", |i, o| unsafe { v_sse41_s128_u32xn_shr_18(i, o) }),
    ("v_sse41_s128_u32xn_shr_19", |i, o| unsafe { v_sse41_s128_u32xn_shr_19(i, o) }),
    ("v_sse41_s128_u32xn_shr_20", |i, o| unsafe { v_sse41_s128_u32xn_shr_20(i, o) }),
    ("v_sse41_s128_u32xn_shr_21", |i, o| unsafe { v_sse41_s128_u32xn_shr_21(i, o) }),
    ("v_sse41_s128_u32xn_shr_22", |i, o| unsafe { v_sse41_s128_u32xn_shr_22(i, o) }),
    ("v_sse41_s128_u32xn_shr_23", |i, o| unsafe { v_sse41_s128_u32xn_shr_23(i, o) }),
    ("v_sse41_s128_u32xn_shr_24", |i, o| unsafe { v_sse41_s128_u32xn_shr_24(i, o) }),
    ("v_sse41_s128_u32xn_shr_25", |i, o| unsafe { v_sse41_s128_u32xn_shr_25(i, o) }),
    ("v_sse41_s128_u32xn_shr_26", |i, o| unsafe { v_sse41_s128_u32xn_shr_26(i, o) }),
    ("v_sse41_s128_u32xn_shr_27", |i, o| unsafe { v_sse41_s128_u32xn_shr_27(i, o) }),
    ("v_sse41_s128_u32xn_shr_28", |i, o| unsafe { v_sse41_s128_u32xn_shr_28(i, o) }),
    ("v_sse41_s128_u32xn_shr_29", |i, o| unsafe { v_sse41_s128_u32xn_shr_29(i, o) }),
    ("v_sse41_s128_u32xn_shr_30", |i, o| unsafe { v_sse41_s128_u32xn_shr_30(i, o) }),
    ("v_sse41_s128_u32xn_shr_31", |i, o| unsafe { v_sse41_s128_u32xn_shr_31(i, o) }),
    ("v_sse41_s128_u16xn_bswap", |i, o| unsafe { v_sse41_s128_u16xn_bswap(i, o) }),
    ("v_sse41_s128_u32xn_bswap", |i, o| unsafe { v_sse41_s128_u32xn_bswap(i, o) }),
    ("v_sse41_s128_u64xn_bswap", |i, o| unsafe { v_sse41_s128_u64xn_bswap(i, o) }),
    ("v_sse41_s128_all_zero", |i, o| unsafe { v_sse41_s128_all_zero(i, o) }),
    ("v_sse41_s128_mask8xn_all", |i, o| unsafe { v_sse41_s128_mask8xn_all(i, o) }),
    ("v_sse41_s128_mask8xn_any", |i, o| unsafe { v_sse41_s128_mask8xn_any(i, o) }),
    ("v_sse41_s128_u8xn_highbit_all", |i, o| unsafe { v_sse41_s128_u8xn_highbit_all(i, o) }),
    ("v_sse41_s128_u8xn_highbit_any", |i, o| unsafe { v_sse41_s128_u8xn_highbit_any(i, o) }),
    ("v_sse41_f_mask8x16_all", |i, o| unsafe { v_sse41_f_mask8x16_all(i, o) }),
    ("v_sse41_f_mask8x16_any", |i, o| unsafe { v_sse41_f_mask8x16_any(i, o) }),
    ("v_sse41_f_u8x16_highbit_all", |i, o| unsafe { v_sse41_f_u8x16_highbit_all(i, o) }),
    ("v_sse41_f_u8x16_highbit_any", |i, o| unsafe { v_sse41_f_u8x16_highbit_any(i, o) }),
    ("v_sse41_s128_lookup", |i, o| unsafe { v_sse41_s128_lookup(i, o) }),
    ("v_sse41_s128_to_ascii_lowercase", |i, o| unsafe { v_sse41_s128_to_ascii_lowercase(i, o) }),
    ("v_sse41_s128_to_ascii_uppercase", |i, o| unsafe { v_sse41_s128_to_ascii_uppercase(i, o) }),
    ("v_sse41_s128_hex_check", |i, o| unsafe { v_sse41_s128_hex_check(i, o) }),
    ("v_sse41_s128_alsw_check", |i, o| unsafe { v_sse41_s128_alsw_check(i, o) }),
    ("v_sse41_s128_alsw_decode", |i, o| unsafe { v_sse41_s128_alsw_decode(i, o) }),
    ("v_sse41_s256_and", |i, o| unsafe { v_sse41_s256_and(i, o) }),
    ("v_sse41_s256_or", |i, o| unsafe { v_sse41_s256_or(i, o) }),
    ("v_sse41_s256_xor", |i, o| unsafe { v_sse41_s256_xor(i, o) }),
    ("v_sse41_s256_andnot", |i, o| unsafe { v_sse41_s256_andnot(i, o) }),
    ("v_sse41_s256_u8xn_splat", |i, o| unsafe { v_sse41_s256_u8xn_splat(i, o) }),
    ("v_sse41_s256_i8xn_splat", |i, o| unsafe { v_sse41_s256_i8xn_splat(i, o) }),
    ("v_sse41_s256_u32xn_splat", |i, o| unsafe { v_sse41_s256_u32xn_splat(i, o) }),
    ("v_sse41_s256_u8xn_add", |i, o| unsafe { v_sse41_s256_u8xn_add(i, o) }),
    ("v_sse41_s256_u8xn_sub", |i, o| unsafe { v_sse41_s256_u8xn_sub(i, o) }),
    ("v_sse41_s256_u32xn_sub", |i, o| unsafe { v_sse41_s256_u32xn_sub(i, o) }),
    ("v_sse41_s256_u8xn_add_sat", |i, o| unsafe { v_sse41_s256_u8xn_add_sat(i, o) }),
    ("v_sse41_s256_i8xn_add_sat", |i, o| unsafe { v_sse41_s256_i8xn_add_sat(i, o) }),
    ("v_sse41_s256_u8xn_sub_sat", |i, o| unsafe { v_sse41_s256_u8xn_sub_sat(i, o) }),
    ("v_sse41_s256_u8xn_eq", |i, o| unsafe { v_sse41_s256_u8xn_eq(i, o) }),
    ("v_sse41_s256_i8xn_lt", |i, o| unsafe { v_sse41_s256_i8xn_lt(i, o) }),
    ("v_sse41_s256_u32xn_lt", |i, o| unsafe { v_sse41_s256_u32xn_lt(i, o) }),
    ("v_sse41_s256_u32xn_max", |i, o| unsafe { v_sse41_s256_u32xn_max(i, o) }),
    ("v_sse41_s256_u8xn_avgr", |i, o| unsafe { v_sse41_s256_u8xn_avgr(i, o) }),
    ("v_sse41_s256_u8x16xn_swizzle", |i, o| unsafe { v_sse41_s256_u8x16xn_swizzle(i, o) }),
    ("v_sse41_s256_u16xn_shl_0", |i, o| unsafe { v_sse41_s256_u16xn_shl_0(i, o) }),
    ("v_sse41_s256_u16xn_shr_0", |i, o| unsafe { v_sse41_s256_u16xn_shr_0(i, o) }),
    ("v_sse41_s256_u32xn_shr_0", |i, o| unsafe { v_sse41_s256_u32xn_shr_0(i, o) }),
    ("v_sse41_s256_u16xn_shl_1", |i, o| unsafe { v_sse41_s256_u16xn_shl_1(i, o) }),
    ("v_sse41_s256_u16xn_shr_1", |i, o| unsafe { v_sse41_s256_u16xn_shr_1(i, o) }),
    ("v_sse41_s256_u32xn_shr_1", |i, o| unsafe { v_sse41_s256_u32xn_shr_1(i, o) }),
    ("v_sse41_s256_u16xn_shl_2", |i, o| unsafe { v_sse41_s256_u16xn_shl_2(i, o) }),
    ("v_sse41_s256_u16xn_shr_2", |i, o| unsafe { v_sse41_s256_u16xn_shr_2(i, o) }),
    ("v_sse41_s256_u32xn_shr_2", |i, o| unsafe { v_sse41_s256_u32xn_shr_2(i, o) }),
    ("v_sse41_s256_u16xn_shl_3", |i, o| unsafe { v_sse41_s256_u16xn_shl_3(i, o) }),
    ("v_sse41_s256_u16xn_shr_3", |i, o| unsafe { v_sse41_s256_u16xn_shr_3(i, o) }),
    ("v_sse41_s256_u32xn_shr_3", |i, o| unsafe { v_sse41_s256_u32xn_shr_3(i, o) }),
    ("v_sse41_s256_u16xn_shl_4", |i, o| unsafe { v_sse41_s256_u16xn_shl_4(i, o) }),
    ("v_sse41_s256_u16xn_shr_4", |i, o| unsafe { v_sse41_s256_u16xn_shr_4(i, o) }),
    ("v_sse41_s256_u32xn_shr_4", |i, o| unsafe { v_sse41_s256_u32xn_shr_4(i, o) }),
    ("v_sse41_s256_u16xn_shl_5", |i, o| unsafe { v_sse41_s256_u16xn_shl_5(i, o) }),
    ("v_sse41_s256_u16xn_shr_5", |i, o| unsafe { v_sse41_s256_u16xn_shr_5(i, o) }),
    ("v_sse41_s256_u32xn_shr_5", |i, o| unsafe { v_sse41_s256_u32xn_shr_5(i, o) }),
    ("v_sse41_s256_u16xn_shl_6", |i, o| unsafe { v_sse41_s256_u16xn_shl_6(i, o) }),
    ("v_sse41_s256_u16xn_shr_6", |i, o| unsafe { v_sse41_s256_u16xn_shr_6(i, o) }),
    ("v_sse41_s256_u32xn_shr_6", |i, o| unsafe { v_sse41_s256_u32xn_shr_6(i, o) }),
    ("v_sse41_s256_u16xn_shl_7", |i, o| unsafe { v_sse41_s256_u16xn_shl_7(i, o) }),
    ("v_sse41_s256_u16xn_shr_7", |i, o| unsafe { v_sse41_s256_u16xn_shr_7(i, o) }),
    ("v_sse41_s256_u32xn_shr_7", |i, o| unsafe { v_sse41_s256_u32xn_shr_7(i, o) }),
    ("v_sse41_s256_u16xn_shl_8", |i, o| unsafe { v_sse41_s256_u16xn_shl_8(i, o) }),
    ("v_sse41_s256_u16xn_shr_8", |i, o| unsafe { v_sse41_s256_u16xn_shr_8(i, o) }),
    ("v_sse41_s256_u32xn_shr_8", |i, o| unsafe { v_sse41_s256_u32xn_shr_8(i, o) }),
    ("v_sse41_s256_u16xn_shl_9", |i, o| unsafe { v_sse41_s256_u16xn_shl_9(i, o) }),
    ("v_sse41_s256_u16xn_shr_9", |i, o| unsafe { v_sse41_s256_u16xn_shr_9(i, o) }),
    ("v_sse41_s256_u32xn_shr_9", |i, o| unsafe { v_sse41_s256_u32xn_shr_9(i, o) }),
    ("v_sse41_s256_u16xn_shl_10", |i, o| unsafe { v_sse41_s256_u16xn_shl_10(i, o) }),
    ("v_sse41_s256_u16xn_shr_10", |i, o| unsafe { v_sse41_s256_u16xn_shr_10(i, o) }),
    ("v_sse41_s256_u32xn_shr_10", |i, o| unsafe { v_sse41_s256_u32xn_shr_10(i, o) }),
    ("v_sse41_s256_u16xn_shl_11", |i, o| unsafe { v_sse41_s256_u16xn_shl_11(i, o) }),
    ("v_sse41_s256_u16xn_shr_11", |i, o| unsafe { v_sse41_s256_u16xn_shr_11(i, o) }),
    ("v_sse41_s256_u32xn_shr_11", |i, o| unsafe { v_sse41_s256_u32xn_shr_11(i, o) }),
    ("v_sse41_s256_u16xn_shl_12", |i, o| unsafe { v_sse41_s256_u16xn_shl_12(i, o) }),
    ("v_sse41_s256_u16xn_shr_12", |i, o| unsafe { v_sse41_s256_u16xn_shr_12(i, o) }),
    ("v_sse41_s256_u32xn_shr_12", |i, o| unsafe { v_sse41_s256_u32xn_shr_12(i, o) }),
    ("v_sse41_s256_u16xn_shl_13", |i, o| unsafe { v_sse41_s256_u16xn_shl_13(i, o) }),
    ("v_sse41_s256_u16xn_shr_13", |i, o| unsafe { v_sse41_s256_u16xn_shr_13(i, o) }),
    ("v_sse41_s256_u32xn_shr_13", |i, o| unsafe { v_sse41_s256_u32xn_shr_13(i, o) }),
    ("v_sse41_s256_u16xn_shl_14", |i, o| unsafe { v_sse41_s256_u16xn_shl_14(i, o) }),
    ("v_sse41_s256_u16xn_shr_14", |i, o| unsafe { v_sse41_s256_u16xn_shr_14(i, o) }),
    ("v_sse41_s256_u32xn_shr_14", |i, o| unsafe { v_sse41_s256_u32xn_shr_14(i, o) }),
    ("v_sse41_s256_u16xn_shl_15", |i, o| unsafe { v_sse41_s256_u16xn_shl_15(i, o) }),
    ("v_sse41_s256_u16xn_shr_15", |i, o| unsafe { v_sse41_s256_u16xn_shr_15(i, o) }),
    ("v_sse41_s256_u32xn_shr_15", |i, o| unsafe { v_sse41_s256_u32xn_shr_15(i, o) }),
    ("v_sse41_s256_u32xn_shr_16", |i, o| unsafe { v_sse41_s256_u32xn_shr_16(i, o) }),
    ("v_sse41_s256_u32xn_shr_17", |i, o| unsafe { v_sse41_s256_u32xn_shr_17(i, o) }),
    ("v_sse41_s256_u32xn_shr_18", |i, o| unsafe { v_sse41_s256_u32xn_shr_18(i, o) }),
    ("v_sse41_s256_u32xn_shr_19", |i, o| unsafe { v_sse41_s256_u32xn_shr_19(i, o) }),
    ("v_sse41_s256_u32xn_shr_20", |i, o| unsafe { v_sse41_s256_u32xn_shr_20(i, o) }),
    ("v_sse41_s256_u32xn_shr_21", |i, o| unsafe { v_sse41_s256_u32xn_shr_21(i, o) }),
    ("v_sse41_s256_u32xn_shr_22", |i, o| unsafe { v_sse41_s256_u32xn_shr_22(i, o) }),
    ("v_sse41_s256_u32xn_shr_23", |i, o| unsafe { v_sse41_s256_u32xn_shr_23(i, o) }),
    ("v_sse41_s256_u32xn_shr_24", |i, o| unsafe { v_sse41_s256_u32xn_shr_24(i, o) }),
    ("v_sse41_s256_u32xn_shr_25", |i, o| unsafe { v_sse41_s256_u32xn_shr_25(i, o) }),
    ("v_sse41_s256_u32xn_shr_26", |i, o| unsafe { v_sse41_s256_u32xn_shr_26(i, o) }),
    ("v_sse41_s256_u32xn_shr_27", |i, o| unsafe { v_sse41_s256_u32xn_shr_27(i, o) }),
    ("v_sse41_s256_u32xn_shr_28", |i, o| unsafe { v_sse41_s256_u32xn_shr_28(i, o) }),
    ("v_sse41_s256_u32xn_shr_29", |i, o| unsafe { v_sse41_s256_u32xn_shr_29(i, o) }),
    ("v_sse41_s256_u32xn_shr_30", |i, o| unsafe { v_sse41_s256_u32xn_shr_30(i, o) }),
    ("v_sse41_s256_u32xn_shr_31", |i, o| unsafe { v_sse41_s256_u32xn_shr_31(i, o) }),
    ("v_sse41_s256_u16xn_bswap", |i, o| unsafe { v_sse41_s256_u16xn_bswap(i, o) }),
    ("v_sse41_s256_u32xn_bswap", |i, o| unsafe { v_sse41_s256_u32xn_bswap(i, o) }),
    ("v_sse41_s256_u64xn_bswap", |i, o| unsafe { v_sse41_s256_u64xn_bswap(i, o) }),
    ("v_sse41_s256_all_zero", |i, o| unsafe { v_sse41_s256_all_zero(i, o) }),
    ("v_sse41_s256_mask8xn_all", |i, o| unsafe { v_sse41_s256_mask8xn_all(i, o) }),
    ("v_sse41_s256_mask8xn_any", |i, o| unsafe { v_sse41_s256_mask8xn_any(i, o) }),
    ("v_sse41_s256_u8xn_highbit_all", |i, o| unsafe { v_sse41_s256_u8xn_highbit_all(i, o) }),
    ("v_sse41_s256_u8xn_highbit_any", |i, o| unsafe { v_sse41_s256_u8xn_highbit_any(i, o) }),
    ("v_sse41_f_mask8x32_all", |i, o| unsafe { v_sse41_f_mask8x32_all(i, o) }),
    ("v_sse41_f_mask8x32_any", |i, o| unsafe { v_sse41_f_mask8x32_any(i, o) }),
    ("v_sse41_f_u8x32_highbit_all", |i, o| unsafe { v_sse41_f_u8x32_highbit_all(i, o) }),
    ("v_sse41_f_u8x32_highbit_any", |i, o| unsafe { v_sse41_f_u8x32_highbit_any(i, o) }),
    ("v_sse41_s256_lookup", |i, o| unsafe { v_sse41_s256_lookup(i, o) }),
    ("v_sse41_s256_to_ascii_lowercase", |i, o| unsafe { v_sse41_s256_to_ascii_lowercase(i, o) }),
    ("v_sse41_s256_to_ascii_uppercase", |i, o| unsafe { v_sse41_s256_to_ascii_uppercase(i, o) }),
    ("v_sse41_s256_hex_check", |i, o| unsafe { v_sse41_s256_hex_check(i, o) }),
    ("v_sse41_s256_alsw_check", |i, o| unsafe { v_sse41_s256_alsw_check(i, o) }),
    ("v_sse41_s256_alsw_decode", |i, o| unsafe { v_sse41_s256_alsw_decode(i, o) }),
    ("v_sse41_hex_encode16_lower", |i, o| unsafe { v_sse41_hex_encode16_lower(i, o) }),
    ("v_sse41_hex_encode32_lower", |i, o| unsafe { v_sse41_hex_encode32_lower(i, o) }),
    ("v_sse41_hex_encode16_upper", |i, o| unsafe { v_sse41_hex_encode16_upper(i, o) }),
    ("v_sse41_hex_encode32_upper", |i, o| unsafe { v_sse41_hex_encode32_upper(i, o) }),
    ("v_sse41_hex_decode16", |i, o| unsafe { v_sse41_hex_decode16(i, o) }),
    ("v_sse41_hex_decode32", |i, o| unsafe { v_sse41_hex_decode32(i, o) }),
    ("v_sse41_hex_decode32x2", |i, o| unsafe { v_sse41_hex_decode32x2(i, o) }),
    ("v_avx2_v128_load", |i, o| unsafe { v_avx2_v128_load(i, o) }),
    ("v_avx2_v128_load_unaligned", |i, o| unsafe { v_avx2_v128_load_unaligned(i, o) }),
    ("v_avx2_v128_store", |i, o| unsafe { v_avx2_v128_store(i, o) }),
    ("v_avx2_v128_store_unaligned", |i, o| unsafe { v_avx2_v128_store_unaligned(i, o) }),
    ("v_avx2_v128_create_zero", |i, o| unsafe { v_avx2_v128_create_zero(i, o) }),
    ("v_avx2_v128_not", |i, o| unsafe { v_avx2_v128_not(i, o) }),
    ("v_avx2_v128_and", |i, o| unsafe { v_avx2_v128_and(i, o) }),
    ("v_avx2_v128_or", |i, o| unsafe { v_avx2_v128_or(i, o) }),
    ("v_avx2_v128_xor", |i, o| unsafe { v_avx2_v128_xor(i, o) }),
    ("v_avx2_v128_andnot", |i, o| unsafe { v_avx2_v128_andnot(i, o) }),
    ("v_avx2_v128_all_zero", |i, o| unsafe { v_avx2_v128_all_zero(i, o) }),
    ("v_avx2_u8x16_splat", |i, o| unsafe { v_avx2_u8x16_splat(i, o) }),
    ("v_avx2_u16x8_splat", |i, o| unsafe { v_avx2_u16x8_splat(i, o) }),
    ("v_avx2_u32x4_splat", |i, o| unsafe { v_avx2_u32x4_splat(i, o) }),
    ("v_avx2_u64x2_splat", |i, o| unsafe { v_avx2_u64x2_splat(i, o) }),
    ("v_avx2_i8x16_splat", |i, o| unsafe { v_avx2_i8x16_splat(i, o) }),
    ("v_avx2_i16x8_splat", |i, o| unsafe { v_avx2_i16x8_splat(i, o) }),
    ("v_avx2_i32x4_splat", |i, o| unsafe { v_avx2_i32x4_splat(i, o) }),
    ("v_avx2_i64x2_splat", |i, o| unsafe { v_avx2_i64x2_splat(i, o) }),
    ("v_avx2_u8x16_add", |i, o| unsafe { v_avx2_u8x16_add(i, o) }),
    ("v_avx2_u8x16_sub", |i, o| unsafe { v_avx2_u8x16_sub(i, o) }),
    ("v_avx2_u16x8_add", |i, o| unsafe { v_avx2_u16x8_add(i, o) }),
    ("v_avx2_u16x8_sub", |i, o| unsafe { v_avx2_u16x8_sub(i, o) }),
    ("v_avx2_u32x4_add", |i, o| unsafe { v_avx2_u32x4_add(i, o) }),
    ("v_avx2_u32x4_sub", |i, o| unsafe { v_avx2_u32x4_sub(i, o) }),
    ("v_avx2_u64x2_add", |i, o| unsafe { v_avx2_u64x2_add(i, o) }),
    ("v_avx2_u64x2_sub", |i, o| unsafe { v_avx2_u64x2_sub(i, o) }),
    ("v_avx2_u8x16_sub_sat", |i, o| unsafe { v_avx2_u8x16_sub_sat(i, o) }),
    ("v_avx2_i8x16_sub_sat", |i, o| unsafe { v_avx2_i8x16_sub_sat(i, o) }),
    ("v_avx2_u16x8_sub_sat", |i, o| unsafe { v_avx2_u16x8_sub_sat(i, o) }),
    ("v_avx2_i16x8_sub_sat", |i, o| unsafe { v_avx2_i16x8_sub_sat(i, o) }),
    ("v_avx2_u8x16_add_sat", |i, o| unsafe { v_avx2_u8x16_add_sat(i, o) }),
    ("v_avx2_i8x16_add_sat", |i, o| unsafe { v_avx2_i8x16_add_sat(i, o) }),
    ("v_avx2_i16x8_mul_lo", |i, o| unsafe { v_avx2_i16x8_mul_lo(i, o) }),
    ("v_avx2_i32x4_mul_lo", |i, o| unsafe { v_avx2_i32x4_mul_lo(i, o) }),
    ("v_avx2_u16x8_mul_hi", |i, o| unsafe { v_avx2_u16x8_mul_hi(i, o) }),
    ("v_avx2_i16x8_mul_hi", |i, o| unsafe { v_avx2_i16x8_mul_hi(i, o) }),
    ("v_avx2_i16x8_maddubs", |i, o| unsafe { v_avx2_i16x8_maddubs(i, o) }),
    ("v_avx2_i16x8_madd", |i, o| unsafe { v_avx2_i16x8_madd(i, o) }),
    ("v_avx2_u8x16_avgr", |i, o| unsafe { v_avx2_u8x16_avgr(i, o) }),
    ("v_avx2_u16x8_shl_0", |i, o| unsafe { v_avx2_u16x8_shl_0(i, o) }),
    ("v_avx2_u16x8_shr_0", |i, o| unsafe { v_avx2_u16x8_shr_0(i, o) }),
    ("v_avx2_u16x8_shl_1", |i, o| unsafe { v_avx2_u16x8_shl_1(i, o) }),
    ("v_avx2_u16x8_shr_1", |i, o| unsafe { v_avx2_u16x8_shr_1(i, o) }),
    ("v_avx2_u16x8_shl_2", |i, o| unsafe { v_avx2_u16x8_shl_2(i, o) }),
    ("v_avx2_u16x8_shr_2", |i, o| unsafe { v_avx2_u16x8_shr_2(i, o) }),
    ("v_avx2_u16x8_shl_3", |i, o| unsafe { v_avx2_u16x8_shl_3(i, o) }),
    ("v_avx2_u16x8_shr_3", |i, o| unsafe { v_avx2_u16x8_shr_3(i, o) }),
    ("v_avx2_u16x8_shl_4", |i, o| unsafe { v_avx2_u16x8_shl_4(i, o) }),
    ("v_avx2_u16x8_shr_4", |i, o| unsafe { v_avx2_u16x8_shr_4(i, o) }),
    ("v_avx2_u16x8_shl_5", |i, o| unsafe { v_avx2_u16x8_shl_5(i, o) }),
    ("v_avx2_u16x8_shr_5", |i, o| unsafe { v_avx2_u16x8_shr_5(i, o) }),
    ("v_avx2_u16x8_shl_6", |i, o| unsafe { v_avx2_u16x8_shl_6(i, o) }),
    ("v_avx2_u16x8_shr_6", |i, o| unsafe { v_avx2_u16x8_shr_6(i, o) }),
    ("v_avx2_u16x8_shl_7", |i, o| unsafe { v_avx2_u16x8_shl_7(i, o) }),
    ("v_avx2_u16x8_shr_7", |i, o| unsafe { v_avx2_u16x8_shr_7(i, o) }),
    ("v_avx2_u16x8_shl_8", |i, o| unsafe { v_avx2_u16x8_shl_8(i, o) }),
    ("v_avx2_u16x8_shr_8", |i, o| unsafe { v_avx2_u16x8_shr_8(i, o) }),
    ("v_avx2_u16x8_shl_9", |i, o| unsafe { v_avx2_u16x8_shl_9(i, o) }),
    ("v_avx2_u16x8_shr_9", |i, o| unsafe { v_avx2_u16x8_shr_9(i, o) }),
    ("v_avx2_u16x8_shl_10", |i, o| unsafe { v_avx2_u16x8_shl_10(i, o) }),
    ("v_avx2_u16x8_shr_10", |i, o| unsafe { v_avx2_u16x8_shr_10(i, o) }),
    ("v_avx2_u16x8_shl_11", |i, o| unsafe { v_avx2_u16x8_shl_11(i, o) }),
    ("v_avx2_u16x8_shr_11", |i, o| unsafe { v_avx2_u16x8_shr_11(i, o) }),
    ("v_avx2_u16x8_shl_12", |i, o| unsafe { v_avx2_u16x8_shl_12(i, o) }),
    ("v_avx2_u16x8_shr_12", |i, o| unsafe { v_avx2_u16x8_shr_12(i, o) }),
    ("v_avx2_u16x8_shl_13", |i, o| unsafe { v_avx2_u16x8_shl_13(i, o) }),
    ("v_avx2_u16x8_shr_13", |i, o| unsafe { v_avx2_u16x8_shr_13(i, o) }),
    ("v_avx2_u16x8_shl_14", |i, o| unsafe { v_avx2_u16x8_shl_14(i, o) }),
    ("v_avx2_u16x8_shr_14", |i, o| unsafe { v_avx2_u16x8_shr_14(i, o) }),
    ("v_avx2_u16x8_shl_15", |i, o| unsafe { v_avx2_u16x8_shl_15(i, o) }),
    ("v_avx2_u16x8_shr_15", |i, o| unsafe { v_avx2_u16x8_shr_15(i, o) }),
    ("v_avx2_u32x4_shl_0", |i, o| unsafe { v_avx2_u32x4_shl_0(i, o) }),
    ("v_avx2_u32x4_shr_0", |i, o| unsafe { v_avx2_u32x4_shr_0(i, o) }),
    ("v_avx2_u32x4_shl_1", |i, o| unsafe { v_avx2_u32x4_shl_1(i, o) }),
    ("v_avx2_u32x4_shr_1", |i, o| unsafe { v_avx2_u32x4_shr_1(i, o) }),
    ("v_avx2_u32x4_shl_2", |i, o| unsafe { v_avx2_u32x4_shl_2(i, o) }),
    ("v_avx2_u32x4_shr_2", |i, o| unsafe { v_avx2_u32x4_shr_2(i, o) }),
    ("v_avx2_u32x4_shl_3", |i, o| unsafe { v_avx2_u32x4_shl_3(i, o) }),
    ("v_avx2_u32x4_shr_3", |i, o| unsafe { v_avx2_u32x4_shr_3(i, o) }),
    ("v_avx2_u32x4_shl_4", |i, o| unsafe { v_avx2_u32x4_shl_4(i, o) }),
    ("v_avx2_u32x4_shr_4", |i, o| unsafe { v_avx2_u32x4_shr_4(i, o) }),
    ("v_avx2_u32x4_shl_5", |i, o| unsafe { v_avx2_u32x4_shl_5(i, o) }),
    ("v_avx2_u32x4_shr_5", |i, o| unsafe { v_avx2_u32x4_shr_5(i, o) }),
    ("v_avx2_u32x4_shl_6", |i, o| unsafe { v_avx2_u32x4_shl_6(i, o) }),
    ("v_avx2_u32x4_shr_6", |i, o| unsafe { v_avx2_u32x4_shr_6(i, o) }),
    ("v_avx2_u32x4_shl_7", |i, o| unsafe { v_avx2_u32x4_shl_7(i, o) }),
    ("v_avx2_u32x4_shr_7", |i, o| unsafe { v_avx2_u32x4_shr_7(i, o) }),
    ("v_avx2_u32x4_shl_8", |i, o| unsafe { v_avx2_u32x4_shl_8(i, o) }),
    ("v_avx2_u32x4_shr_8", |i, o| unsafe { v_avx2_u32x4_shr_8(i, o) }),
    ("v_avx2_u32x4_shl_9", |i, o| unsafe { v_avx2_u32x4_shl_9(i, o) }),
    ("v_avx2_u32x4_shr_9", |i, o| unsafe { v_avx2_u32x4_shr_9(i, o) }),
    ("v_avx2_u32x4_shl_10", |i, o| unsafe { v_avx2_u32x4_shl_10(i, o) }),
    ("v_avx2_u32x4_shr_10", |i, o| unsafe { v_avx2_u32x4_shr_10(i, o) }),
    ("v_avx2_u32x4_shl_11", |i, o| unsafe { v_avx2_u32x4_shl_11(i, o) }),
    ("v_avx2_u32x4_shr_11", |i, o| unsafe { v_avx2_u32x4_shr_11(i, o) }),
    ("v_avx2_u32x4_shl_12", |i, o| unsafe { v_avx2_u32x4_shl_12(i, o) }),
    ("v_avx2_u32x4_shr_12", |i, o| unsafe { v_avx2_u32x4_shr_12(i, o) }),
    ("v_avx2_u32x4_shl_13", |i, o| unsafe { v_avx2_u32x4_shl_13(i, o) }),
    ("v_avx2_u32x4_shr_13", |i, o| unsafe { v_avx2_u32x4_shr_13(i, o) }),
    ("v_avx2_u32x4_shl_14", |i, o| unsafe { v_avx2_u32x4_shl_14(i, o) }),
    ("v_avx2_u32x4_shr_14", |i, o| unsafe { v_avx2_u32x4_shr_14(i, o) }),
    ("v_avx2_u32x4_shl_15", |i, o| unsafe { v_avx2_u32x4_shl_15(i, o) }),
    ("v_avx2_u32x4_shr_15", |i, o| unsafe { v_avx2_u32x4_shr_15(i, o) }),
    ("v_avx2_u32x4_shl_16", |i, o| unsafe { v_avx2_u32x4_shl_16(i, o) }),
    ("v_avx2_u32x4_shr_16", |i, o| unsafe { v_avx2_u32x4_shr_16(i, o) }),
    ("v_avx2_u32x4_shl_17", |i, o| unsafe { v_avx2_u32x4_shl_17(i, o) }),
    ("v_avx2_u32x4_shr_17", |i, o| unsafe { v_avx2_u32x4_shr_17(i, o) }),
    ("v_avx2_u32x4_shl_18", |i, o| unsafe { v_avx2_u32x4_shl_18(i, o) }),
    ("v_avx2_u32x4_shr_18", |i, o| unsafe { v_avx2_u32x4_shr_18(i, o) }),
    ("v_avx2_u32x4_shl_19", |i, o| unsafe { v_avx2_u32x4_shl_19(i, o) }),
    ("v_avx2_u32x4_shr_19", |i, o| unsafe { v_avx2_u32x4_shr_19(i, o) }),
    ("v_avx2_u32x4_shl_20", |i, o| unsafe { v_avx2_u32x4_shl_20(i, o) }),
    ("v_avx2_u32x4_shr_20", |i, o| unsafe { v_avx2_u32x4_shr_20(i, o) }),
    ("v_avx2_u32x4_shl_21", |i, o| unsafe { v_avx2_u32x4_shl_21(i, o) }),
    ("v_avx2_u32x4_shr_21", |i, o| unsafe { v_avx2_u32x4_shr_21(i, o) }),
    ("v_avx2_u32x4_shl_22", |i, o| unsafe { v_avx2_u32x4_shl_22(i, o) }),
    ("v_avx2_u32x4_shr_22", |i, o| unsafe { v_avx2_u32x4_shr_22(i, o) }),
    ("v_avx2_u32x4_shl_23", |i, o| unsafe { v_avx2_u32x4_shl_23(i, o) }),
    ("v_avx2_u32x4_shr_23", |i, o| unsafe { v_avx2_u32x4_shr_23(i, o) }),
    ("v_avx2_u32x4_shl_24", |i, o| unsafe { v_avx2_u32x4_shl_24(i, o) }),
    ("v_avx2_u32x4_shr_24", |i, o| unsafe { v_avx2_u32x4_shr_24(i, o) }),
    ("v_avx2_u32x4_shl_25", |i, o| unsafe { v_avx2_u32x4_shl_25(i, o) }),
    ("v_avx2_u32x4_shr_25", |i, o| unsafe { v_avx2_u32x4_shr_25(i, o) }),
    ("v_avx2_u32x4_shl_26", |i, o| unsafe { v_avx2_u32x4_shl_26(i, o) }),
    ("v_avx2_u32x4_shr_26", |i, o| unsafe { v_avx2_u32x4_shr_26(i, o) }),
    ("v_avx2_u32x4_shl_27", |i, o| unsafe { v_avx2_u32x4_shl_27(i, o) }),
    ("v_avx2_u32x4_shr_27", |i, o| unsafe { v_avx2_u32x4_shr_27(i, o) }),
    ("v_avx2_u32x4_shl_28", |i, o| unsafe { v_avx2_u32x4_shl_28(i, o) }),
    ("v_avx2_u32x4_shr_28", |i, o| unsafe { v_avx2_u32x4_shr_28(i, o) }),
    ("v_avx2_u32x4_shl_29", |i, o| unsafe { v_avx2_u32x4_shl_29(i, o) }),
    ("v_avx2_u32x4_shr_29", |i, o| unsafe { v_avx2_u32x4_shr_29(i, o) }),
    ("v_avx2_u32x4_shl_30", |i, o| unsafe { v_avx2_u32x4_shl_30(i, o) }),
    ("v_avx2_u32x4_shr_30", |i, o| unsafe { v_avx2_u32x4_shr_30(i, o) }),
    ("v_avx2_u32x4_shl_31", |i, o| unsafe { v_avx2_u32x4_shl_31(i, o) }),
    ("v_avx2_u32x4_shr_31", |i, o| unsafe { v_avx2_u32x4_shr_31(i, o) }),
    ("v_avx2_u8x16_eq", |i, o| unsafe { v_avx2_u8x16_eq(i, o) }),
    ("v_avx2_u8x16_lt", |i, o| unsafe { v_avx2_u8x16_lt(i, o) }),
    ("v_avx2_u8x16_max", |i, o| unsafe { v_avx2_u8x16_max(i, o) }),
    ("v_avx2_u8x16_min", |i, o| unsafe { v_avx2_u8x16_min(i, o) }),
    ("v_avx2_i8x16_lt", |i, o| unsafe { v_avx2_i8x16_lt(i, o) }),
    ("v_avx2_i8x16_max", |i, o| unsafe { v_avx2_i8x16_max(i, o) }),
    ("v_avx2_i8x16_min", |i, o| unsafe { v_avx2_i8x16_min(i, o) }),
    ("v_avx2_u16x8_eq", |i, o| unsafe { v_avx2_u16x8_eq(i, o) }),
    ("v_avx2_u16x8_lt", |i, o| unsafe { v_avx2_u16x8_lt(i, o) }),
    ("v_avx2_u16x8_max", |i, o| unsafe { v_avx2_u16x8_max(i, o) }),
    ("v_avx2_u16x8_min", |i, o| unsafe { v_avx2_u16x8_min(i, o) }),
    ("v_avx2_i16x8_lt", |i, o| unsafe { v_avx2_i16x8_lt(i, o) }),
    ("v_avx2_i16x8_max", |i, o| unsafe { v_avx2_i16x8_max(i, o) }),
    ("v_avx2_i16x8_min", |i, o| unsafe { v_avx2_i16x8_min(i, o) }),
    ("v_avx2_u32x4_eq", |i, o| unsafe { v_avx2_u32x4_eq(i, o) }),
    ("v_avx2_u32x4_lt", |i, o| unsafe { v_avx2_u32x4_lt(i, o) }),
    ("v_avx2_u32x4_max", |i, o| unsafe { v_avx2_u32x4_max(i, o) }),
    ("v_avx2_u32x4_min", |i, o| unsafe { v_avx2_u32x4_min(i, o) }),
    ("v_avx2_i32x4_lt", |i, o| unsafe { v_avx2_i32x4_lt(i, o) }),
    ("v_avx2_i32x4_max", |i, o| unsafe { v_avx2_i32x4_max(i, o) }),
    ("v_avx2_i32x4_min", |i, o| unsafe { v_avx2_i32x4_min(i, o) }),
    ("v_avx2_u8x16_swizzle", |i, o| unsafe { v_avx2_u8x16_swizzle(i, o) }),
    ("v_avx2_u16x8_bswap", |i, o| unsafe { v_avx2_u16x8_bswap(i, o) }),
    ("v_avx2_u32x4_bswap", |i, o| unsafe { v_avx2_u32x4_bswap(i, o) }),
    ("v_avx2_u64x2_bswap", |i, o| unsafe { v_avx2_u64x2_bswap(i, o) }),
    ("v_avx2_u8x16_any_zero", |i, o| unsafe { v_avx2_u8x16_any_zero(i, o) }),
    ("v_avx2_u8x16_bitmask", |i, o| unsafe { v_avx2_u8x16_bitmask(i, o) }),
    ("v_avx2_v128_bsl", |i, o| unsafe { v_avx2_v128_bsl(i, o) }),
    ("v_avx2_u8x16_blendv", |i, o| unsafe { v_avx2_u8x16_blendv(i, o) }),
    ("v_avx2_u8x16_zip_lo", |i, o| unsafe { v_avx2_u8x16_zip_lo(i, o) }),
    ("v_avx2_u8x16_zip_hi", |i, o| unsafe { v_avx2_u8x16_zip_hi(i, o) }),
    ("v_avx2_u16x8_zip_lo", |i, o| unsafe { v_avx2_u16x8_zip_lo(i, o) }),
    ("v_avx2_u16x8_zip_hi", |i, o| unsafe { v_avx2_u16x8_zip_hi(i, o) }),
    ("v_avx2_u32x4_zip_lo", |i, o| unsafe { v_avx2_u32x4_zip_lo(i, o) }),
    ("v_avx2_u32x4_zip_hi", |i, o| unsafe { v_avx2_u32x4_zip_hi(i, o) }),
    ("v_avx2_u64x2_zip_lo", |i, o| unsafe { v_avx2_u64x2_zip_lo(i, o) }),
    ("v_avx2_u64x2_zip_hi", |i, o| unsafe { v_avx2_u64x2_zip_hi(i, o) }),
    ("v_avx2_v256_load", |i, o| unsafe { v_avx2_v256_load(i, o) }),
    ("v_avx2_v256_load_unaligned", |i, o| unsafe { v_avx2_v256_load_unaligned(i, o) }),
    ("v_avx2_v256_store", |i, o| unsafe { v_avx2_v256_store(i, o) }),
    ("v_avx2_v256_store_unaligned", |i, o| unsafe { v_avx2_v256_store_unaligned(i, o) }),
    ("v_avx2_v256_create_zero", |i, o| unsafe { v_avx2_v256_create_zero(i, o) }),
    ("v_avx2_v256_not", |i, o| unsafe { v_avx2_v256_not(i, o) }),
    ("v_avx2_v256_and", |i, o| unsafe { v_avx2_v256_and(i, o) }),
    ("v_avx2_v256_or", |i, o| unsafe { v_avx2_v256_or(i, o) }),
    ("v_avx2_v256_xor", |i, o| unsafe { v_avx2_v256_xor(i, o) }),
    ("v_avx2_v256_andnot", |i, o| unsafe { v_avx2_v256_andnot(i, o) }),
    ("v_avx2_v256_all_zero", |i, o| unsafe { v_avx2_v256_all_zero(i, o) }),
    ("v_avx2_u8x32_splat", |i, o| unsafe { v_avx2_u8x32_splat(i, o) }),
    ("v_avx2_u16x16_splat", |i, o| unsafe { v_avx2_u16x16_splat(i, o) }),
    ("v_avx2_u32x8_splat", |i, o| unsafe { v_avx2_u32x8_splat(i, o) }),
    ("v_avx2_u64x4_splat", |i, o| unsafe { v_avx2_u64x4_splat(i, o) }),
    ("v_avx2_i8x32_splat", |i, o| unsafe { v_avx2_i8x32_splat(i, o) }),
    ("v_avx2_i16x16_splat", |i, o| unsafe { v_avx2_i16x16_splat(i, o) }),
    ("v_avx2_i32x8_splat", |i, o| unsafe { v_avx2_i32x8_splat(i, o) }),
    ("v_avx2_i64x4_splat", |i, o| unsafe { v_avx2_i64x4_splat(i, o) }),
    ("v_avx2_u8x32_add", |i, o| unsafe { v_avx2_u8x32_add(i, o) }),
    ("v_avx2_u8x32_sub", |i, o| unsafe { v_avx2_u8x32_sub(i, o) }),
    ("v_avx2_u16x16_add", |i, o| unsafe { v_avx2_u16x16_add(i, o) }),
    ("v_avx2_u16x16_sub", |i, o| unsafe { v_avx2_u16x16_sub(i, o) }),
    ("v_avx2_u32x8_add", |i, o| unsafe { v_avx2_u32x8_add(i, o) }),
    ("v_avx2_u32x8_sub", |i, o| unsafe { v_avx2_u32x8_sub(i, o) }),
    ("v_avx2_u64x4_add", |i, o| unsafe { v_avx2_u64x4_add(i, o) }),
    ("v_avx2_u64x4_sub", |i, o| unsafe { v_avx2_u64x4_sub(i, o) }),
    ("v_avx2_u8x32_sub_sat", |i, o| unsafe { v_avx2_u8x32_sub_sat(i, o) }),
    ("v_avx2_i8x32_sub_sat", |i, o| unsafe { v_avx2_i8x32_sub_sat(i, o) }),
    ("v_avx2_u16x16_sub_sat", |i, o| unsafe { v_avx2_u16x16_sub_sat(i, o) }),
    ("v_avx2_i16x16_sub_sat", |i, o| unsafe { v_avx2_i16x16_sub_sat(i, o) }),
    ("v_avx2_u8x32_add_sat", |i, o| unsafe { v_avx2_u8x32_add_sat(i, o) }),
    ("v_avx2_i8x32_add_sat", |i, o| unsafe { v_avx2_i8x32_add_sat(i, o) }),
    ("v_avx2_i16x16_mul_lo", |i, o| unsafe { v_avx2_i16x16_mul_lo(i, o) }),
    ("v_avx2_i32x8_mul_lo", |i, o| unsafe { v_avx2_i32x8_mul_lo(i, o) }),
    ("v_avx2_u16x16_mul_hi", |i, o| unsafe { v_avx2_u16x16_mul_hi(i, o) }),
    ("v_avx2_i16x16_mul_hi", |i, o| unsafe { v_avx2_i16x16_mul_hi(i, o) }),
    ("v_avx2_i16x16_maddubs", |i, o| unsafe { v_avx2_i16x16_maddubs(i, o) }),
    ("v_avx2_i16x16_madd", |i, o| unsafe { v_avx2_i16x16_madd(i, o) }),
    ("v_avx2_u8x32_avgr", |i, o| unsafe { v_avx2_u8x32_avgr(i, o) }),
    ("v_avx2_u16x16_shl_0", |i, o| unsafe { v_avx2_u16x16_shl_0(i, o) }),
    ("v_avx2_u16x16_shr_0", |i, o| unsafe { v_avx2_u16x16_shr_0(i, o) }),
    ("v_avx2_u16x16_shl_1", |i, o| unsafe { v_avx2_u16x16_shl_1(i, o) }),
    ("v_avx2_u16x16_shr_1", |i, o| unsafe { v_avx2_u16x16_shr_1(i, o) }),
    ("v_avx2_u16x16_shl_2", |i, o| unsafe { v_avx2_u16x16_shl_2(i, o) }),
    ("v_avx2_u16x16_shr_2", |i, o| unsafe { v_avx2_u16x16_shr_2(i, o) }),
    ("v_avx2_u16x16_shl_3", |i, o| unsafe { v_avx2_u16x16_shl_3(i, o) }),
    ("v_avx2_u16x16_shr_3", |i, o| unsafe { v_avx2_u16x16_shr_3(i, o) }),
    ("v_avx2_u16x16_shl_4", |i, o| unsafe { v_avx2_u16x16_shl_4(i, o) }),
    ("v_avx2_u16x16_shr_4", |i, o| unsafe { v_avx2_u16x16_shr_4(i, o) }),
    ("v_avx2_u16x16_shl_5", |i, o| unsafe { v_avx2_u16x16_shl_5(i, o) }),
    ("v_avx2_u16x16_shr_5", |i, o| unsafe { v_avx2_u16x16_shr_5(i, o) }),
    ("v_avx2_u16x16_shl_6", |i, o| unsafe { v_avx2_u16x16_shl_6(i, o) }),
    ("v_avx2_u16x16_shr_6", |i, o| unsafe { v_avx2_u16x16_shr_6(i, o) }),
    ("v_avx2_u16x16_shl_7", |i, o| unsafe { v_avx2_u16x16_shl_7(i, o) }),
    ("v_avx2_u16x16_shr_7", |i, o| unsafe { v_avx2_u16x16_shr_7(i, o) }),
    ("v_avx2_u16x16_shl_8", |i, o| unsafe { v_avx2_u16x16_shl_8(i, o) }),
    ("v_avx2_u16x16_shr_8", |i, o| unsafe { v_avx2_u16x16_shr_8(i, o) }),
    ("v_avx2_u16x16_shl_9", |i, o| unsafe { v_avx2_u16x16_shl_9(i, o) }),
    ("v_avx2_u16x16_shr_9", |i, o| unsafe { v_avx2_u16x16_shr_9(i, o) }),
    ("v_avx2_u16x16_shl_10", |i, o| unsafe { v_avx2_u16x16_shl_10(i, o) }),
    ("v_avx2_u16x16_shr_10", |i, o| unsafe { v_avx2_u16x16_shr_10(i, o) }),
    ("v_avx2_u16x16_shl_11", |i, o| unsafe { v_avx2_u16x16_shl_11(i, o) }),
    ("v_avx2_u16x16_shr_11", |i, o| unsafe { v_avx2_u16x16_shr_11(i, o) }),
    ("v_avx2_u16x16_shl_12", |i, o| unsafe { v_avx2_u16x16_shl_12(i, o) }),
    ("v_avx2_u16x16_shr_12", |i, o| unsafe { v_avx2_u16x16_shr_12(i, o) }),
    ("v_avx2_u16x16_shl_13", |i, o| unsafe { v_avx2_u16x16_shl_13(i, o) }),
    ("v_avx2_u16x16_shr_13", |i, o| unsafe { v_avx2_u16x16_shr_13(i, o) }),
    ("v_avx2_u16x16_shl_14", |i, o| unsafe { v_avx2_u16x16_shl_14(i, o) }),
    ("v_avx2_u16x16_shr_14", |i, o| unsafe { v_avx2_u16x16_shr_14(i, o) }),
    ("v_avx2_u16x16_shl_15", |i, o| unsafe { v_avx2_u16x16_shl_15(i, o) }),
    ("v_avx2_u16x16_shr_15", |i, o| unsafe { v_avx2_u16x16_shr_15(i, o) }),
    ("v_avx2_u32x8_shl_0", |i, o| unsafe { v_avx2_u32x8_shl_0(i, o) }),
    ("v_avx2_u32x8_shr_0", |i, o| unsafe { v_avx2_u32x8_shr_0(i, o) }),
    ("v_avx2_u32x8_shl_1", |i, o| unsafe { v_avx2_u32x8_shl_1(i, o) }),
    ("v_avx2_u32x8_shr_1", |i, o| unsafe { v_avx2_u32x8_shr_1(i, o) }),
    ("v_avx2_u32x8_shl_2", |i, o| unsafe { v_avx2_u32x8_shl_2(i, o) }),
    ("v_avx2_u32x8_shr_2", |i, o| unsafe { v_avx2_u32x8_shr_2(i, o) }),
    ("v_avx2_u32x8_shl_3", |i, o| unsafe { v_avx2_u32x8_shl_3(i, o) }),
    ("v_avx2_u32x8_shr_3", |i, o| unsafe { v_avx2_u32x8_shr_3(i, o) }),
    ("v_avx2_u32x8_shl_4", |i, o| unsafe { v_avx2_u32x8_shl_4(i, o) }),
    ("v_avx2_u32x8_shr_4", |i, o| unsafe { v_avx2_u32x8_shr_4(i, o) }),
    ("v_avx2_u32x8_shl_5", |i, o| unsafe { v_avx2_u32x8_shl_5(i, o) }),
    ("v_avx2_u32x8_shr_5", |i, o| unsafe { v_avx2_u32x8_shr_5(i, o) }),
    ("v_avx2_u32x8_shl_6", |i, o| unsafe { v_avx2_u32x8_shl_6(i, o) }),
    ("v_avx2_u32x8_shr_6", |i, o| unsafe { v_avx2_u32x8_shr_6(i, o) }),
    ("v_avx2_u32x8_shl_7", |i, o| unsafe { v_avx2_u32x8_shl_7(i, o) }),
    ("v_avx2_u32x8_shr_7", |i, o| unsafe { v_avx2_u32x8_shr_7(i, o) }),
    ("v_avx2_u32x8_shl_8", |i, o| unsafe { v_avx2_u32x8_shl_8(i, o) }),
    ("v_avx2_u32x8_shr_8", |i, o| unsafe { v_avx2_u32x8_shr_8(i, o) }),
    ("v_avx2_u32x8_shl_9", |i, o| unsafe { v_avx2_u32x8_shl_9(i, o) }),
    ("v_avx2_u32x8_shr_9", |i, o| unsafe { v_avx2_u32x8_shr_9(i, o) }),
    ("v_avx2_u32x8_shl_10", |i, o| unsafe { v_avx2_u32x8_shl_10(i, o) }),
    ("v_avx2_u32x8_shr_10", |i, o| unsafe { v_avx2_u32x8_shr_10(i, o) }),
    ("v_avx2_u32x8_shl_11", |i, o| unsafe { v_avx2_u32x8_shl_11(i, o) }),
    ("v_avx2_u32x8_shr_11", |i, o| unsafe { v_avx2_u32x8_shr_11(i, o) }),
    ("v_avx2_u32x8_shl_12", |i, o| unsafe { v_avx2_u32x8_shl_12(i, o) }),
    ("v_avx2_u32x8_shr_12", |i, o| unsafe { v_avx2_u32x8_shr_12(i, o) }),
    ("v_avx2_u32x8_shl_13", |i, o| unsafe { v_avx2_u32x8_shl_13(i, o) }),
    ("v_avx2_u32x8_shr_13", |i, o| unsafe { v_avx2_u32x8_shr_13(i, o) }),
    ("v_avx2_u32x8_shl_14", |i, o| unsafe { v_avx2_u32x8_shl_14(i, o) }),
    ("v_avx2_u32x8_shr_14", |i, o| unsafe { v_avx2_u32x8_shr_14(i, o) }),
    ("v_avx2_u32x8_shl_15", |i, o| unsafe { v_avx2_u32x8_shl_15(i, o) }),
    ("v_avx2_u32x8_shr_15", |i, o| unsafe { v_avx2_u32x8_shr_15(i, o) }),
    ("v_avx2_u32x8_shl_16", |i, o| unsafe { v_avx2_u32x8_shl_16(i, o) }),
    ("v_avx2_u32x8_shr_16", |i, o| unsafe { v_avx2_u32x8_shr_16(i, o) }),
    ("v_avx2_u32x8_shl_17", |i, o| unsafe { v_avx2_u32x8_shl_17(i, o) }),
    ("v_avx2_u32x8_shr_17", |i, o| unsafe { v_avx2_u32x8_shr_17(i, o) }),
    ("v_avx2_u32x8_shl_18", |i, o| unsafe { v_avx2_u32x8_shl_18(i, o) }),
    ("v_avx2_u32x8_shr_18", |i, o| unsafe { v_avx2_u32x8_shr_18(i, o) }),
    ("v_avx2_u32x8_shl_19", |i, o| unsafe { v_avx2_u32x8_shl_19(i, o) }),
    ("v_avx2_u32x8_shr_19", |i, o| unsafe { v_avx2_u32x8_shr_19(i, o) }),
    ("v_avx2_u32x8_shl_20", |i, o| unsafe { v_avx2_u32x8_shl_20(i, o) }),
    ("v_avx2_u32x8_shr_20", |i, o| unsafe { v_avx2_u32x8_shr_20(i, o) }),
    ("v_avx2_u32x8_shl_21", |i, o| unsafe { v_avx2_u32x8_shl_21(i, o) }),
    ("v_avx2_u32x8_shr_21", |i, o| unsafe { v_avx2_u32x8_shr_21(i, o) }),
    ("v_avx2_u32x8_shl_22", |i, o| unsafe { v_avx2_u32x8_shl_22(i, o) }),
    ("v_avx2_u32x8_shr_22", |i, o| unsafe { v_avx2_u32x8_shr_22(i, o) }),
    ("v_avx2_u32x8_shl_23", |i, o| unsafe { v_avx2_u32x8_shl_23(i, o) }),
    ("v_avx2_u32x8_shr_23", |i, o| unsafe { v_avx2_u32x8_shr_23(i, o) }),
    ("v_avx2_u32x8_shl_24", |i, o| unsafe { v_avx2_u32x8_shl_24(i, o) }),
    ("v_avx2_u32x8_shr_24", |i, o| unsafe { v_avx2_u32x8_shr_24(i, o) }),
    ("v_avx2_u32x8_shl_25", |i, o| unsafe { v_avx2_u32x8_shl_25(i, o) }),
    ("v_avx2_u32x8_shr_25", |i, o| unsafe { v_avx2_u32x8_shr_25(i, o) }),
    ("v_avx2_u32x8_shl_26", |i, o| unsafe { v_avx2_u32x8_shl_26(i, o) }),
    ("v_avx2_u32x8_shr_26", |i, o| unsafe { v_avx2_u32x8_shr_26(i, o) }),
    ("v_avx2_u32x8_shl_27", |i, o| unsafe { v_avx2_u32x8_shl_27(i, o) }),
    ("v_avx2_u32x8_shr_27", |i, o| unsafe { v_avx2_u32x8_shr_27(i, o) }),
    ("v_avx2_u32x8_shl_28", |i, o| unsafe { v_avx2_u32x8_shl_28(i, o) }),
    ("v_avx2_u32x8_shr_28", |i, o| unsafe { v_avx2_u32x8_shr_28(i, o) }),
    ("v_avx2_u32x8_shl_29", |i, o| unsafe { v_avx2_u32x8_shl_29(i, o) }),
    ("v_avx2_u32x8_shr_29", |i, o| unsafe { v_avx2_u32x8_shr_29(i, o) }),
    ("v_avx2_u32x8_shl_30", |i, o| unsafe { v_avx2_u32x8_shl_30(i, o) }),
    ("v_avx2_u32x8_shr_30", |i, o| unsafe { v_avx2_u32x8_shr_30(i, o) }),
    ("v_avx2_u32x8_shl_31", |i, o| unsafe { v_avx2_u32x8_shl_31(i, o) }),
    ("v_avx2_u32x8_shr_31", |i, o| unsafe { v_avx2_u32x8_shr_31(i, o) }),
    ("v_avx2_u8x32_eq", |i, o| unsafe { v_avx2_u8x32_eq(i, o) }),
    ("v_avx2_u8x32_lt", |i, o| unsafe { v_avx2_u8x32_lt(i, o) }),
    ("v_avx2_u8x32_max", |i, o| unsafe { v_avx2_u8x32_max(i, o) }),
    ("v_avx2_u8x32_min", |i, o| unsafe { v_avx2_u8x32_min(i, o) }),
    ("v_avx2_i8x32_lt", |i, o| unsafe { v_avx2_i8x32_lt(i, o) }),
    ("v_avx2_i8x32_max", |i, o| unsafe { v_avx2_i8x32_max(i, o) }),
    ("v_avx2_i8x32_min", |i, o| unsafe { v_avx2_i8x32_min(i, o) }),
    ("v_avx2_u16x16_eq", |i, o| unsafe { v_avx2_u16x16_eq(i, o) }),
    ("v_avx2_u16x16_lt", |i, o| unsafe { v_avx2_u16x16_lt(i, o) }),
    ("v_avx2_u16x16_max", |i, o| unsafe { v_avx2_u16x16_max(i, o) }),
    ("v_avx2_u16x16_min", |i, o| unsafe { v_avx2_u16x16_min(i, o) }),
    ("v_avx2_i16x16_lt", |i, o| unsafe { v_avx2_i16x16_lt(i, o) }),
    ("v_avx2_i16x16_max", |i, o| unsafe { v_avx2_i16x16_max(i, o) }),
    ("v_avx2_i16x16_min", |i, o| unsafe { v_avx2_i16x16_min(i, o) }),
    ("v_avx2_u32x8_eq", |i, o| unsafe { v_avx2_u32x8_eq(i, o) }),
    ("v_avx2_u32x8_lt", |i, o| unsafe { v_avx2_u32x8_lt(i, o) }),
    ("v_avx2_u32x8_max", |i, o| unsafe { v_avx2_u32x8_max(i, o) }),
    ("v_avx2_u32x8_min", |i, o| unsafe { v_avx2_u32x8_min(i, o) }),
    ("v_avx2_i32x8_lt", |i, o| unsafe { v_avx2_i32x8_lt(i, o) }),
    ("v_avx2_i32x8_max", |i, o| unsafe { v_avx2_i32x8_max(i, o) }),
    ("v_avx2_i32x8_min", |i, o| unsafe { v_avx2_i32x8_min(i, o) }),
    ("v_avx2_u8x16x2_swizzle", |i, o| unsafe { v_avx2_u8x16x2_swizzle(i, o) }),
    ("v_avx2_u16x16_bswap", |i, o| unsafe { v_avx2_u16x16_bswap(i, o) }),
    ("v_avx2_u32x8_bswap", |i, o| unsafe { v_avx2_u32x8_bswap(i, o) }),
    ("v_avx2_u64x4_bswap", |i, o| unsafe { v_avx2_u64x4_bswap(i, o) }),
    ("v_avx2_u8x32_any_zero", |i, o| unsafe { v_avx2_u8x32_any_zero(i, o) }),
    ("v_avx2_u8x32_bitmask", |i, o| unsafe { v_avx2_u8x32_bitmask(i, o) }),
    ("v_avx2_v256_bsl", |i, o| unsafe { v_avx2_v256_bsl(i, o) }),
    ("v_avx2_u8x32_blendv", |i, o| unsafe { v_avx2_u8x32_blendv(i, o) }),
    ("v_avx2_u8x16x2_zip_lo", |i, o| unsafe { v_avx2_u8x16x2_zip_lo(i, o) }),
    ("v_avx2_u8x16x2_zip_hi", |i, o| unsafe { v_avx2_u8x16x2_zip_hi(i, o) }),
    ("v_avx2_u16x8x2_zip_lo", |i, o| unsafe { v_avx2_u16x8x2_zip_lo(i, o) }),
    ("v_avx2_u16x8x2_zip_hi", |i, o| unsafe { v_avx2_u16x8x2_zip_hi(i, o) }),
    ("v_avx2_u32x4x2_zip_lo", |i, o| unsafe { v_avx2_u32x4x2_zip_lo(i, o) }),
    ("v_avx2_u32x4x2_zip_hi", |i, o| unsafe { v_avx2_u32x4x2_zip_hi(i, o) }),
    ("v_avx2_u64x2x2_zip_lo", |i, o| unsafe { v_avx2_u64x2x2_zip_lo(i, o) }),
    ("v_avx2_u64x2x2_zip_hi", |i, o| unsafe { v_avx2_u64x2x2_zip_hi(i, o) }),
    ("v_avx2_i16x8_packus", |i, o| unsafe { v_avx2_i16x8_packus(i, o) }),
    ("v_avx2_u64x4_unzip_even", |i, o| unsafe { v_avx2_u64x4_unzip_even(i, o) }),
    ("v_avx2_u64x4_unzip_odd", |i, o| unsafe { v_avx2_u64x4_unzip_odd(i, o) }),
    ("v_avx2_v128x2_zip_lo", |i, o| unsafe { v_avx2_v128x2_zip_lo(i, o) }),
    ("v_avx2_v128x2_zip_hi", |i, o| unsafe { v_avx2_v128x2_zip_hi(i, o) }),
    ("v_avx2_u16x16_from_u8x16", |i, o| unsafe { v_avx2_u16x16_from_u8x16(i, o) }),
    ("v_avx2_u64x4_permute_0", |i, o| unsafe { v_avx2_u64x4_permute_0(i, o) }),
    ("v_avx2_u16x8_blend_0", |i, o| unsafe { v_avx2_u16x8_blend_0(i, o) }),
    ("v_avx2_u32x8_blend_0", |i, o| unsafe { v_avx2_u32x8_blend_0(i, o) }),
    ("v_avx2_u64x4_permute_1", |i, o| unsafe { v_avx2_u64x4_permute_1(i, o) }),
    ("v_avx2_u16x8_blend_1", |i, o| unsafe { v_avx2_u16x8_blend_1(i, o) }),
    ("v_avx2_u32x8_blend_1", |i, o| unsafe { v_avx2_u32x8_blend_1(i, o) }),
    ("v_avx2_u64x4_permute_2", |i, o| unsafe { v_avx2_u64x4_permute_2(i, o) }),
    ("v_avx2_u16x8_blend_2", |i, o| unsafe { v_avx2_u16x8_blend_2(i, o) }),
    ("v_avx2_u32x8_blend_2", |i, o| unsafe { v_avx2_u32x8_blend_2(i, o) }),
    ("v_avx2_u64x4_permute_3", |i, o| unsafe { v_avx2_u64x4_permute_3(i, o) }),
    ("v_avx2_u16x8_blend_3", |i, o| unsafe { v_avx2_u16x8_blend_3(i, o) }),
    ("v_avx2_u32x8_blend_3", |i, o| unsafe { v_avx2_u32x8_blend_3(i, o) }),
    ("v_avx2_u64x4_permute_4", |i, o| unsafe { v_avx2_u64x4_permute_4(i, o) }),
    ("v_avx2_u16x8_blend_4", |i, o| unsafe { v_avx2_u16x8_blend_4(i, o) }),
    ("v_avx2_u32x8_blend_4", |i, o| unsafe { v_avx2_u32x8_blend_4(i, o) }),
    ("v_avx2_u64x4_permute_5", |i, o| unsafe { v_avx2_u64x4_permute_5(i, o) }),
    ("v_avx2_u16x8_blend_5", |i, o| unsafe { v_avx2_u16x8_blend_5(i, o) }),
    ("v_avx2_u32x8_blend_5", |i, o| unsafe { v_avx2_u32x8_blend_5(i, o) }),
    ("v_avx2_u64x4_permute_6", |i, o| unsafe { v_avx2_u64x4_permute_6(i, o) }),
    ("v_avx2_u16x8_blend_6", |i, o| unsafe { v_avx2_u16x8_blend_6(i, o) }),
    ("v_avx2_u32x8_blend_6", |i, o| unsafe { v_avx2_u32x8_blend_6(i, o) }),
    ("v_avx2_u64x4_permute_7", |i, o| unsafe { v_avx2_u64x4_permute_7(i, o) }),
    ("v_avx2_u16x8_blend_7", |i, o| unsafe { v_avx2_u16x8_blend_7(i, o) }),
    ("v_avx2_u32x8_blend_7", |i, o| unsafe { v_avx2_u32x8_blend_7(i, o) }),
    ("v_avx2_u64x4_permute_8", |i, o| unsafe { v_avx2_u64x4_permute_8(i, o) }),
    ("v_avx2_u16x8_blend_8", |i, o| unsafe { v_avx2_u16x8_blend_8(i, o) }),
    ("v_avx2_u32x8_blend_8", |i, o| unsafe { v_avx2_u32x8_blend_8(i, o) }),
    ("v_avx2_u64x4_permute_9", |i, o| unsafe { v_avx2_u64x4_permute_9(i, o) }),
    ("v_avx2_u16x8_blend_9", |i, o| unsafe { v_avx2_u16x8_blend_9(i, o) }),
    ("v_avx2_u32x8_blend_9", |i, o| unsafe { v_avx2_u32x8_blend_9(i, o) }),
    ("v_avx2_u64x4_permute_10", |i, o| unsafe { v_avx2_u64x4_permute_10(i, o) }),
    ("v_avx2_u16x8_blend_10", |i, o| unsafe { v_avx2_u16x8_blend_10(i, o) }),
    ("v_avx2_u32x8_blend_10", |i, o| unsafe { v_avx2_u32x8_blend_10(i, o) }),
    ("v_avx2_u64x4_permute_11", |i, o| unsafe { v_avx2_u64x4_permute_11(i, o) }),
    ("v_avx2_u16x8_blend_11", |i, o| unsafe { v_avx2_u16x8_blend_11(i, o) }),
    ("v_avx2_u32x8_blend_11", |i, o| unsafe { v_avx2_u32x8_blend_11(i, o) }),
    ("v_avx2_u64x4_permute_12", |i, o| unsafe { v_avx2_u64x4_permute_12(i, o) }),
    ("v_avx2_u16x8_blend_12", |i, o| unsafe { v_avx2_u16x8_blend_12(i, o) }),
    ("v_avx2_u32x8_blend_12", |i, o| unsafe { v_avx2_u32x8_blend_12(i, o) }),
    ("v_avx2_u64x4_permute_13", |i, o| unsafe { v_avx2_u64x4_permute_13(i, o) }),
    ("v_avx2_u16x8_blend_13", |i, o| unsafe { v_avx2_u16x8_blend_13(i, o) }),
    ("v_avx2_u32x8_blend_13", |i, o| unsafe { v_avx2_u32x8_blend_13(i, o) }),
    ("v_avx2_u64x4_permute_14", |i, o| unsafe { v_avx2_u64x4_permute_14(i, o) }),
    ("v_avx2_u16x8_blend_14", |i, o| unsafe { v_avx2_u16x8_blend_14(i, o) }),
    ("v_avx2_u32x8_blend_14", |i, o| unsafe { v_avx2_u32x8_blend_14(i, o) }),
    ("v_avx2_u64x4_permute_15", |i, o| unsafe { v_avx2_u64x4_permute_15(i, o) }),
    ("v_avx2_u16x8_blend_15", |i, o| unsafe { v_avx2_u16x8_blend_15(i, o) }),
    ("v_avx2_u32x8_blend_15", |i, o| unsafe { v_avx2_u32x8_blend_15(i, o) }),
    ("v_avx2_u64x4_permute_16", |i, o| unsafe { v_avx2_u64x4_permute_16(i, o) }),
    ("v_avx2_u16x8_blend_16", |i, o| unsafe { v_avx2_u16x8_blend_16(i, o) }),
    ("v_avx2_u32x8_blend_16", |i, o| unsafe { v_avx2_u32x8_blend_16(i, o) }),
    ("v_avx2_u64x4_permute_17", |i, o| unsafe { v_avx2_u64x4_permute_17(i, o) }),
    ("v_avx2_u16x8_blend_17", |i, o| unsafe { v_avx2_u16x8_blend_17(i, o) }),
    ("v_avx2_u32x8_blend_17", |i, o| unsafe { v_avx2_u32x8_blend_17(i, o) }),
    ("v_avx2_u64x4_permute_18", |i, o| unsafe { v_avx2_u64x4_permute_18(i, o) }),
    ("v_avx2_u16x8_blend_18", |i, o| unsafe { v_avx2_u16x8_blend_18(i, o) }),
    ("v_avx2_u32x8_blend_18", |i, o| unsafe { v_avx2_u32x8_blend_18(i, o) }),
    ("v_avx2_u64x4_permute_19", |i, o| unsafe { v_avx2_u64x4_permute_19(i, o) }),
    ("v_avx2_u16x8_blend_19", |i, o| unsafe { v_avx2_u16x8_blend_19(i, o) }),
    ("v_avx2_u32x8_blend_19", |i, o| unsafe { v_avx2_u32x8_blend_19(i, o) }),
    ("v_avx2_u64x4_permute_20", |i, o| unsafe { v_avx2_u64x4_permute_20(i, o) }),
    ("v_avx2_u16x8_blend_20", |i, o| unsafe { v_avx2_u16x8_blend_20(i, o) }),
    ("v_avx2_u32x8_blend_20", |i, o| unsafe { v_avx2_u32x8_blend_20(i, o) }),
    ("v_avx2_u64x4_permute_21", |i, o| unsafe { v_avx2_u64x4_permute_21(i, o) }),
    ("v_avx2_u16x8_blend_21", |i, o| unsafe { v_avx2_u16x8_blend_21(i, o) }),
    ("v_avx2_u32x8_blend_21", |i, o| unsafe { v_avx2_u32x8_blend_21(i, o) }),
    ("v_avx2_u64x4_permute_22", |i, o| unsafe { v_avx2_u64x4_permute_22(i, o) }),
    ("v_avx2_u16x8_blend_22", |i, o| unsafe { v_avx2_u16x8_blend_22(i, o) }),
    ("v_avx2_u32x8_blend_22", |i, o| unsafe { v_avx2_u32x8_blend_22(i, o) }),
    ("v_avx2_u64x4_permute_23", |i, o| unsafe { v_avx2_u64x4_permute_23(i, o) }),
    ("v_avx2_u16x8_blend_23", |i, o| unsafe { v_avx2_u16x8_blend_23(i, o) }),
    ("v_avx2_u32x8_blend_23", |i, o| unsafe { v_avx2_u32x8_blend_23(i, o) }),
    ("v_avx2_u64x4_permute_24", |i, o| unsafe { v_avx2_u64x4_permute_24(i, o) }),
    ("v_avx2_u16x8_blend_24", |i, o| unsafe { v_avx2_u16x8_blend_24(i, o) }),
    ("v_avx2_u32x8_blend_24", |i, o| unsafe { v_avx2_u32x8_blend_24(i, o) }),
    ("v_avx2_u64x4_permute_25", |i, o| unsafe { v_avx2_u64x4_permute_25(i, o) }),
    ("v_avx2_u16x8_blend_25", |i, o| unsafe { v_avx2_u16x8_blend_25(i, o) }),
    ("v_avx2_u32x8_blend_25", |i, o| unsafe { v_avx2_u32x8_blend_25(i, o) }),
    ("v_avx2_u64x4_permute_26", |i, o| unsafe { v_avx2_u64x4_permute_26(i, o) }),
    ("v_avx2_u16x8_blend_26", |i, o| unsafe { v_avx2_u16x8_blend_26(i, o) }),
    ("v_avx2_u32x8_blend_26", |i, o| unsafe { v_avx2_u32x8_blend_26(i, o) }),
    ("v_avx2_u64x4_permute_27", |i, o| unsafe { v_avx2_u64x4_permute_27(i, o) }),
    ("v_avx2_u16x8_blend_27", |i, o| unsafe { v_avx2_u16x8_blend_27(i, o) }),
    ("v_avx2_u32x8_blend_27", |i, o| unsafe { v_avx2_u32x8_blend_27(i, o) }),
    ("v_avx2_u64x4_permute_28", |i, o| unsafe { v_avx2_u64x4_permute_28(i, o) }),
    ("v_avx2_u16x8_blend_28", |i, o| unsafe { v_avx2_u16x8_blend_28(i, o) }),
    ("v_avx2_u32x8_blend_28", |i, o| unsafe { v_avx2_u32x8_blend_28(i, o) }),
    ("v_avx2_u64x4_permute_29", |i, o| unsafe { v_avx2_u64x4_permute_29(i, o) }),
    ("v_avx2_u16x8_blend_29", |i, o| unsafe { v_avx2_u16x8_blend_29(i, o) }),
    ("v_avx2_u32x8_blend_29", |i, o| unsafe { v_avx2_u32x8_blend_29(i, o) }),
    ("v_avx2_u64x4_permute_30", |i, o| unsafe { v_avx2_u64x4_permute_30(i, o) }),
    ("v_avx2_u16x8_blend_30", |i, o| unsafe { v_avx2_u16x8_blend_30(i, o) }),
    ("v_avx2_u32x8_blend_30", |i, o| unsafe { v_avx2_u32x8_blend_30(i, o) }),
    ("v_avx2_u64x4_permute_31", |i, o| unsafe { v_avx2_u64x4_permute_31(i, o) }),
    ("v_avx2_u16x8_blend_31", |i, o| unsafe { v_avx2_u16x8_blend_31(i, o) }),
    ("v_avx2_u32x8_blend_31", |i, o| unsafe { v_avx2_u32x8_blend_31(i, o) }),
    ("v_avx2_u64x4_permute_32", |i, o| unsafe { v_avx2_u64x4_permute_32(i, o) }),
    ("v_avx2_u16x8_blend_32", |i, o| unsafe { v_avx2_u16x8_blend_32(i, o) }),
    ("v_avx2_u32x8_blend_32", |i, o| unsafe { v_avx2_u32x8_blend_32(i, o) }),
    ("v_avx2_u64x4_permute_33", |i, o| unsafe { v_avx2_u64x4_permute_33(i, o) }),
    ("v_avx2_u16x8_blend_33", |i, o| unsafe { v_avx2_u16x8_blend_33(i, o) }),
    ("v_avx2_u32x8_blend_33", |i, o| unsafe { v_avx2_u32x8_blend_33(i, o) }),
    ("v_avx2_u64x4_permute_34", |i, o| unsafe { v_avx2_u64x4_permute_34(i, o) }),
    ("v_avx2_u16x8_blend_34", |i, o| unsafe { v_avx2_u16x8_blend_34(i, o) }),
    ("v_avx2_u32x8_blend_34", |i, o| unsafe { v_avx2_u32x8_blend_34(i, o) }),
    ("v_avx2_u64x4_permute_35", |i, o| unsafe { v_avx2_u64x4_permute_35(i, o) }),
    ("v_avx2_u16x8_blend_35", |i, o| unsafe { v_avx2_u16x8_blend_35(i, o) }),
    ("v_avx2_u32x8_blend_35", |i, o| unsafe { v_avx2_u32x8_blend_35(i, o) }),
    ("v_avx2_u64x4_permute_36", |i, o| unsafe { v_avx2_u64x4_permute_36(i, o) }),
    ("v_avx2_u16x8_blend_36", |i, o| unsafe { v_avx2_u16x8_blend_36(i, o) }),
    ("v_avx2_u32x8_blend_36", |i, o| unsafe { v_avx2_u32x8_blend_36(i, o) }),
    ("v_avx2_u64x4_permute_37", |i, o| unsafe { v_avx2_u64x4_permute_37(i, o) }),
    ("v_avx2_u16x8_blend_37", |i, o| unsafe { v_avx2_u16x8_blend_37(i, o) }),
    ("v_avx2_u32x8_blend_37", |i, o| unsafe { v_avx2_u32x8_blend_37(i, o) }),
    ("v_avx2_u64x4_permute_38", |i, o| unsafe { v_avx2_u64x4_permute_38(i, o) }),
    ("v_avx2_u16x8_blend_38", |i, o| unsafe { v_avx2_u16x8_blend_38(i, o) }),
    ("v_avx2_u32x8_blend_38", |i, o| unsafe { v_avx2_u32x8_blend_38(i, o) }),
    ("v_avx2_u64x4_permute_39", |i, o| unsafe { v_avx2_u64x4_permute_39(i, o) }),
    ("v_avx2_u16x8_blend_39", |i, o| unsafe { v_avx2_u16x8_blend_39(i, o) }),
    ("v_avx2_u32x8_blend_39", |i, o| unsafe { v_avx2_u32x8_blend_39(i, o) }),
    ("v_avx2_u64x4_permute_40", |i, o| unsafe { v_avx2_u64x4_permute_40(i, o) }),
    ("v_avx2_u16x8_blend_40", |i, o| unsafe { v_avx2_u16x8_blend_40(i, o) }),
    ("v_avx2_u32x8_blend_40", |i, o| unsafe { v_avx2_u32x8_blend_40(i, o) }),
    ("v_avx2_u64x4_permute_41", |i, o| unsafe { v_avx2_u64x4_permute_41(i, o) }),
    ("v_avx2_u16x8_blend_41", |i, o| unsafe { v_avx2_u16x8_blend_41(i, o) }),
    ("v_avx2_u32x8_blend_41", |i, o| unsafe { v_avx2_u32x8_blend_41(i, o) }),
    ("v_avx2_u64x4_permute_42", |i, o| unsafe { v_avx2_u64x4_permute_42(i, o) }),
    ("v_avx2_u16x8_blend_42", |i, o| unsafe { v_avx2_u16x8_blend_42(i, o) }),
    ("v_avx2_u32x8_blend_42", |i, o| unsafe { v_avx2_u32x8_blend_42(i, o) }),
    ("v_avx2_u64x4_permute_43", |i, o| unsafe { v_avx2_u64x4_permute_43(i, o) }),
    ("v_avx2_u16x8_blend_43", |i, o| unsafe { v_avx2_u16x8_blend_43(i, o) }),
    ("v_avx2_u32x8_blend_43", |i, o| unsafe { v_avx2_u32x8_blend_43(i, o) }),
    ("v_avx2_u64x4_permute_44", |i, o| unsafe { v_avx2_u64x4_permute_44(i, o) }),
    ("v_avx2_u16x8_blend_44", |i, o| unsafe { v_avx2_u16x8_blend_44(i, o) }),
    ("v_avx2_u32x8_blend_44", |i, o| unsafe { v_avx2_u32x8_blend_44(i, o) }),
    ("v_avx2_u64x4_permute_45", |i, o| unsafe { v_avx2_u64x4_permute_45(i, o) }),
    ("v_avx2_u16x8_blend_45", |i, o| unsafe { v_avx2_u16x8_blend_45(i, o) }),
    ("v_avx2_u32x8_blend_45", |i, o| unsafe { v_avx2_u32x8_blend_45(i, o) }),
    ("v_avx2_u64x4_permute_46", |i, o| unsafe { v_avx2_u64x4_permute_46(i, o) }),
    ("v_avx2_u16x8_blend_46", |i, o| unsafe { v_avx2_u16x8_blend_46(i, o) }),
    ("v_avx2_u32x8_blend_46", |i, o| unsafe { v_avx2_u32x8_blend_46(i, o) }),
    ("v_avx2_u64x4_permute_47", |i, o| unsafe { v_avx2_u64x4_permute_47(i, o) }),
    ("v_avx2_u16x8_blend_47", |i, o| unsafe { v_avx2_u16x8_blend_47(i, o) }),
    ("v_avx2_u32x8_blend_47", |i, o| unsafe { v_avx2_u32x8_blend_47(i, o) }),
    ("v_avx2_u64x4_permute_48", |i, o| unsafe { v_avx2_u64x4_permute_48(i, o) }),
    ("v_avx2_u16x8_blend_48", |i, o| unsafe { v_avx2_u16x8_blend_48(i, o) }),
    ("v_avx2_u32x8_blend_48", |i, o| unsafe { v_avx2_u32x8_blend_48(i, o) }),
    ("v_avx2_u64x4_permute_49", |i, o| unsafe { v_avx2_u64x4_permute_49(i, o) }),
    ("v_avx2_u16x8_blend_49", |i, o| unsafe { v_avx2_u16x8_blend_49(i, o) }),
    ("v_avx2_u32x8_blend_49", |i, o| unsafe { v_avx2_u32x8_blend_49(i, o) }),
    ("v_avx2_u64x4_permute_50", |i, o| unsafe { v_avx2_u64x4_permute_50(i, o) }),
    ("v_avx2_u16x8_blend_50", |i, o| unsafe { v_avx2_u16x8_blend_50(i, o) }),
    ("v_avx2_u32x8_blend_50", |i, o| unsafe { v_avx2_u32x8_blend_50(i, o) }),
    ("v_avx2_u64x4_permute_51", |i, o| unsafe { v_avx2_u64x4_permute_51(i, o) }),
    ("v_avx2_u16x8_blend_51", |i, o| unsafe { v_avx2_u16x8_blend_51(i, o) }),
    ("v_avx2_u32x8_blend_51", |i, o| unsafe { v_avx2_u32x8_blend_51(i, o) }),
    ("v_avx2_u64x4_permute_52", |i, o| unsafe { v_avx2_u64x4_permute_52(i, o) }),
    ("v_avx2_u16x8_blend_52", |i, o| unsafe { v_avx2_u16x8_blend_52(i, o) }),
    ("v_avx2_u32x8_blend_52", |i, o| unsafe { v_avx2_u32x8_blend_52(i, o) }),
    ("v_avx2_u64x4_permute_53", |i, o| unsafe { v_avx2_u64x4_permute_53(i, o) }),
    ("v_avx2_u16x8_blend_53", |i, o| unsafe { v_avx2_u16x8_blend_53(i, o) }),
    ("v_avx2_u32x8_blend_53", |i, o| unsafe { v_avx2_u32x8_blend_53(i, o) }),
    ("v_avx2_u64x4_permute_54", |i, o| unsafe { v_avx2_u64x4_permute_54(i, o) }),
    ("v_avx2_u16x8_blend_54", |i, o| unsafe { v_avx2_u16x8_blend_54(i, o) }),
    ("v_avx2_u32x8_blend_54", |i, o| unsafe { v_avx2_u32x8_blend_54(i, o) }),
    ("v_avx2_u64x4_permute_55", |i, o| unsafe { v_avx2_u64x4_permute_55(i, o) }),
    ("v_avx2_u16x8_blend_55", |i, o| unsafe { v_avx2_u16x8_blend_55(i, o) }),
    ("v_avx2_u32x8_blend_55", |i, o| unsafe { v_avx2_u32x8_blend_55(i, o) }),
    ("v_avx2_u64x4_permute_56", |i, o| unsafe { v_avx2_u64x4_permute_56(i, o) }),
    ("v_avx2_u16x8_blend_56", |i, o| unsafe { v_avx2_u16x8_blend_56(i, o) }),
    ("v_avx2_u32x8_blend_56", |i, o| unsafe { v_avx2_u32x8_blend_56(i, o) }),
    ("v_avx2_u64x4_permute_57", |i, o| unsafe { v_avx2_u64x4_permute_57(i, o) }),
    ("v_avx2_u16x8_blend_57", |i, o| unsafe { v_avx2_u16x8_blend_57(i, o) }),
    ("v_avx2_u32x8_blend_57", |i, o| unsafe { v_avx2_u32x8_blend_57(i, o) }),
    ("v_avx2_u64x4_permute_58", |i, o| unsafe { v_avx2_u64x4_permute_58(i, o) }),
    ("v_avx2_u16x8_blend_58", |i, o| unsafe { v_avx2_u16x8_blend_58(i, o) }),
    ("v_avx2_u32x8_blend_58", |i, o| unsafe { v_avx2_u32x8_blend_58(i, o) }),
    ("v_avx2_u64x4_permute_59", |i, o| unsafe { v_avx2_u64x4_permute_59(i, o) }),
    ("v_avx2_u16x8_blend_59", |i, o| unsafe { v_avx2_u16x8_blend_59(i, o) }),
    ("v_avx2_u32x8_blend_59", |i, o| unsafe { v_avx2_u32x8_blend_59(i, o) }),
    ("v_avx2_u64x4_permute_60", |i, o| unsafe { v_avx2_u64x4_permute_60(i, o) }),
    ("v_avx2_u16x8_blend_60", |i, o| unsafe { v_avx2_u16x8_blend_60(i, o) }),
    ("v_avx2_u32x8_blend_60", |i, o| unsafe { v_avx2_u32x8_blend_60(i, o) }),
    ("v_avx2_u64x4_permute_61", |i, o| unsafe { v_avx2_u64x4_permute_61(i, o) }),
    ("v_avx2_u16x8_blend_61", |i, o| unsafe { v_avx2_u16x8_blend_61(i, o) }),
    ("v_avx2_u32x8_blend_61", |i, o| unsafe { v_avx2_u32x8_blend_61(i, o) }),
    ("v_avx2_u64x4_permute_62", |i, o| unsafe { v_avx2_u64x4_permute_62(i, o) }),
    ("v_avx2_u16x8_blend_62", |i, o| unsafe { v_avx2_u16x8_blend_62(i, o) }),
    ("v_avx2_u32x8_blend_62", |i, o| unsafe { v_avx2_u32x8_blend_62(i, o) }),
    ("v_avx2_u64x4_permute_63", |i, o| unsafe { v_avx2_u64x4_permute_63(i, o) }),
    ("v_avx2_u16x8_blend_63", |i, o| unsafe { v_avx2_u16x8_blend_63(i, o) }),
    ("v_avx2_u32x8_blend_63", |i, o| unsafe { v_avx2_u32x8_blend_63(i, o) }),
    ("v_avx2_u64x4_permute_64", |i, o| unsafe { v_avx2_u64x4_permute_64(i, o) }),
    ("v_avx2_u16x8_blend_64", |i, o| unsafe { v_avx2_u16x8_blend_64(i, o) }),
    ("v_avx2_u32x8_blend_64", |i, o| unsafe { v_avx2_u32x8_blend_64(i, o) }),
    ("v_avx2_u64x4_permute_65", |i, o| unsafe { v_avx2_u64x4_permute_65(i, o) }),
    ("v_avx2_u16x8_blend_65", |i, o| unsafe { v_avx2_u16x8_blend_65(i, o) }),
    ("v_avx2_u32x8_blend_65", |i, o| unsafe { v_avx2_u32x8_blend_65(i, o) }),
    ("v_avx2_u64x4_permute_66", |i, o| unsafe { v_avx2_u64x4_permute_66(i, o) }),
    ("v_avx2_u16x8_blend_66", |i, o| unsafe { v_avx2_u16x8_blend_66(i, o) }),
    ("v_avx2_u32x8_blend_66", |i, o| unsafe { v_avx2_u32x8_blend_66(i, o) }),
    ("v_avx2_u64x4_permute_67", |i, o| unsafe { v_avx2_u64x4_permute_67(i, o) }),
    ("v_avx2_u16x8_blend_67", |i, o| unsafe { v_avx2_u16x8_blend_67(i, o) }),
    ("v_avx2_u32x8_blend_67", |i, o| unsafe { v_avx2_u32x8_blend_67(i, o) }),
    ("v_avx2_u64x4_permute_68", |i, o| unsafe { v_avx2_u64x4_permute_68(i, o) }),
    ("v_avx2_u16x8_blend_68", |i, o| unsafe { v_avx2_u16x8_blend_68(i, o) }),
    ("v_avx2_u32x8_blend_68", |i, o| unsafe { v_avx2_u32x8_blend_68(i, o) }),
    ("v_avx2_u64x4_permute_69", |i, o| unsafe { v_avx2_u64x4_permute_69(i, o) }),
    ("v_avx2_u16x8_blend_69", |i, o| unsafe { v_avx2_u16x8_blend_69(i, o) }),
    ("v_avx2_u32x8_blend_69", |i, o| unsafe { v_avx2_u32x8_blend_69(i, o) }),
    ("v_avx2_u64x4_permute_70", |i, o| unsafe { v_avx2_u64x4_permute_70(i, o) }),
    ("v_avx2_u16x8_blend_70", |i, o| unsafe { v_avx2_u16x8_blend_70(i, o) }),
    ("v_avx2_u32x8_blend_70", |i, o| unsafe { v_avx2_u32x8_blend_70(i, o) }),
    ("v_avx2_u64x4_permute_71", |i, o| unsafe { v_avx2_u64x4_permute_71(i, o) }),
    ("v_avx2_u16x8_blend_71", |i, o| unsafe { v_avx2_u16x8_blend_71(i, o) }),
    ("v_avx2_u32x8_blend_71", |i, o| unsafe { v_avx2_u32x8_blend_71(i, o) }),
    ("v_avx2_u64x4_permute_72", |i, o| unsafe { v_avx2_u64x4_permute_72(i, o) }),
    ("v_avx2_u16x8_blend_72", |i, o| unsafe { v_avx2_u16x8_blend_72(i, o) }),
    ("v_avx2_u32x8_blend_72", |i, o| unsafe { v_avx2_u32x8_blend_72(i, o) }),
    ("v_avx2_u64x4_permute_73", |i, o| unsafe { v_avx2_u64x4_permute_73(i, o) }),
    ("v_avx2_u16x8_blend_73", |i, o| unsafe { v_avx2_u16x8_blend_73(i, o) }),
    ("v_avx2_u32x8_blend_73", |i, o| unsafe { v_avx2_u32x8_blend_73(i, o) }),
    ("v_avx2_u64x4_permute_74", |i, o| unsafe { v_avx2_u64x4_permute_74(i, o) }),
    ("v_avx2_u16x8_blend_74", |i, o| unsafe { v_avx2_u16x8_blend_74(i, o) }),
    ("v_avx2_u32x8_blend_74", |i, o| unsafe { v_avx2_u32x8_blend_74(i, o) }),
    ("v_avx2_u64x4_permute_75", |i, o| unsafe { v_avx2_u64x4_permute_75(i, o) }),
    ("v_avx2_u16x8_blend_75", |i, o| unsafe { v_avx2_u16x8_blend_75(i, o) }),
    ("v_avx2_u32x8_blend_75", |i, o| unsafe { v_avx2_u32x8_blend_75(i, o) }),
    ("v_avx2_u64x4_permute_76", |i, o| unsafe { v_avx2_u64x4_permute_76(i, o) }),
    ("v_avx2_u16x8_blend_76", |i, o| unsafe { v_avx2_u16x8_blend_76(i, o) }),
    ("v_avx2_u32x8_blend_76", |i, o| unsafe { v_avx2_u32x8_blend_76(i, o) }),
    ("v_avx2_u64x4_permute_77", |i, o| unsafe { v_avx2_u64x4_permute_77(i, o) }),
    ("v_avx2_u16x8_blend_77", |i, o| unsafe { v_avx2_u16x8_blend_77(i, o) }),
    ("v_avx2_u32x8_blend_77", |i, o| unsafe { v_avx2_u32x8_blend_77(i, o) }),
    ("v_avx2_u64x4_permute_78", |i, o| unsafe { v_avx2_u64x4_permute_78(i, o) }),
    ("v_avx2_u16x8_blend_78", |i, o| unsafe { v_avx2_u16x8_blend_78(i, o) }),
    ("v_avx2_u32x8_blend_78", |i, o| unsafe { v_avx2_u32x8_blend_78(i, o) }),
    ("v_avx2_u64x4_permute_79", |i, o| unsafe { v_avx2_u64x4_permute_79(i, o) }),
    ("v_avx2_u16x8_blend_79", |i, o| unsafe { v_avx2_u16x8_blend_79(i, o) }),
    ("v_avx2_u32x8_blend_79", |i, o| unsafe { v_avx2_u32x8_blend_79(i, o) }),
    ("v_avx2_u64x4_permute_80", |i, o| unsafe { v_avx2_u64x4_permute_80(i, o) }),
    ("v_avx2_u16x8_blend_80", |i, o| unsafe { v_avx2_u16x8_blend_80(i, o) }),
    ("v_avx2_u32x8_blend_80", |i, o| unsafe { v_avx2_u32x8_blend_80(i, o) }),
    ("v_avx2_u64x4_permute_81", |i, o| unsafe { v_avx2_u64x4_permute_81(i, o) }),
    ("v_avx2_u16x8_blend_81", |i, o| unsafe { v_avx2_u16x8_blend_81(i, o) }),
    ("v_avx2_u32x8_blend_81", |i, o| unsafe { v_avx2_u32x8_blend_81(i, o) }),
    ("v_avx2_u64x4_permute_82", |i, o| unsafe { v_avx2_u64x4_permute_82(i, o) }),
    ("v_avx2_u16x8_blend_82", |i, o| unsafe { v_avx2_u16x8_blend_82(i, o) }),
    ("v_avx2_u32x8_blend_82", |i, o| unsafe { v_avx2_u32x8_blend_82(i, o) }),
    ("v_avx2_u64x4_permute_83", |i, o| unsafe { v_avx2_u64x4_permute_83(i, o) }),
    ("v_avx2_u16x8_blend_83", |i, o| unsafe { v_avx2_u16x8_blend_83(i, o) }),
    ("v_avx2_u32x8_blend_83", |i, o| unsafe { v_avx2_u32x8_blend_83(i, o) }),
    ("v_avx2_u64x4_permute_84", |i, o| unsafe { v_avx2_u64x4_permute_84(i, o) }),
    ("v_avx2_u16x8_blend_84", |i, o| unsafe { v_avx2_u16x8_blend_84(i, o) }),
    ("v_avx2_u32x8_blend_84", |i, o| unsafe { v_avx2_u32x8_blend_84(i, o) }),
    ("v_avx2_u64x4_permute_85", |i, o| unsafe { v_avx2_u64x4_permute_85(i, o) }),
    ("v_avx2_u16x8_blend_85", |i, o| unsafe { v_avx2_u16x8_blend_85(i, o) }),
    ("v_avx2_u32x8_blend_85", |i, o| unsafe { v_avx2_u32x8_blend_85(i, o) }),
    ("v_avx2_u64x4_permute_86", |i, o| unsafe { v_avx2_u64x4_permute_86(i, o) }),
    ("v_avx2_u16x8_blend_86", |i, o| unsafe { v_avx2_u16x8_blend_86(i, o) }),
    ("v_avx2_u32x8_blend_86", |i, o| unsafe { v_avx2_u32x8_blend_86(i, o) }),
    ("v_avx2_u64x4_permute_87", |i, o| unsafe { v_avx2_u64x4_permute_87(i, o) }),
    ("v_avx2_u16x8_blend_87", |i, o| unsafe { v_avx2_u16x8_blend_87(i, o) }),
    ("v_avx2_u32x8_blend_87", |i, o| unsafe { v_avx2_u32x8_blend_87(i, o) }),
    ("v_avx2_u64x4_permute_88", |i, o| unsafe { v_avx2_u64x4_permute_88(i, o) }),
    ("v_avx2_u16x8_blend_88", |i, o| unsafe { v_avx2_u16x8_blend_88(i, o) }),
    ("v_avx2_u32x8_blend_88", |i, o| unsafe { v_avx2_u32x8_blend_88(i, o) }),
    ("v_avx2_u64x4_permute_89", |i, o| unsafe { v_avx2_u64x4_permute_89(i, o) }),
    ("v_avx2_u16x8_blend_89", |i, o| unsafe { v_avx2_u16x8_blend_89(i, o) }),
    ("v_avx2_u32x8_blend_89", |i, o| unsafe { v_avx2_u32x8_blend_89(i, o) }),
    ("v_avx2_u64x4_permute_90", |i, o| unsafe { v_avx2_u64x4_permute_90(i, o) }),
    ("v_avx2_u16x8_blend_90", |i, o| unsafe { v_avx2_u16x8_blend_90(i, o) }),
    ("v_avx2_u32x8_blend_90", |i, o| unsafe { v_avx2_u32x8_blend_90(i, o) }),
    ("v_avx2_u64x4_permute_91", |i, o| unsafe { v_avx2_u64x4_permute_91(i, o) }),
    ("v_avx2_u16x8_blend_91", |i, o| unsafe { v_avx2_u16x8_blend_91(i, o) }),
    ("v_avx2_u32x8_blend_91", |i, o| unsafe { v_avx2_u32x8_blend_91(i, o) }),
    ("v_avx2_u64x4_permute_92", |i, o| unsafe { v_avx2_u64x4_permute_92(i, o) }),
    ("v_avx2_u16x8_blend_92", |i, o| unsafe { v_avx2_u16x8_blend_92(i, o) }),
    ("v_avx2_u32x8_blend_92", |i, o| unsafe { v_avx2_u32x8_blend_92(i, o) }),
    ("v_avx2_u64x4_permute_93", |i, o| unsafe { v_avx2_u64x4_permute_93(i, o) }),
    ("v_avx2_u16x8_blend_93", |i, o| unsafe { v_avx2_u16x8_blend_93(i, o) }),
    ("v_avx2_u32x8_blend_93", |i, o| unsafe { v_avx2_u32x8_blend_93(i, o) }),
    ("v_avx2_u64x4_permute_94", |i, o| unsafe { v_avx2_u64x4_permute_94(i, o) }),
    ("v_avx2_u16x8_blend_94", |i, o| unsafe { v_avx2_u16x8_blend_94(i, o) }),
    ("v_avx2_u32x8_blend_94", |i, o| unsafe { v_avx2_u32x8_blend_94(i, o) }),
    ("v_avx2_u64x4_permute_95", |i, o| unsafe { v_avx2_u64x4_permute_95(i, o) }),
    ("v_avx2_u16x8_blend_95", |i, o| unsafe { v_avx2_u16x8_blend_95(i, o) }),
    ("v_avx2_u32x8_blend_95", |i, o| unsafe { v_avx2_u32x8_blend_95(i, o) }),
    ("v_avx2_u64x4_permute_96", |i, o| unsafe { v_avx2_u64x4_permute_96(i, o) }),
    ("v_avx2_u16x8_blend_96", |i, o| unsafe { v_avx2_u16x8_blend_96(i, o) }),
    ("v_avx2_u32x8_blend_96", |i, o| unsafe { v_avx2_u32x8_blend_96(i, o) }),
    ("v_avx2_u64x4_permute_97", |i, o| unsafe { v_avx2_u64x4_permute_97(i, o) }),
    ("v_avx2_u16x8_blend_97", |i, o| unsafe { v_avx2_u16x8_blend_97(i, o) }),
    ("v_avx2_u32x8_blend_97", |i, o| unsafe { v_avx2_u32x8_blend_97(i, o) }),
    ("v_avx2_u64x4_permute_98", |i, o| unsafe { v_avx2_u64x4_permute_98(i, o) }),
    ("v_avx2_u16x8_blend_98", |i, o| unsafe { v_avx2_u16x8_blend_98(i, o) }),
    ("v_avx2_u32x8_blend_98", |i, o| unsafe { v_avx2_u32x8_blend_98(i, o) }),
    ("v_avx2_u64x4_permute_99", |i, o| unsafe { v_avx2_u64x4_permute_99(i, o) }),
    ("v_avx2_u16x8_blend_99", |i, o| unsafe { v_avx2_u16x8_blend_99(i, o) }),
    ("v_avx2_u32x8_blend_99", |i, o| unsafe { v_avx2_u32x8_blend_99(i, o) }),
    ("v_avx2_u64x4_permute_100", |i, o| unsafe { v_avx2_u64x4_permute_100(i, o) }),
    ("v_avx2_u16x8_blend_100", |i, o| unsafe { v_avx2_u16x8_blend_100(i, o) }),
    ("v_avx2_u32x8_blend_100", |i, o| unsafe { v_avx2_u32x8_blend_100(i, o) }),
    ("v_avx2_u64x4_permute_101", |i, o| unsafe { v_avx2_u64x4_permute_101(i, o) }),
    ("v_avx2_u16x8_blend_101", |i, o| unsafe { v_avx2_u16x8_blend_101(i, o) }),
    ("v_avx2_u32x8_blend_101", |i, o| unsafe { v_avx2_u32x8_blend_101(i, o) }),
    ("v_avx2_u64x4_permute_102", |i, o| unsafe { v_avx2_u64x4_permute_102(i, o) }),
    ("v_avx2_u16x8_blend_102", |i, o| unsafe { v_avx2_u16x8_blend_102(i, o) }),
    ("v_avx2_u32x8_blend_102", |i, o| unsafe { v_avx2_u32x8_blend_102(i, o) }),
    ("v_avx2_u64x4_permute_103", |i, o| unsafe { v_avx2_u64x4_permute_103(i, o) }),
    ("v_avx2_u16x8_blend_103", |i, o| unsafe { v_avx2_u16x8_blend_103(i, o) }),
    ("v_avx2_u32x8_blend_103", |i, o| unsafe { v_avx2_u32x8_blend_103(i, o) }),
    ("v_avx2_u64x4_permute_104", |i, o| unsafe { v_avx2_u64x4_permute_104(i, o) }),
    ("v_avx2_u16x8_blend_104", |i, o| unsafe { v_avx2_u16x8_blend_104(i, o) }),
    ("v_avx2_u32x8_blend_104", |i, o| unsafe { v_avx2_u32x8_blend_104(i, o) }),
    ("v_avx2_u64x4_permute_105", |i, o| unsafe { v_avx2_u64x4_permute_105(i, o) }),
    ("v_avx2_u16x8_blend_105", |i, o| unsafe { v_avx2_u16x8_blend_105(i, o) }),
    ("v_avx2_u32x8_blend_105", |i, o| unsafe { v_avx2_u32x8_blend_105(i, o) }),
    ("v_avx2_u64x4_permute_106", |i, o| unsafe { v_avx2_u64x4_permute_106(i, o) }),
    ("v_avx2_u16x8_blend_106", |i, o| unsafe { v_avx2_u16x8_blend_106(i, o) }),
    ("v_avx2_u32x8_blend_106", |i, o| unsafe { v_avx2_u32x8_blend_106(i, o) }),
    ("v_avx2_u64x4_permute_107", |i, o| unsafe { v_avx2_u64x4_permute_107(i, o) }),
    ("v_avx2_u16x8_blend_107", |i, o| unsafe { v_avx2_u16x8_blend_107(i, o) }),
    ("v_avx2_u32x8_blend_107", |i, o| unsafe { v_avx2_u32x8_blend_107(i, o) }),
    ("v_avx2_u64x4_permute_108", |i, o| unsafe { v_avx2_u64x4_permute_108(i, o) }),
    ("v_avx2_u16x8_blend_108", |i, o| unsafe { v_avx2_u16x8_blend_108(i, o) }),
    ("v_avx2_u32x8_blend_108", |i, o| unsafe { v_avx2_u32x8_blend_108(i, o) }),
    ("v_avx2_u64x4_permute_109", |i, o| unsafe { v_avx2_u64x4_permute_109(i, o) }),
    ("v_avx2_u16x8_blend_109", |i, o| unsafe { v_avx2_u16x8_blend_109(i, o) }),
    ("v_avx2_u32x8_blend_109", |i, o| unsafe { v_avx2_u32x8_blend_109(i, o) }),
    ("v_avx2_u64x4_permute_110", |i, o| unsafe { v_avx2_u64x4_permute_110(i, o) }),
    ("v_avx2_u16x8_blend_110", |i, o| unsafe { v_avx2_u16x8_blend_110(i, o) }),
    ("v_avx2_u32x8_blend_110", |i, o| unsafe { v_avx2_u32x8_blend_110(i, o) }),
    ("v_avx2_u64x4_permute_111", |i, o| unsafe { v_avx2_u64x4_permute_111(i, o) }),
    ("v_avx2_u16x8_blend_111", |i, o| unsafe { v_avx2_u16x8_blend_111(i, o) }),
    ("v_avx2_u32x8_blend_111", |i, o| unsafe { v_avx2_u32x8_blend_111(i, o) }),
    ("v_avx2_u64x4_permute_112", |i, o| unsafe { v_avx2_u64x4_permute_112(i, o) }),
    ("v_avx2_u16x8_blend_112", |i, o| unsafe { v_avx2_u16x8_blend_112(i, o) }),
    ("v_avx2_u32x8_blend_112", |i, o| unsafe { v_avx2_u32x8_blend_112(i, o) }),
    ("v_avx2_u64x4_permute_113", |i, o| unsafe { v_avx2_u64x4_permute_113(i, o) }),
    ("v_avx2_u16x8_blend_113", |i, o| unsafe { v_avx2_u16x8_blend_113(i, o) }),
    ("v_avx2_u32x8_blend_113", |i, o| unsafe { v_avx2_u32x8_blend_113(i, o) }),
    ("v_avx2_u64x4_permute_114", |i, o| unsafe { v_avx2_u64x4_permute_114(i, o) }),
    ("v_avx2_u16x8_blend_114", |i, o| unsafe { v_avx2_u16x8_blend_114(i, o) }),
    ("v_avx2_u32x8_blend_114", |i, o| unsafe { v_avx2_u32x8_blend_114(i, o) }),
    ("v_avx2_u64x4_permute_115", |i, o| unsafe { v_avx2_u64x4_permute_115(i, o) }),
    ("v_avx2_u16x8_blend_115", |i, o| unsafe { v_avx2_u16x8_blend_115(i, o) }),
    ("v_avx2_u32x8_blend_115", |i, o| unsafe { v_avx2_u32x8_blend_115(i, o) }),
    ("v_avx2_u64x4_permute_116", |i, o| unsafe { v_avx2_u64x4_permute_116(i, o) }),
    ("v_avx2_u16x8_blend_116", |i, o| unsafe { v_avx2_u16x8_blend_116(i, o) }),
    ("v_avx2_u32x8_blend_116", |i, o| unsafe { v_avx2_u32x8_blend_116(i, o) }),
    ("v_avx2_u64x4_permute_117", |i, o| unsafe { v_avx2_u64x4_permute_117(i, o) }),
    ("v_avx2_u16x8_blend_117", |i, o| unsafe { v_avx2_u16x8_blend_117(i, o) }),
    ("v_avx2_u32x8_blend_117", |i, o| unsafe { v_avx2_u32x8_blend_117(i, o) }),
    ("v_avx2_u64x4_permute_118", |i, o| unsafe { v_avx2_u64x4_permute_118(i, o) }),
    ("v_avx2_u16x8_blend_118", |i, o| unsafe { v_avx2_u16x8_blend_118(i, o) }),
    ("v_avx2_u32x8_blend_118", |i, o| unsafe { v_avx2_u32x8_blend_118(i, o) }),
    ("v_avx2_u64x4_permute_119", |i, o| unsafe { v_avx2_u64x4_permute_119(i, o) }),
    ("v_avx2_u16x8_blend_119", |i, o| unsafe { v_avx2_u16x8_blend_119(i, o) }),
    ("v_avx2_u32x8_blend_119", |i, o| unsafe { v_avx2_u32x8_blend_119(i, o) }),
    ("v_avx2_u64x4_permute_120", |i, o| unsafe { v_avx2_u64x4_permute_120(i, o) }),
    ("v_avx2_u16x8_blend_120", |i, o| unsafe { v_avx2_u16x8_blend_120(i, o) }),
    ("v_avx2_u32x8_blend_120", |i, o| unsafe { v_avx2_u32x8_blend_120(i, o) }),
    ("v_avx2_u64x4_permute_121", |i, o| unsafe { v_avx2_u64x4_permute_121(i, o) }),
    ("v_avx2_u16x8_blend_121", |i, o| unsafe { v_avx2_u16x8_blend_121(i, o) }),
    ("v_avx2_u32x8_blend_121", |i, o| unsafe { v_avx2_u32x8_blend_121(i, o) }),
    ("v_avx2_u64x4_permute_122", |i, o| unsafe { v_avx2_u64x4_permute_122(i, o) }),
    ("v_avx2_u16x8_blend_122", |i, o| unsafe { v_avx2_u16x8_blend_122(i, o) }),
    ("v_avx2_u32x8_blend_122", |i, o| unsafe { v_avx2_u32x8_blend_122(i, o) }),
    ("v_avx2_u64x4_permute_123", |i, o| unsafe { v_avx2_u64x4_permute_123(i, o) }),
    ("v_avx2_u16x8_blend_123", |i, o| unsafe { v_avx2_u16x8_blend_123(i, o) }),
    ("v_avx2_u32x8_blend_123", |i, o| unsafe { v_avx2_u32x8_blend_123(i, o) }),
    ("v_avx2_u64x4_permute_124", |i, o| unsafe { v_avx2_u64x4_permute_124(i, o) }),
    ("v_avx2_u16x8_blend_124", |i, o| unsafe { v_avx2_u16x8_blend_124(i, o) }),
    ("v_avx2_u32x8_blend_124", |i, o| unsafe { v_avx2_u32x8_blend_124(i, o) }),
    ("v_avx2_u64x4_permute_125", |i, o| unsafe { v_avx2_u64x4_permute_125(i, o) }),
    ("v_avx2_u16x8_blend_125", |i, o| unsafe { v_avx2_u16x8_blend_125(i, o) }),
    ("v_avx2_u32x8_blend_125", |i, o| unsafe { v_avx2_u32x8_blend_125(i, o) }),
    ("v_avx2_u64x4_permute_126", |i, o| unsafe { v_avx2_u64x4_permute_126(i, o) }),
    ("v_avx2_u16x8_blend_126", |i, o| unsafe { v_avx2_u16x8_blend_126(i, o) }),
    ("v_avx2_u32x8_blend_126", |i, o| unsafe { v_avx2_u32x8_blend_126(i, o) }),
    ("v_avx2_u64x4_permute_127", |i, o| unsafe { v_avx2_u64x4_permute_127(i, o) }),
    ("v_avx2_u16x8_blend_127", |i, o| unsafe { v_avx2_u16x8_blend_127(i, o) }),
    ("v_avx2_u32x8_blend_127", |i, o| unsafe { v_avx2_u32x8_blend_127(i, o) }),
    ("v_avx2_u64x4_permute_128", |i, o| unsafe { v_avx2_u64x4_permute_128(i, o) }),
    ("v_avx2_u16x8_blend_128", |i, o| unsafe { v_avx2_u16x8_blend_128(i, o) }),
    ("v_avx2_u32x8_blend_128", |i, o| unsafe { v_avx2_u32x8_blend_128(i, o) }),
    ("v_avx2_u64x4_permute_129", |i, o| unsafe { v_avx2_u64x4_permute_129(i, o) }),
    ("v_avx2_u16x8_blend_129", |i, o| unsafe { v_avx2_u16x8_blend_129(i, o) }),
    ("v_avx2_u32x8_blend_129", |i, o| unsafe { v_avx2_u32x8_blend_129(i, o) }),
    ("v_avx2_u64x4_permute_130", |i, o| unsafe { v_avx2_u64x4_permute_130(i, o) }),
    ("v_avx2_u16x8_blend_130", |i, o| unsafe { v_avx2_u16x8_blend_130(i, o) }),
    ("v_avx2_u32x8_blend_130", |i, o| unsafe { v_avx2_u32x8_blend_130(i, o) }),
    ("v_avx2_u64x4_permute_131", |i, o| unsafe { v_avx2_u64x4_permute_131(i, o) }),
    ("v_avx2_u16x8_blend_131", |i, o| unsafe { v_avx2_u16x8_blend_131(i, o) }),
    ("v_avx2_u32x8_blend_131", |i, o| unsafe { v_avx2_u32x8_blend_131(i, o) }),
    ("v_avx2_u64x4_permute_132", |i, o| unsafe { v_avx2_u64x4_permute_132(i, o) }),
    ("v_avx2_u16x8_blend_132", |i, o| unsafe { v_avx2_u16x8_blend_132(i, o) }),
    ("v_avx2_u32x8_blend_132", |i, o| unsafe { v_avx2_u32x8_blend_132(i, o) }),
    ("v_avx2_u64x4_permute_133", |i, o| unsafe { v_avx2_u64x4_permute_133(i, o) }),
    ("v_avx2_u16x8_blend_133", |i, o| unsafe { v_avx2_u16x8_blend_133(i, o) }),
    ("v_avx2_u32x8_blend_133", |i, o| unsafe { v_avx2_u32x8_blend_133(i, o) }),
    ("v_avx2_u64x4_permute_134", |i, o| unsafe { v_avx2_u64x4_permute_134(i, o) }),
    ("v_avx2_u16x8_blend_134", |i, o| unsafe { v_avx2_u16x8_blend_134(i, o) }),
    ("v_avx2_u32x8_blend_134", |i, o| unsafe { v_avx2_u32x8_blend_134(i, o) }),
    ("v_avx2_u64x4_permute_135", |i, o| unsafe { v_avx2_u64x4_permute_135(i, o) }),
    ("v_avx2_u16x8_blend_135", |i, o| unsafe { v_avx2_u16x8_blend_135(i, o) }),
    ("v_avx2_u32x8_blend_135", |i, o| unsafe { v_avx2_u32x8_blend_135(i, o) }),
    ("v_avx2_u64x4_permute_136", |i, o| unsafe { v_avx2_u64x4_permute_136(i, o) }),
    ("v_avx2_u16x8_blend_136", |i, o| unsafe { v_avx2_u16x8_blend_136(i, o) }),
    ("v_avx2_u32x8_blend_136", |i, o| unsafe { v_avx2_u32x8_blend_136(i, o) }),
    ("v_avx2_u64x4_permute_137", |i, o| unsafe { v_avx2_u64x4_permute_137(i, o) }),
    ("v_avx2_u16x8_blend_137", |i, o| unsafe { v_avx2_u16x8_blend_137(i, o) }),
    ("v_avx2_u32x8_blend_137", |i, o| unsafe { v_avx2_u32x8_blend_137(i, o) }),
    ("v_avx2_u64x4_permute_138", |i, o| unsafe { v_avx2_u64x4_permute_138(i, o) }),
    ("v_avx2_u16x8_blend_138", |i, o| unsafe { v_avx2_u16x8_blend_138(i, o) }),
    ("v_avx2_u32x8_blend_138", |i, o| unsafe { v_avx2_u32x8_blend_138(i, o) }),
    ("v_avx2_u64x4_permute_139", |i, o| unsafe { v_avx2_u64x4_permute_139(i, o) }),
    ("v_avx2_u16x8_blend_139", |i, o| unsafe { v_avx2_u16x8_blend_139(i, o) }),
    ("v_avx2_u32x8_blend_139", |i, o| unsafe { v_avx2_u32x8_blend_139(i, o) }),
    ("v_avx2_u64x4_permute_140", |i, o| unsafe { v_avx2_u64x4_permute_140(i, o) }),
    ("v_avx2_u16x8_blend_140", |i, o| unsafe { v_avx2_u16x8_blend_140(i, o) }),
    ("v_avx2_u32x8_blend_140", |i, o| unsafe { v_avx2_u32x8_blend_140(i, o) }),
    ("v_avx2_u64x4_permute_141", |i, o| unsafe { v_avx2_u64x4_permute_141(i, o) }),
    ("v_avx2_u16x8_blend_141", |i, o| unsafe { v_avx2_u16x8_blend_141(i, o) }),
    ("v_avx2_u32x8_blend_141", |i, o| unsafe { v_avx2_u32x8_blend_141(i, o) }),
    ("v_avx2_u64x4_permute_142", |i, o| unsafe { v_avx2_u64x4_permute_142(i, o) }),
    ("v_avx2_u16x8_blend_142", |i, o| unsafe { v_avx2_u16x8_blend_142(i, o) }),
    ("v_avx2_u32x8_blend_142", |i, o| unsafe { v_avx2_u32x8_blend_142(i, o) }),
    ("v_avx2_u64x4_permute_143", |i, o| unsafe { v_avx2_u64x4_permute_143(i, o) }),
    ("v_avx2_u16x8_blend_143", |i, o| unsafe { v_avx2_u16x8_blend_143(i, o) }),
    ("v_avx2_u32x8_blend_143", |i, o| unsafe { v_avx2_u32x8_blend_143(i, o) }),
    ("v_avx2_u64x4_permute_144", |i, o| unsafe { v_avx2_u64x4_permute_144(i, o) }),
    ("v_avx2_u16x8_blend_144", |i, o| unsafe { v_avx2_u16x8_blend_144(i, o) }),
    ("v_avx2_u32x8_blend_144", |i, o| unsafe { v_avx2_u32x8_blend_144(i, o) }),
    ("v_avx2_u64x4_permute_145", |i, o| unsafe { v_avx2_u64x4_permute_145(i, o) }),
    ("v_avx2_u16x8_blend_145", |i, o| unsafe { v_avx2_u16x8_blend_145(i, o) }),
    ("v_avx2_u32x8_blend_145", |i, o| unsafe { v_avx2_u32x8_blend_145(i, o) }),
    ("v_avx2_u64x4_permute_146", |i, o| unsafe { v_avx2_u64x4_permute_146(i, o) }),
    ("v_avx2_u16x8_blend_146", |i, o| unsafe { v_avx2_u16x8_blend_146(i, o) }),
    ("v_avx2_u32x8_blend_146", |i, o| unsafe { v_avx2_u32x8_blend_146(i, o) }),
    ("v_avx2_u64x4_permute_147", |i, o| unsafe { v_avx2_u64x4_permute_147(i, o) }),
    ("v_avx2_u16x8_blend_147", |i, o| unsafe { v_avx2_u16x8_blend_147(i, o) }),
    ("v_avx2_u32x8_blend_147", |i, o| unsafe { v_avx2_u32x8_blend_147(i, o) }),
    ("v_avx2_u64x4_permute_148", |i, o| unsafe { v_avx2_u64x4_permute_148(i, o) }),
    ("v_avx2_u16x8_blend_148", |i, o| unsafe { v_avx2_u16x8_blend_148(i, o) }),
    ("v_avx2_u32x8_blend_148", |i, o| unsafe { v_avx2_u32x8_blend_148(i, o) }),
    ("v_avx2_u64x4_permute_149", |i, o| unsafe { v_avx2_u64x4_permute_149(i, o) }),
    ("v_avx2_u16x8_blend_149", |i, o| unsafe { v_avx2_u16x8_blend_149(i, o) }),
    ("v_avx2_u32x8_blend_149", |i, o| unsafe { v_avx2_u32x8_blend_149(i, o) }),
    ("v_avx2_u64x4_permute_150", |i, o| unsafe { v_avx2_u64x4_permute_150(i, o) }),
    ("v_avx2_u16x8_blend_150", |i, o| unsafe { v_avx2_u16x8_blend_150(i, o) }),
    ("v_avx2_u32x8_blend_150", |i, o| unsafe { v_avx2_u32x8_blend_150(i, o) }),
    ("v_avx2_u64x4_permute_151", |i, o| unsafe { v_avx2_u64x4_permute_151(i, o) }),
    ("v_avx2_u16x8_blend_151", |i, o| unsafe { v_avx2_u16x8_blend_151(i, o) }),
    ("v_avx2_u32x8_blend_151", |i, o| unsafe { v_avx2_u32x8_blend_151(i, o) }),
    ("v_avx2_u64x4_permute_152", |i, o| unsafe { v_avx2_u64x4_permute_152(i, o) }),
    ("v_avx2_u16x8_blend_152", |i, o| unsafe { v_avx2_u16x8_blend_152(i, o) }),
    ("v_avx2_u32x8_blend_152", |i, o| unsafe { v_avx2_u32x8_blend_152(i, o) }),
    ("v_avx2_u64x4_permute_153", |i, o| unsafe { v_avx2_u64x4_permute_153(i, o) }),
    ("v_avx2_u16x8_blend_153", |i, o| unsafe { v_avx2_u16x8_blend_153(i, o) }),
    ("v_avx2_u32x8_blend_153", |i, o| unsafe { v_avx2_u32x8_blend_153(i, o) }),
    ("v_avx2_u64x4_permute_154", |i, o| unsafe { v_avx2_u64x4_permute_154(i, o) }),
    ("v_avx2_u16x8_blend_154", |i, o| unsafe { v_avx2_u16x8_blend_154(i, o) }),
    ("v_avx2_u32x8_blend_154", |i, o| unsafe { v_avx2_u32x8_blend_154(i, o) }),
    ("v_avx2_u64x4_permute_155", |i, o| unsafe { v_avx2_u64x4_permute_155(i, o) }),
    ("v_avx2_u16x8_blend_155", |i, o| unsafe { v_avx2_u16x8_blend_155(i, o) }),
    ("v_avx2_u32x8_blend_155", |i, o| unsafe { v_avx2_u32x8_blend_155(i, o) }),
    ("v_avx2_u64x4_permute_156", |i, o| unsafe { v_avx2_u64x4_permute_156(i, o) }),
    ("v_avx2_u16x8_blend_156", |i, o| unsafe { v_avx2_u16x8_blend_156(i, o) }),
    ("v_avx2_u32x8_blend_156", |i, o| unsafe { v_avx2_u32x8_blend_156(i, o) }),
    ("v_avx2_u64x4_permute_157", |i, o| unsafe { v_avx2_u64x4_permute_157(i, o) }),
    ("v_avx2_u16x8_blend_157", |i, o| unsafe { v_avx2_u16x8_blend_157(i, o) }),
    ("v_avx2_u32x8_blend_157", |i, o| unsafe { v_avx2_u32x8_blend_157(i, o) }),
    ("v_avx2_u64x4_permute_158", |i, o| unsafe { v_avx2_u64x4_permute_158(i, o) }),
    ("v_avx2_u16x8_blend_158", |i, o| unsafe { v_avx2_u16x8_blend_158(i, o) }),
    ("v_avx2_u32x8_blend_158", |i, o| unsafe { v_avx2_u32x8_blend_158(i, o) }),
    ("v_avx2_u64x4_permute_159", |i, o| unsafe { v_avx2_u64x4_permute_159(i, o) }),
    ("v_avx2_u16x8_blend_159", |i, o| unsafe { v_avx2_u16x8_blend_159(i, o) }),
    ("v_avx2_u32x8_blend_159", |i, o| unsafe { v_avx2_u32x8_blend_159(i, o) }),
    ("v_avx2_u64x4_permute_160", |i, o| unsafe { v_avx2_u64x4_permute_160(i, o) }),
    ("v_avx2_u16x8_blend_160", |i, o| unsafe { v_avx2_u16x8_blend_160(i, o) }),
    ("v_avx2_u32x8_blend_160", |i, o| unsafe { v_avx2_u32x8_blend_160(i, o) }),
    ("v_avx2_u64x4_permute_161", |i, o| unsafe { v_avx2_u64x4_permute_161(i, o) }),
    ("v_avx2_u16x8_blend_161", |i, o| unsafe { v_avx2_u16x8_blend_161(i, o) }),
    ("v_avx2_u32x8_blend_161", |i, o| unsafe { v_avx2_u32x8_blend_161(i, o) }),
    ("v_avx2_u64x4_permute_162", |i, o| unsafe { v_avx2_u64x4_permute_162(i, o) }),
    ("v_avx2_u16x8_blend_162", |i, o| unsafe { v_avx2_u16x8_blend_162(i, o) }),
    ("v_avx2_u32x8_blend_162", |i, o| unsafe { v_avx2_u32x8_blend_162(i, o) }),
    ("v_avx2_u64x4_permute_163", |i, o| unsafe { v_avx2_u64x4_permute_163(i, o) }),
    ("v_avx2_u16x8_blend_163", |i, o| unsafe { v_avx2_u16x8_blend_163(i, o) }),
    ("v_avx2_u32x8_blend_163", |i, o| unsafe { v_avx2_u32x8_blend_163(i, o) }),
    ("v_avx2_u64x4_permute_164", |i, o| unsafe { v_avx2_u64x4_permute_164(i, o) }),
    ("v_avx2_u16x8_blend_164", |i, o| unsafe { v_avx2_u16x8_blend_164(i, o) }),
    ("v_avx2_u32x8_blend_164", |i, o| unsafe { v_avx2_u32x8_blend_164(i, o) }),
    ("v_avx2_u64x4_permute_165", |i, o| unsafe { v_avx2_u64x4_permute_165(i, o) }),
    ("v_avx2_u16x8_blend_165", |i, o| unsafe { v_avx2_u16x8_blend_165(i, o) }),
    ("v_avx2_u32x8_blend_165", |i, o| unsafe { v_avx2_u32x8_blend_165(i, o) }),
    ("v_avx2_u64x4_permute_166", |i, o| unsafe { v_avx2_u64x4_permute_166(i, o) }),
    ("v_avx2_u16x8_blend_166", |i, o| unsafe { v_avx2_u16x8_blend_166(i, o) }),
    ("v_avx2_u32x8_blend_166", |i, o| unsafe { v_avx2_u32x8_blend_166(i, o) }),
    ("v_avx2_u64x4_permute_167", |i, o| unsafe { v_avx2_u64x4_permute_167(i, o) }),
    ("v_avx2_u16x8_blend_167", |i, o| unsafe { v_avx2_u16x8_blend_167(i, o) }),
    ("v_avx2_u32x8_blend_167", |i, o| unsafe { v_avx2_u32x8_blend_167(i, o) }),
    ("v_avx2_u64x4_permute_168", |i, o| unsafe { v_avx2_u64x4_permute_168(i, o) }),
    ("v_avx2_u16x8_blend_168", |i, o| unsafe { v_avx2_u16x8_blend_168(i, o) }),
    ("v_avx2_u32x8_blend_168", |i, o| unsafe { v_avx2_u32x8_blend_168(i, o) }),
    ("v_avx2_u64x4_permute_169", |i, o| unsafe { v_avx2_u64x4_permute_169(i, o) }),
    ("v_avx2_u16x8_blend_169", |i, o| unsafe { v_avx2_u16x8_blend_169(i, o) }),
    ("v_avx2_u32x8_blend_169", |i, o| unsafe { v_avx2_u32x8_blend_169(i, o) }),
    ("v_avx2_u64x4_permute_170", |i, o| unsafe { v_avx2_u64x4_permute_170(i, o) }),
    ("v_avx2_u16x8_blend_170", |i, o| unsafe { v_avx2_u16x8_blend_170(i, o) }),
    ("v_avx2_u32x8_blend_170", |i, o| unsafe { v_avx2_u32x8_blend_170(i, o) }),
    ("v_avx2_u64x4_permute_171", |i, o| unsafe { v_avx2_u64x4_permute_171(i, o) }),
    ("v_avx2_u16x8_blend_171", |i, o| unsafe { v_avx2_u16x8_blend_171(i, o) }),
    ("v_avx2_u32x8_blend_171", |i, o| unsafe { v_avx2_u32x8_blend_171(i, o) }),
    ("v_avx2_u64x4_permute_172", |i, o| unsafe { v_avx2_u64x4_permute_172(i, o) }),
    ("v_avx2_u16x8_blend_172", |i, o| unsafe { v_avx2_u16x8_blend_172(i, o) }),
    ("v_avx2_u32x8_blend_172", |i, o| unsafe { v_avx2_u32x8_blend_172(i, o) }),
    ("v_avx2_u64x4_permute_173", |i, o| unsafe { v_avx2_u64x4_permute_173(i, o) }),
    ("v_avx2_u16x8_blend_173", |i, o| unsafe { v_avx2_u16x8_blend_173(i, o) }),
    ("v_avx2_u32x8_blend_173", |i, o| unsafe { v_avx2_u32x8_blend_173(i, o) }),
    ("v_avx2_u64x4_permute_174", |i, o| unsafe { v_avx2_u64x4_permute_174(i, o) }),
    ("v_avx2_u16x8_blend_174", |i, o| unsafe { v_avx2_u16x8_blend_174(i, o) }),
    ("v_avx2_u32x8_blend_174", |i, o| unsafe { v_avx2_u32x8_blend_174(i, o) }),
    ("v_avx2_u64x4_permute_175", |i, o| unsafe { v_avx2_u64x4_permute_175(i, o) }),
    ("v_avx2_u16x8_blend_175", |i, o| unsafe { v_avx2_u16x8_blend_175(i, o) }),
    ("v_avx2_u32x8_blend_175", |i, o| unsafe { v_avx2_u32x8_blend_175(i, o) }),
    ("v_avx2_u64x4_permute_176", |i, o| unsafe { v_avx2_u64x4_permute_176(i, o) }),
    ("v_avx2_u16x8_blend_176", |i, o| unsafe { v_avx2_u16x8_blend_176(i, o) }),
    ("v_avx2_u32x8_blend_176", |i, o| unsafe { v_avx2_u32x8_blend_176(i, o) }),
    ("v_avx2_u64x4_permute_177", |i, o| unsafe { v_avx2_u64x4_permute_177(i, o) }),
    ("v_avx2_u16x8_blend_177", |i, o| unsafe { v_avx2_u16x8_blend_177(i, o) }),
    ("v_avx2_u32x8_blend_177", |i, o| unsafe { v_avx2_u32x8_blend_177(i, o) }),
    ("v_avx2_u64x4_permute_178", |i, o| unsafe { v_avx2_u64x4_permute_178(i, o) }),
    ("v_avx2_u16x8_blend_178", |i, o| unsafe { v_avx2_u16x8_blend_178(i, o) }),
    ("v_avx2_u32x8_blend_178", |i, o| unsafe { v_avx2_u32x8_blend_178(i, o) }),
    ("v_avx2_u64x4_permute_179", |i, o| unsafe { v_avx2_u64x4_permute_179(i, o) }),
    ("v_avx2_u16x8_blend_179", |i, o| unsafe { v_avx2_u16x8_blend_179(i, o) }),
    ("v_avx2_u32x8_blend_179", |i, o| unsafe { v_avx2_u32x8_blend_179(i, o) }),
    ("v_avx2_u64x4_permute_180", |i, o| unsafe { v_avx2_u64x4_permute_180(i, o) }),
    ("v_avx2_u16x8_blend_180", |i, o| unsafe { v_avx2_u16x8_blend_180(i, o) }),
    ("v_avx2_u32x8_blend_180", |i, o| unsafe { v_avx2_u32x8_blend_180(i, o) }),
    ("v_avx2_u64x4_permute_181", |i, o| unsafe { v_avx2_u64x4_permute_181(i, o) }),
    ("v_avx2_u16x8_blend_181", |i, o| unsafe { v_avx2_u16x8_blend_181(i, o) }),
    ("v_avx2_u32x8_blend_181", |i, o| unsafe { v_avx2_u32x8_blend_181(i, o) }),
    ("v_avx2_u64x4_permute_182", |i, o| unsafe { v_avx2_u64x4_permute_182(i, o) }),
    ("v_avx2_u16x8_blend_182", |i, o| unsafe { v_avx2_u16x8_blend_182(i, o) }),
    ("v_avx2_u32x8_blend_182", |i, o| unsafe { v_avx2_u32x8_blend_182(i, o) }),
    ("v_avx2_u64x4_permute_183", |i, o| unsafe { v_avx2_u64x4_permute_183(i, o) }),
    ("v_avx2_u16x8_blend_183", |i, o| unsafe { v_avx2_u16x8_blend_183(i, o) }),
    ("v_avx2_u32x8_blend_183", |i, o| unsafe { v_avx2_u32x8_blend_183(i, o) }),
    ("v_avx2_u64x4_permute_184", |i, o| unsafe { v_avx2_u64x4_permute_184(i, o) }),
    ("v_avx2_u16x8_blend_184", |i, o| unsafe { v_avx2_u16x8_blend_184(i, o) }),
    ("v_avx2_u32x8_blend_184", |i, o| unsafe { v_avx2_u32x8_blend_184(i, o) }),
    ("v_avx2_u64x4_permute_185", |i, o| unsafe { v_avx2_u64x4_permute_185(i, o) }),
    ("v_avx2_u16x8_blend_185", |i, o| unsafe { v_avx2_u16x8_blend_185(i, o) }),
    ("v_avx2_u32x8_blend_185", |i, o| unsafe { v_avx2_u32x8_blend_185(i, o) }),
    ("v_avx2_u64x4_permute_186", |i, o| unsafe { v_avx2_u64x4_permute_186(i, o) }),
    ("v_avx2_u16x8_blend_186", |i, o| unsafe { v_avx2_u16x8_blend_186(i, o) }),
    ("v_avx2_u32x8_blend_186", |i, o| unsafe { v_avx2_u32x8_blend_186(i, o) }),
    ("v_avx2_u64x4_permute_187", |i, o| unsafe { v_avx2_u64x4_permute_187(i, o) }),
    ("v_avx2_u16x8_blend_187", |i, o| unsafe { v_avx2_u16x8_blend_187(i, o) }),
    ("v_avx2_u32x8_blend_187", |i, o| unsafe { v_avx2_u32x8_blend_187(i, o) }),
    ("v_avx2_u64x4_permute_188", |i, o| unsafe { v_avx2_u64x4_permute_188(i, o) }),
    ("v_avx2_u16x8_blend_188", |i, o| unsafe { v_avx2_u16x8_blend_188(i, o) }),
    ("v_avx2_u32x8_blend_188", |i, o| unsafe { v_avx2_u32x8_blend_188(i, o) }),
    ("v_avx2_u64x4_permute_189", |i, o| unsafe { v_avx2_u64x4_permute_189(i, o) }),
    ("v_avx2_u16x8_blend_189", |i, o| unsafe { v_avx2_u16x8_blend_189(i, o) }),
    ("v_avx2_u32x8_blend_189", |i, o| unsafe { v_avx2_u32x8_blend_189(i, o) }),
    ("v_avx2_u64x4_permute_190", |i, o| unsafe { v_avx2_u64x4_permute_190(i, o) }),
    ("v_avx2_u16x8_blend_190", |i, o| unsafe { v_avx2_u16x8_blend_190(i, o) }),
    ("v_avx2_u32x8_blend_190", |i, o| unsafe { v_avx2_u32x8_blend_190(i, o) }),
    ("v_avx2_u64x4_permute_191", |i, o| unsafe { v_avx2_u64x4_permute_191(i, o) }),
    ("v_avx2_u16x8_blend_191", |i, o| unsafe { v_avx2_u16x8_blend_191(i, o) }),
    ("v_avx2_u32x8_blend_191", |i, o| unsafe { v_avx2_u32x8_blend_191(i, o) }),
    ("v_avx2_u64x4_permute_192", |i, o| unsafe { v_avx2_u64x4_permute_192(i, o) }),
    ("v_avx2_u16x8_blend_192", |i, o| unsafe { v_avx2_u16x8_blend_192(i, o) }),
    ("v_avx2_u32x8_blend_192", |i, o| unsafe { v_avx2_u32x8_blend_192(i, o) }),
    ("v_avx2_u64x4_permute_193", |i, o| unsafe { v_avx2_u64x4_permute_193(i, o) }),
    ("v_avx2_u16x8_blend_193", |i, o| unsafe { v_avx2_u16x8_blend_193(i, o) }),
    ("v_avx2_u32x8_blend_193", |i, o| unsafe { v_avx2_u32x8_blend_193(i, o) }),
    ("v_avx2_u64x4_permute_194", |i, o| unsafe { v_avx2_u64x4_permute_194(i, o) }),
    ("v_avx2_u16x8_blend_194", |i, o| unsafe { v_avx2_u16x8_blend_194(i, o) }),
    ("v_avx2_u32x8_blend_194", |i, o| unsafe { v_avx2_u32x8_blend_194(i, o) }),
    ("v_avx2_u64x4_permute_195", |i, o| unsafe { v_avx2_u64x4_permute_195(i, o) }),
    ("v_avx2_u16x8_blend_195", |i, o| unsafe { v_avx2_u16x8_blend_195(i, o) }),
    ("v_avx2_u32x8_blend_195", |i, o| unsafe { v_avx2_u32x8_blend_195(i, o) }),
    ("v_avx2_u64x4_permute_196", |i, o| unsafe { v_avx2_u64x4_permute_196(i, o) }),
    ("v_avx2_u16x8_blend_196", |i, o| unsafe { v_avx2_u16x8_blend_196(i, o) }),
    ("v_avx2_u32x8_blend_196", |i, o| unsafe { v_avx2_u32x8_blend_196(i, o) }),
    ("v_avx2_u64x4_permute_197", |i, o| unsafe { v_avx2_u64x4_permute_197(i, o) }),
    ("v_avx2_u16x8_blend_197", |i, o| unsafe { v_avx2_u16x8_blend_197(i, o) }),
    ("v_avx2_u32x8_blend_197", |i, o| unsafe { v_avx2_u32x8_blend_197(i, o) }),
    ("v_avx2_u64x4_permute_198", |i, o| unsafe { v_avx2_u64x4_permute_198(i, o) }),
    ("v_avx2_u16x8_blend_198", |i, o| unsafe { v_avx2_u16x8_blend_198(i, o) }),
    ("v_avx2_u32x8_blend_198", |i, o| unsafe { v_avx2_u32x8_blend_198(i, o) }),
    ("v_avx2_u64x4_permute_199", |i, o| unsafe { v_avx2_u64x4_permute_199(i, o) }),
    ("v_avx2_u16x8_blend_199", |i, o| unsafe { v_avx2_u16x8_blend_199(i, o) }),
    ("v_avx2_u32x8_blend_199", |i, o| unsafe { v_avx2_u32x8_blend_199(i, o) }),
    ("v_avx2_u64x4_permute_200", |i, o| unsafe { v_avx2_u64x4_permute_200(i, o) }),
    ("v_avx2_u16x8_blend_200", |i, o| unsafe { v_avx2_u16x8_blend_200(i, o) }),
    ("v_avx2_u32x8_blend_200", |i, o| unsafe { v_avx2_u32x8_blend_200(i, o) }),
    ("v_avx2_u64x4_permute_201", |i, o| unsafe { v_avx2_u64x4_permute_201(i, o) }),
    ("v_avx2_u16x8_blend_201", |i, o| unsafe { v_avx2_u16x8_blend_201(i, o) }),
    ("v_avx2_u32x8_blend_201", |i, o| unsafe { v_avx2_u32x8_blend_201(i, o) }),
    ("v_avx2_u64x4_permute_202", |i, o| unsafe { v_avx2_u64x4_permute_202(i, o) }),
    ("v_avx2_u16x8_blend_202", |i, o| unsafe { v_avx2_u16x8_blend_202(i, o) }),
    ("v_avx2_u32x8_blend_202", |i, o| unsafe { v_avx2_u32x8_blend_202(i, o) }),
    ("v_avx2_u64x4_permute_203", |i, o| unsafe { v_avx2_u64x4_permute_203(i, o) }),
    ("v_avx2_u16x8_blend_203", |i, o| unsafe { v_avx2_u16x8_blend_203(i, o) }),
    ("v_avx2_u32x8_blend_203", |i, o| unsafe { v_avx2_u32x8_blend_203(i, o) }),
    ("v_avx2_u64x4_permute_204", |i, o| unsafe { v_avx2_u64x4_permute_204(i, o) }),
    ("v_avx2_u16x8_blend_204", |i, o| unsafe { v_avx2_u16x8_blend_204(i, o) }),
    ("v_avx2_u32x8_blend_204", |i, o| unsafe { v_avx2_u32x8_blend_204(i, o) }),
    ("v_avx2_u64x4_permute_205", |i, o| unsafe { v_avx2_u64x4_permute_205(i, o) }),
    ("v_avx2_u16x8_blend_205", |i, o| unsafe { v_avx2_u16x8_blend_205(i, o) }),
    ("v_avx2_u32x8_blend_205", |i, o| unsafe { v_avx2_u32x8_blend_205(i, o) }),
    ("v_avx2_u64x4_permute_206", |i, o| unsafe { v_avx2_u64x4_permute_206(i, o) }),
    ("v_avx2_u16x8_blend_206", |i, o| unsafe { v_avx2_u16x8_blend_206(i, o) }),
    ("v_avx2_u32x8_blend_206", |i, o| unsafe { v_avx2_u32x8_blend_206(i, o) }),
    ("v_avx2_u64x4_permute_207", |i, o| unsafe { v_avx2_u64x4_permute_207(i, o) }),
    ("v_avx2_u16x8_blend_207", |i, o| unsafe { v_avx2_u16x8_blend_207(i, o) }),
    ("v_avx2_u32x8_blend_207", |i, o| unsafe { v_avx2_u32x8_blend_207(i, o) }),
    ("v_avx2_u64x4_permute_208", |i, o| unsafe { v_avx2_u64x4_permute_208(i, o) }),
    ("v_avx2_u16x8_blend_208", |i, o| unsafe { v_avx2_u16x8_blend_208(i, o) }),
    ("v_avx2_u32x8_blend_208", |i, o| unsafe { v_avx2_u32x8_blend_208(i, o) }),
    ("v_avx2_u64x4_permute_209", |i, o| unsafe { v_avx2_u64x4_permute_209(i, o) }),
    ("v_avx2_u16x8_blend_209", |i, o| unsafe { v_avx2_u16x8_blend_209(i, o) }),
    ("v_avx2_u32x8_blend_209", |i, o| unsafe { v_avx2_u32x8_blend_209(i, o) }),
    ("v_avx2_u64x4_permute_210", |i, o| unsafe { v_avx2_u64x4_permute_210(i, o) }),
    ("v_avx2_u16x8_blend_210", |i, o| unsafe { v_avx2_u16x8_blend_210(i, o) }),
    ("v_avx2_u32x8_blend_210", |i, o| unsafe { v_avx2_u32x8_blend_210(i, o) }),
    ("v_avx2_u64x4_permute_211", |i, o| unsafe { v_avx2_u64x4_permute_211(i, o) }),
    ("v_avx2_u16x8_blend_211", |i, o| unsafe { v_avx2_u16x8_blend_211(i, o) }),
    ("v_avx2_u32x8_blend_211", |i, o| unsafe { v_avx2_u32x8_blend_211(i, o) }),
    ("v_avx2_u64x4_permute_212", |i, o| unsafe { v_avx2_u64x4_permute_212(i, o) }),
    ("v_avx2_u16x8_blend_212", |i, o| unsafe { v_avx2_u16x8_blend_212(i, o) }),
    ("v_avx2_u32x8_blend_212", |i, o| unsafe { v_avx2_u32x8_blend_212(i, o) }),
    ("v_avx2_u64x4_permute_213", |i, o| unsafe { v_avx2_u64x4_permute_213(i, o) }),
    ("v_avx2_u16x8_blend_213", |i, o| unsafe { v_avx2_u16x8_blend_213(i, o) }),
    ("v_avx2_u32x8_blend_213", |i, o| unsafe { v_avx2_u32x8_blend_213(i, o) }),
    ("v_avx2_u64x4_permute_214", |i, o| unsafe { v_avx2_u64x4_permute_214(i, o) }),
    ("v_avx2_u16x8_blend_214", |i, o| unsafe { v_avx2_u16x8_blend_214(i, o) }),
    ("v_avx2_u32x8_blend_214", |i, o| unsafe { v_avx2_u32x8_blend_214(i, o) }),
    ("v_avx2_u64x4_permute_215", |i, o| unsafe { v_avx2_u64x4_permute_215(i, o) }),
    ("v_avx2_u16x8_blend_215", |i, o| unsafe { v_avx2_u16x8_blend_215(i, o) }),
    ("v_avx2_u32x8_blend_215", |i, o| unsafe { v_avx2_u32x8_blend_215(i, o) }),
    ("v_avx2_u64x4_permute_216", |i, o| unsafe { v_avx2_u64x4_permute_216(i, o) }),
    ("v_avx2_u16x8_blend_216", |i, o| unsafe { v_avx2_u16x8_blend_216(i, o) }),
    ("v_avx2_u32x8_blend_216", |i, o| unsafe { v_avx2_u32x8_blend_216(i, o) }),
    ("v_avx2_u64x4_permute_217", |i, o| unsafe { v_avx2_u64x4_permute_217(i, o) }),
    ("v_avx2_u16x8_blend_217", |i, o| unsafe { v_avx2_u16x8_blend_217(i, o) }),
    ("v_avx2_u32x8_blend_217", |i, o| unsafe { v_avx2_u32x8_blend_217(i, o) }),
    ("v_avx2_u64x4_permute_218", |i, o| unsafe { v_avx2_u64x4_permute_218(i, o) }),
    ("v_avx2_u16x8_blend_218", |i, o| unsafe { v_avx2_u16x8_blend_218(i, o) }),
    ("v_avx2_u32x8_blend_218", |i, o| unsafe { v_avx2_u32x8_blend_218(i, o) }),
    ("v_avx2_u64x4_permute_219", |i, o| unsafe { v_avx2_u64x4_permute_219(i, o) }),
    ("v_avx2_u16x8_blend_219", |i, o| unsafe { v_avx2_u16x8_blend_219(i, o) }),
    ("v_avx2_u32x8_blend_219", |i, o| unsafe { v_avx2_u32x8_blend_219(i, o) }),
    ("v_avx2_u64x4_permute_220", |i, o| unsafe { v_avx2_u64x4_permute_220(i, o) }),
    ("v_avx2_u16x8_blend_220", |i, o| unsafe { v_avx2_u16x8_blend_220(i, o) }),
    ("v_avx2_u32x8_blend_220", |i, o| unsafe { v_avx2_u32x8_blend_220(i, o) }),
    ("v_avx2_u64x4_permute_221", |i, o| unsafe { v_avx2_u64x4_permute_221(i, o) }),
    ("v_avx2_u16x8_blend_221", |i, o| unsafe { v_avx2_u16x8_blend_221(i, o) }),
    ("v_avx2_u32x8_blend_221", |i, o| unsafe { v_avx2_u32x8_blend_221(i, o) }),
    ("v_avx2_u64x4_permute_222", |i, o| unsafe { v_avx2_u64x4_permute_222(i, o) }),
    ("v_avx2_u16x8_blend_222", |i, o| unsafe { v_avx2_u16x8_blend_222(i, o) }),
    ("v_avx2_u32x8_blend_222", |i, o| unsafe { v_avx2_u32x8_blend_222(i, o) }),
    ("v_avx2_u64x4_permute_223", |i, o| unsafe { v_avx2_u64x4_permute_223(i, o) }),
    ("v_avx2_u16x8_blend_223", |i, o| unsafe { v_avx2_u16x8_blend_223(i, o) }),
    ("v_avx2_u32x8_blend_223", |i, o| unsafe { v_avx2_u32x8_blend_223(i, o) }),
    ("v_avx2_u64x4_permute_224", |i, o| unsafe { v_avx2_u64x4_permute_224(i, o) }),
    ("v_avx2_u16x8_blend_224", |i, o| unsafe { v_avx2_u16x8_blend_224(i, o) }),
    ("v_avx2_u32x8_blend_224", |i, o| unsafe { v_avx2_u32x8_blend_224(i, o) }),
    ("v_avx2_u64x4_permute_225", |i, o| unsafe { v_avx2_u64x4_permute_225(i, o) }),
    ("v_avx2_u16x8_blend_225", |i, o| unsafe { v_avx2_u16x8_blend_225(i, o) }),
    ("v_avx2_u32x8_blend_225", |i, o| unsafe { v_avx2_u32x8_blend_225(i, o) }),
    ("v_avx2_u64x4_permute_226", |i, o| unsafe { v_avx2_u64x4_permute_226(i, o) }),
    ("v_avx2_u16x8_blend_226", |i, o| unsafe { v_avx2_u16x8_blend_226(i, o) }),
    ("v_avx2_u32x8_blend_226", |i, o| unsafe { v_avx2_u32x8_blend_226(i, o) }),
    ("v_avx2_u64x4_permute_227", |i, o| unsafe { v_avx2_u64x4_permute_227(i, o) }),
    ("v_avx2_u16x8_blend_227", |i, o| unsafe { v_avx2_u16x8_blend_227(i, o) }),
    ("v_avx2_u32x8_blend_227", |i, o| unsafe { v_avx2_u32x8_blend_227(i, o) }),
    ("v_avx2_u64x4_permute_228", |i, o| unsafe { v_avx2_u64x4_permute_228(i, o) }),
    ("v_avx2_u16x8_blend_228", |i, o| unsafe { v_avx2_u16x8_blend_228(i, o) }),
    ("v_avx2_u32x8_blend_228", |i, o| unsafe { v_avx2_u32x8_blend_228(i, o) }),
    ("v_avx2_u64x4_permute_229", |i, o| unsafe { v_avx2_u64x4_permute_229(i, o) }),
    ("v_avx2_u16x8_blend_229", |i, o| unsafe { v_avx2_u16x8_blend_229(i, o) }),
    ("v_avx2_u32x8_blend_229", |i, o| unsafe { v_avx2_u32x8_blend_229(i, o) }),
    ("v_avx2_u64x4_permute_230", |i, o| unsafe { v_avx2_u64x4_permute_230(i, o) }),
    ("v_avx2_u16x8_blend_230", |i, o| unsafe { v_avx2_u16x8_blend_230(i, o) }),
    ("v_avx2_u32x8_blend_230", |i, o| unsafe { v_avx2_u32x8_blend_230(i, o) }),
    ("v_avx2_u64x4_permute_231", |i, o| unsafe { v_avx2_u64x4_permute_231(i, o) }),
    ("v_avx2_u16x8_blend_231", |i, o| unsafe { v_avx2_u16x8_blend_231(i, o) }),
    ("v_avx2_u32x8_blend_231", |i, o| unsafe { v_avx2_u32x8_blend_231(i, o) }),
    ("v_avx2_u64x4_permute_232", |i, o| unsafe { v_avx2_u64x4_permute_232(i, o) }),
    ("v_avx2_u16x8_blend_232", |i, o| unsafe { v_avx2_u16x8_blend_232(i, o) }),
    ("v_avx2_u32x8_blend_232", |i, o| unsafe { v_avx2_u32x8_blend_232(i, o) }),
    ("v_avx2_u64x4_permute_233", |i, o| unsafe { v_avx2_u64x4_permute_233(i, o) }),
    ("v_avx2_u16x8_blend_233", |i, o| unsafe { v_avx2_u16x8_blend_233(i, o) }),
    ("v_avx2_u32x8_blend_233", |i, o| unsafe { v_avx2_u32x8_blend_233(i, o) }),
    ("v_avx2_u64x4_permute_234", |i, o| unsafe { v_avx2_u64x4_permute_234(i, o) }),
    ("v_avx2_u16x8_blend_234", |i, o| unsafe { v_avx2_u16x8_blend_234(i, o) }),
    ("v_avx2_u32x8_blend_234", |i, o| unsafe { v_avx2_u32x8_blend_234(i, o) }),
    ("v_avx2_u64x4_permute_235", |i, o| unsafe { v_avx2_u64x4_permute_235(i, o) }),
    ("v_avx2_u16x8_blend_235", |i, o| unsafe { v_avx2_u16x8_blend_235(i, o) }),
    ("v_avx2_u32x8_blend_235", |i, o| unsafe { v_avx2_u32x8_blend_235(i, o) }),
    ("v_avx2_u64x4_permute_236", |i, o| unsafe { v_avx2_u64x4_permute_236(i, o) }),
    ("v_avx2_u16x8_blend_236", |i, o| unsafe { v_avx2_u16x8_blend_236(i, o) }),
    ("v_avx2_u32x8_blend_236", |i, o| unsafe { v_avx2_u32x8_blend_236(i, o) }),
    ("v_avx2_u64x4_permute_237", |i, o| unsafe { v_avx2_u64x4_permute_237(i, o) }),
    ("v_avx2_u16x8_blend_237", |i, o| unsafe { v_avx2_u16x8_blend_237(i, o) }),
    ("v_avx2_u32x8_blend_237", |i, o| unsafe { v_avx2_u32x8_blend_237(i, o) }),
    ("v_avx2_u64x4_permute_238", |i, o| unsafe { v_avx2_u64x4_permute_238(i, o) }),
    ("v_avx2_u16x8_blend_238", |i, o| unsafe { v_avx2_u16x8_blend_238(i, o) }),
    ("v_avx2_u32x8_blend_238", |i, o| unsafe { v_avx2_u32x8_blend_238(i, o) }),
    ("v_avx2_u64x4_permute_239", |i, o| unsafe { v_avx2_u64x4_permute_239(i, o) }),
    ("v_avx2_u16x8_blend_239", |i, o| unsafe { v_avx2_u16x8_blend_239(i, o) }),
    ("v_avx2_u32x8_blend_239", |i, o| unsafe { v_avx2_u32x8_blend_239(i, o) }),
    ("v_avx2_u64x4_permute_240", |i, o| unsafe { v_avx2_u64x4_permute_240(i, o) }),
    ("v_avx2_u16x8_blend_240", |i, o| unsafe { v_avx2_u16x8_blend_240(i, o) }),
    ("v_avx2_u32x8_blend_240", |i, o| unsafe { v_avx2_u32x8_blend_240(i, o) }),
    ("v_avx2_u64x4_permute_241", |i, o| unsafe { v_avx2_u64x4_permute_241(i, o) }),
    ("v_avx2_u16x8_blend_241", |i, o| unsafe { v_avx2_u16x8_blend_241(i, o) }),
    ("v_avx2_u32x8_blend_241", |i, o| unsafe { v_avx2_u32x8_blend_241(i, o) }),
    ("v_avx2_u64x4_permute_242", |i, o| unsafe { v_avx2_u64x4_permute_242(i, o) }),
    ("v_avx2_u16x8_blend_242", |i, o| unsafe { v_avx2_u16x8_blend_242(i, o) }),
    ("v_avx2_u32x8_blend_242", |i, o| unsafe { v_avx2_u32x8_blend_242(i, o) }),
    ("v_avx2_u64x4_permute_243", |i, o| unsafe { v_avx2_u64x4_permute_243(i, o) }),
    ("v_avx2_u16x8_blend_243", |i, o| unsafe { v_avx2_u16x8_blend_243(i, o) }),
    ("v_avx2_u32x8_blend_243", |i, o| unsafe { v_avx2_u32x8_blend_243(i, o) }),
    ("v_avx2_u64x4_permute_244", |i, o| unsafe { v_avx2_u64x4_permute_244(i, o) }),
    ("v_avx2_u16x8_blend_244", |i, o| unsafe { v_avx2_u16x8_blend_244(i, o) }),
    ("v_avx2_u32x8_blend_244", |i, o| unsafe { v_avx2_u32x8_blend_244(i, o) }),
    ("v_avx2_u64x4_permute_245", |i, o| unsafe { v_avx2_u64x4_permute_245(i, o) }),
    ("v_avx2_u16x8_blend_245", |i, o| unsafe { v_avx2_u16x8_blend_245(i, o) }),
    ("v_avx2_u32x8_blend_245", |i, o| unsafe { v_avx2_u32x8_blend_245(i, o) }),
    ("v_avx2_u64x4_permute_246", |i, o| unsafe { v_avx2_u64x4_permute_246(i, o) }),
    ("v_avx2_u16x8_blend_246", |i, o| unsafe { v_avx2_u16x8_blend_246(i, o) }),
    ("v_avx2_u32x8_blend_246", |i, o| unsafe { v_avx2_u32x8_blend_246(i, o) }),
    ("v_avx2_u64x4_permute_247", |i, o| unsafe { v_avx2_u64x4_permute_247(i, o) }),
    ("v_avx2_u16x8_blend_247", |i, o| unsafe { v_avx2_u16x8_blend_247(i, o) }),
    ("v_avx2_u32x8_blend_247", |i, o| unsafe { v_avx2_u32x8_blend_247(i, o) }),
    ("v_avx2_u64x4_permute_248", |i, o| unsafe { v_avx2_u64x4_permute_248(i, o) }),
    ("v_avx2_u16x8_blend_248", |i, o| unsafe { v_avx2_u16x8_blend_248(i, o) }),
    ("v_avx2_u32x8_blend_248", |i, o| unsafe { v_avx2_u32x8_blend_248(i, o) }),
    ("v_avx2_u64x4_permute_249", |i, o| unsafe { v_avx2_u64x4_permute_249(i, o) }),
    ("v_avx2_u16x8_blend_249", |i, o| unsafe { v_avx2_u16x8_blend_249(i, o) }),
    ("v_avx2_u32x8_blend_249", |i, o| unsafe { v_avx2_u32x8_blend_249(i, o) }),
    ("v_avx2_u64x4_permute_250", |i, o| unsafe { v_avx2_u64x4_permute_250(i, o) }),
    ("v_avx2_u16x8_blend_250", |i, o| unsafe { v_avx2_u16x8_blend_250(i, o) }),
    ("v_avx2_u32x8_blend_250", |i, o| unsafe { v_avx2_u32x8_blend_250(i, o) }),
    ("v_avx2_u64x4_permute_251", |i, o| unsafe { v_avx2_u64x4_permute_251(i, o) }),
    ("v_avx2_u16x8_blend_251", |i, o| unsafe { v_avx2_u16x8_blend_251(i, o) }),
    ("v_avx2_u32x8_blend_251", |i, o| unsafe { v_avx2_u32x8_blend_251(i, o) }),
    ("v_avx2_u64x4_permute_252", |i, o| unsafe { v_avx2_u64x4_permute_252(i, o) }),
    ("v_avx2_u16x8_blend_252", |i, o| unsafe { v_avx2_u16x8_blend_252(i, o) }),
    ("v_avx2_u32x8_blend_252", |i, o| unsafe { v_avx2_u32x8_blend_252(i, o) }),
    ("v_avx2_u64x4_permute_253", |i, o| unsafe { v_avx2_u64x4_permute_253(i, o) }),
    ("v_avx2_u16x8_blend_253", |i, o| unsafe { v_avx2_u16x8_blend_253(i, o) }),
    ("v_avx2_u32x8_blend_253", |i, o| unsafe { v_avx2_u32x8_blend_253(i, o) }),
    ("v_avx2_u64x4_permute_254", |i, o| unsafe { v_avx2_u64x4_permute_254(i, o) }),
    ("v_avx2_u16x8_blend_254", |i, o| unsafe { v_avx2_u16x8_blend_254(i, o) }),
    ("v_avx2_u32x8_blend_254", |i, o| unsafe { v_avx2_u32x8_blend_254(i, o) }),
    ("v_avx2_u64x4_permute_255", |i, o| unsafe { v_avx2_u64x4_permute_255(i, o) }),
    ("v_avx2_u16x8_blend_255", |i, o| unsafe { v_avx2_u16x8_blend_255(i, o) }),
    ("v_avx2_u32x8_blend_255", |i, o| unsafe { v_avx2_u32x8_blend_255(i, o) }),
    ("v_avx2_s128_and", |i, o| unsafe { v_avx2_s128_and(i, o) }),
    ("v_avx2_s128_or", |i, o| unsafe { v_avx2_s128_or(i, o) }),
    ("v_avx2_s128_xor", |i, o| unsafe { v_avx2_s128_xor(i, o) }),
    ("v_avx2_s128_andnot", |i, o| unsafe { v_avx2_s128_andnot(i, o) }),
    ("v_avx2_s128_u8xn_splat", |i, o| unsafe { v_avx2_s128_u8xn_splat(i, o) }),
    ("v_avx2_s128_i8xn_splat", |i, o| unsafe { v_avx2_s128_i8xn_splat(i, o) }),
    ("v_avx2_s128_u32xn_splat", |i, o| unsafe { v_avx2_s128_u32xn_splat(i, o) }),
    ("v_avx2_s128_u8xn_add", |i, o| unsafe { v_avx2_s128_u8xn_add(i, o) }),
    ("v_avx2_s128_u8xn_sub", |i, o| unsafe { v_avx2_s128_u8xn_sub(i, o) }),
    ("v_avx2_s128_u32xn_sub", |i, o| unsafe { v_avx2_s128_u32xn_sub(i, o) }),
    ("v_avx2_s128_u8xn_add_sat", |i, o| unsafe { v_avx2_s128_u8xn_add_sat(i, o) }),
    ("v_avx2_s128_i8xn_add_sat", |i, o| unsafe { v_avx2_s128_i8xn_add_sat(i, o) }),
    ("v_avx2_s128_u8xn_sub_sat", |i, o| unsafe { v_avx2_s128_u8xn_sub_sat(i, o) }),
    ("v_avx2_s128_u8xn_eq", |i, o| unsafe { v_avx2_s128_u8xn_eq(i, o) }),
    ("v_avx2_s128_i8xn_lt", |i, o| unsafe { v_avx2_s128_i8xn_lt(i, o) }),
    ("v_avx2_s128_u32xn_lt", |i, o| unsafe { v_avx2_s128_u32xn_lt(i, o) }),
    ("v_avx2_s128_u32xn_max", |i, o| unsafe { v_avx2_s128_u32xn_max(i, o) }),
    ("v_avx2_s128_u8xn_avgr", |i, o| unsafe { v_avx2_s128_u8xn_avgr(i, o) }),
    ("v_avx2_s128_u8x16xn_swizzle", |i, o| unsafe { v_avx2_s128_u8x16xn_swizzle(i, o) }),
    ("v_avx2_s128_u16xn_shl_0", |i, o| unsafe { v_avx2_s128_u16xn_shl_0(i, o) }),
    ("v_avx2_s128_u16xn_shr_0", |i, o| unsafe { v_avx2_s128_u16xn_shr_0(i, o) }),
    ("v_avx2_s128_u32xn_shr_0", |i, o| unsafe { v_avx2_s128_u32xn_shr_0(i, o) }),
    ("v_avx2_s128_u16xn_shl_1", |i, o| unsafe { v_avx2_s128_u16xn_shl_1(i, o) }),
    ("v_avx2_s128_u16xn_shr_1", |i, o| unsafe { v_avx2_s128_u16xn_shr_1(i, o) }),
    ("v_avx2_s128_u32xn_shr_1", |i, o| unsafe { v_avx2_s128_u32xn_shr_1(i, o) }),
    ("v_avx2_s128_u16xn_shl_2", |i, o| unsafe { v_avx2_s128_u16xn_shl_2(i, o) }),
    ("v_avx2_s128_u16xn_shr_2", |i, o| unsafe { v_avx2_s128_u16xn_shr_2(i, o) }),
    ("v_avx2_s128_u32xn_shr_2", |i, o| unsafe { v_avx2_s128_u32xn_shr_2(i, o) }),
    ("v_avx2_s128_u16xn_shl_3", |i, o| unsafe { v_avx2_s128_u16xn_shl_3(i, o) }),
    ("v_avx2_s128_u16xn_shr_3", |i, o| unsafe { v_avx2_s128_u16xn_shr_3(i, o) }),
    ("v_avx2_s128_u32xn_shr_3", |i, o| unsafe { v_avx2_s128_u32xn_shr_3(i, o) }),
    ("v_avx2_s128_u16xn_shl_4", |i, o| unsafe { v_avx2_s128_u16xn_shl_4(i, o) }),
    ("v_avx2_s128_u16xn_shr_4", |i, o| unsafe { v_avx2_s128_u16xn_shr_4(i, o) }),
    ("v_avx2_s128_u32xn_shr_4", |i, o| unsafe { v_avx2_s128_u32xn_shr_4(i, o) }),
    ("v_avx2_s128_u16xn_shl_5", |i, o| unsafe { v_avx2_s128_u16xn_shl_5(i, o) }),
    ("v_avx2_s128_u16xn_shr_5", |i, o| unsafe { v_avx2_s128_u16xn_shr_5(i, o) }),
    ("v_avx2_s128_u32xn_shr_5", |i, o| unsafe { v_avx2_s128_u32xn_shr_5(i, o) }),
    ("v_avx2_s128_u16xn_shl_6", |i, o| unsafe { v_avx2_s128_u16xn_shl_6(i, o) }),
    ("v_avx2_s128_u16xn_shr_6", |i, o| unsafe { v_avx2_s128_u16xn_shr_6(i, o) }),
    ("v_avx2_s128_u32xn_shr_6", |i, o| unsafe { v_avx2_s128_u32xn_shr_6(i, o) }),
    ("v_avx2_s128_u16xn_shl_7", |i, o| unsafe { v_avx2_s128_u16xn_shl_7(i, o) }),
    ("v_avx2_s128_u16xn_shr_7", |i, o| unsafe { v_avx2_s128_u16xn_shr_7(i, o) }),
    ("v_avx2_s128_u32xn_shr_7", |i, o| unsafe { v_avx2_s128_u32xn_shr_7(i, o) }),
    ("v_avx2_s128_u16xn_shl_8", |i, o| unsafe { v_avx2_s128_u16xn_shl_8(i, o) }),
    ("v_avx2_s128_u16xn_shr_8", |i, o| unsafe { v_avx2_s128_u16xn_shr_8(i, o) }),
    ("v_avx2_s128_u32xn_shr_8", |i, o| unsafe { v_avx2_s128_u32xn_shr_8(i, o) }),
    ("v_avx2_s128_u16xn_shl_9", |i, o| unsafe { v_avx2_s128_u16xn_shl_9(i, o) }),
    ("v_avx2_s128_u16xn_shr_9", |i, o| unsafe { v_avx2_s128_u16xn_shr_9(i, o) }),
    ("v_avx2_s128_u32xn_shr_9", |i, o| unsafe { v_avx2_s128_u32xn_shr_9(i, o) }),
    ("v_avx2_s128_u16xn_shl_10", |i, o| unsafe { v_avx2_s128_u16xn_shl_10(i, o) }),
    ("v_avx2_s128_u16xn_shr_10", |i, o| unsafe { v_avx2_s128_u16xn_shr_10(i, o) }),
    ("v_avx2_s128_u32xn_shr_10", |i, o| unsafe { v_avx2_s128_u32xn_shr_10(i, o) }),
    ("v_avx2_s128_u16xn_shl_11", |i, o| unsafe { v_avx2_s128_u16xn_shl_11(i, o) }),
    ("v_avx2_s128_u16xn_shr_11", |i, o| unsafe { v_avx2_s128_u16xn_shr_11(i, o) }),
    ("v_avx2_s128_u32xn_shr_11", |i, o| unsafe { v_avx2_s128_u32xn_shr_11(i, o) }),
    ("v_avx2_s128_u16xn_shl_12", |i, o| unsafe { v_avx2_s128_u16xn_shl_12(i, o) }),
    ("v_avx2_s128_u16xn_shr_12", |i, o| unsafe { v_avx2_s128_u16xn_shr_12(i, o) }),
    ("v_avx2_s128_u32xn_shr_12", |i, o| unsafe { v_avx2_s128_u32xn_shr_12(i, o) }),
    ("v_avx2_s128_u16xn_shl_13", |i, o| unsafe { v_avx2_s128_u16xn_shl_13(i, o) }),
    ("v_avx2_s128_u16xn_shr_13", |i, o| unsafe { v_avx2_s128_u16xn_shr_13(i, o) }),
    ("v_avx2_s128_u32xn_shr_13", |i, o| unsafe { v_avx2_s128_u32xn_shr_13(i, o) }),
    ("v_avx2_s128_u16xn_shl_14", |i, o| unsafe { v_avx2_s128_u16xn_shl_14(i, o) }),
    ("v_avx2_s128_u16xn_shr_14", |i, o| unsafe { v_avx2_s128_u16xn_shr_14(i, o) }),
    ("v_avx2_s128_u32xn_shr_14", |i, o| unsafe { v_avx2_s128_u32xn_shr_14(i, o) }),
    ("v_avx2_s128_u16xn_shl_15", |i, o| unsafe { v_avx2_s128_u16xn_shl_15(i, o) }),
    ("v_avx2_s128_u16xn_shr_15", |i, o| unsafe { v_avx2_s128_u16xn_shr_15(i, o) }),
    ("v_avx2_s128_u32xn_shr_15", |i, o| unsafe { v_avx2_s128_u32xn_shr_15(i, o) }),
    ("v_avx2_s128_u32xn_shr_16", |i, o| unsafe { v_avx2_s128_u32xn_shr_16(i, o) }),
    ("v_avx2_s128_u32xn_shr_17", |i, o| unsafe { v_avx2_s128_u32xn_shr_17(i, o) }),
    ("v_avx2_s128_u32xn_shr_18", |i, o| unsafe { v_avx2_s128_u32xn_shr_18(i, o) }),
    ("v_avx2_s128_u32xn_shr_19", |i, o| unsafe { v_avx2_s128_u32xn_shr_19(i, o) }),
    ("v_avx2_s128_u32xn_shr_20", |i, o| unsafe { v_avx2_s128_u32xn_shr_20(i, o) }),
    ("v_avx2_s128_u32xn_shr_21", |i, o| unsafe { v_avx2_s128_u32xn_shr_21(i, o) }),
    ("v_avx2_s128_u32xn_shr_22", |i, o| unsafe { v_avx2_s128_u32xn_shr_22(i, o) }),
    ("v_avx2_s128_u32xn_shr_23", |i, o| unsafe { v_avx2_s128_u32xn_shr_23(i, o) }),
    ("v_avx2_s128_u32xn_shr_24", |i, o| unsafe { v_avx2_s128_u32xn_shr_24(i, o) }),
    ("v_avx2_s128_u32xn_shr_25", |i, o| unsafe { v_avx2_s128_u32xn_shr_25(i, o) }),
    ("v_avx2_s128_u32xn_shr_26", |i, o| unsafe { v_avx2_s128_u32xn_shr_26(i, o) }),
    ("v_avx2_s128_u32xn_shr_27", |i, o| unsafe { v_avx2_s128_u32xn_shr_27(i, o) }),
    ("v_avx2_s128_u32xn_shr_28", |i, o| unsafe { v_avx2_s128_u32xn_shr_28(i, o) }),
    ("v_avx2_s128_u32xn_shr_29", |i, o| unsafe { v_avx2_s128_u32xn_shr_29(i, o) }),
    ("v_avx2_s128_u32xn_shr_30", |i, o| unsafe { v_avx2_s128_u32xn_shr_30(i, o) }),
    ("v_avx2_s128_u32xn_shr_31", |i, o| unsafe { v_avx2_s128_u32xn_shr_31(i, o) }),
    ("v_avx2_s128_u16xn_bswap", |i, o| unsafe { v_avx2_s128_u16xn_bswap(i, o) }),
    ("v_avx2_s128_u32xn_bswap", |i, o| unsafe { v_avx2_s128_u32xn_bswap(i, o) }),
    ("v_avx2_s128_u64xn_bswap", |i, o| unsafe { v_avx2_s128_u64xn_bswap(i, o) }),
    ("v_avx2_s128_all_zero", |i, o| unsafe { v_avx2_s128_all_zero(i, o) }),
    ("v_avx2_s128_mask8xn_all", |i, o| unsafe { v_avx2_s128_mask8xn_all(i, o) }),
    ("v_avx2_s128_mask8xn_any", |i, o| unsafe { v_avx2_s128_mask8xn_any(i, o) }),
    ("v_avx2_s128_u8xn_highbit_all", |i, o| unsafe { v_avx2_s128_u8xn_highbit_all(i, o) }),
    ("v_avx2_s128_u8xn_highbit_any", |i, o| unsafe { v_avx2_s128_u8xn_highbit_any(i, o) }),
    ("v_avx2_f_mask8x16_all", |i, o| unsafe { v_avx2_f_mask8x16_all(i, o) }),
    ("v_avx2_f_mask8x16_any", |i, o| unsafe { v_avx2_f_mask8x16_any(i, o) }),
    ("v_avx2_f_u8x16_highbit_all", |i, o| unsafe { v_avx2_f_u8x16_highbit_all(i, o) }),
    ("v_avx2_f_u8x16_highbit_any", |i, o| unsafe { v_avx2_f_u8x16_highbit_any(i, o) }),
    ("v_avx2_s128_lookup", |i, o| unsafe { v_avx2_s128_lookup(i, o) }),
    ("v_avx2_s128_to_ascii_lowercase", |i, o| unsafe { v_avx2_s128_to_ascii_lowercase(i, o) }),
    ("v_avx2_s128_to_ascii_uppercase", |i, o| unsafe { v_avx2_s128_to_ascii_uppercase(i, o) }),
    ("v_avx2_s128_hex_check", |i, o| unsafe { v_avx2_s128_hex_check(i, o) }),
    ("v_avx2_s128_alsw_check", |i, o| unsafe { v_avx2_s128_alsw_check(i, o) }),
    ("v_avx2_s128_alsw_decode", |i, o| unsafe { v_avx2_s128_alsw_decode(i, o) }),
    ("v_avx2_s256_and", |i, o| unsafe { v_avx2_s256_and(i, o) }),
    ("v_avx2_s256_or", |i, o| unsafe { v_avx2_s256_or(i, o) }),
    ("v_avx2_s256_xor", |i, o| unsafe { v_avx2_s256_xor(i, o) }),
    ("v_avx2_s256_andnot", |i, o| unsafe { v_avx2_s256_andnot(i, o) }),
    ("v_avx2_s256_u8xn_splat", |i, o| unsafe { v_avx2_s256_u8xn_splat(i, o) }),
    ("v_avx2_s256_i8xn_splat", |i, o| unsafe { v_avx2_s256_i8xn_splat(i, o) }),
    ("v_avx2_s256_u32xn_splat", |i, o| unsafe { v_avx2_s256_u32xn_splat(i, o) }),
    ("v_avx2_s256_u8xn_add", |i, o| unsafe { v_avx2_s256_u8xn_add(i, o) }),
    ("v_avx2_s256_u8xn_sub", |i, o| unsafe { v_avx2_s256_u8xn_sub(i, o) }),
    ("v_avx2_s256_u32xn_sub", |i, o| unsafe { v_avx2_s256_u32xn_sub(i, o) }),
    ("v_avx2_s256_u8xn_add_sat", |i, o| unsafe { v_avx2_s256_u8xn_add_sat(i, o) }),
    ("v_avx2_s256_i8xn_add_sat", |i, o| unsafe { v_avx2_s256_i8xn_add_sat(i, o) }),
    ("v_avx2_s256_u8xn_sub_sat", |i, o| unsafe { v_avx2_s256_u8xn_sub_sat(i, o) }),
    ("v_avx2_s256_u8xn_eq", |i, o| unsafe { v_avx2_s256_u8xn_eq(i, o) }),
    ("v_avx2_s256_i8xn_lt", |i, o| unsafe { v_avx2_s256_i8xn_lt(i, o) }),
    ("v_avx2_s256_u32xn_lt", |i, o| unsafe { v_avx2_s256_u32xn_lt(i, o) }),
    ("v_avx2_s256_u32xn_max", |i, o| unsafe { v_avx2_s256_u32xn_max(i, o) }),
    ("v_avx2_s256_u8xn_avgr", |i, o| unsafe { v_avx2_s256_u8xn_avgr(i, o) }),
    ("v_avx2_s256_u8x16xn_swizzle", |i, o| unsafe { v_avx2_s256_u8x16xn_swizzle(i, o) }),
    ("v_avx2_s256_u16xn_shl_0", |i, o| unsafe { v_avx2_s256_u16xn_shl_0(i, o) }),
    ("v_avx2_s256_u16xn_shr_0", |i, o| unsafe { v_avx2_s256_u16xn_shr_0(i, o) }),
    ("v_avx2_s256_u32xn_shr_0", |i, o| unsafe { v_avx2_s256_u32xn_shr_0(i, o) }),
    ("v_avx2_s256_u16xn_shl_1", |i, o| unsafe { v_avx2_s256_u16xn_shl_1(i, o) }),
    ("v_avx2_s256_u16xn_shr_1", |i, o| unsafe { v_avx2_s256_u16xn_shr_1(i, o) }),
    ("v_avx2_s256_u32xn_shr_1", |i, o| unsafe { v_avx2_s256_u32xn_shr_1(i, o) }),
    ("v_avx2_s256_u16xn_shl_2", |i, o| unsafe { v_avx2_s256_u16xn_shl_2(i, o) }),
    ("v_avx2_s256_u16xn_shr_2", |i, o| unsafe { v_avx2_s256_u16xn_shr_2(i, o) }),
    ("v_avx2_s256_u32xn_shr_2", |i, o| unsafe { v_avx2_s256_u32xn_shr_2(i, o) }),
    ("v_avx2_s256_u16xn_shl_3", |i, o| unsafe { v_avx2_s256_u16xn_shl_3(i, o) }),
    ("v_avx2_s256_u16xn_shr_3", |i, o| unsafe { v_avx2_s256_u16xn_shr_3(i, o) }),
    ("v_avx2_s256_u32xn_shr_3", |i, o| unsafe { v_avx2_s256_u32xn_shr_3(i, o) }),
    ("v_avx2_s256_u16xn_shl_4", |i, o| unsafe { v_avx2_s256_u16xn_shl_4(i, o) }),
    ("v_avx2_s256_u16xn_shr_4", |i, o| unsafe { v_avx2_s256_u16xn_shr_4(i, o) }),
    ("v_avx2_s256_u32xn_shr_4", |i, o| unsafe { v_avx2_s256_u32xn_shr_4(i, o) }),
    ("v_avx2_s256_u16xn_shl_5", |i, o| unsafe { v_avx2_s256_u16xn_shl_5(i, o) }),
    ("v_avx2_s256_u16xn_shr_5", |i, o| unsafe { v_avx2_s256_u16xn_shr_5(i, o) }),
    ("v_avx2_s256_u32xn_shr_5", |i, o| unsafe { v_avx2_s256_u32xn_shr_5(i, o) }),
    ("v_avx2_s256_u16xn_shl_6", |i, o| unsafe { v_avx2_s256_u16xn_shl_6(i, o) }),
    ("v_avx2_s256_u16xn_shr_6", |i, o| unsafe { v_avx2_s256_u16xn_shr_6(i, o) }),
    ("v_avx2_s256_u32xn_shr_6", |i, o| unsafe { v_avx2_s256_u32xn_shr_6(i, o) }),
    ("v_avx2_s256_u16xn_shl_7", |i, o| unsafe { v_avx2_s256_u16xn_shl_7(i, o) }),
    ("v_avx2_s256_u16xn_shr_7", |i, o| unsafe { v_avx2_s256_u16xn_shr_7(i, o) }),
    ("v_avx2_s256_u32xn_shr_7", |i, o| unsafe { v_avx2_s256_u32xn_shr_7(i, o) }),
    ("v_avx2_s256_u16xn_shl_8", |i, o| unsafe { v_avx2_s256_u16xn_shl_8(i, o) }),
    ("v_avx2_s256_u16xn_shr_8", |i, o| unsafe { v_avx2_s256_u16xn_shr_8(i, o) }),
    ("v_avx2_s256_u32xn_shr_8", |i, o| unsafe { v_avx2_s256_u32xn_shr_8(i, o) }),
    ("v_avx2_s256_u16xn_shl_9", |i, o| unsafe { v_avx2_s256_u16xn_shl_9(i, o) }),
    ("v_avx2_s256_u16xn_shr_9", |i, o| unsafe { v_avx2_s256_u16xn_shr_9(i, o) }),
    ("v_avx2_s256_u32xn_shr_9", |i, o| unsafe { v_avx2_s256_u32xn_shr_9(i, o) }),
    ("v_avx2_s256_u16xn_shl_10", |i, o| unsafe { v_avx2_s256_u16xn_shl_10(i, o) }),
    ("v_avx2_s256_u16xn_shr_10", |i, o| unsafe { v_avx2_s256_u16xn_shr_10(i, o) }),
    ("v_avx2_s256_u32xn_shr_10", |i, o| unsafe { v_avx2_s256_u32xn_shr_10(i, o) }),
    ("v_avx2_s256_u16xn_shl_11", |i, o| unsafe { v_avx2_s256_u16xn_shl_11(i, o) }),
    ("v_avx2_s256_u16xn_shr_11", |i, o| unsafe { v_avx2_s256_u16xn_shr_11(i, o) }),
    ("v_avx2_s256_u32xn_shr_11", |i, o| unsafe { v_avx2_s256_u32xn_shr_11(i, o) }),
    ("v_avx2_s256_u16xn_shl_12", |i, o| unsafe { v_avx2_s256_u16xn_shl_12(i, o) }),
    ("v_avx2_s256_u16xn_shr_12", |i, o| unsafe { v_avx2_s256_u16xn_shr_12(i, o) }),
    ("v_avx2_s256_u32xn_shr_12", |i, o| unsafe { v_avx2_s256_u32xn_shr_12(i, o) }),
    ("v_avx2_s256_u16xn_shl_13", |i, o| unsafe { v_avx2_s256_u16xn_shl_13(i, o) }),
    ("v_avx2_s256_u16xn_shr_13", |i, o| unsafe { v_avx2_s256_u16xn_shr_13(i, o) }),
    ("v_avx2_s256_u32xn_shr_13", |i, o| unsafe { v_avx2_s256_u32xn_shr_13(i, o) }),
    ("v_avx2_s256_u16xn_shl_14", |i, o| unsafe { v_avx2_s256_u16xn_shl_14(i, o) }),
    ("v_avx2_s256_u16xn_shr_14", |i, o| unsafe { v_avx2_s256_u16xn_shr_14(i, o) }),
    ("v_avx2_s256_u32xn_shr_14", |i, o| unsafe { v_avx2_s256_u32xn_shr_14(i, o) }),
    ("v_avx2_s256_u16xn_shl_15", |i, o| unsafe { v_avx2_s256_u16xn_shl_15(i, o) }),
    ("v_avx2_s256_u16xn_shr_15", |i, o| unsafe { v_avx2_s256_u16xn_shr_15(i, o) }),
    ("v_avx2_s256_u32xn_shr_15", |i, o| unsafe { v_avx2_s256_u32xn_shr_15(i, o) }),
    ("v_avx2_s256_u32xn_shr_16", |i, o| unsafe { v_avx2_s256_u32xn_shr_16(i, o) }),
    ("v_avx2_s256_u32xn_shr_17", |i, o| unsafe { v_avx2_s256_u32xn_shr_17(i, o) }),
    ("v_avx2_s256_u32xn_shr_18", |i, o| unsafe { v_avx2_s256_u32xn_shr_18(i, o) }),
    ("v_avx2_s256_u32xn_shr_19", |i, o| unsafe { v_avx2_s256_u32xn_shr_19(i, o) }),
    ("v_avx2_s256_u32xn_shr_20", |i, o| unsafe { v_avx2_s256_u32xn_shr_20(i, o) }),
    ("v_avx2_s256_u32xn_shr_21", |i, o| unsafe { v_avx2_s256_u32xn_shr_21(i, o) }),
    ("v_avx2_s256_u32xn_shr_22", |i, o| unsafe { v_avx2_s256_u32xn_shr_22(i, o) }),
    ("v_avx2_s256_u32xn_shr_23", |i, o| unsafe { v_avx2_s256_u32xn_shr_23(i, o) }),
    ("v_avx2_s256_u32xn_shr_24", |i, o| unsafe { v_avx2_s256_u32xn_shr_24(i, o) }),
    ("v_avx2_s256_u32xn_shr_25", |i, o| unsafe { v_avx2_s256_u32xn_shr_25(i, o) }),
    ("v_avx2_s256_u32xn_shr_26", |i, o| unsafe { v_avx2_s256_u32xn_shr_26(i, o) }),
    ("v_avx2_s256_u32xn_shr_27", |i, o| unsafe { v_avx2_s256_u32xn_shr_27(i, o) }),
    ("v_avx2_s256_u32xn_shr_28", |i, o| unsafe { v_avx2_s256_u32xn_shr_28(i, o) }),
    ("v_avx2_s256_u32xn_shr_29", |i, o| unsafe { v_avx2_s256_u32xn_shr_29(i, o) }),
    ("v_avx2_s256_u32xn_shr_30", |i, o| unsafe { v_avx2_s256_u32xn_shr_30(i, o) }),
    ("v_avx2_s256_u32xn_shr_31", |i, o| unsafe { v_avx2_s256_u32xn_shr_31(i, o) }),
    ("v_avx2_s256_u16xn_bswap", |i, o| unsafe { v_avx2_s256_u16xn_bswap(i, o) }),
    ("v_avx2_s256_u32xn_bswap", |i, o| unsafe { v_avx2_s256_u32xn_bswap(i, o) }),
    ("v_avx2_s256_u64xn_bswap", |i, o| unsafe { v_avx2_s256_u64xn_bswap(i, o) }),
    ("v_avx2_s256_all_zero", |i, o| unsafe { v_avx2_s256_all_zero(i, o) }),
    ("v_avx2_s256_mask8xn_all", |i, o| unsafe { v_avx2_s256_mask8xn_all(i, o) }),
    ("v_avx2_s256_mask8xn_any", |i, o| unsafe { v_avx2_s256_mask8xn_any(i, o) }),
    ("v_avx2_s256_u8xn_highbit_all", |i, o| unsafe { v_avx2_s256_u8xn_highbit_all(i, o) }),
    ("v_avx2_s256_u8xn_highbit_any", |i, o| unsafe { v_avx2_s256_u8xn_highbit_any(i, o) }),
    ("v_avx2_f_mask8x32_all", |i, o| unsafe { v_avx2_f_mask8x32_all(i, o) }),
    ("v_avx2_f_mask8x32_any", |i, o| unsafe { v_avx2_f_mask8x32_any(i, o) }),
    ("v_avx2_f_u8x32_highbit_all", |i, o| unsafe { v_avx2_f_u8x32_highbit_all(i, o) }),
    ("v_avx2_f_u8x32_highbit_any", |i, o| unsafe { v_avx2_f_u8x32_highbit_any(i, o) }),
    ("v_avx2_s256_lookup", |i, o| unsafe { v_avx2_s256_lookup(i, o) }),
    ("v_avx2_s256_to_ascii_lowercase", |i, o| unsafe { v_avx2_s256_to_ascii_lowercase(i, o) }),
    ("v_avx2_s256_to_ascii_uppercase", |i, o| unsafe { v_avx2_s256_to_ascii_uppercase(i, o) }),
    ("v_avx2_s256_hex_check", |i, o| unsafe { v_avx2_s256_hex_check(i, o) }),
    ("v_avx2_s256_alsw_check", |i, o| unsafe { v_avx2_s256_alsw_check(i, o) }),
    ("v_avx2_s256_alsw_decode", |i, o| unsafe { v_avx2_s256_alsw_decode(i, o) }),
    ("v_avx2_hex_encode16_lower", |i, o| unsafe { v_avx2_hex_encode16_lower(i, o) }),
    ("v_avx2_hex_encode32_lower", |i, o| unsafe { v_avx2_hex_encode32_lower(i, o) }),
    ("v_avx2_hex_encode16_upper", |i, o| unsafe { v_avx2_hex_encode16_upper(i, o) }),
    ("v_avx2_hex_encode32_upper", |i, o| unsafe { v_avx2_hex_encode32_upper(i, o) }),
    ("v_avx2_hex_decode16", |i, o| unsafe { v_avx2_hex_decode16(i, o) }),
    ("v_avx2_hex_decode32", |i, o| unsafe { v_avx2_hex_decode32(i, o) }),
    ("v_avx2_hex_decode32x2", |i, o| unsafe { v_avx2_hex_decode32x2(i, o) }),
];
