// GENERATED by tools/gen_shim.py -- flat wrappers around every public conversion.
#![feature(f16)]
#![feature(stdarch_x86_avx512)]
#![feature(avx512_target_feature)]
#![allow(clippy::all)]
use yuv::*;
#[repr(C)] #[derive(Clone,Copy)] pub struct Buf { pub ptr: *mut u8, pub len: usize, pub stride: usize }
#[repr(C)] #[derive(Clone,Copy)] pub struct Dim { pub w: usize, pub h: usize }
#[repr(C)] pub struct A { pub p: [Buf; 6], pub d: [Dim; 2], pub range: u32, pub matrix: u32, pub mode: u32, pub order: u32, pub flag: u32, pub gamma: u32, pub depth: u32, pub geo: u32, pub kr: f32, pub kb: f32 }
#[inline(always)] fn res(r: Result<(), YuvError>) -> u32 { match r { Ok(()) => 0, Err(_) => 1 } }
#[inline(always)] fn rng(a: &A) -> YuvRange { if a.range == 0 { YuvRange::Limited } else { YuvRange::Full } }
#[inline(always)] fn mat(a: &A) -> YuvStandardMatrix { match a.matrix { 0 => YuvStandardMatrix::Bt601, 1 => YuvStandardMatrix::Bt709, 2 => YuvStandardMatrix::Bt2020, 3 => YuvStandardMatrix::Smpte240, 4 => YuvStandardMatrix::Bt470_6, 5 => YuvStandardMatrix::Fcc, _ => YuvStandardMatrix::Custom(a.kr, a.kb) } }
#[inline(always)] fn mode(a: &A) -> YuvConversionMode { match a.mode { 0 => YuvConversionMode::Fast, 1 => YuvConversionMode::Balanced, _ => YuvConversionMode::Professional } }
#[inline(always)] fn bord(a: &A) -> Rgb30ByteOrder { if a.order == 0 { Rgb30ByteOrder::Host } else { Rgb30ByteOrder::Network } }
#[inline(always)] fn gam(a: &A) -> SharpYuvGammaTransfer { match a.gamma { 0 => SharpYuvGammaTransfer::Srgb, 1 => SharpYuvGammaTransfer::Rec709, 2 => SharpYuvGammaTransfer::Gamma2p2, _ => SharpYuvGammaTransfer::Gamma2p8 } }
#[inline(always)] fn mir(a: &A) -> MirrorMode { if a.geo == 0 { MirrorMode::Vertical } else { MirrorMode::Horizontal } }
#[inline(always)] fn rot(a: &A) -> RotationMode { match a.geo { 0 => RotationMode::Rotate90, 1 => RotationMode::Rotate180, _ => RotationMode::Rotate270 } }
#[no_mangle] pub unsafe extern "C" fn k_ab30_to_rgb8(a: &A) -> u32 {  res(yuv::ab30_to_rgb8(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_ar30_to_rgb8(a: &A) -> u32 {  res(yuv::ar30_to_rgb8(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_ba30_to_rgb8(a: &A) -> u32 {  res(yuv::ba30_to_rgb8(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_ra30_to_rgb8(a: &A) -> u32 {  res(yuv::ra30_to_rgb8(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_ar30_to_rgba8(a: &A) -> u32 {  res(yuv::ar30_to_rgba8(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_ar30(a: &A) -> u32 {  res(yuv::rgb10_to_ar30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_ra30(a: &A) -> u32 {  res(yuv::rgb10_to_ra30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_ar30(a: &A) -> u32 {  res(yuv::rgb12_to_ar30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_ra30(a: &A) -> u32 {  res(yuv::rgb12_to_ra30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_ar30(a: &A) -> u32 {  res(yuv::rgba10_to_ar30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_ra30(a: &A) -> u32 {  res(yuv::rgba10_to_ra30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_ar30(a: &A) -> u32 {  res(yuv::rgba12_to_ar30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_ra30(a: &A) -> u32 {  res(yuv::rgba12_to_ra30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb8_to_ar30(a: &A) -> u32 {  res(yuv::rgb8_to_ar30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb8_to_ra30(a: &A) -> u32 {  res(yuv::rgb8_to_ra30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgba8_to_ar30(a: &A) -> u32 {  res(yuv::rgba8_to_ar30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgba8_to_ra30(a: &A) -> u32 {  res(yuv::rgba8_to_ra30(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_p010_to_ar30(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p010_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p010_to_ra30(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p010_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p012_to_ar30(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p012_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p012_to_ra30(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p012_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p210_to_ar30(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p210_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p210_to_ra30(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p210_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p212_to_ar30(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p212_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p212_to_ra30(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p212_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p010_to_rgb10(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p010_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p010_to_rgba10(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p010_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p012_to_rgb12(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p012_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p012_to_rgba12(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p012_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p210_to_rgb10(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p210_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p210_to_rgba10(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p210_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p212_to_rgb12(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p212_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p212_to_rgba12(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p212_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p410_to_rgb10(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p410_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p410_to_rgba10(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p410_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p412_to_rgb12(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p412_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p412_to_rgba12(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p412_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p010_to_bgr(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p010_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p010_to_bgra(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p010_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p010_to_rgb(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p010_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p010_to_rgba(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p010_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p210_to_bgr(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p210_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p210_to_bgra(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p210_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p210_to_rgb(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p210_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p210_to_rgba(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p210_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p410_to_bgr(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p410_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p410_to_bgra(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p410_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p410_to_rgb(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p410_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_p410_to_rgba(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::p410_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv12_to_bgr(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv12_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv21_to_bgr(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv21_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv24_to_bgr(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv24_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv42_to_bgr(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv42_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv16_to_bgr(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv16_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv61_to_bgr(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv61_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv12_to_bgra(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv12_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv21_to_bgra(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv21_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv16_to_bgra(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv16_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv61_to_bgra(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv61_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv12_to_rgb(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv12_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv21_to_rgb(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv21_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv24_to_bgra(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv24_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv24_to_rgb(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv24_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv24_to_rgba(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv24_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv42_to_bgra(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv42_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv42_to_rgb(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv42_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv16_to_rgb(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv16_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv61_to_rgb(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv61_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv12_to_rgba(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv12_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv21_to_rgba(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv21_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv42_to_rgba(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv42_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv16_to_rgba(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv16_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv_nv61_to_rgba(a: &A) -> u32 { let i1 = YuvBiPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, uv_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv_nv61_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_p010(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_p010(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_p210(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_p210(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_p410(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_p410(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_p012(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_p012(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_p212(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_p212(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_p412(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_p412(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb16_to_p016(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb16_to_p016(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb16_to_p216(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb16_to_p216(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_p010(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_p010(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_p210(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_p210(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_p410(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_p410(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_p012(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_p012(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_p212(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_p212(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_p412(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_p412(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba16_to_p016(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba16_to_p016(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba16_to_p216(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba16_to_p216(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv_nv12(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv_nv12(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv_nv16(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv_nv16(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv_nv21(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv_nv21(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv_nv24(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv_nv24(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv_nv42(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv_nv42(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv_nv61(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv_nv61(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv_nv12(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv_nv12(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv_nv16(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv_nv16(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv_nv21(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv_nv21(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv_nv24(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv_nv24(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv_nv42(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv_nv42(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv_nv61(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv_nv61(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv_nv12(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv_nv12(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv_nv16(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv_nv16(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv_nv21(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv_nv21(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv_nv24(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv_nv24(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv_nv42(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv_nv42(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv_nv61(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv_nv61(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv_nv12(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv_nv12(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv_nv16(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv_nv16(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv_nv21(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv_nv21(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv_nv24(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv_nv24(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv_nv42(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv_nv42(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv_nv61(a: &A) -> u32 { let mut i1 = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, uv_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv_nv61(&mut i1, core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv400_alpha_to_bgra(a: &A) -> u32 { let i1 = YuvGrayAlphaImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, a_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv400_alpha_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv400_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvGrayAlphaImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, a_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv400_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y010_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvGrayAlphaImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, a_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y010_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y012_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvGrayAlphaImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, a_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y012_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y014_alpha_to_rgba14(a: &A) -> u32 { let i1 = YuvGrayAlphaImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, a_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y014_alpha_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y016_alpha_to_rgba16(a: &A) -> u32 { let i1 = YuvGrayAlphaImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, a_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), a_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y016_alpha_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len), a.p[2].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y010_to_rgb10(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y010_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y010_to_rgba10(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y010_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y012_to_rgb12(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y012_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y012_to_rgba12(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y012_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y014_to_rgb14(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y014_to_rgb14(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y014_to_rgba14(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y014_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y016_to_rgb16(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y016_to_rgb16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_y016_to_rgba16(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::y016_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv400_to_bgr(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv400_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv400_to_bgra(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv400_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv400_to_rgb(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv400_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv400_to_rgba(a: &A) -> u32 { let i1 = YuvGrayImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv400_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv400(a: &A) -> u32 { let mut i1 = YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv400(&mut i1, core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv400(a: &A) -> u32 { let mut i1 = YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv400(&mut i1, core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv400(a: &A) -> u32 { let mut i1 = YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv400(&mut i1, core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv400(a: &A) -> u32 { let mut i1 = YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv400(&mut i1, core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ayuv_to_rgb(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ayuv_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_ayuv_to_rgba(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ayuv_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_vyua_to_rgb(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::vyua_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_vyua_to_rgba(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::vyua_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_icgc010_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc010_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc010_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc010_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc012_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc012_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc012_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc012_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc210_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc210_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc210_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc210_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc212_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc212_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc212_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc212_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc410_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc410_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc410_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc410_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc412_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc412_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc412_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc412_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb10_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb10_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb12_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb12_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb14_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb14_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb16_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb16_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb10_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb10_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb12_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb12_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb14_to_rgb14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb14_to_rgb14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb16_to_rgb16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb16_to_rgb16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb10_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb10_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb12_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb12_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb14_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb14_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb16_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb16_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb10_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb10_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb12_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb12_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb14_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb14_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb16_to_rgba16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb16_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gbr_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gbr_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco420_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco420_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco420_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco420_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco420_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco420_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco420_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco420_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco422_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco422_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco422_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco422_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco422_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco422_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco422_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco422_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco444_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco444_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco444_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco444_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco444_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco444_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco444_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco444_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gbr_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gbr_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gbr_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gbr_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gbr_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gbr_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc010_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc010_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc012_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc012_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc210_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc210_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc212_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc212_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc410_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc410_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_icgc412_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::icgc412_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb10_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb10_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb12_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb12_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb14_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb14_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb16_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb16_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb10_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb10_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb12_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb12_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb14_alpha_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb14_alpha_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gb16_alpha_to_rgba16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gb16_alpha_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco420_alpha_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco420_alpha_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco420_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco420_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco422_alpha_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco422_alpha_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco422_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco422_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco444_alpha_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco444_alpha_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_ycgco444_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::ycgco444_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gbr_with_alpha_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gbr_with_alpha_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_gbr_with_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::gbr_with_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_gb10(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_gb10(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_gb12(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_gb12(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb14_to_gb14(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb14_to_gb14(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb16_to_gb16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb16_to_gb16(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_gb10(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_gb10(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_gb12(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_gb12(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba14_to_gb14(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba14_to_gb14(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba16_to_gb16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba16_to_gb16(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_ycgco420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_ycgco420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_ycgco422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_ycgco422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_ycgco444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_ycgco444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_gbr(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_gbr(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_ycgco420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_ycgco420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_ycgco422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_ycgco422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_ycgco444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_ycgco444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_gbr(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_gbr(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_ycgco420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_ycgco420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_ycgco422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_ycgco422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_ycgco444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_ycgco444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_gbr(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_gbr(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_ycgco420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_ycgco420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_ycgco422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_ycgco422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_ycgco444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_ycgco444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_gbr(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_gbr(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a))) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_rgb_p16(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::uyvy422_to_rgb_p16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, a.depth as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_rgb_p16(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::vyuy422_to_rgb_p16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, a.depth as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_rgb_p16(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuyv422_to_rgb_p16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, a.depth as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_rgb_p16(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yvyu422_to_rgb_p16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, a.depth as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_rgba_p16(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::uyvy422_to_rgba_p16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, a.depth as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_rgba_p16(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::vyuy422_to_rgba_p16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, a.depth as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_rgba_p16(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuyv422_to_rgba_p16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, a.depth as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_rgba_p16(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yvyu422_to_rgba_p16(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as u32, a.depth as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_bgr(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::uyvy422_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_bgr(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::vyuy422_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_bgr(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuyv422_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_bgr(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yvyu422_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_bgra(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::uyvy422_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_bgra(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::vyuy422_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_bgra(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuyv422_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_bgra(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yvyu422_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_rgb(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::uyvy422_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_rgb(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::vyuy422_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_rgb(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuyv422_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_rgb(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yvyu422_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_rgba(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::uyvy422_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_rgba(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::vyuy422_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_rgba(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuyv422_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_rgba(a: &A) -> u32 { let i1 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yvyu422_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_uyvy422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv420_to_uyvy422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_vyuy422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv420_to_vyuy422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_yuyv422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv420_to_yuyv422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_yvyu422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv420_to_yvyu422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_uyvy422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv422_to_uyvy422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_vyuy422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv422_to_vyuy422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_yuyv422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv422_to_yuyv422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_yvyu422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv422_to_yvyu422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_uyvy422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv444_to_uyvy422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_vyuy422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv444_to_vyuy422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_yuyv422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv444_to_yuyv422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_yvyu422_p16(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv444_to_yvyu422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_uyvy422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv420_to_uyvy422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_vyuy422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv420_to_vyuy422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_yuyv422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv420_to_yuyv422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_yvyu422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv420_to_yvyu422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_uyvy422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv422_to_uyvy422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_vyuy422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv422_to_vyuy422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_yuyv422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv422_to_yuyv422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_yvyu422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv422_to_yvyu422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_uyvy422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv444_to_uyvy422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_vyuy422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv444_to_vyuy422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_yuyv422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv444_to_yuyv422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_yvyu422(a: &A) -> u32 { let mut i1 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), y_stride: a.p[1].stride as u32, u_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), u_stride: a.p[2].stride as u32, v_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), v_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuv444_to_yvyu422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_yuv444_to_abgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const i16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const i16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const i16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_yuv444_to_abgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_yuv444_to_argb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const i16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const i16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const i16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_yuv444_to_argb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_yuv444_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const i16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const i16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const i16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_yuv444_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_yuv444_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const i16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const i16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const i16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_yuv444_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_yuv444_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const i16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const i16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const i16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_yuv444_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_yuv444_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const i16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const i16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const i16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_yuv444_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_to_rgb_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_to_rgb_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut f16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_be_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_be_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_be_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_be_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_be_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_be_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_be_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_be_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_be_to_rgb14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_be_to_rgb14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_be_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_be_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i016_be_to_rgb16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i016_be_to_rgb16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i016_be_to_rgba16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i016_be_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_be_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_be_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_be_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_be_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_be_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_be_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_be_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_be_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_be_to_rgb14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_be_to_rgb14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_be_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_be_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i216_be_to_rgb16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i216_be_to_rgb16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i216_be_to_rgba16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i216_be_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_be_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_be_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_be_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_be_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_be_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_be_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_be_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_be_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_be_to_rgb14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_be_to_rgb14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_be_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_be_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i416_be_to_rgb16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i416_be_to_rgb16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i416_be_to_rgba16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i416_be_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_to_rgb14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_to_rgb14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i016_to_rgb16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i016_to_rgb16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i016_to_rgba16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i016_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_to_rgb14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_to_rgb14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i216_to_rgb16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i216_to_rgb16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i216_to_rgba16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i216_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_to_rgb10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_to_rgb10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_to_rgb12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_to_rgb12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_to_rgb14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_to_rgb14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i416_to_rgb16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i416_to_rgb16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i416_to_rgba16(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i416_to_rgba16(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_ar30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_ra30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_ar30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_ra30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_to_ar30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_to_ra30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_ar30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_ra30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_ar30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_ra30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_to_ar30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_to_ra30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_to_ar30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_to_ra30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_to_ar30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_to_ra30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_to_ar30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_to_ar30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_to_ra30(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_to_ra30(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, bord(a), rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_be_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_be_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_be_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_be_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_be_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_be_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_be_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_be_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_be_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_be_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_be_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_be_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_be_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_be_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_be_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_be_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_be_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_be_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_be_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_be_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_be_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_be_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_be_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_be_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_be_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_be_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_be_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_be_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_be_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_be_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_be_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_be_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_be_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_be_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv420_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv422_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_bgr(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv444_to_bgr(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv420_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv422_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv444_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv420_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv422_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_rgb(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv444_to_rgb(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv420_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv422_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImage { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv444_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[3].ptr as *mut u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_alpha_to_rgba_f16(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_alpha_to_rgba_f16(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut f16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_abgr_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut i16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut i16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut i16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_abgr_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_argb_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut i16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut i16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut i16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_argb_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_bgr_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut i16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut i16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut i16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_bgr_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_bgra_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut i16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut i16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut i16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_bgra_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_rgb_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut i16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut i16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut i16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_rgb_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rdp_rgba_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut i16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut i16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut i16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rdp_rgba_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_yuv420_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::uyvy422_to_yuv420_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_yuv422_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::uyvy422_to_yuv422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_yuv444_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::uyvy422_to_yuv444_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_yuv420_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::vyuy422_to_yuv420_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_yuv422_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::vyuy422_to_yuv422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_yuv444_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::vyuy422_to_yuv444_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_yuv420_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuyv422_to_yuv420_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_yuv422_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuyv422_to_yuv422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_yuv444_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuyv422_to_yuv444_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_yuv420_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yvyu422_to_yuv420_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_yuv422_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yvyu422_to_yuv422_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_yuv444_p16(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yvyu422_to_yuv444_p16(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_i010(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_i010(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_i210(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_i210(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_i410(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_i410(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_i012(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_i012(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_i212(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_i212(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_i412(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_i412(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb14_to_i014(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb14_to_i014(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb14_to_i214(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb14_to_i214(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb14_to_i414(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb14_to_i414(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb16_to_i016(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb16_to_i016(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb16_to_i216(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb16_to_i216(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb16_to_i416(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb16_to_i416(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_i010(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_i010(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_i210(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_i210(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_i410(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_i410(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_i012(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_i012(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_i212(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_i212(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_i412(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_i412(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba14_to_i014(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba14_to_i014(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba14_to_i214(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba14_to_i214(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba14_to_i414(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba14_to_i414(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba16_to_i016(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba16_to_i016(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba16_to_i216(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba16_to_i216(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba16_to_i416(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba16_to_i416(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_i010_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_i010_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_i210_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_i210_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb10_to_i410_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb10_to_i410_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_i012_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_i012_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_i212_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_i212_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb12_to_i412_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb12_to_i412_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb14_to_i014_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb14_to_i014_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb14_to_i214_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb14_to_i214_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb14_to_i414_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb14_to_i414_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb16_to_i016_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb16_to_i016_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb16_to_i216_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb16_to_i216_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb16_to_i416_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb16_to_i416_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_i010_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_i010_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_i210_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_i210_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba10_to_i410_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba10_to_i410_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_i012_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_i012_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_i212_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_i212_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba12_to_i412_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba12_to_i412_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba14_to_i014_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba14_to_i014_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba14_to_i214_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba14_to_i214_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba14_to_i414_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba14_to_i414_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba16_to_i016_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba16_to_i016_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba16_to_i216_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba16_to_i216_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba16_to_i416_be(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u16, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u16, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba16_to_i416_be(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_sharp_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_sharp_yuv420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), gam(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_sharp_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_sharp_yuv422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), gam(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgr_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_sharp_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_sharp_yuv420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), gam(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_sharp_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_sharp_yuv422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), gam(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::bgra_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::uyvy422_to_yuv420(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::uyvy422_to_yuv422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_uyvy422_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::uyvy422_to_yuv444(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::vyuy422_to_yuv420(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::vyuy422_to_yuv422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_vyuy422_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::vyuy422_to_yuv444(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuyv422_to_yuv420(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuyv422_to_yuv422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yuyv422_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yuyv422_to_yuv444(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yvyu422_to_yuv420(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yvyu422_to_yuv422(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_yvyu422_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; let i2 = YuvPackedImage { yuy: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), yuy_stride: a.p[3].stride as u32, width: a.d[1].w as u32, height: a.d[1].h as u32 }; res(yuv::yvyu422_to_yuv444(&mut i1, &i2)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_sharp_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_sharp_yuv420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), gam(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_sharp_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_sharp_yuv422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), gam(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgb_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_sharp_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_sharp_yuv420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), gam(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_sharp_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_sharp_yuv422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), gam(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv420(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv420(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv422(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv422(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_yuv444(a: &A) -> u32 { let mut i1 = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[0].ptr as *mut u8, a.p[0].len)), y_stride: a.p[0].stride as u32, u_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len)), u_stride: a.p[1].stride as u32, v_plane: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[2].ptr as *mut u8, a.p[2].len)), v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::rgba_to_yuv444(&mut i1, core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a.p[3].stride as u32, rng(a), mat(a), mode(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_alpha_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_alpha_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_alpha_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_alpha_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_alpha_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_alpha_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_be_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_be_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_be_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_be_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i014_be_alpha_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i014_be_alpha_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_alpha_be_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_alpha_be_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_be_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_be_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i214_be_alpha_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i214_be_alpha_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_be_alpha_to_rgba10(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_be_alpha_to_rgba10(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_be_alpha_to_rgba12(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_be_alpha_to_rgba12(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i414_be_alpha_to_rgba14(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i414_be_alpha_to_rgba14(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u16, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i010_be_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i010_be_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i012_be_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i012_be_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i210_alpha_be_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i210_alpha_be_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i212_be_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i212_be_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i410_be_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i410_be_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_i412_be_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u16, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u16, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u16, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::i412_be_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a))) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_alpha_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv420_alpha_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_alpha_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv422_alpha_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_alpha_to_bgra(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv444_alpha_to_bgra(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv420_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv420_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv422_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv422_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_yuv444_alpha_to_rgba(a: &A) -> u32 { let i1 = YuvPlanarImageWithAlpha { y_plane: core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), y_stride: a.p[0].stride as u32, u_plane: core::slice::from_raw_parts(a.p[1].ptr as *const u8, a.p[1].len), u_stride: a.p[1].stride as u32, v_plane: core::slice::from_raw_parts(a.p[2].ptr as *const u8, a.p[2].len), v_stride: a.p[2].stride as u32, a_plane: core::slice::from_raw_parts(a.p[3].ptr as *const u8, a.p[3].len), a_stride: a.p[3].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; res(yuv::yuv444_alpha_to_rgba(&i1, core::slice::from_raw_parts_mut(a.p[4].ptr as *mut u8, a.p[4].len), a.p[4].stride as u32, rng(a), mat(a), a.flag != 0)) }
#[no_mangle] pub unsafe extern "C" fn k_ra30_to_rgba8(a: &A) -> u32 {  res(yuv::ra30_to_rgba8(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, bord(a), core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_plane_f16_to_planar16(a: &A) -> u32 {  res(yuv::convert_plane_f16_to_planar16(core::slice::from_raw_parts(a.p[0].ptr as *const f16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.depth as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_rgb_f16_to_rgb16(a: &A) -> u32 {  res(yuv::convert_rgb_f16_to_rgb16(core::slice::from_raw_parts(a.p[0].ptr as *const f16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.depth as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_rgba_f16_to_rgba16(a: &A) -> u32 {  res(yuv::convert_rgba_f16_to_rgba16(core::slice::from_raw_parts(a.p[0].ptr as *const f16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.depth as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_plane_f16_to_planar(a: &A) -> u32 {  res(yuv::convert_plane_f16_to_planar(core::slice::from_raw_parts(a.p[0].ptr as *const f16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_rgb_f16_to_rgb(a: &A) -> u32 {  res(yuv::convert_rgb_f16_to_rgb(core::slice::from_raw_parts(a.p[0].ptr as *const f16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_rgba_f16_to_rgba(a: &A) -> u32 {  res(yuv::convert_rgba_f16_to_rgba(core::slice::from_raw_parts(a.p[0].ptr as *const f16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_plane16_to_f16(a: &A) -> u32 {  res(yuv::convert_plane16_to_f16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut f16, a.p[1].len), a.p[1].stride as usize, a.depth as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_rgb16_to_f16(a: &A) -> u32 {  res(yuv::convert_rgb16_to_f16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut f16, a.p[1].len), a.p[1].stride as usize, a.depth as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_rgba16_to_f16(a: &A) -> u32 {  res(yuv::convert_rgba16_to_f16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut f16, a.p[1].len), a.p[1].stride as usize, a.depth as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_mirror_cbcr16(a: &A) -> u32 {  res(yuv::mirror_cbcr16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, mir(a))) }
#[no_mangle] pub unsafe extern "C" fn k_mirror_plane16(a: &A) -> u32 {  res(yuv::mirror_plane16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, mir(a))) }
#[no_mangle] pub unsafe extern "C" fn k_mirror_rgb16(a: &A) -> u32 {  res(yuv::mirror_rgb16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, mir(a))) }
#[no_mangle] pub unsafe extern "C" fn k_mirror_rgba16(a: &A) -> u32 {  res(yuv::mirror_rgba16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, mir(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rotate_cbcr16(a: &A) -> u32 {  res(yuv::rotate_cbcr16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, rot(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rotate_plane16(a: &A) -> u32 {  res(yuv::rotate_plane16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, rot(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rotate_rgb16(a: &A) -> u32 {  res(yuv::rotate_rgb16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, rot(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rotate_rgba16(a: &A) -> u32 {  res(yuv::rotate_rgba16(core::slice::from_raw_parts(a.p[0].ptr as *const u16, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, rot(a))) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_bgra(a: &A) -> u32 {  res(yuv::bgr_to_bgra(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_rgb(a: &A) -> u32 {  res(yuv::bgr_to_rgb(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_bgr_to_rgba(a: &A) -> u32 {  res(yuv::bgr_to_rgba(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_bgr(a: &A) -> u32 {  res(yuv::bgra_to_bgr(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_rgb(a: &A) -> u32 {  res(yuv::bgra_to_rgb(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_bgra_to_rgba(a: &A) -> u32 {  res(yuv::bgra_to_rgba(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_bgr(a: &A) -> u32 {  res(yuv::rgb_to_bgr(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_bgra(a: &A) -> u32 {  res(yuv::rgb_to_bgra(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgb_to_rgba(a: &A) -> u32 {  res(yuv::rgb_to_rgba(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_bgr(a: &A) -> u32 {  res(yuv::rgba_to_bgr(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_bgra(a: &A) -> u32 {  res(yuv::rgba_to_bgra(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_rgba_to_rgb(a: &A) -> u32 {  res(yuv::rgba_to_rgb(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as u32, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as u32, a.d[0].w as u32, a.d[0].h as u32)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_plane_to_f16(a: &A) -> u32 {  res(yuv::convert_plane_to_f16(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut f16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_rgb_to_f16(a: &A) -> u32 {  res(yuv::convert_rgb_to_f16(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut f16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_convert_rgba_to_f16(a: &A) -> u32 {  res(yuv::convert_rgba_to_f16(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut f16, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize)) }
#[no_mangle] pub unsafe extern "C" fn k_mirror_cbcr(a: &A) -> u32 {  res(yuv::mirror_cbcr(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, mir(a))) }
#[no_mangle] pub unsafe extern "C" fn k_mirror_plane(a: &A) -> u32 {  res(yuv::mirror_plane(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, mir(a))) }
#[no_mangle] pub unsafe extern "C" fn k_mirror_rgb(a: &A) -> u32 {  res(yuv::mirror_rgb(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, mir(a))) }
#[no_mangle] pub unsafe extern "C" fn k_mirror_rgba(a: &A) -> u32 {  res(yuv::mirror_rgba(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, mir(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rotate_cbcr(a: &A) -> u32 {  res(yuv::rotate_cbcr(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, rot(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rotate_plane(a: &A) -> u32 {  res(yuv::rotate_plane(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, rot(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rotate_rgb(a: &A) -> u32 {  res(yuv::rotate_rgb(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, rot(a))) }
#[no_mangle] pub unsafe extern "C" fn k_rotate_rgba(a: &A) -> u32 {  res(yuv::rotate_rgba(core::slice::from_raw_parts(a.p[0].ptr as *const u8, a.p[0].len), a.p[0].stride as usize, core::slice::from_raw_parts_mut(a.p[1].ptr as *mut u8, a.p[1].len), a.p[1].stride as usize, a.d[0].w as usize, a.d[0].h as usize, rot(a))) }
#[no_mangle] pub extern "C" fn feat_sse4_1() -> u32 { std::is_x86_feature_detected!("sse4.1") as u32 }
#[no_mangle] pub extern "C" fn feat_avx2() -> u32 { std::is_x86_feature_detected!("avx2") as u32 }
#[no_mangle] pub extern "C" fn feat_ssse3() -> u32 { std::is_x86_feature_detected!("ssse3") as u32 }
#[no_mangle] pub extern "C" fn feat_f16c() -> u32 { std::is_x86_feature_detected!("f16c") as u32 }
#[no_mangle] pub extern "C" fn feat_fma() -> u32 { std::is_x86_feature_detected!("fma") as u32 }
#[no_mangle] pub extern "C" fn feat_avx() -> u32 { std::is_x86_feature_detected!("avx") as u32 }
#[no_mangle] pub extern "C" fn feat_avxvnni() -> u32 { std::is_x86_feature_detected!("avxvnni") as u32 }
#[no_mangle] pub extern "C" fn feat_avx512bw() -> u32 { std::is_x86_feature_detected!("avx512bw") as u32 }
#[no_mangle] pub extern "C" fn feat_avx512vl() -> u32 { std::is_x86_feature_detected!("avx512vl") as u32 }
#[no_mangle] pub extern "C" fn feat_avx512f() -> u32 { std::is_x86_feature_detected!("avx512f") as u32 }
#[no_mangle] pub extern "C" fn feat_avx512vbmi() -> u32 { std::is_x86_feature_detected!("avx512vbmi") as u32 }
#[no_mangle] pub extern "C" fn feat_avx512vnni() -> u32 { std::is_x86_feature_detected!("avx512vnni") as u32 }
#[no_mangle] pub extern "C" fn feat_avx512dq() -> u32 { std::is_x86_feature_detected!("avx512dq") as u32 }
#[no_mangle] pub extern "C" fn feat_avx512cd() -> u32 { std::is_x86_feature_detected!("avx512cd") as u32 }
extern "Rust" { #[link_name = "_ZN10std_detect6detect5cache5CACHE17h2f627cbce3dc88c6E"] static FEATURE_CACHE: [core::sync::atomic::AtomicUsize; 3]; }
/// selects the instruction sets std::is_x86_feature_detected! reports (used when replaying natively)
#[no_mangle] pub unsafe extern "C" fn shim_set_detect(bits: u64) { FEATURE_CACHE[0].store(bits as usize, core::sync::atomic::Ordering::Relaxed); FEATURE_CACHE[1].store(1 << 62, core::sync::atomic::Ordering::Relaxed); FEATURE_CACHE[2].store(1 << 62, core::sync::atomic::Ordering::Relaxed); }
// observations of the image containers (P15): nothing is specified here, the fields are only copied out
#[inline(always)] fn sub(a: &A) -> YuvChromaSubsampling { match a.geo { 0 => YuvChromaSubsampling::Yuv420, 1 => YuvChromaSubsampling::Yuv422, _ => YuvChromaSubsampling::Yuv444 } }
macro_rules! put { ($o:expr, $k:expr, $($v:expr),*) => { { let mut k: usize = $k; $( *$o.add(k) = ($v) as u64; k += 1; )* let _ = k; } } }
macro_rules! obs_planar { ($o:expr, $i:expr, $s:expr) => { { let i = &$i; let v = i.to_fixed(); let (y, u, w) = (i.y_plane.borrow(), i.u_plane.borrow(), i.v_plane.borrow());
    put!($o, 0, y.len(), i.y_stride, 1, u.len(), i.u_stride, 1, w.len(), i.v_stride, 1, i.width, i.height, i.check_constraints($s).is_err());
    put!($o, 12, v.y_plane.len(), v.y_stride, v.y_plane.as_ptr() == y.as_ptr(), v.u_plane.len(), v.u_stride, v.u_plane.as_ptr() == u.as_ptr(), v.v_plane.len(), v.v_stride, v.v_plane.as_ptr() == w.as_ptr(), v.width, v.height, v.check_constraints($s).is_err()); } } }
macro_rules! obs_bi { ($o:expr, $k:expr, $i:expr, $v:expr, $s:expr) => { { let i = &$i; let v = $v; let (y, u) = (i.y_plane.borrow(), i.uv_plane.borrow());
    put!($o, 0, y.len(), i.y_stride, 1, u.len(), i.uv_stride, 1, 0, 0, 1, i.width, i.height, i.check_constraints($s).is_err());
    put!($o, $k, v.y_plane.len(), v.y_stride, v.y_plane.as_ptr() == y.as_ptr(), v.uv_plane.len(), v.uv_stride, v.uv_plane.as_ptr() == u.as_ptr(), 0, 0, 1, v.width, v.height, v.check_constraints($s).is_err()); } } }
macro_rules! obs_gray { ($o:expr, $i:expr) => { { let i = &$i; let v = i.to_fixed(); let y = i.y_plane.borrow();
    put!($o, 0, y.len(), i.y_stride, 1, 0, 0, 1, 0, 0, 1, i.width, i.height, i.check_constraints().is_err());
    put!($o, 12, v.y_plane.len(), v.y_stride, v.y_plane.as_ptr() == y.as_ptr(), 0, 0, 1, 0, 0, 1, v.width, v.height, v.check_constraints().is_err()); } } }
macro_rules! obs_packed { ($o:expr, $i:expr) => { { let i = &$i; let v = i.to_fixed(); let y = i.yuy.borrow();
    put!($o, 0, y.len(), i.yuy_stride, 1, 0, 0, 1, 0, 0, 1, i.width, i.height, i.check_constraints().is_err());
    put!($o, 12, v.yuy.len(), v.yuy_stride, v.yuy.as_ptr() == y.as_ptr(), 0, 0, 1, 0, 0, 1, v.width, v.height, v.check_constraints().is_err()); } } }
macro_rules! bm { ($a:expr, $k:expr, $t:ty) => { BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut($a.p[$k].ptr as *mut $t, $a.p[$k].len)) } }
macro_rules! images { ($t:ty, $ap:ident, $ab:ident, $ag:ident, $bp:ident, $bb:ident, $bg:ident, $bk:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $ap(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvPlanarImageMut::<$t>::alloc(a.d[0].w as u32, a.d[0].h as u32, sub(a)); obs_planar!(o, i, sub(a)); 0 }
    #[no_mangle] pub unsafe extern "C" fn $ab(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvBiPlanarImageMut::<$t>::alloc(a.d[0].w as u32, a.d[0].h as u32, sub(a)); obs_bi!(o, 12, i, i.to_fixed(), sub(a)); obs_bi!(o, 24, i, YuvBiPlanarImage::from_mut(&i), sub(a)); 0 }
    #[no_mangle] pub unsafe extern "C" fn $ag(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvGrayImageMut::<$t>::alloc(a.d[0].w as u32, a.d[0].h as u32); obs_gray!(o, i); 0 }
    #[no_mangle] pub unsafe extern "C" fn $bp(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvPlanarImageMut::<$t> { y_plane: bm!(a, 0, $t), u_plane: bm!(a, 1, $t), v_plane: bm!(a, 2, $t), y_stride: a.p[0].stride as u32, u_stride: a.p[1].stride as u32, v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; obs_planar!(o, i, sub(a)); 0 }
    #[no_mangle] pub unsafe extern "C" fn $bb(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvBiPlanarImageMut::<$t> { y_plane: bm!(a, 0, $t), uv_plane: bm!(a, 1, $t), y_stride: a.p[0].stride as u32, uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; obs_bi!(o, 12, i, i.to_fixed(), sub(a)); obs_bi!(o, 24, i, YuvBiPlanarImage::from_mut(&i), sub(a)); 0 }
    #[no_mangle] pub unsafe extern "C" fn $bg(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvGrayImageMut::<$t> { y_plane: bm!(a, 0, $t), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; obs_gray!(o, i); 0 }
    #[no_mangle] pub unsafe extern "C" fn $bk(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvPackedImageMut::<$t> { yuy: bm!(a, 0, $t), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; obs_packed!(o, i); 0 }
} }
images!(u8, a_planar_u8, a_biplanar_u8, a_gray_u8, b_planar_u8, b_biplanar_u8, b_gray_u8, b_packed_u8);
images!(u16, a_planar_u16, a_biplanar_u16, a_gray_u16, b_planar_u16, b_biplanar_u16, b_gray_u16, b_packed_u16);
