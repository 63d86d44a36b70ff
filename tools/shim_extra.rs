// observations of the image containers (P15): nothing is specified here, the fields are only copied out
#[inline(always)] fn sub(a: &A) -> YuvChromaSubsampling { match a.geo { 0 => YuvChromaSubsampling::Yuv420, 1 => YuvChromaSubsampling::Yuv422, _ => YuvChromaSubsampling::Yuv444 } }
macro_rules! put { ($o:expr, $k:expr, $($v:expr),*) => { { let mut k: usize = $k; $( *$o.add(k) = ($v) as u64; k += 1; )* let _ = k; } } }
macro_rules! obs_planar { ($o:expr, $i:expr, $s:expr) => { { let i = &$i; let v = i.to_fixed(); let (y, u, w) = (i.y_plane.borrow(), i.u_plane.borrow(), i.v_plane.borrow());
    put!($o, 0, y.len(), i.y_stride, 1, u.len(), i.u_stride, 1, w.len(), i.v_stride, 1, i.width, i.height, i.check_constraints($s).is_err());
    put!($o, 12, v.y_plane.len(), v.y_stride, v.y_plane.as_ptr() == y.as_ptr(), v.u_plane.len(), v.u_stride, v.u_plane.as_ptr() == u.as_ptr(), v.v_plane.len(), v.v_stride, v.v_plane.as_ptr() == w.as_ptr(), v.width, v.height, v.check_constraints($s).is_err()); } } }
macro_rules! obs_bi { ($o:expr, $k:expr, $i:expr, $v:expr, $s:expr) => { { let i = &$i; let v = $v; let (y, u) = (i.y_plane.borrow(), i.uv_plane.borrow());
    put!($o, 0, y.len(), i.y_stride, 1, u.len(), i.uv_stride, 1, 0, 0, 1, i.width, i.height, i.check_constraints($s).is_err());
    put!($o, $k, v.y_plane.len(), v.y_stride, v.y_plane.as_ptr() == y.as_ptr(), v.uv_plane.len(), v.uv_stride, v.uv_plane.as_ptr() == u.as_ptr(), 0, 0, 1, v.width, v.height, v.check_constraints($s).is_err()); } } }
macro_rules! obs_gray { ($o:expr, $i:expr) => { { let i = &$i; let v = i.to_fixed(); let y = i.y_plane.borrow();
    put!($o, 0, y.len(), i.y_stride, 1, 0, 0, 1, 0, 0, 1, i.width, i.height, i.check_constraints().is_err());
    put!($o, 12, v.y_plane.len(), v.y_stride, v.y_plane.as_ptr() == y.as_ptr(), 0, 0, 1, 0, 0, 1, v.width, v.height, v.check_constraints().is_err()); } } }
macro_rules! obs_packed { ($o:expr, $i:expr) => { { let i = &$i; let v = i.to_fixed(); let y = i.yuy.borrow();
    put!($o, 0, y.len(), i.yuy_stride, 1, 0, 0, 1, 0, 0, 1, i.width, i.height, i.check_constraints().is_err());
    put!($o, 12, v.yuy.len(), v.yuy_stride, v.yuy.as_ptr() == y.as_ptr(), 0, 0, 1, 0, 0, 1, v.width, v.height, v.check_constraints().is_err()); } } }
macro_rules! bm { ($a:expr, $k:expr, $t:ty) => { BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut($a.p[$k].ptr as *mut $t, $a.p[$k].len)) } }
macro_rules! images { ($t:ty, $ap:ident, $ab:ident, $ag:ident, $bp:ident, $bb:ident, $bg:ident, $bk:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $ap(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvPlanarImageMut::<$t>::alloc(a.d[0].w as u32, a.d[0].h as u32, sub(a)); obs_planar!(o, i, sub(a)); 0 }
    #[no_mangle] pub unsafe extern "C" fn $ab(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvBiPlanarImageMut::<$t>::alloc(a.d[0].w as u32, a.d[0].h as u32, sub(a)); obs_bi!(o, 12, i, i.to_fixed(), sub(a)); obs_bi!(o, 24, i, YuvBiPlanarImage::from_mut(&i), sub(a)); 0 }
    #[no_mangle] pub unsafe extern "C" fn $ag(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvGrayImageMut::<$t>::alloc(a.d[0].w as u32, a.d[0].h as u32); obs_gray!(o, i); 0 }
    #[no_mangle] pub unsafe extern "C" fn $bp(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvPlanarImageMut::<$t> { y_plane: bm!(a, 0, $t), u_plane: bm!(a, 1, $t), v_plane: bm!(a, 2, $t), y_stride: a.p[0].stride as u32, u_stride: a.p[1].stride as u32, v_stride: a.p[2].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; obs_planar!(o, i, sub(a)); 0 }
    #[no_mangle] pub unsafe extern "C" fn $bb(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvBiPlanarImageMut::<$t> { y_plane: bm!(a, 0, $t), uv_plane: bm!(a, 1, $t), y_stride: a.p[0].stride as u32, uv_stride: a.p[1].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; obs_bi!(o, 12, i, i.to_fixed(), sub(a)); obs_bi!(o, 24, i, YuvBiPlanarImage::from_mut(&i), sub(a)); 0 }
    #[no_mangle] pub unsafe extern "C" fn $bg(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvGrayImageMut::<$t> { y_plane: bm!(a, 0, $t), y_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; obs_gray!(o, i); 0 }
    #[no_mangle] pub unsafe extern "C" fn $bk(a: &A) -> u32 { let o = a.p[3].ptr as *mut u64; let i = YuvPackedImageMut::<$t> { yuy: bm!(a, 0, $t), yuy_stride: a.p[0].stride as u32, width: a.d[0].w as u32, height: a.d[0].h as u32 }; obs_packed!(o, i); 0 }
} }
images!(u8, a_planar_u8, a_biplanar_u8, a_gray_u8, b_planar_u8, b_biplanar_u8, b_gray_u8, b_packed_u8);
images!(u16, a_planar_u16, a_biplanar_u16, a_gray_u16, b_planar_u16, b_biplanar_u16, b_gray_u16, b_packed_u16);
