#!/usr/bin/env python3
"""Generates /verif/shim/src/lib.rs: one flat C wrapper per public conversion of yuv, from api_signatures.txt.
The wrapper only builds the argument structs (views) and calls the conversion; nothing of it is specified."""
import os,re
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
IMG={'YuvPlanarImage':('y','u','v'),'YuvPlanarImageMut':('y','u','v'),'YuvPlanarImageWithAlpha':('y','u','v','a'),
 'YuvBiPlanarImage':('y','uv'),'YuvBiPlanarImageMut':('y','uv'),'YuvGrayImage':('y',),'YuvGrayImageMut':('y',),
 'YuvGrayAlphaImage':('y','a'),'YuvPackedImage':('yuy',),'YuvPackedImageMut':('yuy',)}
out=[]; table=[]
for line in open(os.path.join(here,'api_signatures.txt')):
    m=re.match(r'(.*) -> Result<tuple,YuvError> (\d+) (.*)$',line.strip())
    if not m: continue
    names=m.group(3).split(); assert len(names)==int(m.group(2)),(len(names),m.group(2))
    params=[p.split(':',1) for p in m.group(1).split(', ')]
    for name in names:
        body=[]; args=[]; np=0; nd=0; planes=[]
        pend=None
        for pn,pt in params:
            mm=re.match(r'&(mut )?(\w+)<(\w+)>$',pt)
            ms=re.match(r'&(mut )?\[(\w+)\]$',pt)
            if mm:
                mut=bool(mm.group(1)); T=mm.group(3); f=[]
                for fl in IMG[mm.group(2)]:
                    pl='yuy' if fl=='yuy' else fl+'_plane'; st='yuy_stride' if fl=='yuy' else fl+'_stride'
                    if mut: f.append(f"{pl}: BufferStoreMut::Borrowed(core::slice::from_raw_parts_mut(a.p[{np}].ptr as *mut {T}, a.p[{np}].len))")
                    else: f.append(f"{pl}: core::slice::from_raw_parts(a.p[{np}].ptr as *const {T}, a.p[{np}].len)")
                    f.append(f"{st}: a.p[{np}].stride as u32")
                    planes.append((fl,T,mut,nd)); np+=1
                f.append(f"width: a.d[{nd}].w as u32, height: a.d[{nd}].h as u32"); nd+=1
                v='i%d'%nd
                body.append(f"let {'mut ' if mut else ''}{v} = {mm.group(2)} {{ {', '.join(f)} }};")
                args.append(('&mut ' if mut else '&')+v)
            elif ms:
                mut=bool(ms.group(1)); T=ms.group(2)
                args.append(f"core::slice::from_raw_parts{'_mut' if mut else ''}(a.p[{np}].ptr as *{'mut' if mut else 'const'} {T}, a.p[{np}].len)")
                planes.append(('s',T,mut,None)); pend=np; np+=1
            elif pn.endswith('stride'): args.append(f"a.p[{pend}].stride as {pt}")
            elif pn=='width': args.append(f"a.d[{nd}].w as {pt}")
            elif pn=='height': args.append(f"a.d[{nd}].h as {pt}")
            elif pt=='YuvRange': args.append('rng(a)')
            elif pt=='YuvStandardMatrix': args.append('mat(a)')
            elif pt=='YuvConversionMode': args.append('mode(a)')
            elif pt=='Rgb30ByteOrder': args.append('bord(a)')
            elif pt=='bool': args.append('a.flag != 0')
            elif pt=='SharpYuvGammaTransfer': args.append('gam(a)')
            elif pn=='bit_depth': args.append(f'a.depth as {pt}')
            elif pt=='MirrorMode': args.append('mir(a)')
            elif pt=='RotationMode': args.append('rot(a)')
            else: raise SystemExit((name,pn,pt))
        out.append(f"#[no_mangle] pub unsafe extern \"C\" fn k_{name}(a: &A) -> u32 {{ {' '.join(body)} res(yuv::{name}({', '.join(args)})) }}")
        ps=[{'YuvRange':'range','YuvStandardMatrix':'matrix','YuvConversionMode':'mode','Rgb30ByteOrder':'order','bool':'flag','SharpYuvGammaTransfer':'gamma','MirrorMode':'mirror','RotationMode':'rotate'}.get(pt,'depth' if pn=='bit_depth' else None) for pn,pt in params]
        table.append((name,planes,[x for x in ps if x]))
hdr='''// GENERATED by tools/gen_shim.py -- flat wrappers around every public conversion.
#![feature(f16)]
#![feature(stdarch_x86_avx512)]
#![feature(avx512_target_feature)]
#![allow(clippy::all)]
use yuv::*;
#[repr(C)] #[derive(Clone,Copy)] pub struct Buf { pub ptr: *mut u8, pub len: usize, pub stride: usize }
#[repr(C)] #[derive(Clone,Copy)] pub struct Dim { pub w: usize, pub h: usize }
#[repr(C)] pub struct A { pub p: [Buf; 6], pub d: [Dim; 2], pub range: u32, pub matrix: u32, pub mode: u32, pub order: u32, pub flag: u32, pub gamma: u32, pub depth: u32, pub geo: u32, pub kr: f32, pub kb: f32 }
#[inline(always)] fn res(r: Result<(), YuvError>) -> u32 { match r { Ok(()) => 0, Err(_) => 1 } }
#[inline(always)] fn rng(a: &A) -> YuvRange { if a.range == 0 { YuvRange::Limited } else { YuvRange::Full } }
#[inline(always)] fn mat(a: &A) -> YuvStandardMatrix { match a.matrix { 0 => YuvStandardMatrix::Bt601, 1 => YuvStandardMatrix::Bt709, 2 => YuvStandardMatrix::Bt2020, 3 => YuvStandardMatrix::Smpte240, 4 => YuvStandardMatrix::Bt470_6, 5 => YuvStandardMatrix::Fcc, _ => YuvStandardMatrix::Custom(a.kr, a.kb) } }
#[inline(always)] fn mode(a: &A) -> YuvConversionMode { match a.mode { 0 => YuvConversionMode::Fast, 1 => YuvConversionMode::Balanced, _ => YuvConversionMode::Professional } }
#[inline(always)] fn bord(a: &A) -> Rgb30ByteOrder { if a.order == 0 { Rgb30ByteOrder::Host } else { Rgb30ByteOrder::Network } }
#[inline(always)] fn gam(a: &A) -> SharpYuvGammaTransfer { match a.gamma { 0 => SharpYuvGammaTransfer::Srgb, 1 => SharpYuvGammaTransfer::Rec709, 2 => SharpYuvGammaTransfer::Gamma2p2, _ => SharpYuvGammaTransfer::Gamma2p8 } }
#[inline(always)] fn mir(a: &A) -> MirrorMode { if a.geo == 0 { MirrorMode::Vertical } else { MirrorMode::Horizontal } }
#[inline(always)] fn rot(a: &A) -> RotationMode { match a.geo { 0 => RotationMode::Rotate90, 1 => RotationMode::Rotate180, _ => RotationMode::Rotate270 } }
'''
feats=['sse4.1','avx2','ssse3','f16c','fma','avx','avxvnni','avx512bw','avx512vl','avx512f','avx512vbmi','avx512vnni','avx512dq','avx512cd']
for f in feats:
    out.append(f"#[no_mangle] pub extern \"C\" fn feat_{f.replace('.','_')}() -> u32 {{ std::is_x86_feature_detected!(\"{f}\") as u32 }}")
out.append('''extern "Rust" { #[link_name = "_ZN10std_detect6detect5cache5CACHE17h2f627cbce3dc88c6E"] static FEATURE_CACHE: [core::sync::atomic::AtomicUsize; 3]; }
/// selects the instruction sets std::is_x86_feature_detected! reports (used when replaying natively)
#[no_mangle] pub unsafe extern "C" fn shim_set_detect(bits: u64) { FEATURE_CACHE[0].store(bits as usize, core::sync::atomic::Ordering::Relaxed); FEATURE_CACHE[1].store(1 << 62, core::sync::atomic::Ordering::Relaxed); FEATURE_CACHE[2].store(1 << 62, core::sync::atomic::Ordering::Relaxed); }''')
open(os.path.join(root,'shim/src/lib.rs'),'w').write(hdr+'\n'.join(out)+'\n'+open(os.path.join(here,'shim_extra.rs')).read() if os.path.exists(os.path.join(here,'shim_extra.rs')) else hdr+'\n'.join(out)+'\n')
with open(os.path.join(here,'api_table.txt'),'w') as f:
    for n,pl,ps in sorted(table): f.write(n+' '+' '.join(f"{a}:{t}:{'w' if m else 'r'}:{'-' if d is None else d}" for a,t,m,d in pl)+' | '+' '.join(ps)+'\n')
print(len(table))
