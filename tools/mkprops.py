#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that it stays readable)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("P01","8-bit YCbCr decoding is accurate for every pixel of every image",
 "Converting an 8-bit YCbCr image (planar, semi-planar or packed 4:2:2 / AYUV, every subsampling) to RGB, RGBA, BGR or BGRA writes, for every pixel, the colour the selected matrix and range give for that pixel's own luma and for the chroma sample that covers it, each channel clamped to 0..255 and within a small fixed rounding tolerance of the exact real-valued result. Rows, columns and channels are never mixed up, including the last column and row of odd-sized images. The colour does not depend on where the pixel lies in the image or which CPU path computed it, beyond that tolerance.",
 ["inputs","configurations"],"all image sizes, strides, pixel values, ranges, standard matrices, conversion modes, channel orders and CPU feature sets",
 "tests convert a handful of solid-coloured or random images of a few sizes through whatever path the test machine selects and compare a sample with a loose tolerance; the claim is over all 2^24 colour triples at every lane and tail position of every SIMD path",
 ["src/yuv_to_rgba.rs","src/yuv_nv_to_rgba.rs","src/yuy2_to_rgb.rs","src/ayuv_to_rgb.rs","src/avx2","src/sse","src/avx512bw"],
 [("row loops, chroma siting, odd last row/column","src/yuv_to_rgba.rs, src/yuv_nv_to_rgba.rs"),("fixed-point matrices","src/yuv_support.rs, src/built_coefficients.rs"),("SIMD row kernels","src/avx2, src/sse, src/avx512bw")],
 ["RGB output buffer"])
prop("P02","8-bit RGB to YCbCr encoding is accurate for every sample",
 "Converting RGB, BGR, RGBA or BGRA to 8-bit YCbCr (planar or semi-planar, 4:2:0, 4:2:2, 4:4:4, or luma only) writes every luma sample as the selected matrix's value for its own pixel, and every chroma sample as the matrix's value for the average of exactly the pixels it covers, within a small fixed rounding tolerance of the exact result and inside the selected range's limits. Odd last columns and rows average only pixels of the image. U and V land in the places the chosen format prescribes.",
 ["inputs","configurations"],"all image sizes, strides, pixel values, ranges, standard matrices, conversion modes, channel orders and CPU feature sets",
 "tests encode a few solid or random images and compare a sample; a wrong weight at one lane, tail size or odd edge of one SIMD path passes them",
 ["src/rgba_to_yuv.rs","src/rgba_to_nv.rs","src/rgb_to_y.rs","src/avx2","src/sse","src/avx512bw"],
 [("row loops, averaging, odd last row/column","src/rgba_to_yuv.rs, src/rgba_to_nv.rs"),("inverse-matrix coefficients","src/yuv_support.rs, src/built_coefficients.rs")],
 ["Y, U, V, UV output planes"])
prop("P03","High-bit-depth YCbCr decoding is accurate and stays in the output depth",
 "Converting 10/12/14/16-bit YCbCr (planar, or semi-planar with the bits stored high) to 16-bit-per-channel RGB(A) of the same depth, to 8-bit RGB(A), or to packed 10-bit RGB writes for every pixel the colour the selected matrix and range give for its luma and covering chroma, within a small fixed tolerance, and never a value above the output depth's maximum. Every subsampling, channel order and CPU path obeys this at every position of the image.",
 ["inputs","configurations"],"all image sizes, strides, sample values, depths, ranges, standard matrices, channel orders and CPU feature sets",
 "48-bit sample space per pixel, several SIMD paths per depth; tests sample a few colours",
 ["src/yuv_p16_rgba_p16.rs","src/yuv_nv_p16_to_rgb16.rs","src/yuv_p10_rgba.rs","src/yuv_nv_p10_to_rgb.rs","src/yuv_p16_ar30.rs","src/yuv_nv_p10_to_ar30.rs","src/yuy2_to_rgb_p16.rs"],
 [("row loops and depth scaling","src/yuv_p16_rgba_p16.rs, src/yuv_p10_rgba.rs"),("high-bit SIMD kernels","src/avx2, src/sse, src/avx512bw")],["RGB output buffer"])
prop("P04","High-bit-depth RGB to YCbCr encoding is accurate for every sample",
 "Converting 10/12/14/16-bit RGB(A) to planar or semi-planar YCbCr of the same depth writes every luma sample from its own pixel and every chroma sample from the average of exactly the pixels it covers, within a small fixed tolerance of the selected matrix's exact value. Semi-planar output keeps the bits in the high part of the word, planar output in the low part. Odd last rows and columns use only pixels of the image.",
 ["inputs","configurations"],"all image sizes, strides, sample values, depths, ranges, standard matrices, channel orders and CPU feature sets",
 "tests cover a few sizes and colours on one machine's path",
 ["src/rgb16_to_yuv_p16.rs","src/rgb_to_nv_p16.rs"],
 [("row loops, averaging","src/rgb16_to_yuv_p16.rs, src/rgb_to_nv_p16.rs")],["Y, U, V, UV output planes"])
prop("P05","Packed 4:2:2 and planar YUV convert into each other exactly",
 "Repacking between planar YUV and the packed YUYV, YVYU, UYVY and VYUY layouts (8-bit and 16-bit samples) copies every luma sample unchanged to its own pixel, and every chroma sample unchanged, or as the rounded average of the source chroma samples it replaces when the target has coarser chroma. Every output sample of the image is written, including odd last columns and rows.",
 ["inputs","configurations"],"all image sizes, strides, sample values, byte orders, subsamplings and CPU feature sets",
 "the existing tests cover few sizes; an error at a tail length or odd edge escapes them",
 ["src/yuv_to_yuy2.rs","src/yuy2_to_yuv.rs","src/yuv_to_yuy2_p16.rs","src/yuy2_to_yuv_p16.rs"],
 [("row loops","src/yuv_to_yuy2.rs, src/yuy2_to_yuv.rs"),("SIMD interleave kernels","src/avx2, src/sse")],["output planes / packed buffer"])
prop("P06","Channel reordering is exact",
 "Converting between RGB, BGR, RGBA and BGRA moves every colour channel of every pixel unchanged to its new place, copies alpha when both sides have it, and sets alpha fully opaque when only the target has it.",
 ["inputs","configurations"],"all image sizes, strides, pixel values and CPU feature sets",
 "no sampled test can rule out one wrong lane at one tail length",
 ["src/shuffle.rs"],[("row shuffles","src/shuffle.rs, src/sse, src/avx2")],["output buffer"])
prop("P07","Alpha is preserved and opaque where absent",
 "Every conversion to a format with an alpha channel from a source with an alpha plane stores that pixel's own alpha in the output, and from a source without alpha stores the fully opaque value of the output depth; with premultiplication requested the colours are the straight colours scaled by that pixel's alpha.",
 ["inputs","configurations"],"all image sizes, strides, alpha and colour values, depths, channel orders and CPU feature sets",
 "alpha is checked by tests on a few images only",
 ["src/yuv_to_rgba_alpha.rs","src/yuv_p16_rgba16_alpha.rs","src/yuv_p16_rgba_alpha.rs","src/ycgco_to_rgb_alpha.rs","src/from_identity_alpha.rs","src/y_with_alpha_to_rgb.rs","src/y_p16_with_alpha_to_rgb16.rs"],
 [("alpha row handling","src/yuv_to_rgba_alpha.rs and siblings")],["alpha bytes of the output"])
prop("P08","Identity (GBR) conversion is exact in full range",
 "Converting RGB to planar GBR and back with full range copies every channel of every pixel unchanged at every supported depth; with limited range each channel is the range-scaled value within a small rounding tolerance.",
 ["inputs","configurations"],"all image sizes, strides, values, depths, channel orders, ranges and CPU feature sets",
 "tests cover few sizes",
 ["src/from_identity.rs","src/to_identity.rs","src/from_identity_alpha.rs"],[("row loops and kernels","src/from_identity.rs, src/to_identity.rs")],["output buffers"])
prop("P09","YCgCo conversion is accurate in both directions",
 "Converting RGB to YCgCo writes for every pixel the luma, green-chroma and orange-chroma values of the YCgCo transform of that pixel (or of the average of the pixels a chroma sample covers), and converting YCgCo back writes the inverse transform of the pixel's luma and covering chroma, in 8 bits and at higher depths, within a small rounding tolerance and clamped to the depth.",
 ["inputs","configurations"],"all image sizes, strides, values, depths, subsamplings, ranges and CPU feature sets",
 "tests check few images",
 ["src/rgb_to_ycgco.rs","src/ycgco_to_rgb.rs","src/ycgco_to_rgb_alpha.rs"],[("row loops","src/rgb_to_ycgco.rs, src/ycgco_to_rgb.rs")],["output buffers"])
prop("P10","Greyscale conversion yields neutral, correctly scaled pixels",
 "Converting luma-only images (8-bit or higher depth, with or without alpha) to RGB writes three equal channels for every pixel: the luma itself in full range, or the range-expanded and clamped luma within a rounding tolerance in limited range.",
 ["inputs","configurations"],"all image sizes, strides, luma values, depths, ranges and CPU feature sets",
 "tests check few images",
 ["src/y_to_rgb.rs","src/y_with_alpha_to_rgb.rs","src/y_p16_to_rgb16.rs","src/y_p16_with_alpha_to_rgb16.rs"],[("row loops","src/y_to_rgb.rs")],["output buffers"])
prop("P11","Packed 10-bit RGB words hold the right components",
 "Packing RGB(A) of 8, 10 or 12 bits into 32-bit 10-10-10-2 words puts each component, scaled to 10 bits, into its own bit field with opaque alpha, in the requested component and byte order, and unpacking such words to 8 bits recovers each component scaled to 8 bits; no component ever leaks into a neighbour's field.",
 ["inputs","configurations"],"all image sizes, strides, values, component and byte orders and CPU feature sets",
 "tests check few images",
 ["src/rgb_ar30.rs","src/ar30_rgb.rs","src/yuv_support.rs"],[("pack/unpack","src/yuv_support.rs"),("row loops","src/rgb_ar30.rs, src/ar30_rgb.rs")],["output buffers"])
prop("P12","Rotation and mirroring are exact permutations",
 "Rotating an image by 90, 180 or 270 degrees or mirroring it vertically or horizontally writes every output pixel as an unchanged copy of the one source pixel that geometry prescribes, for planes, interleaved chroma, RGB and RGBA in 8 and 16 bits.",
 ["inputs","configurations"],"all image sizes, strides and pixel contents",
 "tests check few sizes",
 ["src/geometry.rs","src/mirroring.rs"],[("dispatch to transpose/flip/flop","src/geometry.rs, src/mirroring.rs")],["output buffer"])
prop("P13","Conversions touch only the pixels of the given images",
 "On any accepted image a conversion finishes without panicking, reads only inside the buffers it was given, never leaves a pixel of the target image unwritten, and never modifies target bytes that belong to no pixel (such as row padding) nor any byte of the sources.",
 ["inputs","configurations"],"all accepted image sizes, strides and contents, all CPU feature sets, for every conversion of the library",
 "the SIMD paths use raw pointers, so an out-of-bounds access at one width or tail length is silent in ordinary tests",
 ["src/avx2","src/sse","src/avx512bw","src/yuv_to_rgba.rs","src/rgba_to_yuv.rs"],[("bounds of SIMD loops and stack tail buffers","src/avx2, src/sse, src/avx512bw")],["all buffers"])
prop("P14","Malformed images are rejected with an error before anything is written",
 "A conversion given zero dimensions, a plane or buffer too short for its stated stride and dimensions, a stride shorter than a row, or source and target images of different dimensions returns an error, without panicking and without writing to the target; a well-formed image is never rejected.",
 ["inputs"],"all widths, heights, strides and buffer lengths (including those near the integer limits)",
 "tests only pass well-formed images; the bad combinations are unbounded",
 ["src/yuv_error.rs","src/images.rs"],[("plane and destination checks","src/yuv_error.rs"),("image constraint checks","src/images.rs")],["Result of the conversion"])
prop("P15","Freshly allocated images satisfy their own constraints",
 "Allocating an image of given non-zero dimensions and subsampling yields planes and strides large enough for those dimensions, such that the library's own constraint checks accept it and its borrowed view describes the same planes, strides and dimensions.",
 ["inputs","configurations"],"all dimensions and subsamplings whose sizes fit in memory and whose rows fit the 32-bit stride fields",
 "tests allocate a few sizes",
 ["src/images.rs"],[("alloc / to_fixed / from_mut","src/images.rs")],["image fields"])
prop("P16","Conversion coefficients agree with the standards' definitions",
 "For every standard and custom colour matrix, range and bit depth, the coefficients used for decoding and encoding equal those derived from the standard's luma weights, to within the fixed-point precision in use; in particular neutral chroma decodes to equal red, green and blue, and grey encodes to neutral chroma.",
 ["inputs","configurations"],"all standard matrices, ranges, bit depths, precisions",
 "tables of precomputed integers are only touched through a few matrices in tests",
 ["src/built_coefficients.rs","src/yuv_support.rs"],[("precomputed tables","src/built_coefficients.rs"),("transform derivation","src/yuv_support.rs")],["coefficients"])
prop("P17","RemoteFX (RDP) conversion is accurate in both directions",
 "The RemoteFX conversions between RGB orders and planar 16-bit YUV write every sample within a small rounding tolerance of the RemoteFX matrices' exact value for that pixel, saturated to 8 bits when decoding, at every position of the image.",
 ["inputs","configurations"],"all image sizes, strides, sample values, channel orders and CPU feature sets",
 "tests check few images",
 ["src/rdp.rs"],[("row loops and kernels","src/rdp.rs, src/avx2, src/sse")],["output buffers"])
prop("P18","Big-endian variants equal their little-endian counterparts",
 "Each conversion for big-endian samples gives exactly the result its little-endian counterpart gives for the byte-swapped samples.",
 ["inputs","configurations"],"all image sizes, strides, sample values and CPU feature sets",
 "big-endian variants are barely tested",
 ["src/yuv_p16_rgba_p16.rs","src/yuv_p10_rgba.rs","src/rgb16_to_yuv_p16.rs"],[("byte swapping on load/store","src/yuv_support.rs")],["output buffers"])
prop("P19","Half-float conversion is exact up to half-float rounding",
 "Converting integer images to half-float writes each sample divided by its depth's maximum, correctly rounded within one half-float step, and converting back and forth between integer and half-float recovers the integer samples at 8 bits; decoding YCbCr or GBR to half-float gives the integer decoding's value divided by the maximum.",
 ["inputs","configurations"],"all image sizes, strides, sample values, depths and CPU feature sets",
 "few tests",
 ["src/f16_converter.rs","src/yuv_p16_rgba_f16.rs","src/from_identity_f16.rs"],[("row converters","src/f16_converter.rs")],["output buffers"])
prop("P20","Sharp YUV keeps luma accurate and averages chroma in linear light",
 "Sharp RGB to YUV conversion writes every luma and chroma sample of the image inside the selected range; luma is that of ordinary encoding; each chroma sample is, within a few levels, the ordinary encoding of a weighted mean of exactly the pixels it covers, taken in the linear light of the selected transfer function, the pixel the sample is sited at counting three times as much as its neighbour in each subsampled direction and edge pixels standing in for missing ones. In particular constant-colour images encode as ordinary encoding does.",
 ["inputs","configurations"],"all image sizes, strides, values, gamma curves, matrices, ranges",
 "few tests",
 ["src/sharpyuv/sharp_rgba_to_yuv.rs","src/sharpyuv/sharp_gamma.rs"],[("gamma tables and chroma averaging","src/sharpyuv/sharp_rgba_to_yuv.rs")],["Y, U, V planes"])
prop("P21","Row-parallel conversion equals sequential conversion under every schedule",
 "With the rayon feature, every conversion leaves in every buffer exactly the bytes the sequential build leaves, padding and rows beyond the image included, and accepts and rejects the same arguments, whatever the order in which the rows (or pairs of rows) are processed.",
 ["inputs","schedules","configurations"],"all image sizes, strides, sample values, CPU feature sets and row orders",
 "tests run one schedule, with equal strides and small images",
 ["src/yuv_to_rgba.rs","src/rgba_to_yuv.rs","src/yuv_p16_rgba_p16.rs","src/yuv_to_yuy2.rs"],[("par_chunks_exact row loops of every conversion","src/*.rs")],["output buffers of both builds"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here,"properties.jsonl"),"w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
