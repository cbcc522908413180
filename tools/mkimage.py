#!/usr/bin/env python3
"""A copy of the image crate whose GIF, PNG and WebP encoders record what they
are given instead of compressing it, and fail when the harness says so.
Everything before the encoder (write_to, format dispatch, colour conversion,
buffers, rotation) is the real code."""
import os, re, shutil, sys

src, dst = sys.argv[1], sys.argv[2]
shutil.rmtree(dst, ignore_errors=True)
os.makedirs(dst)
shutil.copy(f"{src}/Cargo.toml", dst)
shutil.copytree(f"{src}/src", f"{dst}/src")
for f in ("README.md",):
    if os.path.exists(f"{src}/{f}"):
        shutil.copy(f"{src}/{f}", dst)


def edit(path, *subs):
    p = f"{dst}/src/{path}"
    s = open(p).read()
    for pat, rep in subs:
        s, n = re.subn(pat, lambda m: m.expand(rep), s, count=1, flags=re.S)
        if n != 1:
            sys.exit(f"mkimage: {path}: no match for {pat!r}")
    open(p, "w").write(s)


edit("lib.rs", (r"\Z", r"""
mod recording {
    use crate::{ExtendedColorType, ImageError, ImageResult};
    use std::io::Write;
    extern "C" {
        fn harness_fault() -> u64;
    }
    pub(crate) fn record<W: Write>(
        w: &mut W,
        format: u8,
        data: &[u8],
        width: u32,
        height: u32,
        color: ExtendedColorType,
    ) -> ImageResult<()> {
        let fault = unsafe { harness_fault() };
        if fault != 0 && fault <= 6 {
            return Err(failure(fault));
        }
        let c = match color {
            ExtendedColorType::Rgba8 => 4u8,
            ExtendedColorType::Rgb8 => 3,
            ExtendedColorType::La8 => 2,
            ExtendedColorType::L8 => 1,
            _ => 0,
        };
        w.write_all(&[0xEE, format, c])?;
        w.write_all(&width.to_le_bytes())?;
        w.write_all(&height.to_le_bytes())?;
        w.write_all(data)?;
        if fault > 6 {
            return Err(failure(fault - 6));
        }
        Ok(())
    }
    /// each of the ways image can fail
    fn failure(kind: u64) -> ImageError {
        use crate::error::*;
        match kind {
            1 => ImageError::IoError(std::io::ErrorKind::Other.into()),
            2 => ImageError::IoError(std::io::ErrorKind::WriteZero.into()),
            3 => ImageError::Parameter(ParameterError::from_kind(ParameterErrorKind::DimensionMismatch)),
            4 => ImageError::Limits(LimitError::from_kind(LimitErrorKind::DimensionError)),
            5 => ImageError::Unsupported(UnsupportedError::from_format_and_kind(
                ImageFormatHint::Unknown,
                UnsupportedErrorKind::Color(ExtendedColorType::Rgba8),
            )),
            _ => ImageError::Encoding(EncodingError::from_format_hint(ImageFormatHint::Unknown)),
        }
    }
}
"""))
edit("codecs/png.rs",
     (r"(    fn encode_inner\(\s*)self,", r"\1mut self,"),
     (r"(    fn encode_inner\([^{]*\) -> ImageResult<\(\)> \{\n)",
      r"\1        if true {\n            return crate::recording::record(&mut self.w, 2, data, width, height, color);\n        }\n"))
edit("codecs/gif.rs",
     (r"(    pub fn encode\(\s*&mut self,\s*data: &\[u8\],[^{]*\{\n)(.*?\n)(        match color)",
      r"\1\2        if true {\n            let (w, h) = (width as u32, height as u32);\n            return crate::recording::record(self.w.as_mut().unwrap(), 1, data, w, h, color);\n        }\n\3"),
     (r"(    pub fn encode_frame\([^{]*\{\n)",
      r"\1        if true {\n            let b = img_frame.into_buffer();\n            let (w, h) = (b.width(), b.height());\n            return crate::recording::record(self.w.as_mut().unwrap(), 1, &b, w, h, ExtendedColorType::Rgba8);\n        }\n"))
edit("codecs/webp/encoder.rs",
     (r"inner: image_webp::WebPEncoder<W>,", r"inner: W,"),
     (r"inner: image_webp::WebPEncoder::new\(w\),", r"inner: w,"),
     (r"    pub fn encode\(\s*self,", r"    pub fn encode(\n        mut self,"),
     (r"let color_type = match color_type", r"let _checked = match color_type"),
     (r"        self\.inner\s*\.encode\(buf, width, height, color_type\)\s*\.map_err\(ImageError::from_webp_encode\)",
      r"        crate::recording::record(&mut self.inner, 3, buf, width, height, color_type)"),
     (r"self\.inner\.set_icc_profile\(icc_profile\);", r"let _ = icc_profile;"),
     (r"self\.inner\.set_exif_metadata\(exif\);", r"let _ = exif;"))
