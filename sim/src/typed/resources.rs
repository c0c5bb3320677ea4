//! What pages are made of: fonts, color spaces, patterns, shadings, functions, graphics states, external objects,
//! streams and trees.

use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::{Array, Dict, Filter, Name, Ref, Str, Stream};

use super::structure::any_obj;
use super::*;
use crate::ctx::Slot;
use crate::plan::{run_many, SimIter};
use crate::with_prim;

/// Alternate color space and tint transform of a special color space, in their order; was it carried through?
macro_rules! alternate {
    ($w:ident, $t:ident) => {{
        $t.between();
        if $t.bool() {
            let r = $t.r();
            lib(|| { $w.alternate_color_space_ref(Ref::new(r)); });
            $t.puts("", V::Ref(r));
        } else {
            let c = lib(|| $w.alternate_color_space());
            $t.nest(b"", c);
        }
        $t.between();
        match $t.g.draw(4) {
            0 => {
                let r = $t.r();
                lib(|| { $w.tint_ref(Ref::new(r)); });
                $t.puts("", V::Ref(r));
                true
            }
            1 => {
                let c = lib(|| $w.tint_exponential());
                $t.nest(b"", c);
                true
            }
            2 => {
                let c = lib(|| $w.tint_stitching());
                $t.nest(b"", c);
                true
            }
            _ => false,
        }
    }};
}

drive! { Type1Font<'_>, w, t; dict, "Type" = nm("Font"), "Subtype" = nm("Type1");
    m!(t, w.name, "Name", name);
    m!(t, w.base_font, "BaseFont", name);
    m!(t, w.first_char, "FirstChar", u8);
    m!(t, w.last_char, "LastChar", u8);
    m!(t, w.widths, "Widths", many real);
    m!(t, w.font_descriptor, "FontDescriptor", ref);
    m!(t, w.encoding_predefined, "Encoding", name);
    m!(t, w.encoding_custom, "Encoding", nest);
    m!(t, w.to_unicode, "ToUnicode", ref);
}
drive! { Type3Font<'_>, w, t; dict, "Type" = nm("Font"), "Subtype" = nm("Type3");
    m!(t, w.name, "Name", name);
    m!(t, w.bbox, "FontBBox", rect);
    m!(t, w.matrix, "FontMatrix", reals 6);
    m!(t, w.char_procs, "CharProcs", dict ref);
    m!(t, w.encoding_predefined, "Encoding", name);
    m!(t, w.encoding_custom, "Encoding", nest);
    m!(t, w.first_char, "FirstChar", u8);
    m!(t, w.last_char, "LastChar", u8);
    m!(t, w.widths, "Widths", many real);
    m!(t, w.font_descriptor, "FontDescriptor", ref);
    m!(t, w.resources, "Resources", nest);
    m!(t, w.to_unicode, "ToUnicode", ref);
}
drive! { Encoding<'_>, w, t; dict, "Type" = nm("Encoding");
    m!(t, w.base_encoding, "BaseEncoding", name);
    m!(t, w.differences, "Differences", nest);
}
drive! { Differences<'_>, w, t; arr;
    {
        let start = gen_u16(t.g) as u8;
        let m = gen_many!(t, name);
        t.g.remember(Slot::Main, &(start as u16).wrapping_add(m.vals.len() as u16));
        t.sh.begin();
        t.put(b"", V::Int(start as i32));
        let cx = t.cx;
        run_many(&m, t.sh, || {
            let it = SimIter::new(cx, &m).map(|i| elem!(name, &m.vals[i]));
            lib(|| { w.consecutive(start, it); });
        });
        t.sh.end();
    };
}
drive! { Type0Font<'_>, w, t; dict, "Type" = nm("Font"), "Subtype" = nm("Type0");
    m!(t, w.base_font, "BaseFont", name);
    m!(t, w.encoding_predefined, "Encoding", name);
    m!(t, w.encoding_cmap, "Encoding", ref);
    if t.fresh("DescendantFonts") {
        let r = t.r();
        lib(|| { w.descendant_font(Ref::new(r)); });
        t.puts("DescendantFonts", arr([V::Ref(r)]));
    };
    m!(t, w.to_unicode, "ToUnicode", ref);
}
drive! { CidFont<'_>, w, t; dict, "Type" = nm("Font");
    m!(t, w.subtype, "Subtype", cid_font_type());
    m!(t, w.base_font, "BaseFont", name);
    if t.fresh("CIDSystemInfo") {
        let (r, o, n) = (t.str(), t.str(), t.int());
        lib(|| { w.system_info(SystemInfo { registry: Str(&r), ordering: Str(&o), supplement: n }); });
        t.puts("CIDSystemInfo", dict_v(vec![("Registry", V::Str(r)), ("Ordering", V::Str(o)), ("Supplement", V::Int(n))]));
    };
    m!(t, w.font_descriptor, "FontDescriptor", ref);
    m!(t, w.default_width, "DW", real);
    m!(t, w.widths, "W", nest);
    m!(t, w.cid_to_gid_map_predefined, "CIDToGIDMap", name);
    m!(t, w.cid_to_gid_map_stream, "CIDToGIDMap", ref);
}
drive! { Widths<'_>, w, t; arr;
    {
        let start = gen_u16(t.g);
        let m = gen_many!(t, real);
        t.g.remember(Slot::Main, &start.wrapping_add(m.vals.len() as u16));
        t.sh.begin();
        t.put(b"", V::Int(start as i32));
        t.sh.open(b"", false);
        let cx = t.cx;
        run_many(&m, t.sh, || {
            let it = SimIter::new(cx, &m).map(|i| elem!(real, &m.vals[i]));
            lib(|| { w.consecutive(start, it); });
        });
        t.sh.close();
        t.sh.end();
    };
    {
        let (a, b, x) = (gen_u16(t.g), gen_u16(t.g), t.real());
        lib(|| { w.same(a, b, x); });
        t.put(b"", V::Int(a as i32));
        t.put(b"", V::Int(b as i32));
        t.put(b"", V::Real(x));
    };
}
drive! { FontDescriptor<'_>, w, t; dict, "Type" = nm("FontDescriptor");
    m!(t, w.name, "FontName", name);
    m!(t, w.family, "FontFamily", str);
    m!(t, w.stretch, "FontStretch", font_stretch());
    m!(t, w.weight, "FontWeight", u16);
    m!(t, w.flags, "Flags", font_flags());
    m!(t, w.bbox, "FontBBox", rect);
    m!(t, w.italic_angle, "ItalicAngle", real);
    m!(t, w.ascent, "Ascent", real);
    m!(t, w.descent, "Descent", real);
    m!(t, w.leading, "Leading", real);
    m!(t, w.cap_height, "CapHeight", real);
    m!(t, w.x_height, "XHeight", real);
    m!(t, w.stem_v, "StemV", real);
    m!(t, w.stem_h, "StemH", real);
    m!(t, w.avg_width, "AvgWidth", real);
    m!(t, w.max_width, "MaxWidth", real);
    m!(t, w.missing_width, "MissingWidth", real);
    m!(t, w.font_file, "FontFile", ref);
    m!(t, w.font_file2, "FontFile2", ref);
    m!(t, w.font_file3, "FontFile3", ref);
    m!(t, w.char_set, "CharSet", str);
    if t.fresh("Style") {
        let b: [u8; 12] = std::array::from_fn(|_| t.g.draw(256) as u8);
        lib(|| { w.style(b[0], b[1], std::array::from_fn(|i| b[i + 2])); });
        t.puts("Style", dict_v(vec![("Panose", V::Str(b.to_vec()))]));
    };
    m!(t, w.descriptor_override, "FD", nest);
    m!(t, w.cid_set, "CIDSet", ref);
}
drive! { FontDescriptorOverride<'_>, w, t; dict;
    {
        let k = t.new_key();
        let c = lib(|| w.custom_class(Name(&k)));
        t.nest(&k, c);
    };
    {
        let (k, r) = (t.new_key(), t.r());
        lib(|| { w.custom_class_ref(Name(&k), Ref::new(r)); });
        t.put(&k, V::Ref(r));
    };
    {
        let (c, k) = cjk_class(t);
        let V::Name(k) = k else { unreachable!() };
        if !t.sh.has(&k) {
            let c = lib(|| w.cjk_class(c));
            t.nest(&k, c);
        }
    };
    {
        let (c, k) = cjk_class(t);
        let V::Name(k) = k else { unreachable!() };
        if !t.sh.has(&k) {
            let r = t.r();
            lib(|| { w.cjk_class_ref(c, Ref::new(r)); });
            t.put(&k, V::Ref(r));
        }
    };
}
drive! { Cmap<'_>, w, t; stream;
    m!(t, w.name, "CMapName", name);
    if t.fresh("CIDSystemInfo") {
        let (r, o, n) = (t.str(), t.str(), t.int());
        lib(|| { w.system_info(SystemInfo { registry: Str(&r), ordering: Str(&o), supplement: n }); });
        t.puts("CIDSystemInfo", dict_v(vec![("Registry", V::Str(r)), ("Ordering", V::Str(o)), ("Supplement", V::Int(n))]));
    };
    m!(t, w.writing_mode, "WMode", writing_direction());
    m!(t, w.use_cmap_stream, "UseCMap", ref);
    m!(t, w.use_cmap_predefined, "UseCMap", name);
}
drive! { SampledFunction<'_>, w, t; stream;
    m!(t, w.domain, "Domain", many real);
    m!(t, w.range, "Range", many real);
    m!(t, w.size, "Size", many int);
    m!(t, w.bits_per_sample, "BitsPerSample", int);
    m!(t, w.order, "Order", interpolation_order());
    m!(t, w.encode, "Encode", many real);
    m!(t, w.decode, "Decode", many real);
}
drive! { ExponentialFunction<'_>, w, t; dict, "FunctionType" = V::Int(2);
    m!(t, w.domain, "Domain", many real);
    m!(t, w.range, "Range", many real);
    m!(t, w.c0, "C0", many real);
    m!(t, w.c1, "C1", many real);
    m!(t, w.n, "N", real);
}
drive! { StitchingFunction<'_>, w, t; dict, "FunctionType" = V::Int(3);
    m!(t, w.domain, "Domain", many real);
    m!(t, w.range, "Range", many real);
    m!(t, w.functions, "Functions", many ref);
    m!(t, w.bounds, "Bounds", many real);
    m!(t, w.encode, "Encode", many real);
}
drive! { PostScriptFunction<'_>, w, t; stream;
    m!(t, w.domain, "Domain", many real);
    m!(t, w.range, "Range", many real);
}
drive! { ImageXObject<'_>, w, t; stream;
    m!(t, w.width, "Width", int);
    m!(t, w.height, "Height", int);
    m!(t, w.color_space, "ColorSpace", nest);
    m!(t, w.color_space_name, "ColorSpace", name);
    m!(t, w.bits_per_component, "BitsPerComponent", int);
    m!(t, w.intent, "Intent", rendering_intent());
    m!(t, w.image_mask, "ImageMask", bool);
    m!(t, w.color_mask, "Mask", many int);
    m!(t, w.stencil_mask, "Mask", ref);
    m!(t, w.decode, "Decode", many real);
    m!(t, w.interpolate, "Interpolate", bool);
    m!(t, w.alternates, "Alternates", many ref);
    m!(t, w.s_mask, "SMask", ref);
    m!(t, w.s_mask_in_data, "SMaskInData", s_mask_in_data());
    m!(t, w.struct_parent, "StructParent", int);
    m!(t, w.matte, "Matte", many real);
    m!(t, w.metadata, "Metadata", ref);
    m!(t, w.associated_files, "AF", array_of);
}
drive! { FormXObject<'_>, w, t; stream;
    m!(t, w.bbox, "BBox", rect);
    m!(t, w.matrix, "Matrix", reals 6);
    m!(t, w.resources, "Resources", nest);
    m!(t, w.group, "Group", nest);
    m!(t, w.struct_parent, "StructParent", int);
    m!(t, w.struct_parents, "StructParents", int);
    m!(t, w.reference, "Ref", nest);
    m!(t, w.metadata, "Metadata", ref);
    m!(t, w.last_modified, "LastModified", date);
    m!(t, w.associated_files, "AF", array_of);
}
drive! { Group<'_>, w, t; dict, "Type" = nm("Group");
    m!(t, w.transparency, "S", says "Transparency");
    m!(t, w.color_space, "CS", nest);
    m!(t, w.isolated, "I", bool);
    m!(t, w.knockout, "K", bool);
}
drive! { Reference<'_>, w, t; dict;
    m!(t, w.file_spec, "F", nest);
    m!(t, w.page_number, "Page", int);
    m!(t, w.page_label, "Page", tlike);
    if t.fresh("ID") {
        let (a, b) = (t.str(), t.str());
        lib(|| { w.id([Str(&a), Str(&b)]); });
        t.puts("ID", arr([V::Str(a), V::Str(b)]));
    };
}
drive! { IccProfile<'_>, w, t; stream;
    m!(t, w.n, "N", of_ints [1, 3, 4]);
    m!(t, w.alternate, "Alternate", nest);
    m!(t, w.alternate_name, "Alternate", name);
    m!(t, w.range, "Range", many real);
    m!(t, w.metadata, "Metadata", ref);
}
drive! { DeviceNAttrs<'_>, w, t; plain_dict;
    m!(t, w.subtype, "Subtype", device_n_subtype());
    m!(t, w.colorants, "Colorants", dict_of);
    m!(t, w.process, "Process", nest);
    m!(t, w.mixing_hints, "MixingHints", nest);
}
drive! { DeviceNProcess<'_>, w, t; plain_dict;
    m!(t, w.color_space, "ColorSpace", name);
    m!(t, w.color_space_array, "ColorSpace", nest);
    m!(t, w.components, "Components", many name);
}
drive! { DeviceNMixingHints<'_>, w, t; plain_dict;
    m!(t, w.solidities, "Solidities", dict real);
    m!(t, w.printing_order, "PrintingOrder", many name);
    m!(t, w.dot_gain, "DotGain", dict real);
}
drive! { TilingPattern<'_>, w, t; stream;
    m!(t, w.paint_type, "PaintType", paint_type());
    m!(t, w.tiling_type, "TilingType", tiling_type());
    m!(t, w.bbox, "BBox", rect);
    m!(t, w.x_step, "XStep", nonzero);
    m!(t, w.y_step, "YStep", nonzero);
    m!(t, w.resources, "Resources", nest);
    m!(t, w.matrix, "Matrix", reals 6);
}
drive! { ShadingPattern<'_>, w, t; dict, "Type" = nm("Pattern"), "PatternType" = V::Int(2);
    m!(t, w.function_shading, "Shading", nest);
    m!(t, w.shading_ref, "Shading", ref);
    m!(t, w.matrix, "Matrix", reals 6);
    m!(t, w.ext_graphics, "ExtGState", nest);
}
drive! { FunctionShading<'_>, w, t; dict;
    m!(t, w.shading_type, "ShadingType", function_shading_type());
    m!(t, w.color_space, "ColorSpace", nest);
    m!(t, w.background, "Background", many real);
    m!(t, w.bbox, "BBox", rect);
    m!(t, w.anti_alias, "AntiAlias", bool);
    m!(t, w.domain, "Domain", reals 4);
    m!(t, w.matrix, "Matrix", reals 6);
    m!(t, w.function, "Function", ref);
    m!(t, w.coords, "Coords", many real);
    if t.fresh("Extend") {
        let e = [t.bool(), t.bool()];
        lib(|| { w.extend(e); });
        t.puts("Extend", arr(e.map(V::Bool)));
    };
}
drive! { StreamShading<'_>, w, t; stream;
    m!(t, w.shading_type, "ShadingType", stream_shading_type());
    m!(t, w.color_space, "ColorSpace", nest);
    m!(t, w.background, "Background", many real);
    m!(t, w.bbox, "BBox", rect);
    m!(t, w.anti_alias, "AntiAlias", bool);
    m!(t, w.function, "Function", ref);
    m!(t, w.bits_per_coordinate, "BitsPerCoordinate", int);
    m!(t, w.bits_per_component, "BitsPerComponent", int);
    m!(t, w.bits_per_flag, "BitsPerFlag", int);
    m!(t, w.decode, "Decode", many real);
    m!(t, w.vertices_per_row, "VerticesPerRow", int);
}
drive! { SeparationInfo<'_>, w, t; plain_dict;
    m!(t, w.pages, "Pages", many ref);
    m!(t, w.device_colorant, "DeviceColorant", name);
    if t.fresh("DeviceColorant") {
        let v = t.text();
        lib(|| { w.device_colorant_str(&v); });
        t.puts("DeviceColorant", text_v(&v));
    };
    m!(t, w.color_space, "ColorSpace", nest);
}
drive! { OutputIntent<'_>, w, t; plain_dict, "Type" = nm("OutputIntent");
    m!(t, w.subtype, "S", output_intent_subtype());
    m!(t, w.output_condition, "OutputCondition", tlike);
    m!(t, w.output_condition_identifier, "OutputConditionIdentifier", tlike);
    m!(t, w.registry_name, "RegistryName", text);
    m!(t, w.info, "Info", tlike);
    m!(t, w.dest_output_profile, "DestOutputProfile", ref);
}
steps_fn! { property_steps: PropertyList<'_>, w, t; dict;
    m!(t, w.identify, "MCID", int);
    m!(t, w.actual_text, "ActualText", tlike);
}
impl Drive for PropertyList<'_> {
    const DICT: bool = true;
    fn steps(&mut self, t: &mut T<'_>) {
        property_steps(self, t)
    }
    fn run(mut self, t: &mut T<'_>, key: &[u8]) {
        t.sh.open(key, true);
        self.steps(t);
        if t.bool() {
            // The same dictionary goes on as an artifact's.
            let mut a = lib(|| self.artifact());
            t.between();
            a.steps(t);
            t.end(a);
        } else {
            t.end(self);
        }
        t.sh.close();
    }
}
drive! { Artifact<'_>, w, t; dict;
    m!(t, w.kind, "Type", artifact_type());
    m!(t, w.subtype, "Subtype", artifact_subtype());
    m!(t, w.bounding_box, "BBox", rect);
    m!(t, w.attached, "Attached", each attachment);
}
drive! { Resources<'_>, w, t; dict;
    m!(t, w.x_objects, "XObject", nest);
    m!(t, w.fonts, "Font", nest);
    m!(t, w.color_spaces, "ColorSpace", nest);
    m!(t, w.patterns, "Pattern", nest);
    m!(t, w.shadings, "Shading", nest);
    m!(t, w.ext_g_states, "ExtGState", nest);
    m!(t, w.proc_sets, "ProcSet", each proc_set);
    if t.fresh("ProcSet") {
        lib(|| { w.proc_sets_all(); });
        t.puts("ProcSet", arr(["PDF", "Text", "ImageB", "ImageC", "ImageI"].map(nm)));
    };
    m!(t, w.properties, "Properties", dict_of);
}
drive! { ExtGraphicsState<'_>, w, t; dict, "Type" = nm("ExtGState");
    m!(t, w.line_width, "LW", real);
    m!(t, w.line_cap, "LC", line_cap_style());
    m!(t, w.line_join, "LJ", line_join_style());
    m!(t, w.miter_limit, "ML", real);
    if t.fresh("D") {
        let m = gen_many!(t, real);
        let x = t.real();
        t.sh.begin();
        t.sh.open(b"D", false);
        t.sh.open(b"", false);
        let cx = t.cx;
        run_many(&m, t.sh, || {
            let it = SimIter::new(cx, &m).map(|i| elem!(real, &m.vals[i]));
            lib(|| { w.dash_pattern(it, x); });
        });
        t.sh.close();
        t.put(b"", V::Real(x));
        t.sh.close();
        t.sh.end();
    };
    m!(t, w.rendering_intent, "RI", rendering_intent());
    m!(t, w.overprint, "OP", bool);
    m!(t, w.overprint_fill, "op", bool);
    m!(t, w.overprint_mode, "OPM", overprint_mode());
    if t.fresh("Font") {
        let (n, x) = (t.name(), t.real());
        lib(|| { w.font(Name(&n), x); });
        t.puts("Font", arr([V::Name(n), V::Real(x)]));
    };
    m!(t, w.black_generation, "BG", ref);
    m!(t, w.black_generation_default, "BG2", says "Default");
    m!(t, w.undercolor_removal, "UCR", ref);
    m!(t, w.undercolor_removal_default, "UCR2", says "Default");
    m!(t, w.transfer, "TR", ref);
    m!(t, w.transfer_default, "TR2", says "Default");
    m!(t, w.halftone, "HT", ref);
    m!(t, w.halftone_default, "HT", says "Default");
    m!(t, w.flatness, "FL", real);
    m!(t, w.smoothness, "SM", real);
    m!(t, w.stroke_adjustment, "SA", bool);
    m!(t, w.blend_mode, "BM", blend_mode());
    m!(t, w.soft_mask, "SMask", nest);
    m!(t, w.soft_mask_name, "SMask", name);
    m!(t, w.stroking_alpha, "CA", real);
    m!(t, w.non_stroking_alpha, "ca", real);
    m!(t, w.alpha_source, "AIS", bool);
    m!(t, w.text_knockout, "TK", bool);
}
drive! { SoftMask<'_>, w, t; dict, "Type" = nm("Mask");
    m!(t, w.subtype, "S", mask_type());
    m!(t, w.group, "G", ref);
    m!(t, w.backdrop, "BC", many real);
    m!(t, w.transfer_function, "TR", ref);
}
drive! { DecodeParms<'_>, w, t; dict;
    m!(t, w.predictor, "Predictor", predictor());
    m!(t, w.colors, "Colors", of_ints [1, 2, 3, 4, 9, i32::MAX]);
    m!(t, w.bits_per_component, "BitsPerComponent", of_ints [1, 2, 4, 8, 16]);
    m!(t, w.columns, "Columns", int);
    m!(t, w.early_change, "EarlyChange", bool_int);
    m!(t, w.k, "K", int);
    m!(t, w.end_of_line, "EndOfLine", bool);
    m!(t, w.encoded_byte_align, "EncodedByteAlign", bool);
    m!(t, w.rows, "Rows", int);
    m!(t, w.end_of_block, "EndOfBlock", bool);
    m!(t, w.black_is_1, "BlackIs1", bool);
    m!(t, w.damaged_rows_before_error, "DamagedRowsBeforeError", int);
    m!(t, w.jbig2_globals, "JBIG2Globals", ref);
    m!(t, w.color_transform, "ColorTransform", bool_int);
    m!(t, w.crypt_type, "Type", says "CryptFilterDecodeParms");
    m!(t, w.name, "Name", name);
}
// ---- tables
table! { artifact_subtype: ArtifactSubtype<'static>; Header => "Header", Footer => "Footer", Watermark => "Watermark", PageNumber => "PageNum", Bates => "Bates", LineNumber => "LineNum", Redaction => "Redaction"; custom Custom }
table! { artifact_type: ArtifactType; Pagination => "Pagination", Layout => "Layout", Page => "Page", Background => "Background", Inline => "Inline"; }
table! { blend_mode: BlendMode; Normal => "Normal", Multiply => "Multiply", Screen => "Screen", Overlay => "Overlay", Darken => "Darken", Lighten => "Lighten", ColorDodge => "ColorDodge", ColorBurn => "ColorBurn", HardLight => "HardLight", SoftLight => "SoftLight", Difference => "Difference", Exclusion => "Exclusion", Hue => "Hue", Saturation => "Saturation", Color => "Color", Luminosity => "Luminosity"; }
table! { cid_font_type: CidFontType; Type0 => "CIDFontType0", Type2 => "CIDFontType2"; }
table! { device_n_subtype: DeviceNSubtype; DeviceN => "DeviceN", NChannel => "NChannel"; }
table! { filter: Filter; AsciiHexDecode => "ASCIIHexDecode", Ascii85Decode => "ASCII85Decode", LzwDecode => "LZWDecode", FlateDecode => "FlateDecode", RunLengthDecode => "RunLengthDecode", CcittFaxDecode => "CCITTFaxDecode", Jbig2Decode => "JBIG2Decode", DctDecode => "DCTDecode", JpxDecode => "JPXDecode", Crypt => "Crypt"; }
table! { font_stretch: FontStretch; UltraCondensed => "UltraCondensed", ExtraCondensed => "ExtraCondensed", Condensed => "Condensed", SemiCondensed => "SemiCondensed", Normal => "Normal", SemiExpanded => "SemiExpanded", Expanded => "Expanded", ExtraExpanded => "ExtraExpanded", UltraExpanded => "UltraExpanded"; }
table! { function_shading_type: FunctionShadingType; Function => 1, Axial => 2, Radial => 3; }
table! { interpolation_order: InterpolationOrder; Linear => 1, Cubic => 3; }
table! { line_cap_style: LineCapStyle; ButtCap => 0, RoundCap => 1, ProjectingSquareCap => 2; }
table! { line_join_style: LineJoinStyle; MiterJoin => 0, RoundJoin => 1, BevelJoin => 2; }
table! { mask_type: MaskType; Alpha => "Alpha", Luminosity => "Luminosity"; }
table! { output_intent_subtype: OutputIntentSubtype<'static>; PDFX => "GTS_PDFX", PDFA => "GTS_PDFA1", PDFE => "ISO_PDFE1"; custom Custom }
table! { overprint_mode: OverprintMode; OverrideAllColorants => 0, IgnoreZeroChannel => 1; }
table! { paint_type: PaintType; Colored => 1, Uncolored => 2; }
table! { predictor: Predictor; None => 1, Tiff => 2, PngNone => 10, PngSub => 11, PngUp => 12, PngAverage => 13, PngPaeth => 14, PngOptimum => 15; }
table! { rendering_intent: RenderingIntent; AbsoluteColorimetric => "AbsoluteColorimetric", RelativeColorimetric => "RelativeColorimetric", Saturation => "Saturation", Perceptual => "Perceptual"; }
table! { s_mask_in_data: SMaskInData; Ignore => 0, Use => 1, Preblended => 2; }
table! { stream_shading_type: StreamShadingType; FreeformGouraud => 4, LatticeGouraud => 5, CoonsPatch => 6, TensorProductPatch => 7; }
table! { text_rendering_mode: TextRenderingMode; Fill => 0, Stroke => 1, FillStroke => 2, Invisible => 3, FillClip => 4, StrokeClip => 5, FillStrokeClip => 6, Clip => 7; }
table! { tiling_type: TilingType; ConstantSpacing => 1, NoDistortion => 2, FastConstantSpacing => 3; }
table! { writing_direction: WMode; Horizontal => 0, Vertical => 1; }

table! { cjk_class: CjkClass; Alphabetic => "Alphabetic", AlphaNum => "AlphaNum", Dingbats => "Dingbats", DingbatsRot => "DingbatsRot", Generic => "Generic", GenericRot => "GenericRot", Hangul => "Hangul", Hanja => "Hanja", Hanzi => "Hanzi", HRoman => "HRoman", HRomanRot => "HRomanRot", HKana => "HKana", HKanaRot => "HKanaRot", HojoKanji => "HojoKanji", Kana => "Kana", Kanji => "Kanji", Proportional => "Proportional", ProportionalRot => "ProportionalRot", Ruby => "Ruby"; }
table! { attachment: ArtifactAttachment; Left => "Left", Top => "Top", Right => "Right", Bottom => "Bottom"; }
table! { proc_set: ProcSet; Pdf => "PDF", Text => "Text", ImageGrayscale => "ImageB", ImageColor => "ImageC", ImageIndexed => "ImageI"; }
flags_table! { font_flags: FontFlags; FIXED_PITCH = 0x1, SERIF = 0x2, SYMBOLIC = 0x4, SCRIPT = 0x8, NON_SYMBOLIC = 0x20, ITALIC = 0x40, ALL_CAP = 0x10000, SMALL_CAP = 0x20000, FORCE_BOLD = 0x40000 }

const D65: [f32; 3] = [0.9505, 1.0, 1.0888];
const D50: [f32; 3] = [0.9642, 1.0, 0.82489];
const E_WHITE: [f32; 3] = [1.0, 1.0, 1.0];
const C_WHITE: [f32; 3] = [0.9807, 1.0, 1.1822];

fn cal_rgb(white: [f32; 3], black: Option<[f32; 3]>, gamma: Option<[f32; 3]>, matrix: Option<[f32; 9]>) -> V {
    let mut d = vec![("WhitePoint", reals_v(&white))];
    d.extend(black.map(|x| ("BlackPoint", reals_v(&x))));
    d.extend(gamma.map(|x| ("Gamma", reals_v(&x))));
    d.extend(matrix.map(|x| ("Matrix", reals_v(&x))));
    arr([nm("CalRGB"), dict_v(d)])
}
fn cal_gray(white: [f32; 3], black: Option<[f32; 3]>, gamma: Option<f32>) -> V {
    let mut d = vec![("WhitePoint", reals_v(&white))];
    d.extend(black.map(|x| ("BlackPoint", reals_v(&x))));
    d.extend(gamma.map(|x| ("Gamma", V::Real(x))));
    arr([nm("CalGray"), dict_v(d)])
}

impl Drive for ColorSpace<'_> {
    const DICT: bool = false;
    fn steps(&mut self, _: &mut T<'_>) {}
    fn run(self, t: &mut T<'_>, key: &[u8]) {
        let deep = if t.depth > 7 { 0 } else { 2 };
        let v = match t.g.draw(22 + deep) {
            0 => {
                lib(|| self.device_rgb());
                nm("DeviceRGB")
            }
            1 => {
                lib(|| self.device_cmyk());
                nm("DeviceCMYK")
            }
            2 => {
                lib(|| self.device_gray());
                nm("DeviceGray")
            }
            3 | 4 => {
                let w = t.reals();
                let (b, g, m) = (t.opt(|t| t.reals()), t.opt(|t| t.reals()), t.opt(|t| t.reals()));
                lib(|| self.cal_rgb(w, b, g, m));
                cal_rgb(w, b, g, m)
            }
            5 | 6 => {
                let w = t.reals();
                let (b, g) = (t.opt(|t| t.reals()), t.opt(|t| t.real()));
                lib(|| self.cal_gray(w, b, g));
                cal_gray(w, b, g)
            }
            7 | 8 => {
                let w: [f32; 3] = t.reals();
                let (b, r): (Option<[f32; 3]>, Option<[f32; 4]>) = (t.opt(|t| t.reals()), t.opt(|t| t.reals()));
                lib(|| self.lab(w, b, r));
                let mut d = vec![("WhitePoint", reals_v(&w))];
                d.extend(b.map(|x| ("BlackPoint", reals_v(&x))));
                d.extend(r.map(|x| ("Range", reals_v(&x))));
                arr([nm("Lab"), dict_v(d)])
            }
            9 => {
                let r = t.r();
                lib(|| self.icc_based(Ref::new(r)));
                arr([nm("ICCBased"), V::Ref(r)])
            }
            10 => {
                lib(|| self.srgb());
                cal_rgb(D65, None, Some([2.2; 3]), Some([0.4124, 0.2126, 0.0193, 0.3576, 0.715, 0.1192, 0.1805, 0.0722, 0.9505]))
            }
            11 => {
                lib(|| self.adobe_rgb());
                let m = [0.57667, 0.29734, 0.02703, 0.18556, 0.62736, 0.07069, 0.18823, 0.07529, 0.99134];
                cal_rgb(D65, None, Some([2.1992188; 3]), Some(m))
            }
            12 => {
                lib(|| self.display_p3());
                let m = [0.48657, 0.2297, 0.0, 0.26567, 0.69174, 0.04511, 0.19822, 0.07929, 1.04394];
                cal_rgb(D65, None, Some([2.6; 3]), Some(m))
            }
            13 => {
                lib(|| self.pro_photo());
                let m = [0.7976749, 0.2880402, 0.0, 0.1351917, 0.7118741, 0.0, 0.0313534, 0.0000857, 0.82521];
                cal_rgb(D50, None, Some([1.8; 3]), Some(m))
            }
            14 => {
                lib(|| self.eci_rgb());
                let m = [0.6502043, 0.3202499, 0.0, 0.1780774, 0.6020711, 0.0678390, 0.1359384, 0.0776791, 0.757371];
                cal_rgb(D50, None, Some([1.8; 3]), Some(m))
            }
            15 => {
                lib(|| self.ntsc());
                let m = [0.6068909, 0.2989164, 0.0, 0.1735011, 0.586599, 0.0660957, 0.200348, 0.1144845, 1.1162243];
                cal_rgb(C_WHITE, None, Some([2.2; 3]), Some(m))
            }
            16 => {
                lib(|| self.pal());
                let m = [0.430619, 0.2220379, 0.0201853, 0.3415419, 0.7066384, 0.1295504, 0.1783091, 0.0713236, 0.9390944];
                cal_rgb(D65, None, Some([2.2; 3]), Some(m))
            }
            17 => {
                lib(|| self.d65_gray());
                cal_gray(D65, None, Some(2.2))
            }
            18 => {
                lib(|| self.c_gray());
                cal_gray(C_WHITE, None, Some(2.2))
            }
            19 => {
                let g = t.opt(|t| t.real());
                if t.bool() {
                    lib(|| self.d50_gray(g));
                    cal_gray(D50, None, g)
                } else {
                    lib(|| self.e_gray(g));
                    cal_gray(E_WHITE, None, g)
                }
            }
            20 => {
                let (b, h, l) = (t.name(), t.int(), t.str());
                lib(|| self.indexed(Name(&b), h, &l));
                arr([nm("Indexed"), V::Name(b), V::Int(h), V::Str(l)])
            }
            21 => {
                let b = t.name();
                lib(|| self.pattern(Name(&b)));
                arr([nm("Pattern"), V::Name(b)])
            }
            22 => {
                let n = t.name();
                t.sh.open(key, false);
                t.puts("", nm("Separation"));
                t.puts("", V::Name(n.clone()));
                let mut w = lib(|| self.separation(Name(&n)));
                alternate!(w, t);
                t.end(w);
                t.sh.close();
                return;
            }
            _ => {
                let m = gen_many!(t, name);
                t.sh.open(key, false);
                t.puts("", nm("DeviceN"));
                t.sh.open(b"", false);
                let cx = t.cx;
                let mut w = None;
                run_many(&m, t.sh, || {
                    let it = SimIter::new(cx, &m).map(|i| elem!(name, &m.vals[i]));
                    w = Some(lib(|| self.device_n(it)));
                });
                t.sh.close();
                let mut w = w.expect("made");
                if alternate!(w, t) && t.bool() {
                    t.between();
                    let a = lib(|| w.attrs());
                    t.nest(b"", a);
                }
                t.end(w);
                t.sh.close();
                return;
            }
        };
        t.put(key, v);
    }
}

drive! { Metadata<'_>, w, t; stream; }
drive! { Stream<'_>, w, t; stream; }

macro_rules! trees {
    ($($T:ty, $kind:ident;)*) => { $(
        drive! { NameTree<'_, $T>, w, t; plain_dict;
            m!(t, w.kids, "Kids", array ref);
            m!(t, w.names, "Names", nest);
            if t.fresh("Limits") {
                let (a, b) = (t.name(), t.name());
                lib(|| { w.limits(Name(&a), Name(&b)); });
                t.puts("Limits", arr([V::Str(a), V::Str(b)]));
            };
        }
        drive! { NameTreeEntries<'_, $T>, w, t; plain_arr;
            for _ in 0..t.count() {
                let (k, p) = (t.str(), gen_elem!(t, $kind));
                lib(|| { w.insert(Str(&k), elem!($kind, &p)); });
                t.puts("", V::Str(k));
                t.puts("", p.v());
            };
        }
        drive! { NumberTree<'_, $T>, w, t; plain_dict;
            m!(t, w.kids, "Kids", array ref);
            m!(t, w.nums, "Nums", nest);
            if t.fresh("Limits") {
                let (a, b) = (t.int(), t.int());
                lib(|| { w.limits(a, b); });
                t.puts("Limits", arr([V::Int(a), V::Int(b)]));
            };
        }
        drive! { NumberTreeEntries<'_, $T>, w, t; plain_arr;
            for _ in 0..t.count() {
                let (k, p) = (t.int(), gen_elem!(t, $kind));
                lib(|| { w.insert(k, elem!($kind, &p)); });
                t.puts("", V::Int(k));
                t.puts("", p.v());
            };
        }
    )* };
}
trees! { Ref, ref; i32, int; f32, real; bool, bool; }
type RefNames<'a> = NameTree<'a, Ref>;
type IntNames<'a> = NameTree<'a, i32>;
type RealNames<'a> = NameTree<'a, f32>;
type RefNumbers<'a> = NumberTree<'a, Ref>;
type IntNumbers<'a> = NumberTree<'a, i32>;
type BoolNumbers<'a> = NumberTree<'a, bool>;

drive! { Array<'_>, w, t; arr;
    m!(t, w.items, "", all real);
    m!(t, w.items, "", all ref);
    { let o = lib(|| w.push()); any_obj(o, b"", t); };
}
drive! { Dict<'_>, w, t; dict;
    {
        let k = t.own_key();
        let o = lib(|| w.insert(Name(&k)));
        any_obj(o, &k, t);
    };
    {
        let k = t.own_key();
        let o = lib(|| w.insert(Name(&k)));
        any_obj(o, &k, t);
    };
}

pub const ROOTS: &[Root] = roots! {
    ext_graphics type1_font type3_font type0_font cid_font font_descriptor color_space function_shading shading_pattern
    exponential_function stitching_function;
    Resources Group Reference Encoding Differences Widths FontDescriptorOverride OutputIntent SeparationInfo SoftMask
    PropertyList Artifact DecodeParms DeviceNAttrs DeviceNProcess DeviceNMixingHints ColorSpace
    RefNames IntNames RealNames RefNumbers IntNumbers BoolNumbers Array Dict;
    name_tree Ref, name_tree f32, number_tree Ref, number_tree bool
};
