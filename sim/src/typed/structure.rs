//! The document's structure: catalog, pages, outlines, names, labels, logical structure and its attributes.

use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::{Name, Obj, Ref, TypedDict};

use super::*;
use crate::plan::{run_many, SimIter};
use crate::with_prim;

drive! { Catalog<'_>, w, t; dict, "Type" = nm("Catalog");
    m!(t, w.pages, "Pages", ref);
    m!(t, w.page_layout, "PageLayout", page_layout());
    m!(t, w.page_labels, "PageLabels", nest);
    m!(t, w.page_mode, "PageMode", page_mode());
    m!(t, w.viewer_preferences, "ViewerPreferences", nest);
    m!(t, w.names, "Names", nest);
    m!(t, w.destinations, "Dests", ref);
    m!(t, w.outlines, "Outlines", ref);
    m!(t, w.struct_tree_root, "StructTreeRoot", nest);
    m!(t, w.mark_info, "MarkInfo", nest);
    m!(t, w.lang, "Lang", text);
    m!(t, w.version, "Version", version);
    m!(t, w.additional_actions, "AA", nest);
    m!(t, w.form, "AcroForm", nest);
    m!(t, w.metadata, "Metadata", ref);
    m!(t, w.extensions, "Extensions", dict_of);
    m!(t, w.separation_info, "SeparationInfo", nest);
    m!(t, w.output_intents, "OutputIntents", array_of);
    m!(t, w.associated_files, "AF", array_of);
}
drive! { DeveloperExtension<'_>, w, t; dict, "Type" = nm("DeveloperExtensions");
    m!(t, w.base_version, "BaseVersion", version);
    m!(t, w.extension_level, "ExtensionLevel", int);
}
drive! { ViewerPreferences<'_>, w, t; dict;
    m!(t, w.hide_toolbar, "HideToolbar", bool);
    m!(t, w.hide_menubar, "HideMenubar", bool);
    m!(t, w.fit_window, "FitWindow", bool);
    m!(t, w.center_window, "CenterWindow", bool);
    m!(t, w.display_doc_title, "DisplayDocTitle", bool);
    m!(t, w.non_full_screen_page_mode, "NonFullScreenPageMode", windowed_page_mode());
    m!(t, w.direction, "Direction", direction());
}
drive! { StructTreeRoot<'_>, w, t; dict, "Type" = nm("StructTreeRoot");
    m!(t, w.child, "K", ref);
    m!(t, w.children, "K", array ref);
    m!(t, w.id_tree, "IDTree", nest);
    m!(t, w.parent_tree, "ParentTree", nest);
    m!(t, w.parent_tree_next_key, "ParentTreeNextKey", int);
    m!(t, w.role_map, "RoleMap", nest);
    m!(t, w.class_map, "ClassMap", nest);
    m!(t, w.namespaces, "Namespaces", array ref);
    m!(t, w.pronunciation_lexicon, "PronunciationLexicon", array ref);
    m!(t, w.associated_files, "AF", array_of);
}
drive! { StructElement<'_>, w, t; dict, "Type" = nm("StructElem");
    m!(t, w.kind, "S", struct_role());
    if t.fresh("S") && t.fresh("NS") { kind_2(w, t) };
    m!(t, w.custom_kind, "S", name);
    m!(t, w.parent, "P", ref);
    m!(t, w.id, "ID", str);
    m!(t, w.refs, "Ref", many ref);
    m!(t, w.page, "Pg", ref);
    m!(t, w.child, "K", ref);
    m!(t, w.marked_content_child, "K", nest);
    m!(t, w.object_child, "K", nest);
    m!(t, w.children, "K", nest);
    m!(t, w.attributes, "A", array_of);
    m!(t, w.attribute_class, "C", array name);
    m!(t, w.revision, "R", int);
    m!(t, w.title, "T", tlike);
    m!(t, w.lang, "Lang", text);
    m!(t, w.alt, "Alt", tlike);
    m!(t, w.expanded, "E", tlike);
    m!(t, w.actual_text, "ActualText", tlike);
    m!(t, w.associated_files, "AF", array_of);
    m!(t, w.namespace, "NS", ref);
    m!(t, w.phonetic_alphabet, "PhoneticAlphabet", phonetic_alphabet());
    m!(t, w.phoneme, "Phoneme", text);
}
drive! { StructChildren<'_>, w, t; arr;
    m!(t, w.struct_element, "", ref);
    m!(t, w.marked_content_id, "", int);
    m!(t, w.marked_content_ref, "", nest);
    m!(t, w.object_ref, "", nest);
}
drive! { MarkedRef<'_>, w, t; dict, "Type" = nm("MCR");
    m!(t, w.page, "Pg", ref);
    m!(t, w.stream, "Stm", ref);
    m!(t, w.stream_owner, "StmOwn", ref);
    m!(t, w.marked_content_id, "MCID", int);
}
drive! { ObjectRef<'_>, w, t; dict, "Type" = nm("OBJR");
    m!(t, w.page, "Pg", ref);
    m!(t, w.object, "Obj", ref);
}
drive! { RoleMap<'_>, w, t; cdict;
    {
        let k = t.new_key();
        let (r, v) = struct_role(t);
        lib(|| { w.insert(Name(&k), r); });
        t.put(&k, v);
    };
}
drive! { ClassMap<'_>, w, t; dict;
    {
        let k = t.new_key();
        let c = lib(|| w.single(Name(&k)));
        t.nest(&k, c);
    };
    {
        let k = t.new_key();
        t.sh.open(&k, false);
        let mut a = lib(|| w.multiple(Name(&k)));
        array_of!(t, a);
        t.end(a);
        t.sh.close();
    };
}
drive! { NamespaceRoleMap<'_>, w, t; dict;
    {
        let k = t.new_key();
        let (r, v) = struct_role(t);
        lib(|| { w.to_pdf_1_7(Name(&k), r); });
        t.put(&k, v);
    };
    {
        let (k, n, r) = (t.new_key(), t.name(), t.r());
        lib(|| { w.to_namespace(Name(&k), Name(&n), Ref::new(r)); });
        t.put(&k, arr([V::Name(n), V::Ref(r)]));
    };
    {
        let k = t.new_key();
        let (role, v) = struct_role_2(t);
        let r = t.r();
        lib(|| { w.to_pdf_2_0(Name(&k), role, Ref::new(r)); });
        t.put(&k, arr([v, V::Ref(r)]));
    };
}
drive! { MarkInfo<'_>, w, t; dict;
    m!(t, w.marked, "Marked", bool);
    m!(t, w.user_properties, "UserProperties", bool);
    m!(t, w.suspects, "Suspects", bool);
}
drive! { PageLabel<'_>, w, t; dict, "Type" = nm("PageLabel");
    m!(t, w.style, "S", numbering_style());
    m!(t, w.prefix, "P", tlike);
    m!(t, w.offset, "St", int);
}
drive! { DocumentInfo<'_>, w, t; dict;
    m!(t, w.title, "Title", tlike);
    m!(t, w.author, "Author", tlike);
    m!(t, w.subject, "Subject", tlike);
    m!(t, w.keywords, "Keywords", tlike);
    m!(t, w.creator, "Creator", tlike);
    m!(t, w.producer, "Producer", tlike);
    m!(t, w.creation_date, "CreationDate", date);
    m!(t, w.modified_date, "ModDate", date);
    m!(t, w.trapped, "Trapped", trapping_status());
}
drive! { Pages<'_>, w, t; dict, "Type" = nm("Pages");
    m!(t, w.parent, "Parent", ref);
    m!(t, w.kids, "Kids", many ref);
    m!(t, w.count, "Count", int);
    m!(t, w.media_box, "MediaBox", rect);
    m!(t, w.resources, "Resources", nest);
}
drive! { Page<'_>, w, t; dict, "Type" = nm("Page");
    m!(t, w.parent, "Parent", ref);
    m!(t, w.last_modified, "LastModified", date);
    m!(t, w.media_box, "MediaBox", rect);
    m!(t, w.crop_box, "CropBox", rect);
    m!(t, w.bleed_box, "BleedBox", rect);
    m!(t, w.trim_box, "TrimBox", rect);
    m!(t, w.art_box, "ArtBox", rect);
    m!(t, w.resources, "Resources", nest);
    m!(t, w.contents, "Contents", ref);
    m!(t, w.contents_array, "Contents", many ref);
    m!(t, w.rotate, "Rotate", int);
    m!(t, w.group, "Group", nest);
    m!(t, w.thumbnail, "Thumb", ref);
    m!(t, w.duration, "Dur", real);
    m!(t, w.transition, "Trans", nest);
    m!(t, w.annotations, "Annots", many ref);
    m!(t, w.struct_parents, "StructParents", int);
    m!(t, w.tab_order, "Tabs", tab_order());
    m!(t, w.user_unit, "UserUnit", real);
    m!(t, w.additional_actions, "AA", nest);
    m!(t, w.metadata, "Metadata", ref);
    m!(t, w.associated_files, "AF", array_of);
}
drive! { Outline<'_>, w, t; dict, "Type" = nm("Outlines");
    m!(t, w.first, "First", ref);
    m!(t, w.last, "Last", ref);
    m!(t, w.count, "Count", nat);
}
drive! { OutlineItem<'_>, w, t; dict;
    m!(t, w.title, "Title", tlike);
    m!(t, w.parent, "Parent", ref);
    m!(t, w.prev, "Prev", ref);
    m!(t, w.next, "Next", ref);
    m!(t, w.first, "First", ref);
    m!(t, w.last, "Last", ref);
    m!(t, w.count, "Count", int);
    m!(t, w.dest, "Dest", nest);
    m!(t, w.dest_name, "Dest", name);
    m!(t, w.color_rgb, "C", args 3);
    m!(t, w.flags, "F", outline_flags());
}
drive! { Names<'_>, w, t; dict;
    m!(t, w.destinations, "Dests", nest);
    m!(t, w.appearances, "AP", nest);
    m!(t, w.javascript, "JavaScript", nest);
    m!(t, w.pages, "Pages", nest);
    m!(t, w.templates, "Templates", nest);
    m!(t, w.capture_ids, "IDS", nest);
    m!(t, w.capture_urls, "URLS", nest);
    m!(t, w.embedded_files, "EmbeddedFiles", nest);
    m!(t, w.alternate_presentations, "AlternatePresentations", nest);
    m!(t, w.renditions, "Renditions", nest);
}
drive! { UserProperty<'_>, w, t; dict;
    m!(t, w.name, "N", tlike);
    if t.fresh("V") {
        let o = lib(|| w.value());
        any_obj(o, b"V", t);
    };
    m!(t, w.format, "F", tlike);
    m!(t, w.hidden, "H", bool);
}
drive! { LayoutAttributes<'_>, w, t; dict, "O" = nm("Layout");
    m!(t, w.placement, "Placement", placement());
    m!(t, w.writing_mode, "WritingMode", writing_mode());
    m!(t, w.background_color, "BackgroundColor", reals 3);
    m!(t, w.border_color, "BorderColor", color_sides());
    m!(t, w.border_style, "BorderStyle", style_sides());
    m!(t, w.border_thickness, "BorderThickness", real_sides());
    m!(t, w.padding, "Padding", real_sides());
    m!(t, w.color, "Color", reals 3);
    m!(t, w.space_before, "SpaceBefore", real);
    m!(t, w.space_after, "SpaceAfter", real);
    m!(t, w.start_indent, "StartIndent", real);
    m!(t, w.end_indent, "EndIndent", real);
    m!(t, w.text_indent, "TextIndent", real);
    m!(t, w.text_align, "TextAlign", text_align());
    m!(t, w.width, "Width", real);
    m!(t, w.height, "Height", real);
    m!(t, w.bbox, "BBox", rect);
    m!(t, w.block_align, "BlockAlign", block_align());
    m!(t, w.inline_align, "InlineAlign", inline_align());
    m!(t, w.table_border_style, "TBorderStyle", style_sides());
    m!(t, w.table_padding, "TPadding", real_sides());
    m!(t, w.column_count, "ColumnCount", int);
    m!(t, w.column_widths, "ColumnWidths", nest);
    m!(t, w.column_gap, "ColumnGap", nest);
    m!(t, w.line_height, "LineHeight", line_height());
    m!(t, w.baseline_shift, "BaselineShift", real);
    m!(t, w.text_position, "TextPosition", layout_text_position());
    m!(t, w.text_decoration_type, "TextDecorationType", text_decoration_type());
    m!(t, w.text_decoration_color, "TextDecorationColor", reals 3);
    m!(t, w.text_decoration_thickness, "TextDecorationThickness", real);
    m!(t, w.glyph_orientation_vertical, "GlyphOrientationVertical", glyph_orientation());
    m!(t, w.ruby_align, "RubyAlign", ruby_align());
    m!(t, w.ruby_position, "RubyPosition", ruby_position());
}
drive! { ListAttributes<'_>, w, t; dict, "O" = nm("List");
    m!(t, w.list_numbering, "ListNumbering", list_numbering());
    m!(t, w.continued_list, "ContinuedList", bool);
    m!(t, w.continued_from, "ContinuedFrom", str);
}
drive! { FieldAttributes<'_>, w, t; dict, "O" = nm("PrintField");
    m!(t, w.role, "Role", field_role());
    if t.fresh("Checked") && t.fresh("checked") {
        let (s, v) = field_state(t);
        let two = t.bool();
        lib(|| { w.checked(s, two); });
        t.puts(if two { "Checked" } else { "checked" }, v);
    };
    m!(t, w.description, "Desc", tlike);
}
drive! { TableAttributes<'_>, w, t; dict, "O" = nm("Table");
    m!(t, w.row_span, "RowSpan", int);
    m!(t, w.col_span, "ColSpan", int);
    m!(t, w.headers, "Headers", array str);
    m!(t, w.scope, "Scope", table_header_scope());
    m!(t, w.summary, "Summary", tlike);
    m!(t, w.short, "Short", tlike);
}
drive! { ArtifactAttributes<'_>, w, t; dict, "O" = nm("Artifact");
    m!(t, w.artifact_type, "Type", artifact_type());
    m!(t, w.bbox, "BBox", rect);
    m!(t, w.subtype, "Subtype", artifact_subtype());
}
drive! { FENoteAttributes<'_>, w, t; dict, "O" = nm("FENote");
    m!(t, w.note_type, "NoteType", note_type());
}
// ---- tables
table! { artifact_subtype: ArtifactSubtype<'static>; Header => "Header", Footer => "Footer", Watermark => "Watermark", PageNumber => "PageNum", Bates => "Bates", LineNumber => "LineNum", Redaction => "Redaction"; custom Custom }
table! { artifact_type: ArtifactType; Pagination => "Pagination", Layout => "Layout", Page => "Page", Background => "Background", Inline => "Inline"; }
table! { block_align: BlockAlign; Before => "Before", Middle => "Middle", After => "After", Justify => "Justify"; }
table! { direction: Direction; L2R => "L2R", R2L => "R2L"; }
table! { field_role: FieldRole; Button => "pb", CheckBox => "cb", RadioButton => "rb", TextField => "tv", ListBox => "lb"; }
table! { inline_align: InlineAlign; Start => "Start", Center => "Center", End => "End"; }
table! { layout_text_position: LayoutTextPosition; Normal => "Normal", Superscript => "Sup", Subscript => "Sub"; }
table! { list_numbering: ListNumbering; None => "None", Unordered => "Unordered", Ordered => "Ordered", Description => "Description", Disc => "Disc", Circle => "Circle", Square => "Square", Decimal => "Decimal", LowerRoman => "LowerRoman", UpperRoman => "UpperRoman", LowerAlpha => "LowerAlpha", UpperAlpha => "UpperAlpha"; }
table! { note_type: NoteType; Footnote => "Footnote", Endnote => "Endnote", None => "None"; }
table! { numbering_style: NumberingStyle; Arabic => "D", LowerRoman => "r", UpperRoman => "R", LowerAlpha => "a", UpperAlpha => "A"; }
table! { page_layout: PageLayout; SinglePage => "SinglePage", OneColumn => "OneColumn", TwoColumnLeft => "TwoColumnLeft", TwoColumnRight => "TwoColumnRight", TwoPageLeft => "TwoPageLeft", TwoPageRight => "TwoPageRight"; }
table! { windowed_page_mode: PageMode; UseNone => "UseNone", UseOutlines => "UseOutlines", UseThumbs => "UseThumbs", UseOC => "UseOC", UseAttachments => "UseAttachments"; }
table! { page_mode: PageMode; UseNone => "UseNone", UseOutlines => "UseOutlines", UseThumbs => "UseThumbs", FullScreen => "FullScreen", UseOC => "UseOC", UseAttachments => "UseAttachments"; }
table! { phonetic_alphabet: PhoneticAlphabet<'static>; Ipa => "ipa", XSampa => "x-sampa", Pinyin => "zh-Latn-pinyin", WadeGiles => "zh-Latn-wadegile"; custom Custom }
table! { placement: Placement; Block => "Block", Inline => "Inline", Before => "Before", Start => "Start", End => "End"; }
table! { ruby_align: RubyAlign; Start => "Start", Center => "Center", End => "End", Justify => "Justify", Distribute => "Distribute"; }
table! { ruby_position: RubyPosition; Before => "Before", After => "After", Warichu => "Warichu", Inline => "Inline"; }
table! { struct_role: StructRole; Document => "Document", Part => "Part", Art => "Art", Sect => "Sect", Div => "Div", BlockQuote => "BlockQuote", Caption => "Caption", TOC => "TOC", TOCI => "TOCI", Index => "Index", NonStruct => "NonStruct", Private => "Private", P => "P", StructuredHeading => "H", H1 => "H1", H2 => "H2", H3 => "H3", H4 => "H4", H5 => "H5", H6 => "H6", L => "L", LI => "LI", Lbl => "Lbl", LBody => "LBody", Table => "Table", TR => "TR", TH => "TH", TD => "TD", THead => "THead", TBody => "TBody", TFoot => "TFoot", Span => "Span", Quote => "Quote", Note => "Note", Reference => "Reference", BibEntry => "BibEntry", Code => "Code", Link => "Link", Annot => "Annot", Ruby => "Ruby", Warichu => "Warichu", RB => "RB", RT => "RT", RP => "RP", WT => "WT", WP => "WP", Figure => "Figure", Formula => "Formula", Form => "Form"; }
table! { tab_order: TabOrder; RowOrder => "R", ColumnOrder => "C", StructureOrder => "S"; }
table! { table_header_scope: TableHeaderScope; Row => "Row", Column => "Column", Both => "Both"; }
table! { text_align: TextAlign; Start => "Start", Center => "Center", End => "End", Justify => "Justify"; }
table! { text_decoration_type: TextDecorationType; None => "None", Underline => "Underline", Overline => "Overline", LineThrough => "LineThrough"; }
table! { trapping_status: TrappingStatus; Trapped => "True", NotTrapped => "False", Unknown => "Unknown"; }
table! { writing_mode: WritingMode; LtrTtb => "LrTb", RtlTtb => "RlTb", TtbRtl => "TbRl"; }
table! { field_state: FieldState; Unchecked => "off", Checked => "on", Neutral => "neutral"; }
table! { border_style: LayoutBorderStyle; None => "None", Hidden => "Hidden", Solid => "Solid", Dashed => "Dashed", Dotted => "Dotted", Double => "Double", Groove => "Groove", Ridge => "Ridge", Inset => "Inset", Outset => "Outset"; }
flags_table! { outline_flags: OutlineItemFlags; ITALIC = 1, BOLD = 2 }

/// A role of PDF 2.0 and its standard name.
pub fn struct_role_2(t: &mut T<'_>) -> (StructRole2, V) {
    if t.g.draw(6) == 5 {
        let n = gen_u16(t.g).max(1);
        return (StructRole2::Heading(std::num::NonZeroU16::new(n).unwrap()), V::Name(format!("H{n}").into_bytes()));
    }
    role_2(t)
}
table! { role_2: StructRole2; Document => "Document", DocumentFragment => "DocumentFragment", Part => "Part", Sect => "Sect", Div => "Div", Aside => "Aside", NonStruct => "NonStruct", P => "P", StructuredHeading => "H", Title => "Title", FENote => "FENote", Sub => "Sub", Lbl => "Lbl", Span => "Span", Em => "Em", Strong => "Strong", Link => "Link", Annot => "Annot", Form => "Form", Ruby => "Ruby", RB => "RB", RT => "RT", RP => "RP", Warichu => "Warichu", WT => "WT", WP => "WP", L => "L", LI => "LI", LBody => "LBody", Table => "Table", TR => "TR", TH => "TH", TD => "TD", THead => "THead", TBody => "TBody", TFoot => "TFoot", Caption => "Caption", Figure => "Figure", Formula => "Formula", Artifact => "Artifact"; }

fn kind_2(w: &mut StructElement<'_>, t: &mut T<'_>) {
    let (role, v) = struct_role_2(t);
    let r = t.r();
    lib(|| {
        w.kind_2(role, Ref::new(r));
    });
    t.puts("S", v);
    t.puts("NS", V::Ref(r));
}

/// Four sides, often all alike: the value of a single side then stands for all of them.
fn sides<X: Clone + PartialEq>(t: &mut T<'_>, mut f: impl FnMut(&mut T<'_>) -> (X, V)) -> (Sides<X>, V) {
    let (b, bv) = f(t);
    if t.bool() {
        return (Sides::uniform(b), bv);
    }
    let mut one = |t: &mut T<'_>| if t.bool() { (b.clone(), bv.clone()) } else { f(t) };
    let (a, av) = one(t);
    let (s, sv) = one(t);
    let (e, ev) = one(t);
    let v = if b == a && b == s && b == e { bv.clone() } else { arr([bv.clone(), av, sv, ev]) };
    let s = if t.bool() { Sides::new(b, a, s, e) } else { Sides::from_array([b, a, s, e]) };
    (s, v)
}
fn color_sides(t: &mut T<'_>) -> (Sides<[f32; 3]>, V) {
    sides(t, |t| {
        let c: [f32; 3] = t.reals();
        (c, reals_v(&c))
    })
}
fn style_sides(t: &mut T<'_>) -> (Sides<LayoutBorderStyle>, V) {
    sides(t, border_style)
}
fn real_sides(t: &mut T<'_>) -> (Sides<f32>, V) {
    sides(t, |t| {
        let x = t.real();
        (x, V::Real(x))
    })
}
fn line_height(t: &mut T<'_>) -> (LineHeight, V) {
    match t.g.draw(3) {
        0 => (LineHeight::Normal, nm("Normal")),
        1 => (LineHeight::Auto, nm("Auto")),
        _ => {
            let x = t.real();
            (LineHeight::Custom(x), V::Real(x))
        }
    }
}
fn glyph_orientation(t: &mut T<'_>) -> (GlyphOrientationVertical, V) {
    if t.bool() {
        return (GlyphOrientationVertical::Auto, nm("Auto"));
    }
    let a = *t.g.pick(&[0, 90, -90, 180, -180, 270, 360]);
    (GlyphOrientationVertical::Angle(a), V::Int(a))
}

/// Any object as a value.
pub fn any_obj(o: Obj<'_>, key: &[u8], t: &mut T<'_>) {
    match t.g.draw(3) {
        0 => {
            let p = t.prim();
            with_prim!(&p, v => { lib(|| o.primitive(v)); });
            t.put(key, p.v());
        }
        1 => {
            let a = lib(|| o.array());
            t.nest(key, a);
        }
        _ => {
            let d = lib(|| o.dict());
            t.nest(key, d);
        }
    }
}

impl Drive for TrackSizes<'_> {
    const DICT: bool = false;
    fn steps(&mut self, _: &mut T<'_>) {}
    fn run(self, t: &mut T<'_>, key: &[u8]) {
        match t.g.draw(3) {
            0 => {
                let x = t.real();
                lib(|| self.uniform(x));
                t.put(key, V::Real(x));
            }
            _ => {
                let plan = items_plan!(t, real);
                t.sh.open(key, false);
                let mut a = lib(|| self.individual());
                typed_items!(t, a, real, plan);
                t.end(a);
                t.sh.close();
            }
        }
    }
}

impl Drive for Destination<'_> {
    const DICT: bool = false;
    fn steps(&mut self, _: &mut T<'_>) {}
    fn run(mut self, t: &mut T<'_>, key: &[u8]) {
        t.sh.open(key, false);
        let w = match t.g.draw(4) {
            // The page of another document is given by its number.
            0 => {
                let n = t.nat();
                lib(|| {
                    self.item(n);
                });
                t.puts("", V::Int(n));
                self
            }
            _ => {
                let r = t.r();
                t.puts("", V::Ref(r));
                lib(|| self.page(Ref::new(r)))
            }
        };
        t.between();
        t.sh.claim(w.len(), w.is_empty());
        let x: [f32; 4] = t.reals();
        macro_rules! dest {
            ($name:literal, $n:expr, $call:expr) => {{
                t.puts("", nm($name));
                for v in &x[..$n] {
                    t.puts("", V::Real(*v));
                }
                lib(|| $call);
            }};
        }
        match t.g.draw(9) {
            0 => dest!("Fit", 0, w.fit()),
            1 => dest!("FitH", 1, w.fit_horizontal(x[0])),
            2 => dest!("FitV", 1, w.fit_vertical(x[0])),
            3 => dest!("FitR", 4, w.fit_rect(pdf_writer::Rect::new(x[0], x[1], x[2], x[3]))),
            4 => dest!("FitB", 0, w.fit_bounding_box()),
            5 => dest!("FitBH", 1, w.fit_bounding_box_horizontal(x[0])),
            6 => dest!("FitBV", 1, w.fit_bounding_box_vertical(x[0])),
            7 => dest!("XYZ", 3, w.xyz(x[0], x[1], Some(x[2]))),
            _ => {
                // No zoom: keep the current one, which zero says too.
                t.puts("", nm("XYZ"));
                t.puts("", V::Real(x[0]));
                t.puts("", V::Real(x[1]));
                t.puts("", V::Real(0.0));
                lib(|| w.xyz(x[0], x[1], None));
            }
        }
        t.sh.close();
    }
}

fn owner(t: &mut T<'_>, iso: bool) -> (AttributeOwner, V) {
    use AttributeOwner as O;
    let all = [
        (O::Layout, "Layout"),
        (O::List, "List"),
        (O::PrintField, "PrintField"),
        (O::Table, "Table"),
        (O::Artifact, "Artifact"),
        (O::Xml, "XML-1.00"),
        (O::Html3_2, "HTML-3.20"),
        (O::Html4, "HTML-4.01"),
        (O::Html5, "HTML-5.00"),
        (O::Oeb, "OEB-1.00"),
        (O::Rtf1_05, "RTF-1.05"),
        (O::Css1, if iso { "CSS-1" } else { "CSS-1.00" }),
        (O::Css2, if iso { "CSS-2" } else { "CSS-2.00" }),
        (O::Css3, "CSS-3"),
        (O::Rdfa1_1, "RDFa-1.10"),
        (O::Aria1_1, "ARIA-1.1"),
        (O::FENote, "FENote"),
        (O::NSO, "NSO"),
        (O::User, "UserProperties"),
    ];
    let (o, n) = *t.g.pick(&all);
    (o, nm(n))
}

impl Drive for Attributes<'_> {
    const DICT: bool = true;
    fn steps(&mut self, t: &mut T<'_>) {
        let w = self;
        let n = 3;
        let mut go = |t: &mut T<'_>, i: usize| {
            match i {
                0 if t.fresh("O") => {
                    let iso = t.bool();
                    let (o, v) = owner(t, iso);
                    lib(|| {
                        w.owner(o, iso);
                    });
                    t.puts("O", v);
                }
                1 if t.fresh("O") && t.fresh("P") => {
                    t.puts("O", nm("UserProperties"));
                    mk!(t, w.user, "P", array_of);
                }
                2 => raw!(dict, w, t),
                CLAIM => t.sh.claim(w.len(), w.is_empty()),
                _ => {}
            };
        };
        t.drive(n, false, &mut go);
    }
    fn run(mut self, t: &mut T<'_>, key: &[u8]) {
        if t.g.draw(3) == 0 {
            t.sh.open(key, true);
            self.steps(t);
            t.end(self);
            t.sh.close();
            return;
        }
        match t.g.draw(7) {
            0 => {
                let w = lib(|| self.layout());
                w.run(t, key)
            }
            1 => {
                let w = lib(|| self.list());
                w.run(t, key)
            }
            2 => {
                let w = lib(|| self.field());
                w.run(t, key)
            }
            3 => {
                let w = lib(|| self.table());
                w.run(t, key)
            }
            4 => {
                let w = lib(|| self.artifact());
                w.run(t, key)
            }
            5 => {
                let w = lib(|| self.note());
                w.run(t, key)
            }
            _ => {
                let r = t.r();
                t.sh.open(key, true);
                t.puts("O", nm("NSO"));
                t.puts("NS", V::Ref(r));
                let mut w = lib(|| self.namespace(Ref::new(r)));
                w.steps(t);
                t.end(w);
                t.sh.close();
            }
        }
    }
}

impl Drive for Namespace<'_> {
    const DICT: bool = true;
    fn steps(&mut self, t: &mut T<'_>) {
        t.puts("Type", nm("Namespace"));
        let w = self;
        let mut go = |t: &mut T<'_>, i: usize| match i {
            0 => m!(t, w.ns, "NS", text),
            1 => m!(t, w.schema, "Schema", nest),
            2 => m!(t, w.role_map_ns, "RoleMapNS", nest),
            3 => raw!(dict, w, t),
            _ => t.sh.claim(w.len(), w.is_empty()),
        };
        t.drive(4, false, &mut go);
    }
    fn run(mut self, t: &mut T<'_>, key: &[u8]) {
        t.sh.open(key, true);
        self.steps(t);
        match if t.fresh("NS") { t.g.draw(5) } else { 0 } {
            0 | 1 => t.end(self),
            2 => {
                t.puts("NS", text_v("http://iso.org/pdf2/ssn"));
                lib(|| self.pdf_2_ns());
            }
            3 => {
                t.puts("NS", text_v("http://iso.org/pdf/ssn"));
                lib(|| self.pdf_1_7_ns());
            }
            _ => {
                t.puts("NS", text_v("http://www.w3.org/1998/Math/MathML"));
                lib(|| self.mathml_3_0_ns());
            }
        }
        t.sh.close();
    }
}

pub const ROOTS: &[Root] = roots! {
    pages page outline outline_item destination destinations struct_element namespace;
    Catalog DocumentInfo StructTreeRoot Names ViewerPreferences MarkInfo PageLabel RoleMap ClassMap NamespaceRoleMap
    MarkedRef ObjectRef StructChildren Attributes UserProperty LayoutAttributes ListAttributes FieldAttributes
    TableAttributes ArtifactAttributes FENoteAttributes TrackSizes DeveloperExtension
};

impl<'a> Drive for TypedDict<'a, Destination<'a>> {
    const DICT: bool = true;
    fn steps(&mut self, t: &mut T<'_>) {
        let w = self;
        dict_of!(t, w);
    }
}
