//! What a reader interacts with: annotations, appearances, forms, signatures, actions, renditions, transitions and
//! files.

use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::{Ref, TextStr};

use super::*;
use crate::plan::{run_many, SimIter};
use crate::with_prim;

impl Drive for Annotation<'_> {
    const DICT: bool = true;
    fn steps(&mut self, t: &mut T<'_>) {
        t.puts("Type", nm("Annot"));
        annotation_steps(self, t)
    }
}
steps_fn! { annotation_steps: Annotation<'_>, w, t; dict;
    m!(t, w.subtype, "Subtype", annotation_type());
    m!(t, w.rect, "Rect", rect);
    m!(t, w.contents, "Contents", tlike);
    m!(t, w.page, "P", ref);
    m!(t, w.name, "NM", tlike);
    m!(t, w.modified, "M", date);
    m!(t, w.flags, "F", annotation_flags());
    m!(t, w.appearance, "AP", nest);
    m!(t, w.appearance_state, "AS", name);
    if t.fresh("Border") {
        let x: [f32; 3] = t.reals();
        let n = t.count();
        let d: Vec<f32> = (0..n).map(|_| t.real()).collect();
        let dash = t.bool();
        lib(|| { w.border(x[0], x[1], x[2], dash.then_some(&d)); });
        let mut e = x.map(V::Real).to_vec();
        if dash {
            e.push(reals_v(&d));
        }
        t.puts("Border", arr(e));
    };
    m!(t, w.border_style, "BS", nest);
    m!(t, w.color_transparent, "C", args 0);
    m!(t, w.color_gray, "C", real_in_array);
    m!(t, w.color_rgb, "C", args 3);
    m!(t, w.color_cmyk, "C", args 4);
    m!(t, w.struct_parent, "StructParent", int);
    m!(t, w.action, "A", nest);
    m!(t, w.additional_actions, "AA", nest);
    m!(t, w.highlight, "H", highlight_effect());
    m!(t, w.author, "T", tlike);
    m!(t, w.subject, "Subj", tlike);
    m!(t, w.quad_points, "QuadPoints", many real);
    if t.fresh("QuadPoints") {
        let [a, b, c, d] = t.reals::<4>();
        lib(|| { w.quad_points(pdf_writer::Rect::new(a, b, c, d).to_quad_points()); });
        t.puts("QuadPoints", reals_v(&[a, b, c, b, c, d, a, d]));
    };
    m!(t, w.line_to, "L", args 4);
    m!(t, w.file_spec, "FS", nest);
    m!(t, w.icon, "Name", annotation_icon());
    m!(t, w.appearance_characteristics, "MK", nest);
    m!(t, w.parent, "Parent", ref);
    m!(t, w.associated_files, "AF", array_of);
}
drive! { AppearanceCharacteristics<'_>, w, t; dict;
    m!(t, w.rotate, "R", int);
    m!(t, w.border_color_transparent, "BC", args 0);
    m!(t, w.border_color_gray, "BC", real_in_array);
    m!(t, w.border_color_rgb, "BC", args 3);
    m!(t, w.border_color_cymk, "BC", args 4);
    m!(t, w.background_color_transparent, "BG", args 0);
    m!(t, w.background_color_gray, "BG", real_in_array);
    m!(t, w.background_color_rgb, "BG", args 3);
    m!(t, w.background_color_cymk, "BG", args 4);
    m!(t, w.normal_caption, "CA", tlike);
    m!(t, w.rollover_caption, "RC", tlike);
    m!(t, w.alternate_caption, "AC", tlike);
    m!(t, w.normal_icon, "I", ref);
    m!(t, w.rollover_icon, "RI", ref);
    m!(t, w.alternate_icon, "IX", ref);
    m!(t, w.icon_fit, "IF", nest);
    m!(t, w.text_position, "TP", text_position());
}
drive! { IconFit<'_>, w, t; dict;
    m!(t, w.scale, "SW", icon_scale());
    m!(t, w.scale_type, "S", icon_scale_type());
    m!(t, w.leftover_space, "A", args 2);
    m!(t, w.fit_bounds, "FB", bool);
}
drive! { Appearance<'_>, w, t; dict;
    m!(t, w.normal, "N", nest);
    m!(t, w.rollover, "R", nest);
    m!(t, w.alternate, "D", nest);
}
impl Drive for AppearanceEntry<'_> {
    const DICT: bool = true;
    fn steps(&mut self, _: &mut T<'_>) {}
    fn run(self, t: &mut T<'_>, key: &[u8]) {
        if t.bool() {
            let r = t.r();
            lib(|| self.stream(Ref::new(r)));
            t.put(key, V::Ref(r));
        } else {
            t.sh.open(key, true);
            let mut d = lib(|| self.streams());
            dict_items!(t, d, ref);
            t.end(d);
            t.sh.close();
        }
    }
}
drive! { BorderStyle<'_>, w, t; dict, "Type" = nm("Border");
    m!(t, w.width, "W", real);
    m!(t, w.style, "S", border_type());
    m!(t, w.dashes, "D", many real);
}
drive! { Form<'_>, w, t; dict;
    m!(t, w.fields, "Fields", many ref);
    m!(t, w.sig_flags, "SigFlags", sig_flags());
    m!(t, w.calculation_order, "CO", many ref);
    m!(t, w.default_resources, "DR", nest);
    m!(t, w.default_appearance, "DA", str);
    m!(t, w.quadding, "Q", quadding());
}
steps_fn! { field_steps: Field<'_>, w, t; dict;
    m!(t, w.field_type, "FT", field_type());
    m!(t, w.parent, "Parent", ref);
    m!(t, w.children, "Kids", many ref);
    m!(t, w.partial_name, "T", text);
    m!(t, w.alternate_name, "TU", tlike);
    m!(t, w.mapping_name, "TM", text);
    m!(t, w.field_flags, "Ff", field_flags());
    m!(t, w.additional_actions, "AA", nest);
    m!(t, w.button_options, "Opt", many text);
    m!(t, w.checkbox_value, "V", check_box_state());
    m!(t, w.checkbox_default_value, "DV", check_box_state());
    m!(t, w.radio_value, "V", name);
    m!(t, w.radio_default_value, "DV", name);
    m!(t, w.text_max_len, "MaxLen", int);
    m!(t, w.text_value, "V", tlike);
    m!(t, w.text_default_value, "DV", tlike);
    m!(t, w.vartext_default_appearance, "DA", str);
    m!(t, w.vartext_quadding, "Q", quadding());
    m!(t, w.vartext_default_style, "DS", text);
    m!(t, w.vartext_rich_value, "RV", tlike);
    m!(t, w.choice_options, "Opt", nest);
    m!(t, w.choice_top_index, "TI", int);
    m!(t, w.choice_indices, "I", many int);
    if t.fresh("V") {
        let v = t.opt(|t| t.text());
        lib(|| { w.choice_value(v.as_deref().map(TextStr)); });
        t.puts("V", v.map_or(V::Null, |s| text_v(&s)));
    };
    m!(t, w.choice_values, "V", many text);
    if t.fresh("DV") {
        let v = t.opt(|t| t.text());
        lib(|| { w.choice_default_value(v.as_deref().map(TextStr)); });
        t.puts("DV", v.map_or(V::Null, |s| text_v(&s)));
    };
    m!(t, w.choice_default_values, "DV", many text);
    m!(t, w.signature_field_lock, "Lock", ref);
    m!(t, w.signature_seed_value, "SV", ref);
}
drive! { ChoiceOptions<'_>, w, t; arr;
    {
        let p = t.tlike();
        tlike!(&p, v => { lib(|| { w.option(v); }); });
        t.put(b"", p.v());
    };
    m!(t, w.options, "", all text);
    {
        let (p, e) = (t.tlike(), t.text());
        tlike!(&p, v => { lib(|| { w.export(v, TextStr(&e)); }); });
        t.put(b"", arr([text_v(&e), p.v()]));
    };
    {
        let m = gen_many!(t, text);
        let es: Vec<String> = (0..m.vals.len()).map(|_| t.text()).collect();
        let m = crate::plan::Many { panic_at: None, ..m };
        let cx = t.cx;
        let it = SimIter::new(cx, &m).map(|i| (elem!(text, &m.vals[i]), TextStr(&es[i])));
        lib(|| { w.exports(it); });
        for (p, e) in m.vals.iter().zip(&es) {
            t.put(b"", arr([text_v(e), p.v()]));
        }
    };
}
drive! { SignatureFieldLock<'_>, w, t; dict, "Type" = nm("SigFieldLock");
    m!(t, w.action, "Action", signature_lock_action());
    m!(t, w.fields, "Fields", many text);
    m!(t, w.access_permissions, "P", access_permissions());
}
drive! { SignatureSeedValue<'_>, w, t; dict, "Type" = nm("SV");
    m!(t, w.constraint_flags, "Ff", seed_value_flags());
    m!(t, w.filter, "Filter", name);
    m!(t, w.sub_filter, "SubFilter", many name);
    m!(t, w.digest_method, "DigestMethod", each digest_method);
    m!(t, w.version, "V", seed_value_parser_version());
    m!(t, w.certificate, "Cert", nest);
    m!(t, w.reasons, "Reasons", many text);
    m!(t, w.modification_detection_prevention, "MDP", nest);
    m!(t, w.timestamp, "TimeStamp", nest);
    m!(t, w.legal_attestation, "LegalAttestation", many text);
    m!(t, w.add_rev_info, "AddRevInfo", bool);
    m!(t, w.lock_document, "LockDocument", locking_intent());
    m!(t, w.appearance_filter, "AppearanceFilter", text);
}
drive! { SignatureModificationDetectionPrevention<'_>, w, t; dict;
    m!(t, w.signature_type, "P", mdp_signature_type());
}
drive! { SignatureTimeStamp<'_>, w, t; dict;
    m!(t, w.url, "URL", str);
    m!(t, w.required, "Ff", bool_int);
}
drive! { CertificateSeedValue<'_>, w, t; dict, "Type" = nm("SVCert");
    m!(t, w.constraint_flags, "Ff", certificate_flags());
    m!(t, w.subject, "Subject", many str);
    m!(t, w.signature_policy_oid, "SignaturePolicyOID", str);
    m!(t, w.signature_policy_hash_value, "SignaturePolicyHashValue", str);
    m!(t, w.signature_policy_hash_algorithm, "SignaturePolicyHashAlgorithm", name);
    m!(t, w.signature_policy_commitment_type, "SignaturePolicyCommitmentType", many str);
    m!(t, w.subject_dn, "SubjectDN", array_of);
    m!(t, w.key_usage, "KeyUsage", each key_usage);
    m!(t, w.issuer, "Issuer", many str);
    m!(t, w.oid, "OID", many str);
    m!(t, w.url, "URL", str);
    m!(t, w.url_type, "URLType", certificate_url_type());
}
drive! { Action<'_>, w, t; dict, "Type" = nm("Action");
    m!(t, w.action_type, "S", action_type());
    m!(t, w.destination, "D", nest);
    m!(t, w.destination_named, "D", name);
    m!(t, w.file_spec, "F", nest);
    m!(t, w.new_window, "NewWindow", bool);
    m!(t, w.uri, "URI", str);
    m!(t, w.is_map, "IsMap", bool);
    m!(t, w.js_string, "JS", text);
    m!(t, w.js_stream, "JS", ref);
    m!(t, w.fields, "Fields", nest);
    m!(t, w.form_flags, "Flags", form_action_flags());
    m!(t, w.operation, "OP", rendition_operation());
    m!(t, w.annotation, "AN", ref);
    m!(t, w.rendition, "R", nest);
}
drive! { Fields<'_>, w, t; arr;
    m!(t, w.id, "", ref);
    m!(t, w.ids, "", all ref);
    m!(t, w.name, "", text);
    m!(t, w.names, "", all text);
}
drive! { AdditionalActions<'_>, w, t; dict;
    m!(t, w.annot_curser_enter, "E", nest);
    m!(t, w.annot_cursor_exit, "X", nest);
    m!(t, w.annot_mouse_press, "D", nest);
    m!(t, w.annot_mouse_release, "U", nest);
    m!(t, w.annot_page_open, "PO", nest);
    m!(t, w.annot_page_close, "PC", nest);
    m!(t, w.annot_page_visible, "PV", nest);
    m!(t, w.annot_page_invisible, "PI", nest);
    m!(t, w.widget_focus, "Fo", nest);
    m!(t, w.widget_focus_loss, "Bl", nest);
    m!(t, w.page_open, "O", nest);
    m!(t, w.page_close, "C", nest);
    m!(t, w.form_calculate_partial, "K", nest);
    m!(t, w.form_format, "F", nest);
    m!(t, w.form_validate, "V", nest);
    m!(t, w.form_calculate, "C", nest);
    m!(t, w.cat_before_close, "WC", nest);
    m!(t, w.cat_before_save, "WS", nest);
    m!(t, w.cat_after_save, "DS", nest);
    m!(t, w.cat_before_print, "WP", nest);
    m!(t, w.cat_after_print, "DP", nest);
}
drive! { Rendition<'_>, w, t; dict, "Type" = nm("Rendition");
    m!(t, w.subtype, "S", rendition_type());
    m!(t, w.name, "N", tlike);
    m!(t, w.media_clip, "C", nest);
    m!(t, w.media_play_params, "P", nest);
}
drive! { MediaClip<'_>, w, t; dict, "Type" = nm("MediaClip");
    m!(t, w.subtype, "S", media_clip_type());
    m!(t, w.name, "N", tlike);
    m!(t, w.data, "D", nest);
    m!(t, w.data_type, "CT", str);
    m!(t, w.permissions, "P", nest);
    m!(t, w.alt_texts, "Alt", many text);
}
drive! { MediaPlayParams<'_>, w, t; dict, "Type" = nm("MediaPlayParams");
    if t.fresh("BE") {
        let c = t.bool();
        lib(|| { w.controls(c); });
        t.puts("BE", dict_v(vec![("C", V::Bool(c))]));
    };
}
drive! { MediaPermissions<'_>, w, t; dict, "Type" = nm("MediaPermissions");
    m!(t, w.temp_file, "TF", temp_file_type());
}
drive! { Transition<'_>, w, t; dict, "Type" = nm("Trans");
    m!(t, w.style, "S", transition_style());
    m!(t, w.duration, "D", real);
    m!(t, w.dimension, "Dm", vertical());
    m!(t, w.direction, "M", outward());
    m!(t, w.angle, "Di", transition_angle());
    m!(t, w.scale, "SS", real);
    m!(t, w.opaque, "B", real);
}
drive! { FileSpec<'_>, w, t; dict, "Type" = nm("Filespec");
    m!(t, w.file_system, "FS", name);
    m!(t, w.path, "F", str);
    m!(t, w.unic_file, "UF", text);
    m!(t, w.volatile, "V", bool);
    m!(t, w.description, "Desc", tlike);
    if t.fresh("EF") {
        let r = t.r();
        lib(|| { w.embedded_file(Ref::new(r)); });
        t.puts("EF", dict_v(vec![("F", V::Ref(r))]));
    };
    if t.fresh("EF") {
        let r = t.r();
        lib(|| { w.embedded_file_with_unicode(Ref::new(r)); });
        t.puts("EF", dict_v(vec![("F", V::Ref(r)), ("UF", V::Ref(r))]));
    };
    m!(t, w.association_kind, "AFRelationship", association_kind());
}
drive! { EmbeddedFile<'_>, w, t; stream;
    m!(t, w.subtype, "Subtype", name);
    m!(t, w.params, "Params", nest);
}
drive! { EmbeddingParams<'_>, w, t; dict;
    m!(t, w.size, "Size", int);
    m!(t, w.creation_date, "CreationDate", date);
    m!(t, w.modification_date, "ModDate", date);
    m!(t, w.checksum, "CheckSum", str);
}
// ---- tables
table! { access_permissions: AccessPermissions; NoChanges => 1, FillAndSign => 2, Annotations => 3; }
table! { action_type: ActionType; GoTo => "GoTo", RemoteGoTo => "GoToR", Launch => "Launch", Uri => "URI", SubmitForm => "SubmitForm", ResetForm => "ResetForm", ImportData => "ImportData", JavaScript => "JavaScript", Rendition => "Rendition"; }
table! { annotation_icon: AnnotationIcon<'static>; Comment => "Comment", Key => "Key", Note => "Note", Help => "Help", NewParagraph => "NewParagraph", Paragraph => "Paragraph", Insert => "Insert", Graph => "Graph", PushPin => "PushPin", Paperclip => "Paperclip", Tag => "Tag"; custom Custom }
table! { annotation_type: AnnotationType; Text => "Text", Link => "Link", Line => "Line", Square => "Square", Circle => "Circle", Highlight => "Highlight", Underline => "Underline", Squiggly => "Squiggly", StrikeOut => "StrikeOut", FileAttachment => "FileAttachment", Widget => "Widget", Screen => "Screen"; }
table! { association_kind: AssociationKind; Source => "Source", Data => "Data", Alternative => "Alternative", Supplement => "Supplement", EncryptedPayload => "EncryptedPayload", FormData => "FormData", Schema => "Schema", Unspecified => "Unspecified"; }
table! { border_type: BorderType; Solid => "S", Dashed => "D", Beveled => "B", Inset => "I", Underline => "U"; }
table! { certificate_url_type: CertificateUrlType<'static>; Browser => "Browser"; custom Custom }
table! { check_box_state: CheckBoxState; Yes => "Yes", Off => "Off"; }
table! { field_type: FieldType; Button => "Btn", Text => "Tx", Choice => "Ch", Signature => "Sig"; }
table! { highlight_effect: HighlightEffect; None => "N", Invert => "I", Outline => "O", Push => "P"; }
table! { icon_scale: IconScale; Always => "A", Bigger => "B", Smaller => "S", Never => "N"; }
table! { icon_scale_type: IconScaleType; Anamorphic => "A", Proportional => "P"; }
table! { locking_intent: LockingIntent; Lock => "true", DoNotLock => "false", Auto => "auto"; }
fn mdp_signature_type(t: &mut T<'_>) -> (MdpSignatureType, V) {
    if t.bool() {
        return (MdpSignatureType::ApprovalSignature, V::Int(0));
    }
    let (p, v) = access_permissions(t);
    (MdpSignatureType::CertificationSignature(p), v)
}
table! { media_clip_type: MediaClipType; Data => "MCD", Section => "MCS"; }
table! { rendition_type: RenditionType; Media => "MR", Selector => "SR"; }
table! { seed_value_parser_version: SeedValueParserVersion; Pdf15 => 1, Pdf17 => 2, Pdf20 => 3; }
table! { signature_lock_action: SignatureLockAction; All => "All", Include => "Include", Exclude => "Exclude"; }
table! { temp_file_type: TempFileType; Never => V::Str("TEMPNEVER".into()), Extract => V::Str("TEMPEXTRACT".into()), Access => V::Str("TEMPACCESS".into()), Always => V::Str("TEMPALWAYS".into()); }
table! { transition_style: TransitionStyle; Split => "Split", Blinds => "Blinds", Box => "Box", Wipe => "Wipe", Dissolve => "Dissolve", Glitter => "Glitter", R => "R", Fly => "Fly", Push => "Push", Cover => "Cover", Uncover => "Uncover", Fade => "Fade"; }

table! { text_position: TextPosition; CaptionOnly => 0, IconOnly => 1, Below => 2, Above => 3, Right => 4, Left => 5, Overlaid => 6; }
table! { quadding: Quadding; Left => 0, Center => 1, Right => 2; }
table! { rendition_operation: RenditionOperation; Play => 0, Stop => 1, Pause => 2, Resume => 3, PlayOrResume => 4; }
table! { transition_angle: TransitionAngle; LeftToRight => 0, BottomToTop => 90, RightToLeft => 180, TopToBottom => 270, TopLeftToBottomRight => 315, None => "None"; }
table! { digest_method: SignatureDigestMethod; SHA1 => "SHA1", SHA256 => "SHA256", SHA384 => "SHA384", SHA512 => "SHA512", RIPEMD160 => "RIPEMD160"; }
flags_table! { annotation_flags: AnnotationFlags; INVISIBLE = 1, HIDDEN = 2, PRINT = 4, NO_ZOOM = 8, NO_ROTATE = 16, NO_VIEW = 32, READ_ONLY = 64, LOCKED = 128, TOGGLE_NO_VIEW = 256, LOCKED_CONTENTS = 512 }
flags_table! { sig_flags: SigFlags; SIGNATURES_EXIST = 1, APPEND_ONLY = 2 }
flags_table! { field_flags: FieldFlags; READ_ONLY = 0x1, REQUIRED = 0x2, NO_EXPORT = 0x4, MULTILINE = 0x1000, PASSWORD = 0x2000, NO_TOGGLE_TO_OFF = 0x4000, RADIO = 0x8000, PUSHBUTTON = 0x10000, COMBO = 0x20000, EDIT = 0x40000, SORT = 0x80000, FILE_SELECT = 0x100000, MULTI_SELECT = 0x200000, DO_NOT_SPELL_CHECK = 0x400000, DO_NOT_SCROLL = 0x800000, COMB = 0x1000000, RADIOS_IN_UNISON = 0x2000000, RICH_TEXT = 0x2000000, COMMIT_ON_SEL_CHANGE = 0x4000000 }
flags_table! { form_action_flags: FormActionFlags; INCLUDE_EXCLUDE = 0x1, INCLUDE_NO_VALUE_FIELDS = 0x2, EXPORT_FORMAT = 0x4, GET_METHOD = 0x8, SUBMIT_COORDINATES = 0x10, XFDF = 0x20, INCLUDE_APPEND_SAVES = 0x40, INCLUDE_ANNOTATIONS = 0x80, SUBMIT_PDF = 0x100, CANONICAL_FORMAT = 0x200, EXCLUDE_NON_USER_ANNOTS = 0x400, EXCLUDE_F_KEY = 0x800, EMBED_FORM = 0x2000 }
flags_table! { seed_value_flags: SignatureSeedValueFlags; FILTER = 1, SUB_FILTER = 2, VERSION = 4, REASONS = 8, LEGAL_ATTESTATION = 16, ADD_REV_INFO = 32, DIGEST_METHOD = 64, LOCK_DOCUMENT = 128, APPEARANCE_FILTER = 256 }
flags_table! { certificate_flags: CertificateSeedValueFlags; SUBJECT = 1, ISSUER = 2, OID = 4, SUBJECT_DN = 8, KEY_USAGE = 32, URL = 64 }
fn vertical(t: &mut T<'_>) -> (bool, V) {
    let b = t.bool();
    (b, nm(if b { "V" } else { "H" }))
}
fn outward(t: &mut T<'_>) -> (bool, V) {
    let b = t.bool();
    (b, nm(if b { "O" } else { "I" }))
}
fn key_usage(t: &mut T<'_>) -> (CertificateKeyUsage, V) {
    let b: [Option<bool>; 9] = std::array::from_fn(|_| t.opt(|t| t.bool()));
    let s: Vec<u8> = b.iter().map(|x| x.map_or(b'X', |y| b'0' + y as u8)).collect();
    let [digital_signature, non_repudiation, key_encipherment, data_encipherment, key_agreement, key_cert_sign, crl_sign, encipher_only, decipher_only] = b;
    let u = CertificateKeyUsage {
        digital_signature,
        non_repudiation,
        key_encipherment,
        data_encipherment,
        key_agreement,
        key_cert_sign,
        crl_sign,
        encipher_only,
        decipher_only,
    };
    (u, V::Str(s))
}

impl Drive for Field<'_> {
    const DICT: bool = true;
    fn steps(&mut self, t: &mut T<'_>) {
        field_steps(self, t)
    }
    fn run(mut self, t: &mut T<'_>, key: &[u8]) {
        t.sh.open(key, true);
        self.steps(t);
        if t.g.draw(3) == 0 && t.fresh("Type") && t.fresh("Subtype") {
            t.puts("Type", nm("Annot"));
            t.puts("Subtype", nm("Widget"));
            let mut a = lib(|| self.into_annotation());
            t.between();
            annotation_steps(&mut a, t);
            t.end(a);
        } else {
            t.end(self);
        }
        t.sh.close();
    }
}

pub const ROOTS: &[Root] = roots! {
    annotation form_field signature_field_lock signature_seed_value file_spec;
    Form Action AdditionalActions Rendition MediaClip MediaPlayParams MediaPermissions Transition EmbeddingParams
    Appearance AppearanceEntry AppearanceCharacteristics IconFit BorderStyle CertificateSeedValue SignatureTimeStamp
    SignatureModificationDetectionPrevention ChoiceOptions Fields
};
