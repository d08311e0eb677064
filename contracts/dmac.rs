// Contracts on the derive macros' own parsing code (static-xml-derive/src), as
// `extract macros` rewrites it.
use vstd::prelude::*;
use vstd::utf8::*;

verus! {

//@include std_prelude.rs
//@source mx @macros.rs
//@source lib static-xml/src/lib.rs
//@source de static-xml/src/de/mod.rs

//@item lib struct ExpandedNameRef derive=Copy+Clone needs=Ord+PartialOrd+Eq+PartialEq
//@item de enum WhiteSpace derive=Copy+Clone
//@item mx struct Errors
//@item mx struct TextEnum
//@item mx enum TextEnumMode
//@item mx struct UnionVariant
//@item mx struct TextAttr
//@item mx enum TextMode
//@item mx struct RestrictionVariant
//@item mx enum TextVariantMode
//@item mx struct ElementAttr
//@item mx struct Namespaces needs=Default
//@item mx struct Name
//@item mx struct ElementStruct
//@item mx enum ElementFieldMode derive=Copy+Clone
//@item mx struct ElementField
//@item mx struct ElementEnum
//@item mx struct ElementVariant
//@item mx const STATIC_XML

//@include dmac_model.rs

//@method trim vx_trim name
//@method split_once vx_split_once name
//@method starts_with vx_starts_with name
//@method to_owned vx_to_owned name
//@method to_string vx_to_string name
//@method is_empty vx_is_empty name
//@method as_deref vx_as_deref ref
//@call Namespaces::default vx_default_ns
//@call String::from vx_string_from
//@call std::thread::panicking vx_panicking
//@owner Errors::new

/// The derived `Default`.
#[verifier::external_body]
pub fn vx_default_ns() -> (r: Namespaces)
    ensures r.0@ == Map::<Seq<char>, Seq<char>>::empty()
{ unimplemented!() }

// ------------------------------------------------------------------- the errors
//@impl mx Errors
//@fn mx new props=C18
    ensures r.live(), r.n() == 0,
//@at start
    proof { reveal(Errors::n); reveal(Errors::live); }
//@end
//@fn mx push props=C18
    requires old(self).live()
    ensures final(self).live(), final(self).n() == old(self).n() + 1,
//@at start
    proof { reveal(Errors::n); reveal(Errors::live); }
//@end
//@fn mx take_compile_errors props=C18
//@locals errors vx_made_0 vx_s_0 vx_i_0 vx_x vx_m vx_q_1
    requires old(self).live()
    ensures
        !final(self).live(),
        r.errs() == old(self).n(), //#C18 reports
        forall|k: int| !#[trigger] r.made(k),
//@at start
    proof { reveal(Errors::n); reveal(Errors::live); }
    broadcast use {lemma_errs, lemma_none_made};
    let ghost n0 = self.n();
//@loop 0 kind=while
    invariant
        vx_i_0 <= vx_s_0@.len(), vx_s_0@.len() == n0,
        vx_made_0@.len() == vx_i_0,
        forall|i: int| 0 <= i < vx_i_0 ==> (#[trigger] vx_made_0@[i]).errs() == 1,
        forall|i: int, k: int| 0 <= i < vx_i_0 ==> !#[trigger] vx_made_0@[i].made(k),
    decreases vx_s_0@.len() - vx_i_0
//@end
/// Errors that nobody takes would be lost: that is a panic.
//@fn mx "Drop for Errors::drop" props=C18 rename=vx_drop absent="fn vx_drop(self)" selfval=1
    requires !self.live()
//@at start
    proof { reveal(Errors::live); }
//@end
//@endimpl

// ------------------------------------------------------------------- attributes
//@fn mx get_meta_items props=C18
//@locals errors attrs out vx_s_0 vx_i_0 attr meta other err
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> lists(attrs@, attrs@.len() as int),
        r@ == items_of(attrs@, attrs@.len() as int),
//@loop 0 kind=while
    invariant
        vx_s_0@ == attrs@,
        vx_i_0 <= attrs@.len(),
        errors.live(), errors.n() >= old(errors).n(),
        errors.n() == old(errors).n() <==> lists(attrs@, vx_i_0 as int),
        out@ == items_of(attrs@, vx_i_0 as int),
    decreases attrs@.len() - vx_i_0
//@end
//@fn mx reject_attrs props=C18
//@locals errors attrs vx_s_0 vx_i_0 i
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> lists(attrs@, attrs@.len() as int) && items_of(attrs@, attrs@.len() as int).len() == 0,
//@loop 0 kind=while
    invariant
        vx_s_0@ == items_of(attrs@, attrs@.len() as int),
        vx_i_0 <= vx_s_0@.len(),
        errors.live(), errors.n() >= old(errors).n() + vx_i_0,
        errors.n() == old(errors).n() ==> lists(attrs@, attrs@.len() as int),
        vx_i_0 == 0 && lists(attrs@, attrs@.len() as int) ==> errors.n() == old(errors).n(),
    decreases vx_s_0@.len() - vx_i_0
//@end
//@fn mx reject_field_attrs props=C18
//@locals errors fields vx_s_0 vx_i_0 f
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> nothing_on(fields.items(), fields.items().len() as int),
//@loop 0 kind=while
    invariant
        vx_s_0@ == fields.items(),
        vx_i_0 <= vx_s_0@.len(),
        errors.live(), errors.n() >= old(errors).n(),
        errors.n() == old(errors).n() <==> nothing_on(fields.items(), vx_i_0 as int),
    decreases vx_s_0@.len() - vx_i_0
//@end
//@fn mx set_flag props=C18
//@locals errors path flag
    requires old(errors).live()
    ensures
        *final(flag), final(errors).live(),
        final(errors).n() == (if *old(flag) { old(errors).n() + 1 } else { old(errors).n() }),
//@end

// ------------------------------------------------------------------- names
//@impl mx Name
//@fn mx from_ident props=C18
//@locals ident
    ensures
        *r.ident == *ident, r.local_name@ == bare(ident.text()),
        r.prefix is None, r.namespace is None, !r.renamed,
//@end
//@fn mx rename props=C18
//@locals errors nv s l
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> !old(self).renamed && lit_str(nv.lit) is Some,
        final(errors).n() == old(errors).n() ==> Some(final(self).local_name@) == lit_str(nv.lit),
        final(self).renamed,
        final(self).ident == old(self).ident, final(self).prefix == old(self).prefix, final(self).namespace == old(self).namespace,
//@end
//@fn mx expanded props=C18,C11
    ensures name_of(r) == key_of_name(*self)
//@at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@skip quote_expanded
//@endimpl
//@impl mx Namespaces
//@fn mx add_namespace props=C18
//@locals errors nv s l value prefix_untrimmed url_untrimmed prefix url
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> ns_declare(old(self).0@, lit_str(nv.lit)).1,
        final(errors).n() == old(errors).n() ==> final(self).0@ == ns_declare(old(self).0@, lit_str(nv.lit)).0,
//@end
//@fn mx add_default_namespace props=C18
//@locals errors nv s l
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> ns_default(old(self).0@, lit_str(nv.lit)).1,
        final(errors).n() == old(errors).n() ==> final(self).0@ == ns_default(old(self).0@, lit_str(nv.lit)).0,
//@end
//@fn mx add_internal props=C18
//@locals errors nv prefix url_untrimmed url e e
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> ns_put(old(self).0@, prefix@, trimmed(url_untrimmed@)).1,
        final(self).0@ == ns_put(old(self).0@, prefix@, trimmed(url_untrimmed@)).0,
//@end
//@fn mx process_prefix props=C18
//@locals errors nv name s l prefix prefix old_prefix namespace
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> old(name).prefix is None && (lit_str(nv.lit) matches Some(p) && known(self.0@, trimmed(p))),
        final(errors).n() == old(errors).n() ==> opt(final(name).prefix) == trimmed_opt(lit_str(nv.lit)),
        final(errors).n() == old(errors).n() && old(name).namespace is None ==> opt(final(name).namespace) == namespace_of(self.0@, opt(final(name).prefix)),
        final(name).ident == old(name).ident, final(name).local_name == old(name).local_name, final(name).renamed == old(name).renamed,
//@at start
    proof { lemma_names(); }
//@end
//@endimpl

// ------------------------------------------------------------------- element types
//@impl mx ElementAttr
//@fn mx new props=C18
//@locals errors input name namespaces prefix_nv vx_s_0 vx_i_0 item nv id i nv
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> head_ok(*input),
        final(errors).n() == old(errors).n() ==> {
            &&& r.namespaces.0@ == namespaces(*input)
            &&& name_is(r.name, input.ident, items(input.attrs), items(input.attrs).len() as int, namespaces(*input))
        },
//@at start
    let ghost n0 = errors.n();
    let ghost s = items(input.attrs);
    proof { lemma_names(); }
//@loop 0 kind=while
    invariant
        vx_s_0@ == s, vx_i_0 <= s.len(), s == items(input.attrs), n0 == old(errors).n(),
        errors.live(), errors.n() >= n0,
        errors.n() == n0 <==> all_lists(input.attrs) && head_items(s, vx_i_0 as int),
        *name.ident == input.ident, name.prefix is None, name.namespace is None,
        name.renamed == seen(s, vx_i_0 as int, pair("rename"@)),
        errors.n() == n0 ==> name.local_name@ == (match value(s, vx_i_0 as int, "rename"@) { Some(v) => v, None => bare(input.ident.text()) }),
        errors.n() == n0 ==> namespaces.0@ == ns_of(s, vx_i_0 as int),
        prefix_nv is Some == seen(s, vx_i_0 as int, pair("prefix"@)),
        prefix_at(s, vx_i_0 as int) == (match prefix_nv { Some(nv) => Some(NestedMeta::Meta(Meta::NameValue(nv))), None => None }),
        prefix_nv is None ==> value(s, vx_i_0 as int, "prefix"@) is None,
        errors.n() == n0 ==> (prefix_nv matches Some(nv) ==> value(s, vx_i_0 as int, "prefix"@) == lit_str(nv.lit)),
    decreases s.len() - vx_i_0
//@at loop 0 start
    proof { lemma_names(); }
//@end
//@endimpl
//@impl mx ElementField
//@fn mx new props=C18
//@locals errors outer_attr inner attribute default flatten text ident name vx_s_0 vx_i_0 item p p p p nv path nv path i mode
    requires old(errors).live(), inner.ident is Some
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        r is Err ==> final(errors).n() > old(errors).n(),
        final(errors).n() == old(errors).n() <==> field_ok(*inner, outer_attr.namespaces.0@),
        final(errors).n() == old(errors).n() ==> (r matches Ok(f) && field_is(f, *inner, outer_attr.namespaces.0@)),
//@at start
    let ghost n0 = errors.n();
    let ghost s = items(inner.attrs);
    let ghost ns = outer_attr.namespaces.0@;
    proof { lemma_names(); }
//@loop 0 kind=while
    invariant
        vx_s_0@ == s, vx_i_0 <= s.len(), s == items(inner.attrs), n0 == old(errors).n(), ns == outer_attr.namespaces.0@, inner.ident is Some,
        errors.live(), errors.n() >= n0,
        errors.n() == n0 <==> all_lists(inner.attrs) && field_items(s, vx_i_0 as int, ns),
        *name.ident == inner.ident->0, *ident == inner.ident->0,
        name.renamed == seen(s, vx_i_0 as int, pair("rename"@)),
        attribute == seen(s, vx_i_0 as int, word("attribute"@)),
        default == seen(s, vx_i_0 as int, word("default"@)),
        flatten == seen(s, vx_i_0 as int, word("flatten"@)),
        text == seen(s, vx_i_0 as int, word("text"@)),
        errors.n() == n0 ==> name_is(name, inner.ident->0, s, vx_i_0 as int, ns),
        errors.n() == n0 ==> value(s, vx_i_0 as int, "prefix"@) is Some == seen(s, vx_i_0 as int, pair("prefix"@)),
    decreases s.len() - vx_i_0
//@at loop 0 start
    proof { lemma_names(); }
//@end
//@endimpl

//@impl mx ElementStruct
//@fn mx new props=C18,C11
//@locals errors input struct_ attr fields fields vx_out_0 vx_s_1 vx_i_1 f vx_x sorted_elements sorted_attributes text_field_pos vx_s_2 vx_i_2 i f i vx_k_3 vx_s_4 vx_i_4 p vx_k_5 vx_s_6 vx_i_6 p vx_s_7 vx_i_7 i p vx_s_8 vx_i_8 i p
    requires old(errors).live(), named_ok(struct_.fields)
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        r is Err ==> final(errors).n() > old(errors).n(),
        final(errors).n() == old(errors).n() <==> struct_ok(*input, *struct_), //#C18 reports
        final(errors).n() == old(errors).n() ==> (r matches Ok(e) && struct_is(e, *input, *struct_)),
        r matches Ok(e) ==> no_text_field(e),
//@at start
    let ghost n0 = errors.n();
    let ghost ns = namespaces(*input);
    let ghost fs = struct_.fields.items();
    let ghost hs = head_ok(*input);
    proof { lemma_names(); }
//@loop 0 kind=while
    invariant
        vx_s_1@ == fs, fs == struct_.fields.items(), struct_.fields is Named, vx_i_1 <= fs.len(), n0 == old(errors).n(),
        named_ok(struct_.fields),
        errors.live(), errors.n() >= n0,
        errors.n() == n0 <==> head_ok(*input) && fields_ok(fs, vx_i_1 as int, attr.namespaces.0@),
        head_ok(*input) ==> attr.namespaces.0@ == ns,
        errors.n() == n0 ==> vx_out_0@.len() == vx_i_1 && forall|i: int| 0 <= i < vx_i_1 ==> field_is(#[trigger] vx_out_0@[i], fs[i], ns),
    decreases fs.len() - vx_i_1
//@loop 1 kind=while
    invariant
        vx_s_2@ == fields@, vx_i_2 <= fields@.len(),
        n0 == old(errors).n(), errors.live(), errors.n() == n1, n1 >= n0,
        n1 == n0 <==> head_ok(*input) && fields_ok(fs, fs.len() as int, namespaces(*input)),
        sorted_attributes@ == places(fields@, vx_i_2 as int, true),
        sorted_elements@ == places(fields@, vx_i_2 as int, false),
        n1 == n0 ==> fields@.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> field_is(#[trigger] fields@[i], fs[i], namespaces(*input)),
        match text_at(text_field_pos) {
            Some(p) => p < fields@.len() && fields@[p as int].mode is Text && (n1 == n0 ==> says(fs[p as int], "text"@)),
            None => {
                &&& forall|i: int| 0 <= i < vx_i_2 ==> !((#[trigger] fields@[i]).mode is Text)
                &&& n1 == n0 ==> forall|i: int| 0 <= i < vx_i_2 ==> !says(#[trigger] fs[i], "text"@)
            },
        },
        struct_.fields is Named, fs == struct_.fields.items(),
    decreases fields@.len() - vx_i_2
//@loop 2 kind=while
    invariant
        vx_s_4@ == sorted_attributes@, vx_i_4 <= sorted_attributes@.len(),
        sorted_attributes@ == ta, ta == places(f0, f0.len() as int, true), fields@ == f0, f0.len() <= usize::MAX,
        vx_k_3@.len() == vx_i_4,
        forall|i: int| 0 <= i < vx_i_4 ==> (#[trigger] vx_k_3@[i]).key() == key_of_name(f0[ta[i] as int].name),
    decreases sorted_attributes@.len() - vx_i_4
//@loop 3 kind=while
    invariant
        vx_s_6@ == sorted_elements@, vx_i_6 <= sorted_elements@.len(),
        sorted_elements@ == te, te == places(f0, f0.len() as int, false), fields@ == f0, f0.len() <= usize::MAX,
        vx_k_5@.len() == vx_i_6,
        forall|i: int| 0 <= i < vx_i_6 ==> (#[trigger] vx_k_5@[i]).key() == key_of_name(f0[te[i] as int].name),
    decreases sorted_elements@.len() - vx_i_6
//@loop 4 kind=while
    invariant
        vx_s_7@ == sorted_attributes@, vx_i_7 <= sorted_attributes@.len(),
        table_is(f0, sorted_attributes@, true),
        same_but_places(fields@, f0),
        forall|i: int| 0 <= i < vx_i_7 ==> fields@[(#[trigger] sorted_attributes@[i]) as int].mode == (ElementFieldMode::Attribute { sorted_attributes_pos: i as usize }),
    decreases sorted_attributes@.len() - vx_i_7
//@loop 5 kind=while
    invariant
        vx_s_8@ == sorted_elements@, vx_i_8 <= sorted_elements@.len(),
        table_is(f0, sorted_attributes@, true), table_is(f0, sorted_elements@, false),
        same_but_places(fields@, f0),
        forall|i: int| 0 <= i < sorted_attributes@.len() ==> fields@[(#[trigger] sorted_attributes@[i]) as int].mode == (ElementFieldMode::Attribute { sorted_attributes_pos: i as usize }),
        forall|i: int| 0 <= i < vx_i_8 ==> fields@[(#[trigger] sorted_elements@[i]) as int].mode == (ElementFieldMode::Element { sorted_elements_pos: i as usize }),
    decreases sorted_elements@.len() - vx_i_8
//@at loop 1 start
    proof { lemma_no_text(fs, fs.len() as int); if n1 == n0 { assert(field_is(fields@[vx_i_2 as int], fs[vx_i_2 as int], namespaces(*input))); } }
//@at loop 2 start
    proof { lemma_places(f0, f0.len() as int, true); }
//@at loop 3 start
    proof { lemma_places(f0, f0.len() as int, false); }
//@at before loop 1
    let ghost n1 = errors.n();
    let ghost f0 = fields@;
    assert(f0.len() == fields.len());
    proof { lemma_no_text(fs, fs.len() as int); }
//@at before loop 2
    let ghost ta = sorted_attributes@;
//@at after call vx_sort#0
    proof { lemma_sorted(f0, ta, vx_k_3@, sorted_attributes@, true); }
//@at before loop 3
    let ghost te = sorted_elements@;
//@at after call vx_sort#1
    proof { lemma_sorted(f0, te, vx_k_5@, sorted_elements@, false); }
//@end
//@endimpl

//@fn mx single_unnamed_field props=C18
//@locals fields f
    ensures match r { Some(f) => one_unnamed(*fields) && *f == fields->Unnamed_0.unnamed@[0], None => !one_unnamed(*fields) }
//@end
//@fn mx optional_unnamed_field props=C18
//@locals errors ident fields f
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> one_or_none(*fields),
        match r {
            Ok(Some(f)) => one_unnamed(*fields) && *f == fields->Unnamed_0.unnamed@[0],
            Ok(None) => *fields is Unit,
            Err(_) => !one_or_none(*fields),
        },
//@end
//@impl mx ElementEnum
//@fn mx new props=C18,C11
//@locals errors input enum_ attr has_skipped_variants variants vx_out_0 vx_s_2 vx_i_2 v name skip vx_s_1 vx_i_1 item nv path nv path p i ty vx_v f vx_x vx_k_3 vx_s_4 vx_i_4 a
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> enum_ok(*input, *enum_), //#C18 reports
        final(errors).n() == old(errors).n() ==> enum_is(r, *input, *enum_),
//@at start
    let ghost n0 = errors.n();
    let ghost vs = enum_.variants@;
    proof { lemma_names(); }
//@loop 0 kind=while
    invariant
        vx_s_2@ == vs, vs == enum_.variants@, vx_i_2 <= vs.len(), n0 == old(errors).n(),
        errors.live(), errors.n() >= n0,
        errors.n() == n0 <==> head_ok(*input) && variants_ok(vs, vx_i_2 as int, attr.namespaces.0@),
        head_ok(*input) ==> attr.namespaces.0@ == namespaces(*input),
        has_skipped_variants == any_skipped(vs, vx_i_2 as int),
        errors.n() == n0 ==> kept_are(vx_out_0@, vs, vx_i_2 as int, attr.namespaces.0@),
    decreases vs.len() - vx_i_2
//@loop 1 kind=while
    invariant
        vx_s_1@ == s, vx_i_1 <= s.len(), s == items(v.attrs), ns == attr.namespaces.0@,
        errors.live(), errors.n() >= n1,
        errors.n() == n1 <==> all_lists(v.attrs) && variant_items(s, vx_i_1 as int, ns),
        *name.ident == v.ident,
        name.renamed == seen(s, vx_i_1 as int, pair("rename"@)),
        skip == seen(s, vx_i_1 as int, word("skip"@)),
        errors.n() == n1 ==> name_is(name, v.ident, s, vx_i_1 as int, ns),
        errors.n() == n1 ==> value(s, vx_i_1 as int, "prefix"@) is Some == seen(s, vx_i_1 as int, pair("prefix"@)),
    decreases s.len() - vx_i_1
//@at loop 0 start
    let ghost n1 = errors.n();
    let ghost ns = attr.namespaces.0@;
    let ghost s = items(vs[vx_i_2 as int].attrs);
    proof { lemma_names(); }
//@at loop 1 start
    proof { lemma_names(); }
//@closure 0
    -> (t: &Type) ensures *t == $0.ty
//@loop 2 kind=while
    invariant
        vx_s_4@ == variants@, vx_i_4 <= variants@.len(),
        vx_k_3@.len() == vx_i_4,
        forall|i: int| 0 <= i < vx_i_4 ==> (#[trigger] vx_k_3@[i]).key() == key_of_name(variants@[i].name),
    decreases variants@.len() - vx_i_4
//@at before loop 2
    let ghost v0 = variants@;
//@at after call vx_sort#0
    proof { if errors.n() == n0 { lemma_variants(v0, vx_k_3@, variants@, vs, attr.namespaces.0@); } }
//@end
//@endimpl

// ------------------------------------------------------------------- text types
//@fn mx set_whitespace props=C18
//@locals errors whitespace name_value s l
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> *old(whitespace) is None && (lit_str(name_value.lit) matches Some(v) && whitespace_of(v) is Some),
        final(errors).n() == old(errors).n() ==> *final(whitespace) == whitespace_of(lit_str(name_value.lit)->0),
        *old(whitespace) is Some ==> *final(whitespace) == *old(whitespace),
//@at start
    broadcast use axiom_str_inj;
    proof { lemma_names(); }
//@end
//@impl mx TextAttr
//@fn mx new props=C18
//@locals errors input whitespace mode vx_s_0 vx_i_0 item nv path nv path s l i s e vx_s_1 vx_i_1 v u vx_s_2 vx_i_2 f
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> text_head_ok(*input),
        final(errors).n() == old(errors).n() ==> text_attr_is(r, *input),
//@at start
    broadcast use axiom_str_inj;
    let ghost n0 = errors.n();
    let ghost s = items(input.attrs);
    proof { lemma_names(); }
//@loop 0 kind=while
    invariant
        vx_s_0@ == s, vx_i_0 <= s.len(), s == items(input.attrs), n0 == old(errors).n(),
        errors.live(), errors.n() >= n0,
        errors.n() == n0 <==> all_lists(input.attrs) && text_items(s, vx_i_0 as int),
        errors.n() == n0 ==> mode is Some == seen(s, vx_i_0 as int, pair("mode"@)),
        errors.n() == n0 ==> whitespace is Some == seen(s, vx_i_0 as int, pair("whitespace"@)),
        errors.n() == n0 ==> mode == said_mode(s, vx_i_0 as int),
        errors.n() == n0 ==> whitespace == said_whitespace(s, vx_i_0 as int),
    decreases s.len() - vx_i_0
//@at loop 0 start
    broadcast use axiom_str_inj;
    proof { lemma_names(); }
//@loop 1 kind=while
    invariant
        vx_s_1@ == e.variants@, vx_i_1 <= e.variants@.len(),
        errors.live(), errors.n() >= n0,
        errors.n() == n0 <==> all_lists(input.attrs) && text_items(s, s.len() as int) && nothing_in(e.variants@, vx_i_1 as int),
    decreases e.variants@.len() - vx_i_1
//@loop 2 kind=while
    invariant
        vx_s_2@ == u.fields.named@, vx_i_2 <= u.fields.named@.len(),
        errors.live(), errors.n() >= n0,
        errors.n() == n0 <==> all_lists(input.attrs) && text_items(s, s.len() as int) && nothing_on(u.fields.named@, vx_i_2 as int),
    decreases u.fields.named@.len() - vx_i_2
//@end
//@endimpl
//@impl mx TextEnum
//@fn mx new props=C18
//@locals errors input attr enum_ mode
    requires old(errors).live(), attr.mode matches Some(m) && !(m is Std)
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> text_body_ok(attr.mode->0, *enum_),
        final(errors).n() == old(errors).n() ==> *r.input == *input && r.whitespace == attr.whitespace && text_mode_is(r.mode, attr.mode->0, *enum_),
//@end
//@fn mx parse_restriction_fields props=C18
//@locals errors enum_ unknown_variant variants vx_out_0 vx_s_2 vx_i_2 i v text unknown vx_s_1 vx_i_1 item p nv path s l i mode vx_v
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> text_body_ok(TextMode::Restriction, *enum_),
        final(errors).n() == old(errors).n() ==> text_mode_is(r, TextMode::Restriction, *enum_),
//@at start
    let ghost n0 = errors.n();
    let ghost vs = enum_.variants@;
    proof { lemma_names(); }
//@loop 0 kind=while
    invariant
        vx_s_2@ == vs, vs == enum_.variants@, vx_i_2 <= vs.len(), n0 == old(errors).n(),
        errors.live(), errors.n() >= n0,
        errors.n() == n0 <==> choices_ok(vs, vx_i_2 as int),
        unknown_variant is Some == unknown_at(vs, vx_i_2 as int) is Some,
        errors.n() == n0 ==> unknown_variant == unknown_at(vs, vx_i_2 as int),
        vx_out_0@.len() == vx_i_2,
        errors.n() == n0 ==> forall|i: int| 0 <= i < vx_i_2 ==> choice_is(#[trigger] vx_out_0@[i], vs[i]),
    decreases vs.len() - vx_i_2
//@at loop 0 start
    let ghost n1 = errors.n();
    let ghost s = items(vs[vx_i_2 as int].attrs);
    proof { lemma_names(); }
//@loop 1 kind=while
    invariant
        vx_s_1@ == s, vx_i_1 <= s.len(), s == items(v.attrs),
        errors.live(), errors.n() >= n1,
        errors.n() == n1 <==> all_lists(v.attrs) && choice_items(s, vx_i_1 as int),
        unknown == seen(s, vx_i_1 as int, word("unknown"@)),
        errors.n() == n1 ==> text is Some == seen(s, vx_i_1 as int, pair("rename"@)),
        errors.n() == n1 ==> opt(text) == value(s, vx_i_1 as int, "rename"@),
    decreases s.len() - vx_i_1
//@at loop 1 start
    proof { lemma_names(); }
//@end
//@fn mx parse_union_fields props=C18
//@locals errors enum_ variants vx_out_0 vx_s_1 vx_i_1 v vx_x f
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> text_body_ok(TextMode::Union, *enum_),
        final(errors).n() == old(errors).n() ==> text_mode_is(r, TextMode::Union, *enum_),
//@at start
    let ghost n0 = errors.n();
    let ghost vs = enum_.variants@;
//@loop 0 kind=while
    invariant
        vx_s_1@ == vs, vs == enum_.variants@, vx_i_1 <= vs.len(), n0 == old(errors).n(),
        errors.live(), errors.n() >= n0,
        errors.n() == n0 <==> members_ok(vs, vx_i_1 as int),
        errors.n() == n0 ==> vx_out_0@.len() == vx_i_1 && forall|i: int| 0 <= i < vx_i_1 ==> member_is(#[trigger] vx_out_0@[i], vs[i]),
    decreases vs.len() - vx_i_1
//@end
//@endimpl

// ------------------------------------------------------------------- the four macros
//@fn mx parse_derive props=C18
//@locals errors input attr data
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> text_ok(input),
        final(errors).n() == old(errors).n() ==> r is Ok,
        r matches Ok(t) ==> made_only(t, 3),
//@end
//@fn mx to_text_derive props=C18
//@locals errors input attr data
    requires old(errors).live()
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> text_ok(input),
        final(errors).n() == old(errors).n() ==> r is Ok,
        r matches Ok(t) ==> made_only(t, 4),
//@end
//@fn mx deserialize_derive props=C18
//@locals errors input data data s
    requires old(errors).live(), parsed(input)
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> element_ok(input),
        final(errors).n() == old(errors).n() ==> r is Ok,
        r matches Ok(t) ==> made_only(t, 1),
//@closure 0
    -> (r: TokenStream) requires no_text_field($0) ensures made_only(r, 1)
//@end
//@fn mx serialize_derive props=C18
//@locals errors input data data s
    requires old(errors).live(), parsed(input)
    ensures
        final(errors).live(), final(errors).n() >= old(errors).n(),
        final(errors).n() == old(errors).n() <==> element_ok(input),
        final(errors).n() == old(errors).n() ==> r is Ok,
        r matches Ok(t) ==> made_only(t, 2),
//@closure 0
    -> (r: TokenStream) requires no_text_field($0) ensures made_only(r, 2)
//@end

// ------------------------------------------------------------------- the entry points
//@fn mx derive_deserialize props=C18
//@locals input vx_errors out errors vx_q_0
    ensures
        declared_by(input) matches Ok(d) ==> (r.errs() == 0 <==> element_ok(d)), //#C18 reports
        declared_by(input) matches Ok(d) ==> element_ok(d) ==> r.made(1),
        declared_by(input) is Err ==> r.errs() > 0,
        forall|k: int| #[trigger] r.made(k) ==> k == 1,
//@end
//@fn mx derive_serialize props=C18
//@locals input vx_errors out errors vx_q_0
    ensures
        declared_by(input) matches Ok(d) ==> (r.errs() == 0 <==> element_ok(d)), //#C18 reports
        declared_by(input) matches Ok(d) ==> element_ok(d) ==> r.made(2),
        declared_by(input) is Err ==> r.errs() > 0,
        forall|k: int| #[trigger] r.made(k) ==> k == 2,
//@end
//@fn mx derive_parse_text props=C18
//@locals input vx_errors out errors vx_q_0
    ensures
        declared_by(input) matches Ok(d) ==> (r.errs() == 0 <==> text_ok(d)), //#C18 reports
        declared_by(input) matches Ok(d) ==> text_ok(d) ==> r.made(3),
        declared_by(input) is Err ==> r.errs() > 0,
        forall|k: int| #[trigger] r.made(k) ==> k == 3,
//@end
//@fn mx derive_to_text props=C18
//@locals input vx_errors out errors vx_q_0
    ensures
        declared_by(input) matches Ok(d) ==> (r.errs() == 0 <==> text_ok(d)), //#C18 reports
        declared_by(input) matches Ok(d) ==> text_ok(d) ==> r.made(4),
        declared_by(input) is Err ==> r.errs() > 0,
        forall|k: int| #[trigger] r.made(k) ==> k == 4,
//@end
}
fn main() {}
