//! The public fields of what the library returns, flattened.

use opentype::layout::{self, class, context, correction, coverage, feature, language, lookup, script};
use opentype::tables::{
    color_palettes as cpal, font_variations as fvar, glyph_definition as gdef,
    glyph_positioning as gpos, glyph_substitution as gsub,
};
use opentype::truetype::tables::names::NameID;
use opentype::truetype::{q32, Tag};
use opentype::variations::item;

pub type Tok = (&'static str, i64);
pub type Toks = Vec<Tok>;

pub trait Dump {
    fn dump(&self, label: &'static str, o: &mut Toks);
}

macro_rules! number(($($t:ty),*) => ($(impl Dump for $t {
    fn dump(&self, label: &'static str, o: &mut Toks) { o.push((label, *self as i64)); }
})*));
number!(u8, i16, u16, u32);

impl Dump for Tag {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        o.push((label, u32::from_be_bytes(self.0) as i64));
    }
}
impl Dump for q32 {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        o.push((label, self.0 as i64));
    }
}
impl Dump for NameID {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        let id: u16 = (*self).into();
        o.push((label, id as i64));
    }
}
impl<T: Dump> Dump for Vec<T> {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        o.push((label, self.len() as i64));
        for v in self {
            v.dump(label, o);
        }
    }
}
impl<T: Dump> Dump for Option<T> {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        match self {
            Some(v) => {
                o.push(("some", 1));
                v.dump(label, o);
            }
            None => o.push(("some", 0)),
        }
    }
}
impl Dump for lookup::Flags {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        o.push((label, self.0 as i64));
        let bits = [
            self.is_right_to_left(),
            self.should_ignore_base_glyphs(),
            self.should_ignore_ligature(),
            self.should_ignore_marks(),
            self.has_mark_filtering(),
            self.is_invalid(),
        ];
        o.push(("bits", bits.iter().enumerate().map(|(i, b)| (*b as i64) << i).sum()));
    }
}
impl Dump for gpos::Flags {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        o.push((label, self.0 as i64));
        let bits = [
            self.has_x_placement(),
            self.has_y_placement(),
            self.has_x_advance(),
            self.has_y_advance(),
            self.has_x_placement_correction(),
            self.has_y_placement_correction(),
            self.has_x_advance_correction(),
            self.has_y_advance_correction(),
            self.is_invalid(),
        ];
        o.push(("bits", bits.iter().enumerate().map(|(i, b)| (*b as i64) << i).sum()));
    }
}
impl Dump for fvar::AxisFlags {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        o.push((label, self.0 as i64));
        o.push(("bits", self.is_hidden() as i64 + 2 * self.is_invalid() as i64));
    }
}
impl Dump for fvar::InstanceFlags {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        o.push((label, self.0 as i64));
    }
}

macro_rules! st(($($t:ty { $($f:ident),* })*) => ($(impl Dump for $t {
    fn dump(&self, _: &'static str, o: &mut Toks) { $(self.$f.dump(stringify!($f), o);)* }
})*));
macro_rules! en(($($t:ty { $($n:literal $v:ident),* })*) => ($(impl Dump for $t {
    fn dump(&self, _: &'static str, o: &mut Toks) {
        #[allow(unreachable_patterns)]
        match self {
            $(Self::$v(v) => { o.push(("variant", $n)); v.dump("variant", o); })*
            _ => o.push(("variant", -1)),
        }
    }
})*));

st! {
    script::Header { tag, offset }
    language::Header { tag, offset }
    language::Record { lookup_order_offset, required_feature_index, feature_index_count, feature_indices }
    feature::Header { tag, offset }
    feature::Record { parameter_offset, lookup_index_count, lookup_indices, parameters }
    feature::Variations { major_version, minor_version, count }
    coverage::Coverage1 { format, glyph_count, glyph_ids }
    coverage::Coverage2 { format, record_count, records }
    coverage::Record { start_glyph_id, end_glyph_id, index }
    class::Class1 { format, start_glyph_id, glyph_count, indices }
    class::Class2 { format, record_count, records }
    class::Record { start_glyph_id, end_glyph_id, index }
    correction::Device { start_size, end_size, format, deltas }
    correction::Variation { outer_index, inner_index, format }
    context::Context1 { format, coverage_offset, record_count, record_offsets, coverage, records }
    context::Context2 { format, coverage_offset, class_offset, record_count, record_offsets, coverage, class, records }
    context::Context3 { format, glyph_count, action_count, coverage_offsets, actions, coverages }
    context::ChainedContext1 { format, coverage_offset, record_count, record_offsets, coverage, records }
    context::ChainedContext2 { format, coverage_offset, backward_class_offset, class_offset, forward_class_offset,
        record_count, record_offsets, coverage, backward_class, class, forward_class, records }
    context::ChainedContext3 { format, backward_glyph_count, backward_coverage_offsets, glyph_count, coverage_offsets,
        forward_glyph_count, forward_coverage_offsets, action_count, actions,
        backward_coverages, coverages, forward_coverages }
    context::Record { glyph_count, action_count, glyph_ids, actions }
    context::Records { count, offsets, records }
    context::ClassRecord { glyph_count, action_count, indices, actions }
    context::ClassRecords { count, offsets, records }
    context::ChainedRecord { backward_glyph_count, backward_glyph_ids, glyph_count, glyph_ids,
        forward_glyph_count, forward_glyph_ids, action_count, actions }
    context::ChainedRecords { count, offsets, records }
    context::ChainedClassRecord { backward_glyph_count, backward_indices, glyph_count, indices,
        forward_glyph_count, forward_indices, action_count, actions }
    context::ChainedClassRecords { count, offsets, records }
    context::Action { position_index, lookup_index }

    gsub::SingleSubstitution1 { format, coverage_offset, delta_glyph_id, coverage }
    gsub::SingleSubstitution2 { format, coverage_offset, glyph_count, glyph_ids, coverage }
    gsub::MultipleSubstitution { format, coverage_offset, record_count, record_offsets, coverage, records }
    gsub::AlternateSubstitution { format, coverage_offset, record_count, record_offsets, coverage, records }
    gsub::LigatureSubstitution { format, coverage_offset, record_count, record_offsets, coverage, records }
    gsub::ExtensionSubstitution { format, r#type, offset }
    gsub::ReverseChainedContextualSubstibution { format, coverage_offset, backward_glyph_count,
        backward_coverage_offsets, forward_glyph_count, forward_coverage_offsets, glyph_count, glyph_ids,
        coverage, backward_coverages, forward_coverages }
    gsub::Sequence { glyph_count, glyph_ids }
    gsub::Alternates { glyph_count, glyph_ids }
    gsub::Ligature { glyph_id, glyph_count, glyph_ids }
    gsub::Ligatures { count, offsets, records }

    gpos::SingleAdjustment1 { format, coverage_offset, value_flags, value, coverage }
    gpos::SingleAdjustment2 { format, coverage_offset, value_flags, value_count, values, coverage }
    gpos::PairAdjustment1 { format, coverage_offset, value1_flags, value2_flags, record_count, record_offsets,
        coverage, records }
    gpos::PairAdjustment2 { format, coverage_offset, value1_flags, value2_flags, class1_offset, class2_offset,
        class1_count, class2_count, records, coverage, class1, class2 }
    gpos::CursiveAttachment { format, coverage_offset, connection_count, connections, coverage }
    gpos::MarkToBaseAttachment { format, mark_coverage_offset, base_coverage_offset, mark_class_count,
        marks_offset, bases_offset, mark_coverage, base_coverage, marks, bases }
    gpos::MarkToLigatureAttachment { format, mark_coverage_offset, ligature_coverage_offset, mark_class_count,
        marks_offset, ligatures_offset, mark_coverage, ligature_coverage, marks, ligatures }
    gpos::MarkToMarkAttachment { format, mark1_coverage_offset, mark2_coverage_offset, mark_class_count,
        mark1s_offset, mark2s_offset, mark1_coverage, mark2_coverage, mark1s, mark2s }
    gpos::ExtensionPositioning { format, r#type, offset }
    gpos::Anchor1 { format, x, y }
    gpos::Anchor2 { format, x, y, index }
    gpos::Anchor3 { format, x, y, x_correction_offset, y_correction_offset, x_correction, y_correction }
    gpos::Base { anchor_offsets, anchors }
    gpos::Bases { count, records }
    gpos::Component { anchor_offsets, anchors }
    gpos::Connection { start_anchor_offset, end_anchor_offset, start_anchor, end_anchor }
    gpos::Ligature { count, components }
    gpos::Ligatures { count, offsets, records }
    gpos::Mark1 { class_id, anchor_offset, anchor }
    gpos::Mark1s { count, records }
    gpos::Mark2 { anchor_offsets, anchors }
    gpos::Mark2s { count, records }
    gpos::Pair1 { glyph2_id, value1, value2 }
    gpos::Pair1s { count, records }
    gpos::Pair2 { value1, value2 }
    gpos::Pair2s { records }
    gpos::Single { x_placement, y_placement, x_advance, y_advance,
        x_placement_correction_offset, y_placement_correction_offset,
        x_advance_correction_offset, y_advance_correction_offset,
        x_placement_correction, y_placement_correction, x_advance_correction, y_advance_correction }

    gdef::GlyphDefinition { header, glyph_class, attachments, ligatures, mark_class, marks, variations }
    gdef::Header1 { major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset, mark_class_offset }
    gdef::Header12 { major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset, mark_class_offset, mark_offset }
    gdef::Header13 { major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset, mark_class_offset, mark_offset, variation_offset }
    gdef::Attachment { index_count, indices }
    gdef::Attachments { coverage_offset, count, offsets, coverage, records }
    gdef::Caret1 { format, coordinate }
    gdef::Caret2 { format, index }
    gdef::Caret3 { format, coordinate, correction_offset, correction }
    gdef::Ligature { caret_count, caret_offsets, carets }
    gdef::Ligatures { coverage_offset, count, offsets, coverage, records }
    gdef::Marks { format, count, coverage_offsets, coverages }

    item::Store { format, region_offset, count, offsets, records }
    item::Record { item_count, short_delta_count, region_count, region_indices, deltas }

    cpal::Header0 { version, entry_count, palette_count, color_count, color_offset, color_indices }
    cpal::Header1 { version, entry_count, palette_count, color_count, color_offset, color_indices }
    cpal::Color { blue, green, red, alpha }

    fvar::FontVariations { header, axis_records, instance_records }
    fvar::Header { major_version, minor_version, axis_offset, reserved, axis_count, axis_size, instance_count, instance_size }
    fvar::AxisRecord { tag, min_value, default_value, max_value, flags, name_id }
    fvar::InstanceRecord { subfamily_name_id, flags, coordinates, postscript_name_id }
}
en! {
    layout::Coverage { 1 Format1, 2 Format2 }
    layout::Class { 1 Format1, 2 Format2 }
    layout::Correction { 1 Device, 2 Variation }
    layout::Context { 1 Format1, 2 Format2, 3 Format3 }
    layout::ChainedContext { 1 Format1, 2 Format2, 3 Format3 }
    gsub::Type { 1 SingleSubstitution, 2 MultipleSubstitution, 3 AlternateSubstitution, 4 LigatureSubstitution,
        5 ContextualSubstitution, 6 ChainedContextualSubstitution, 7 ExtensionSubstitution,
        8 ReverseChainedContextualSubstibution }
    gsub::SingleSubstitution { 1 Format1, 2 Format2 }
    gpos::Type { 1 SingleAdjustment, 2 PairAdjustment, 3 CursiveAttachment, 4 MarkToBaseAttachment,
        5 MarkToLigatureAttachment, 6 MarkToMarkAttachment, 7 ContextualPositioning,
        8 ChainedContextualPositioning, 9 ExtensionPositioning }
    gpos::SingleAdjustment { 1 Format1, 2 Format2 }
    gpos::PairAdjustment { 1 Format1, 2 Format2 }
    gpos::Anchor { 1 Format1, 2 Format2, 3 Format3 }
    gdef::Header { 1 Version1, 2 Version12, 3 Version13 }
    gdef::Caret { 1 Format1, 2 Format2, 3 Format3 }
    cpal::Header { 0 Version0, 1 Version1 }
}

/// Tags to ask for: those stored, their neighbours, and one that is unlikely.
fn queries(tags: &[Tag]) -> Vec<Tag> {
    let mut v = vec![];
    for (i, t) in tags.iter().take(200).enumerate() {
        v.push(Tag(t.0));
        let mut u = t.0;
        u[3] = u[3].wrapping_add(1);
        v.push(Tag(u));
        if i < 20 {
            // In another case, otherwise at the front, otherwise padded.
            v.push(Tag(t.0.map(|b| b ^ 0x20)));
            v.push(Tag([t.0[0] ^ 0x20, t.0[1], t.0[2], t.0[3]]));
            v.push(Tag([t.0[0].wrapping_add(1), t.0[1], t.0[2], t.0[3]]));
            v.push(Tag([t.0[0], t.0[1], t.0[2], if t.0[3] == b' ' { 0 } else { b' ' }]));
        }
    }
    v.push(Tag(*b"zzzz"));
    v
}

/// Ask for records by tag, and say which of those listed it is.
macro_rules! gets(($this:ident, $headers:ident, $records:ident, $named:path, $known:expr, $o:ident) => ({
    let tags: Vec<_> = $this.$headers.iter().map(|h| Tag(h.tag.0)).collect();
    for q in queries(&tags) {
        $o.push(("get", u32::from_be_bytes(q.0) as i64));
        let found = $this.get(Tag(q.0));
        let named = $this.get($named(&q));
        match found {
            Some(r) => {
                $o.push(("some", 1));
                let i = $this.$records.iter().position(|s| std::ptr::eq(s, r));
                $o.push(("found", i.map(|i| i as i64).unwrap_or(-1)));
            }
            None => $o.push(("some", 0)),
        }
        if named.map(|r| r as *const _) != found.map(|r| r as *const _) {
            $o.push(("found under the tag but not under the name", 1));
        }
        for variant in crate::named::of($known, &q.0) {
            if $this.get(variant).map(|r| r as *const _) != found.map(|r| r as *const _) {
                $o.push(("found under the tag but not under the named variant", 1));
            }
        }
    }
}));
impl Dump for layout::Scripts {
    fn dump(&self, _: &'static str, o: &mut Toks) {
        self.count.dump("count", o);
        self.headers.dump("headers", o);
        self.records.dump("records", o);
        gets!(self, headers, records, layout::Script::from_tag, crate::named::SCRIPT, o);
    }
}
impl Dump for script::Record {
    fn dump(&self, _: &'static str, o: &mut Toks) {
        self.default_language_offset.dump("default_language_offset", o);
        self.language_count.dump("language_count", o);
        self.language_headers.dump("language_headers", o);
        self.default_language.dump("default_language", o);
        self.language_records.dump("language_records", o);
        gets!(self, language_headers, language_records, layout::Language::from_tag, crate::named::LANGUAGE, o);
    }
}
impl Dump for layout::Features {
    fn dump(&self, _: &'static str, o: &mut Toks) {
        self.count.dump("count", o);
        self.headers.dump("headers", o);
        self.records.dump("records", o);
        gets!(self, headers, records, layout::Feature::from_tag, crate::named::FEATURE, o);
    }
}
impl Dump for () {
    fn dump(&self, label: &'static str, o: &mut Toks) {
        o.push((label, 0));
    }
}

impl<T: Dump> Dump for lookup::Record<T> {
    fn dump(&self, _: &'static str, o: &mut Toks) {
        self.r#type.dump("type", o);
        self.flags.dump("flags", o);
        self.table_count.dump("table_count", o);
        self.table_offsets.dump("table_offsets", o);
        self.mark_filtering_set.dump("mark_filtering_set", o);
        self.tables.dump("tables", o);
    }
}
impl<T: Dump> Dump for layout::Lookups<T> {
    fn dump(&self, _: &'static str, o: &mut Toks) {
        self.count.dump("count", o);
        self.offsets.dump("offsets", o);
        self.records.dump("records", o);
    }
}
impl<T: Dump> Dump for layout::Directory<T> {
    fn dump(&self, _: &'static str, o: &mut Toks) {
        self.major_version.dump("major_version", o);
        self.minor_version.dump("minor_version", o);
        self.script_offset.dump("script_offset", o);
        self.feature_offset.dump("feature_offset", o);
        self.lookup_offset.dump("lookup_offset", o);
        self.variation_offset.dump("variation_offset", o);
        self.scripts.dump("scripts", o);
        self.features.dump("features", o);
        self.lookups.dump("lookups", o);
        self.variations.dump("variations", o);
    }
}
impl Dump for opentype::tables::ColorPalettes {
    fn dump(&self, _: &'static str, o: &mut Toks) {
        self.header.dump("header", o);
        self.colors.dump("colors", o);
        let mut budget = 200_000usize;
        let mut count = 0;
        for palette in self.iter() {
            let mut n = 0;
            o.push(("palette", count));
            for color in palette {
                color.dump("color", o);
                n += 1;
                budget = budget.saturating_sub(1);
                if budget == 0 {
                    break;
                }
            }
            o.push(("entries", n));
            count += 1;
            if budget == 0 {
                o.push(("cut", 1));
                break;
            }
        }
        o.push(("palettes", count));
    }
}
