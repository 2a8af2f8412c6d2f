//! The table of entry points: property, tier ("q" quick, "t" thorough only),
//! and the labels every run on the unchanged tree must reach.
pub struct Entry {
    pub name: &'static str,
    pub prop: &'static str,
    pub tier: &'static str,
    pub reach: &'static [&'static str],
    pub about: &'static str,
    pub f: extern "C" fn(),
}
/// entry!(name, "C01", "q", ["label"], "what it covers", { body });
#[macro_export]
macro_rules! entries {
    ($( $name:ident $prop:literal $tier:literal [$($r:literal),*] $about:literal $body:block )*) => {
        $( #[no_mangle] pub extern "C" fn $name() $body )*
        pub static TABLE: &[$crate::Entry] = &[
            $( $crate::Entry { name: stringify!($name), prop: $prop, tier: $tier, reach: &[$($r),*], about: $about, f: $name } ),*
        ];
    };
}
pub fn entries() -> Vec<&'static Entry> {
    let mut v: Vec<&'static Entry> = vec![];
    v.extend(crate::p_arr::TABLE);
    v.extend(crate::p_err::TABLE);
    v.extend(crate::p_ast::TABLE);
    v.extend(crate::p_msg::TABLE);
    v.extend(crate::p_ivt::TABLE);
    v.extend(crate::p_hand::TABLE);
    v.extend(crate::p_size::TABLE);
    v.extend(crate::p_api::TABLE);
    v.extend(crate::p_name::TABLE);
    v.extend(crate::p_choice::TABLE);
    v.extend(crate::p_map::TABLE);
    v.extend(crate::p_lit::TABLE);
    v.extend(crate::p_data::TABLE);
    v.extend(crate::p_regex::TABLE);
    v.extend(crate::p_layout::TABLE);
    v.extend(crate::p_text::TABLE);
    v.extend(crate::p_parse::TABLE);
    v.extend(crate::p_scalar::TABLE);
    v
}
