macro_rules! table {
    ($($f:tt $m:ident { $($n:ident),* $(,)? })*) => {
        $(#[cfg(feature = $f)] mod $m;)*
        #[cfg(feature = "ir")]
        mod ir_entries {
            $($(
                #[cfg(feature = $f)]
                #[no_mangle]
                pub extern "C" fn $n(a: usize, b: usize, c: usize, d: usize) { super::$m::$n(a, b, c, d) }
            )*)*
        }
        #[allow(dead_code)]
        pub fn lookup(n: &str) -> Option<fn(usize, usize, usize, usize)> {
            $($( #[cfg(feature = $f)] if n == stringify!($n) { return Some($m::$n); } )*)*
            None
        }
    };
}
table! {
    "c01" h01 { h01_chunk, h01_raw, h01_body, h01_two, h01_second, h01_names, h01_mut, h01_many }
    "c02" h02 { h02_header, h02_short }
    "c03" h03 { h03_any, h03_surplus, h03_big, h03_counts }
    "c04" h04 { h04_any, h04_name }
    "c05" h05 { h05_any, h05_big }
    "c06" h06 { h06_tags_any, h06_tags_many, h06_slice_any, h06_slice_many }
    "c07" h07 { h07_any, h07_many, h07_old_any, h07_old_many }
    "c08" h08 { h08_any, h08_value, h08_type, h08_vec, h08_big, h08_long, h08_text }
    "c09" h09 { h09_any, h09_long }
    "c10" h10 { h10_depth, h10_layer, h10_cel, h10_misc, h10_chunk }
    "c11" h11 { h11_mix, h11_index, h11_transparent, h11_none }
    "c12" h12 { h12_cels, h12_seq, h12_many }
    "c13" h13 { h13_seq, h13_pairs, h13_content, h13_many }
    "c14" h14 { h14_links, h14_layers, h14_kinds, h14_tags, h14_many }
    "c16" h16 { h16_sizes, h16_stored, h16_damage, h16_any, h16_depth, h16_large, h16_rle, h16_header, h16_direct }
    "c17" h17 { h17_any, h17_big, h17_frames, h17_short }
    "c18" h18 { h18_layers, h18_tree, h18_deep, h18_many, h18_names }
    "c19" h19 { h19_order, h19_many, h19_opacity, h19_two, h19_linked }
    "c22" h22 { h22_layer, h22_cel, h22_seq, h22_large, h22_mut }
    "c23" h23 { h23_layers, h23_cel, h23_equal, h23_differ, h23_fields, h23_order }
    "c24" h24 { h24_levels, h24_deep, h24_any }
    "c25" h25 { h25_reserved, h25_unknown, h25_surplus, h25_count }
    "c26" h26 { h26_any, h26_again }
    "c20" h20 { h20_mode, h20_hsl, h20_pair, h20_alpha }
    "c15" h15 { h15_pixels, h15_index, h15_large, h15_rle }
}
