package h

import "verif/harness/sym"

// ---- harnesses that decide more than one property

// C01: nothing panics in what the other harnesses decode
func H_C01_edited()    { sym.Mute(); H_C02_edited() }
func H_C01_two()       { sym.Mute(); H_C02_two() }
func H_C01_lengths()   { sym.Mute(); H_C02_lengths() }
func H_C01_longlen()   { sym.Mute(); H_C02_longlen() }
func H_C01_over()      { sym.Mute(); H_C03_over() }
func H_C01_quoted()    { sym.Mute(); H_C13_ints() }
func H_C01_qbool()     { sym.Mute(); H_C13_bool() }
func H_C01_qfloat()    { sym.Mute(); H_C13_float() }
func H_C01_skip()      { sym.Mute(); H_C06_skip() }
func H_C01_surplus()   { sym.Mute(); H_C07_surplus() }
func H_C01_listkeys()  { sym.Mute(); H_C07_keys() }
func H_C01_mapkeys()   { sym.Mute(); H_C08_keys() }
func H_C01_null()      { sym.Mute(); H_C08_null() }
func H_C01_nulls()     { sym.Mute(); H_C09_containers() }
func H_C01_damaged()   { sym.Mute(); H_C15_damaged() }
func H_C01_raw()       { sym.Mute(); H_C15_iface() }
func H_C01_towers()    { sym.Mute(); H_C17_towers() }
func H_C01_recursive() { sym.Mute(); H_C22_mixed() }
func H_C01_counts()    { sym.Mute(); H_C23_counts() }
func H_C01_types()     { sym.Mute(); H_C24_types() }
func H_C01_elements()  { sym.Mute(); H_C24_elements() }
func H_C01_unsup()     { sym.Mute(); H_C24_unsupported() }
func H_C01_dests()     { sym.Mute(); H_C24_destinations() }
func H_C01_floats()    { sym.Mute(); H_C26_broken() }
func H_C01_objects()   { sym.Mute(); H_C27_broken() }

// C02
func H_C02_objects() { H_C27_broken() }
func H_C02_raw()     { H_C15_damaged() }
func H_C02_floats()  { H_C26_broken() }

// C03: matching destinations
func H_C03_any()     { H_C05_container() }
func H_C03_nested()  { H_C05_nested() }
func H_C03_fields()  { H_C06_entries() }
func H_C03_skip()    { H_C06_skip() }
func H_C03_structs() { H_C06_nested() }
func H_C03_slices()  { H_C07_slice() }
func H_C03_arrays()  { H_C07_array() }
func H_C03_maps()    { H_C08_values() }
func H_C03_keys()    { H_C08_strings() }
func H_C03_classes() { H_C27_names() }
func H_C03_rec()     { H_C22_types() }

// C04
func H_C04_quotedtext() { H_C13_ints() }

// C10: canonical text
func H_C10_structs()   { H_C12_order() }
func H_C10_omit()      { H_C12_omit() }
func H_C10_tags()      { H_C12_tags() }
func H_C10_structsin() { H_C12_nested() }
func H_C10_inany()     { H_C21_any() }
func H_C10_rec()       { H_C22_types() }

// C11
func H_C11_rec() { H_C22_types() }

// C13
func H_C13_quoted()    { H_C04_quoted() }
func H_C13_null()      { H_C09_quoted() }
func H_C13_floattext() { H_C26_quoted() }

// C24
func H_C24_quoted() { H_C13_types() }
func H_C24_keys()   { H_C05_keys() }
func H_C24_lists()  { H_C27_lists() }
func H_C24_index()  { H_C07_keys() }

// C26
func H_C26_options() { H_C13_floats() }
