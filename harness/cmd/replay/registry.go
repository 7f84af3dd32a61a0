// Code generated by mkregistry.sh. DO NOT EDIT.

package main

import "verif/harness/props"

var registry = map[string]func(){
	"C01_far":             props.C01_far,
	"C01_far_position":    props.C01_far_position,
	"C01_kinds":           props.C01_kinds,
	"C01_long_fragment":   props.C01_long_fragment,
	"C01_long_lines":      props.C01_long_lines,
	"C01_long_preimage":   props.C01_long_preimage,
	"C01_many_fragments":  props.C01_many_fragments,
	"C01_many_lines":      props.C01_many_lines,
	"C01_no_fragments":    props.C01_no_fragments,
	"C01_one_fragment":    props.C01_one_fragment,
	"C01_three_fragments": props.C01_three_fragments,
	"C01_two_fragments":   props.C01_two_fragments,
	"C02_binary":          props.C02_binary,
	"C02_fields":          props.C02_fields,
	"C02_lots":            props.C02_lots,
	"C02_many":            props.C02_many,
	"C02_overlap":         props.C02_overlap,
	"C02_readonly":        props.C02_readonly,
	"C02_three":           props.C02_three,
	"C02_two":             props.C02_two,
	"C03_any_stream":      props.C03_any_stream,
	"C03_checksum":        props.C03_checksum,
	"C03_fixed_huffman":   props.C03_fixed_huffman,
	"C03_flipped":         props.C03_flipped,
	"C03_header":          props.C03_header,
	"C03_large":           props.C03_large,
	"C03_size":            props.C03_size,
	"C03_truncated":       props.C03_truncated,
	"C04_big_copy":        props.C04_big_copy,
	"C04_header":          props.C04_header,
	"C04_insert_length":   props.C04_insert_length,
	"C04_long_sizes":      props.C04_long_sizes,
	"C04_many_ops":        props.C04_many_ops,
	"C04_ops":             props.C04_ops,
	"C04_source_size":     props.C04_source_size,
	"C04_stream":          props.C04_stream,
	"C04_two_ops":         props.C04_two_ops,
	"C05_delta_default":   props.C05_delta_default,
	"C05_delta_ops":       props.C05_delta_ops,
	"C05_delta_target":    props.C05_delta_target,
	"C05_literal":         props.C05_literal,
	"C05_literal_default": props.C05_literal_default,
	"C06_body":            props.C06_body,
	"C06_comment":         props.C06_comment,
	"C06_damaged":         props.C06_damaged,
	"C06_detached":        props.C06_detached,
	"C06_header":          props.C06_header,
	"C06_lines":           props.C06_lines,
	"C06_long":            props.C06_long,
	"C06_lots":            props.C06_lots,
	"C06_marker":          props.C06_marker,
	"C06_numbers":         props.C06_numbers,
	"C06_separator":       props.C06_separator,
	"C06_two_fragments":   props.C06_two_fragments,
	"C07_comment":         props.C07_comment,
	"C07_damaged":         props.C07_damaged,
	"C07_headers":         props.C07_headers,
	"C07_lines":           props.C07_lines,
	"C07_lots":            props.C07_lots,
	"C07_marker_like":     props.C07_marker_like,
	"C07_modes":           props.C07_modes,
	"C07_parsed":          props.C07_parsed,
	"C07_pieces":          props.C07_pieces,
	"C07_positions":       props.C07_positions,
	"C07_several":         props.C07_several,
	"C08_escapes":         props.C08_escapes,
	"C08_git":             props.C08_git,
	"C08_long":            props.C08_long,
	"C08_longer":          props.C08_longer,
	"C08_mixed":           props.C08_mixed,
	"C08_roundtrip":       props.C08_roundtrip,
	"C08_separator":       props.C08_separator,
	"C08_special":         props.C08_special,
	"C08_two_names":       props.C08_two_names,
	"C08_written":         props.C08_written,
	"C09_damaged":         props.C09_damaged,
	"C09_data":            props.C09_data,
	"C09_kinds":           props.C09_kinds,
	"C09_long":            props.C09_long,
	"C09_reverse":         props.C09_reverse,
	"C09_sizes":           props.C09_sizes,
	"C10_group":           props.C10_group,
	"C10_keyword":         props.C10_keyword,
	"C10_line":            props.C10_line,
	"C10_lines_together":  props.C10_lines_together,
	"C10_many":            props.C10_many,
	"C10_marker":          props.C10_marker,
	"C10_method":          props.C10_method,
	"C10_no_blank":        props.C10_no_blank,
	"C10_size":            props.C10_size,
	"C10_structure":       props.C10_structure,
	"C11_combined":        props.C11_combined,
	"C11_content":         props.C11_content,
	"C11_index":           props.C11_index,
	"C11_keyword":         props.C11_keyword,
	"C11_late":            props.C11_late,
	"C11_mode":            props.C11_mode,
	"C11_names":           props.C11_names,
	"C11_pairs":           props.C11_pairs,
	"C11_same":            props.C11_same,
	"C11_score":           props.C11_score,
	"C11_unknown":         props.C11_unknown,
	"C12_epoch":           props.C12_epoch,
	"C12_long":            props.C12_long,
	"C12_lookalike":       props.C12_lookalike,
	"C12_names":           props.C12_names,
	"C12_null":            props.C12_null,
	"C12_prefix":          props.C12_prefix,
	"C12_quoted":          props.C12_quoted,
	"C12_short":           props.C12_short,
	"C13_crlf":            props.C13_crlf,
	"C13_damaged":         props.C13_damaged,
	"C13_error":           props.C13_error,
	"C13_long_preamble":   props.C13_long_preamble,
	"C13_lots":            props.C13_lots,
	"C13_preamble":        props.C13_preamble,
	"C13_three":           props.C13_three,
	"C13_two":             props.C13_two,
	"C14_apply_big":       props.C14_apply_big,
	"C14_apply_binary":    props.C14_apply_binary,
	"C14_apply_text":      props.C14_apply_text,
	"C14_damaged":         props.C14_damaged,
	"C14_parse_long":      props.C14_parse_long,
	"C14_parse_longer":    props.C14_parse_longer,
	"C14_parse_pieces":    props.C14_parse_pieces,
	"C14_parse_split":     props.C14_parse_split,
	"C15_appliers":        props.C15_appliers,
	"C15_big":             props.C15_big,
	"C15_destination":     props.C15_destination,
	"C15_parse":           props.C15_parse,
	"C15_parse_completed": props.C15_parse_completed,
	"C15_source":          props.C15_source,
	"C16_apply_file":      props.C16_apply_file,
	"C16_damaged":         props.C16_damaged,
	"C16_damaged_header":  props.C16_damaged_header,
	"C16_date":            props.C16_date,
	"C16_delta":           props.C16_delta,
	"C16_header":          props.C16_header,
	"C16_identity":        props.C16_identity,
	"C16_odd_lines":       props.C16_odd_lines,
	"C16_parse_bytes":     props.C16_parse_bytes,
	"C16_parse_cut":       props.C16_parse_cut,
	"C16_parse_headers":   props.C16_parse_headers,
	"C16_repeat":          props.C16_repeat,
	"C16_string":          props.C16_string,
	"C16_text_fragment":   props.C16_text_fragment,
	"C16_zlib":            props.C16_zlib,
	"C17_binary":          props.C17_binary,
	"C17_failed_close":    props.C17_failed_close,
	"C17_nothing":         props.C17_nothing,
	"C17_text":            props.C17_text,
	"C18_content":         props.C18_content,
	"C18_iff":             props.C18_iff,
	"C18_kinds":           props.C18_kinds,
	"C18_many":            props.C18_many,
	"C18_second":          props.C18_second,
	"C19_binary":          props.C19_binary,
	"C19_far":             props.C19_far,
	"C19_is":              props.C19_is,
	"C19_leftover":        props.C19_leftover,
	"C19_mismatch":        props.C19_mismatch,
	"C19_short":           props.C19_short,
	"C19_text":            props.C19_text,
	"C19_write":           props.C19_write,
	"C20_any":             props.C20_any,
	"C20_forms":           props.C20_forms,
	"C20_inside":          props.C20_inside,
	"C20_long":            props.C20_long,
	"C20_round_trip":      props.C20_round_trip,
	"C20_two":             props.C20_two,
	"C21_fields":          props.C21_fields,
	"C21_indent":          props.C21_indent,
	"C21_lines":           props.C21_lines,
	"C21_long":            props.C21_long,
	"C21_message":         props.C21_message,
	"C21_outside":         props.C21_outside,
	"C21_unknown":         props.C21_unknown,
	"C21_values":          props.C21_values,
	"C22_appendix":        props.C22_appendix,
	"C22_body":            props.C22_body,
	"C22_encoded":         props.C22_encoded,
	"C22_fields":          props.C22_fields,
	"C22_lines":           props.C22_lines,
	"C22_long":            props.C22_long,
	"C22_long_subject":    props.C22_long_subject,
	"C22_prefixes":        props.C22_prefixes,
	"C22_subject":         props.C22_subject,
	"C23_damaged":         props.C23_damaged,
	"C23_days":            props.C23_days,
	"C23_formats":         props.C23_formats,
	"C23_other":           props.C23_other,
	"C23_out":             props.C23_out,
	"C23_parts":           props.C23_parts,
	"C23_raw":             props.C23_raw,
	"C23_unix":            props.C23_unix,
	"C23_zones":           props.C23_zones,
	"C24_concurrent":      props.C24_concurrent,
	"C24_fresh":           props.C24_fresh,
	"C24_history":         props.C24_history,
	"C24_mutated":         props.C24_mutated,
	"C24_reentrant":       props.C24_reentrant,
	"C24_relisted":        props.C24_relisted,
	"C25_binary":          props.C25_binary,
	"C25_body":            props.C25_body,
	"C25_damaged":         props.C25_damaged,
	"C25_fragment":        props.C25_fragment,
	"C25_header":          props.C25_header,
	"C25_kind":            props.C25_kind,
	"C25_late":            props.C25_late,
	"C25_name":            props.C25_name,
	"C26_binary":          props.C26_binary,
	"C26_lines":           props.C26_lines,
	"C26_long":            props.C26_long,
	"C26_long_binary":     props.C26_long_binary,
	"C26_series":          props.C26_series,
	"C26_text":            props.C26_text,
	"C27_binary":          props.C27_binary,
	"C27_delta":           props.C27_delta,
	"C27_fragment":        props.C27_fragment,
	"C27_linear":          props.C27_linear,
	"C27_text":            props.C27_text,
	"C28_long":            props.C28_long,
	"C28_mail":            props.C28_mail,
	"C28_show":            props.C28_show,
}
