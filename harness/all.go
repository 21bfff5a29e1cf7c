// generated by gen.sh

package harness

// All lists the harnesses by name.
var All = map[string]func(){
	"C01_decode":         C01_decode,
	"C01_encode":         C01_encode,
	"C02_constants":      C02_constants,
	"C02_decoded":        C02_decoded,
	"C02_parts":          C02_parts,
	"C02_set":            C02_set,
	"C02_setASCII":       C02_setASCII,
	"C02_words":          C02_words,
	"C03_channel":        C03_channel,
	"C03_create_symhost": C03_create_symhost,
	"C03_logger_symhost": C03_logger_symhost,
	"C03_longApp":        C03_longApp,
	"C03_longHost":       C03_longHost,
	"C03_longMsgid":      C03_longMsgid,
	"C03_longProc":       C03_longProc,
	"C03_setters":        C03_setters,
	"C03_sub":            C03_sub,
	"C03_subLong":        C03_subLong,
	"C03_whole":          C03_whole,
	"C04_error":          C04_error,
	"C04_layout":         C04_layout,
	"C04_setters":        C04_setters,
	"C04_text":           C04_text,
	"C04_textLong":       C04_textLong,
	"C05_any":            C05_any,
	"C05_count":          C05_count,
	"C05_cut":            C05_cut,
	"C05_fields":         C05_fields,
	"C05_frames":         C05_frames,
	"C05_known":          C05_known,
	"C05_prio":           C05_prio,
	"C05_tail":           C05_tail,
	"C05_time":           C05_time,
	"C06_elements":       C06_elements,
	"C06_header":         C06_header,
	"C06_long":           C06_long,
	"C06_prio":           C06_prio,
	"C06_text":           C06_text,
	"C06_value":          C06_value,
	"C07_cut":            C07_cut,
	"C07_element":        C07_element,
	"C07_header":         C07_header,
	"C07_long":           C07_long,
	"C07_second":         C07_second,
	"C07_tail":           C07_tail,
	"C07_text":           C07_text,
	"C07_textAfter":      C07_textAfter,
	"C08_any":            C08_any,
	"C08_count":          C08_count,
	"C08_countLong":      C08_countLong,
	"C08_header":         C08_header,
	"C08_headerHuge":     C08_headerHuge,
	"C08_lf":             C08_lf,
	"C08_partialCount":   C08_partialCount,
	"C08_partialLF":      C08_partialLF,
	"C08_partialZero":    C08_partialZero,
	"C08_zero":           C08_zero,
	"C09_content":        C09_content,
	"C09_cuts":           C09_cuts,
	"C09_each":           C09_each,
	"C09_idle":           C09_idle,
	"C09_large":          C09_large,
	"C09_two":            C09_two,
	"C09_unterminated":   C09_unterminated,
	"C10_accept":         C10_accept,
	"C10_between":        C10_between,
	"C10_counted":        C10_counted,
	"C10_failing":        C10_failing,
	"C10_lf":             C10_lf,
	"C10_unread":         C10_unread,
	"C10_zero":           C10_zero,
	"C11_any":            C11_any,
	"C11_delivered":      C11_delivered,
	"C11_late":           C11_late,
	"C11_none":           C11_none,
	"C11_refused":        C11_refused,
	"C12_channels":       C12_channels,
	"C12_dialed":         C12_dialed,
	"C12_many":           C12_many,
	"C12_refused":        C12_refused,
	"C12_senders":        C12_senders,
	"C12_three":          C12_three,
	"C13_rounds":         C13_rounds,
	"C13_senders":        C13_senders,
	"C14_during":         C14_during,
	"C14_progress":       C14_progress,
	"C14_settled":        C14_settled,
	"C15_again":          C15_again,
	"C15_at_once":        C15_at_once,
	"C15_filter":         C15_filter,
	"C15_sub":            C15_sub,
	"C16_long":           C16_long,
	"C16_sub":            C16_sub,
	"C16_tree":           C16_tree,
	"C17_log":            C17_log,
	"C17_null":           C17_null,
	"C17_std":            C17_std,
	"C17_time":           C17_time,
	"C17_write":          C17_write,
	"C18_fields":         C18_fields,
	"C18_lists":          C18_lists,
	"C18_map":            C18_map,
	"C18_pointers":       C18_pointers,
	"C18_unescape":       C18_unescape,
	"C18_value":          C18_value,
	"C19_marshalsd":      C19_marshalsd,
	"C19_members":        C19_members,
	"C19_roots":          C19_roots,
	"C19_types":          C19_types,
	"C20_bytes":          C20_bytes,
	"C20_param":          C20_param,
	"C20_second":         C20_second,
	"C20_tokens":         C20_tokens,
	"C20_unmarshal":      C20_unmarshal,
	"C20_value":          C20_value,
	"C21_accuracy":       C21_accuracy,
	"C21_any":            C21_any,
	"C21_encode":         C21_encode,
	"C21_first":          C21_first,
	"C21_huge":           C21_huge,
	"C21_order":          C21_order,
	"C21_params":         C21_params,
	"C22_args":           C22_args,
	"C22_list":           C22_list,
	"C22_received":       C22_received,
	"C22_setters":        C22_setters,
	"C22_tree":           C22_tree,
	"C23_delta":          C23_delta,
	"C23_epoch":          C23_epoch,
	"C23_format":         C23_format,
	"C23_now":            C23_now,
	"C23_parse":          C23_parse,
	"C23_stamp":          C23_stamp,
	"C24_dial":           C24_dial,
	"C24_invalid":        C24_invalid,
	"C24_listen":         C24_listen,
	"C24_stale":          C24_stale,
	"C24_stdio":          C24_stdio,
	"C24_tcp":            C24_tcp,
	"C24_tcplisten":      C24_tcplisten,
	"C25_address":        C25_address,
	"C25_again":          C25_again,
	"C25_local":          C25_local,
	"C25_locally":        C25_locally,
	"C25_tcp":            C25_tcp,
	"C25_unresolved":     C25_unresolved,
	"C26_closed":         C26_closed,
	"C26_kept":           C26_kept,
	"C26_large":          C26_large,
	"C26_sizes":          C26_sizes,
	"C27_at_once":        C27_at_once,
	"C27_builtin":        C27_builtin,
	"C27_bytes":          C27_bytes,
	"C27_generic":        C27_generic,
	"C27_history":        C27_history,
	"C27_same_name":      C27_same_name,
	"C28_again":          C28_again,
	"C28_delay":          C28_delay,
	"C28_many":           C28_many,
	"C28_meanwhile":      C28_meanwhile,
	"C28_ticks":          C28_ticks,
}
