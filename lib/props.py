"""The checks: property -> units (proof units first), seconds of executed contracts, notes."""
N = 'Contracts discharged by CBMC on the functions listed in the evidence, for inputs of any length; the whole-API statement is additionally executed on enumerated and random inputs (bounded, never counted as proved). '
PROPS = {
 'C01': dict(units=['leading_nl', 'ending_nl', 'text_scan', 'str_len', 'charclass', 'rt_text'], exec_s=40, note=N),
 'C02': dict(units=['str_len', 'rt_comment'], exec_s=40, note=N),
 'C03': dict(units=['elem_name', 'charclass', 'rt_doc'], exec_s=40, note=N),
 'C04': dict(units=['peek', 'utf8', 'tok_name', 'tok_ws', 'tok_value', 'tot_xmq', 'tot_json'], exec_s=40, note=N),
 'C05': dict(units=['tok_quote', 'tok_comment', 'tok_name', 'tok_ws', 'tok_value', 'peek', 'tok_stream'], exec_s=30, note=N),
 'C06': dict(units=['find_line', 'trim_quote', 'unquote'], exec_s=30, note=N),
 'C07': dict(units=['utf8', 'peek'], exec_s=10, note=N),
 'C13': dict(units=['membuf'], exec_s=10, note=N),
 'C12': dict(units=['xmlcom_esc', 'xmlcom_unesc', 'rt_xmlcom'], exec_s=15, note=N),
 'C15': dict(units=['cat_search', 'cat_tables'], exec_s=8, note=N + 'Table contents are checked exhaustively against Unicode 15. '),
 'C14': dict(units=['coll_vec', 'coll_seq'], exec_s=10, note=N + 'Hash map and stack_rock (linked lists): executed against a reference model only. '),
 'C16': dict(units=['esc_html', 'esc_need', 'rend_doc', 'rend_tok'], exec_s=30, note=N),
 'C18': dict(units=['get_num', 'xp_foreach', 'get_val'], exec_s=30, note=N),
 'C20': dict(units=['col_def', 'col_gen'], exec_s=10, note=N + 'The three generators go through printf formatting: executed. '),
 'C19': dict(units=['err_line', 'err_pos'], exec_s=30, note=N + 'That the positions kept in the parse state are those of the input: C05. '),
 'C08': dict(units=['json_wr', 'json_rd', 'json_str'], exec_s=20, note=N),
 'C09': dict(units=['json_num', 'json_disp', 'json_gram', 'json_acc'], exec_s=20, note=N),
 'C11': dict(units=['det_word', 'det_type'], exec_s=15, note=N + 'The scan in xmqDetectContentType is executed only; the word search and the byte order mark are proved. '),
 'C10': dict(units=['json_gram', 'rt_json'], exec_s=30, note=N + 'Printing a document as JSON is executed only. '),
 'C17': dict(units=['str_len', 'charclass', 'log_line'], exec_s=30, note=N + 'Formatting a line goes through printf and is executed only. '),
 'C21': dict(units=['tok_entity', 'ent_decode', 'ent_html', 'utf8', 'entity'], exec_s=40, note=N),
}
