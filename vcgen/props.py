"""Which contracts decide which property (shell patterns over contract names).
The contracts used by these at call sites are added automatically."""
PROPS = {
    'C01': ['h_rt_module', 'h_read_module', 'h_codec_*', 'h_text_module'],
    'C02': ['h_rt_layout', 'h_read_layout', 'h_codec_*', 'h_text_layout'],
    'C03': ['h_rt_table', 'h_read_table', 'h_text_table'],
    'C04': ['h_form_*'],
    'C05': ['h_sch_*'],
    'C06': ['h_sym_*'],
    'C07': ['h_split_*', 'h_any_split'],
    'C08': ['h_any_*', 'h_read_*', 'h_total_*'],
    'C09': ['h_adjust_*'],
    'C10': ['h_bbox_*'],
    'C11': ['h_flip_*'],
    'C12': ['h_rotate_*'],
    'C13': ['h_rename_*'],
    'C14': ['h_field_*'],
    'C15': ['h_look_*'],
    'C16': ['h_fix_*', 'h_klc_module'],
    'C17': ['h_klc_*', 'h_fn_text', 'h_fn_smd_attr'],
    'C18': ['h_klcs_*', 'h_fn_pin', 'h_fn_rectangle', 'h_fn_drawing', 'h_fn_power', 'h_fn_graphic', 'h_fn_flat'],
    'C19': ['h_name_*'],
    'C20': ['h_code_*', 'h_codec_*'],
    'C21': ['h_ord_*'],
    'C22': ['h_file_*'],
    'C23': ['h_disk_*'],
    'C24': ['h_net_*'],
}

# used when the hooks into private functions do not compile any more
WITHOUT_HOOKS = {
    'C04': ['h_text_module', 'h_text_layout', 'h_text_table'],
    'C07': ['h_sym_aliases', 'h_sym_field', 'h_sch_field', 'h_sch_text'],
}

# property-specific assumptions
DEP = 'the dependency symbolic_expressions prints a tree and parses the text back to the same tree when no word contains a line break, double quote or backslash (dependency contract, exercised natively by the h_text_* contracts; C04 covers the white space the formatter adds)'
NOTES = {
    'C01': [DEP], 'C02': [DEP], 'C03': [DEP],
    'C04': ['the printer is given fewer than 2^62 events (its counters go up or down by one per event) and an initial level between -128 and 127', 'want_indent borrows the printer without changing it, so any answer of it is allowed for; that it returns is only run natively'],
    'C14': ['field numbers are below 2^63-1 (precondition; the next free number would overflow)'],
    'C15': ['look-ups in a schematic with sub-sheets read further files and are not covered: component_by_reference and all_components are proved for schematics without sub-sheets'],
    'C16': ['a footprint has fewer than 2^31-256 elements (precondition; the counters are 32 bits wide)', 'bounded part: that fixing again changes nothing, and that the courtyard and placement findings are cleared when the footprint has texts, is only run natively (h_fix_any)'],
    'C17': ['a footprint has fewer than 2^31-1 elements (precondition; the courtyard line counter is 32 bits wide)'],
    'C18': ['the text a field, pin or rectangle is shown as is taken as a function of it and not examined'],
    'C22': ['each of the six readers is a function of the text (and path) it is given, and reading the file itself succeeds and gives its content (C23 has the file access)'],
    'C23': ['the standard library file calls: creating a file empties it, a write that reports success has appended all of its text, a read that reports success has read everything; each may fail, and a failed write leaves any content; what the operating system does after a successful write is not modelled'],
    'C24': ['the standard library text replacement is an uninterpreted function of its three arguments'],
}
LEVEL_NOTE = {
    'C08': 'unbounded proof except h_any_first (the first field of a line starts with its first character), which is bounded: native execution only; parts the verifier cannot decide on a changed tree are bounded too and labelled so in the evidence',
    'C16': 'unbounded proof except h_fix_any (fixing again changes nothing; courtyard and placement findings of footprints with texts), which is bounded: native execution only; parts the verifier cannot decide on a changed tree are bounded too and labelled so in the evidence',
    '*': 'unbounded proof of every obligation generated from the exported MIR; parts the verifier cannot decide on a changed tree fall back to bounded native execution of the same contracts and are labelled bounded in the evidence',
}
# properties without a check
NA = {
    '*': 'no contract decides it',
}
